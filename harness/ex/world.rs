use super::base::*;
use crate::*;
use near_sdk::PromiseResult;
use near_sdk::borsh::{BorshDeserialize, BorshSerialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

uint::construct_uint! { pub struct U512(8); }
pub fn b(x: u128) -> U512 { U512::from(x) }
pub fn to128(x: U512) -> Option<u128> { if x.bits() > 128 { None } else { Some(x.as_u128()) } }
pub fn fdiv(a: u128, m: u128, d: u128) -> U512 { b(a) * b(m) / b(d) }
pub fn isqrt(x: U512) -> U512 {
    if x.is_zero() { return x; }
    let mut r = U512::one() << ((x.bits() + 1) / 2);
    loop { let n = (r + x / r) >> 1; if n >= r { return r; } r = n; }
}
pub const ME: &str = "exchange";
/// environment for direct (pool level) calls; storage stays in the thread's mock
pub fn fresh(now: u64) {
    clear_caches();
    set_env(&Env { storage: Default::default(), now, usage: 1_000_000, me: ME.into(), balance: 10u128.pow(30) }, Default::default(), "caller", 0, vec![]);
}
pub fn clear_caches() {
    if let Ok(mut g) = crate::rated_swap::rate::RATES.lock() { g.clear() }
    if let Ok(mut g) = crate::degen_swap::degen::DEGENS.lock() { g.clear() }
    if let Ok(mut g) = crate::degen_swap::degen::DEGEN_ORACLE_CONFIGS.lock() { g.clear() }
}
pub fn at(now: u64) {
    let mut bi = near_sdk::env::take_blockchain_interface().unwrap();
    let st = bi.as_mut_mocked_blockchain().unwrap().take_storage();
    set_env(&Env { storage: Default::default(), now, usage: 1_000_000, me: ME.into(), balance: 10u128.pow(30) }, st, "caller", 0, vec![]);
}
/// run something that may panic like a contract call
pub fn tryit<R>(f: impl FnOnce() -> R) -> Result<R, String> { catch_unwind(AssertUnwindSafe(f)).map_err(pmsg) }
/// run on the current mock; storage is put back when it fails
pub fn atomic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let snap = snapshot();
    match tryit(f) { Ok(r) => Ok(r), Err(e) => { restore(snap); Err(e) } }
}
pub fn snapshot() -> std::collections::HashMap<Vec<u8>, Vec<u8>> {
    let mut bi = near_sdk::env::take_blockchain_interface().unwrap();
    let st = bi.as_mut_mocked_blockchain().unwrap().take_storage();
    let c = st.clone();
    set_env(&Env { storage: Default::default(), now: now_of(&bi), usage: 1_000_000, me: ME.into(), balance: 10u128.pow(30) }, st, "caller", 0, vec![]);
    c
}
fn now_of(bi: &Box<dyn near_sdk::BlockchainInterface>) -> u64 { unsafe { bi.block_timestamp() } }
pub fn restore(st: std::collections::HashMap<Vec<u8>, Vec<u8>>) {
    let bi = near_sdk::env::take_blockchain_interface().unwrap();
    set_env(&Env { storage: Default::default(), now: now_of(&bi), usage: 1_000_000, me: ME.into(), balance: 10u128.pow(30) }, st, "caller", 0, vec![]);
}
pub fn s(x: &str) -> String { x.to_string() }
pub fn va(x: &str) -> ValidAccountId { use std::convert::TryInto; x.to_string().try_into().unwrap() }

/// the whole contract, one call at a time, reverting on panic
pub struct W { pub e: Env, pub state: Vec<u8>, pub rcs: Vec<Rc>, pub logs: Vec<String> }
impl W {
    pub fn new(owner: &str, exchange_fee: u32, referral_fee: u32) -> W {
        let mut w = W { e: Env { storage: Default::default(), now: 1_700_000_000_000_000_000, usage: 1_000_000, me: ME.into(), balance: 10u128.pow(30) }, state: vec![], rcs: vec![], logs: vec![] };
        clear_caches();
        set_env(&w.e, Default::default(), owner, 0, vec![]);
        let c = Contract::new(va(owner), va("boostfarm"), va("burrow"), exchange_fee, referral_fee);
        w.state = c.try_to_vec().unwrap();
        let (st, us, _, _) = end_env();
        w.e.storage = st;
        w.e.usage = us;
        w
    }
    pub fn call<R>(&mut self, pred: &str, deposit: u128, f: impl FnOnce(&mut Contract) -> R) -> Result<R, String> { self.callx(pred, deposit, vec![], f) }
    pub fn callx<R>(&mut self, pred: &str, deposit: u128, res: Vec<PromiseResult>, f: impl FnOnce(&mut Contract) -> R) -> Result<R, String> {
        clear_caches();
        set_env(&self.e, self.e.storage.clone(), pred, deposit, res);
        let st = &self.state;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = Contract::try_from_slice(st).unwrap();
            let r = f(&mut c);
            (r, c.try_to_vec().unwrap())
        }));
        let (store, usage, rcs, logs) = end_env();
        match r {
            Ok((r, st)) => {
                self.state = st;
                self.e.storage = store;
                self.e.usage = usage;
                self.rcs = rcs;
                self.logs = logs;
                Ok(r)
            }
            Err(e) => { self.rcs = vec![]; Err(pmsg(e)) }
        }
    }
    /// read only
    pub fn view<R>(&self, f: impl FnOnce(&Contract) -> R) -> Result<R, String> {
        clear_caches();
        set_env(&self.e, self.e.storage.clone(), "viewer", 0, vec![]);
        let st = &self.state;
        let r = catch_unwind(AssertUnwindSafe(|| { let c = Contract::try_from_slice(st).unwrap(); f(&c) }));
        end_env();
        r.map_err(pmsg)
    }
    pub fn fork(&self) -> W {
        W { e: Env { storage: self.e.storage.clone(), now: self.e.now, usage: self.e.usage, me: self.e.me.clone(), balance: self.e.balance }, state: self.state.clone(), rcs: vec![], logs: vec![] }
    }
}
