use super::base::*;
use crate::*;
use near_sdk::PromiseResult;
use near_sdk::borsh::{BorshDeserialize, BorshSerialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

uint::construct_uint! { pub struct U512(8); }
pub fn b(x: u128) -> U512 { U512::from(x) }
pub fn to128(x: U512) -> Option<u128> { if x.bits() > 128 { None } else { Some(x.as_u128()) } }
pub const ME: &str = "farming";
pub const NS: u64 = 1_000_000_000;
pub fn s(x: &str) -> String { x.to_string() }
pub fn va(x: &str) -> ValidAccountId { use std::convert::TryInto; x.to_string().try_into().unwrap() }

/// the whole contract, one call at a time, reverting on panic
pub struct W { pub e: Env, pub state: Vec<u8>, pub rcs: Vec<Rc>, pub logs: Vec<String> }
impl W {
    pub fn new(owner: &str) -> W {
        let mut w = W { e: Env { storage: Default::default(), now: 1_700_000_000 * NS, usage: 1_000_000, me: ME.into(), balance: 10u128.pow(30) }, state: vec![], rcs: vec![], logs: vec![] };
        set_env(&w.e, Default::default(), owner, 0, vec![]);
        let c = Contract::new(va(owner));
        w.state = c.try_to_vec().unwrap();
        let (st, us, _, _) = end_env();
        w.e.storage = st;
        w.e.usage = us;
        w
    }
    pub fn call<R>(&mut self, pred: &str, deposit: u128, f: impl FnOnce(&mut Contract) -> R) -> Result<R, String> { self.callx(pred, deposit, vec![], f) }
    pub fn callx<R>(&mut self, pred: &str, deposit: u128, res: Vec<PromiseResult>, f: impl FnOnce(&mut Contract) -> R) -> Result<R, String> {
        set_env(&self.e, self.e.storage.clone(), pred, deposit, res);
        let st = &self.state;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = Contract::try_from_slice(st).unwrap();
            let r = f(&mut c);
            (r, c.try_to_vec().unwrap())
        }));
        let (store, usage, rcs, logs) = end_env();
        match r {
            Ok((r, st)) => {
                self.state = st;
                self.e.storage = store;
                self.e.usage = usage;
                self.rcs = rcs;
                self.logs = logs;
                Ok(r)
            }
            Err(e) => { self.rcs = vec![]; Err(pmsg(e)) }
        }
    }
    /// read only
    pub fn view<R>(&self, f: impl FnOnce(&Contract) -> R) -> Result<R, String> {
        set_env(&self.e, self.e.storage.clone(), "viewer", 0, vec![]);
        let st = &self.state;
        let r = catch_unwind(AssertUnwindSafe(|| { let c = Contract::try_from_slice(st).unwrap(); f(&c) }));
        end_env();
        r.map_err(pmsg)
    }
}
