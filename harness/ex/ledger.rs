// the whole exchange contract: every call against a ledger of who owns what
use super::base::*;
use super::world::*;
use crate::account_deposit::{Account, ShadowActions, VAccount};
use crate::action::{Action, SwapAction, SwapByOutputAction};
use crate::admin_fee::AdminFees;
use crate::degen_swap::degen::{global_get_degen, global_register_degen, global_register_degen_oracle_config, global_set_degen, DegenOracleConfig, DegenType, PriceInfo};
use crate::degen_swap::PriceOracleConfig;
use crate::legacy::{AccountV1, AccountV2};
use crate::pool::Pool;
use crate::rated_swap::rate::{global_get_rate, global_register_rate, global_set_rate, RateTrait};
use crate::*;
use near_contract_standards::fungible_token::receiver::FungibleTokenReceiver;
use near_contract_standards::storage_management::StorageManagement;
use near_sdk::json_types::U128;
use near_sdk::{serde_json, PromiseResult};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

pub static TESTS: &[Test] = &[
    Test { props: &["P12", "P13", "P14", "P15", "P16", "P17", "P19", "P22", "P23", "P24", "P06"], name: "exchange_history", f: history, quick: 2400, thorough: 120000 },
    Test { props: &["P12", "P15"], name: "account_model", f: account_case, quick: 30000, thorough: 1000000 },
];

pub const WHO: [&str; 9] = ["owner", "guard", "alice", "bob", "carol", "dave", "referrer", ME, "burrow"];
pub const TOK: [&str; 5] = ["tok.a", "tok.b", "tok.c", "tok.d", "wnear"];
const BYTE: u128 = 10_000_000_000_000_000_000;
pub const MIN_ACC: u128 = 102 * BYTE;
const PER_TOK: u128 = 148 * BYTE;
const PER_OLD: u128 = 84 * BYTE;
const NEAR1: u128 = 1_000_000_000_000_000_000_000_000;
type Out = Vec<u128>;

#[derive(Clone, Debug, PartialEq)]
pub struct Obs { pub n: BTreeMap<String, u128>, pub c: BTreeMap<String, String> }
impl Obs {
    pub fn g(&self, k: &str) -> u128 { *self.n.get(k).unwrap_or(&0) }
    pub fn set(&mut self, k: &str, v: u128) { if v == 0 { self.n.remove(k); } else { self.n.insert(k.to_string(), v); } }
    pub fn bal(&self, a: &str, t: &str) -> u128 { self.g(&format!("bal/{}/{}", a, t)) }
    pub fn is_reg(&self, a: &str, t: &str) -> bool { self.g(&format!("reg/{}/{}", a, t)) > 0 }
    pub fn has(&self, a: &str) -> bool { self.g(&format!("acc/{}", a)) > 0 }
    pub fn near(&self, a: &str) -> u128 { self.g(&format!("near/{}", a)) }
    pub fn usage(&self, a: &str) -> u128 {
        let p = format!("reg/{}/", a);
        let all = self.n.range(p.clone()..).take_while(|(k, _)| k.starts_with(&p)).map(|(_, v)| *v).sum::<u128>();
        let old = self.g(&format!("old/{}", a));
        MIN_ACC + (all - old) * PER_TOK + old * PER_OLD
    }
    /// credit as Account::deposit must: nothing for zero, registers otherwise, old entries move
    pub fn credit(&mut self, a: &str, t: &str, v: u128) -> Option<()> {
        if v == 0 { return Some(()); }
        let nv = self.bal(a, t).checked_add(v)?;
        self.touch(a, t);
        self.set(&format!("bal/{}/{}", a, t), nv);
        Some(())
    }
    pub fn debit(&mut self, a: &str, t: &str, v: u128) -> Option<()> {
        if v == 0 { return Some(()); }
        if !self.is_reg(a, t) { return None; }
        let nv = self.bal(a, t).checked_sub(v)?;
        self.touch(a, t);
        self.set(&format!("bal/{}/{}", a, t), nv);
        Some(())
    }
    fn touch(&mut self, a: &str, t: &str) {
        self.set(&format!("reg/{}/{}", a, t), 1);
        let k = format!("oldt/{}/{}", a, t);
        if self.g(&k) > 0 { self.set(&k, 0); let o = format!("old/{}", a); let v = self.g(&o); self.set(&o, v - 1); }
    }
    pub fn drop_acc(&mut self, a: &str) { for k in ["acc", "near"].iter() { self.set(&format!("{}/{}", k, a), 0); } }
    pub fn add(&mut self, k: &str, v: u128) -> Option<()> { let x = self.g(k).checked_add(v)?; self.set(k, x); Some(()) }
    pub fn sub(&mut self, k: &str, v: u128) -> Option<()> { let x = self.g(k).checked_sub(v)?; self.set(k, x); Some(()) }
    /// the pools' part of another observation
    pub fn pools_of(&mut self, o: &Obs) {
        let mine = |k: &String| ["sh/", "shr/", "sup/", "amt/", "vol/", "fee/"].iter().any(|p| k.starts_with(p));
        let gone: Vec<String> = self.n.keys().filter(|k| mine(k)).cloned().collect();
        for k in gone { self.n.remove(&k); }
        for (k, v) in o.n.iter().filter(|(k, _)| mine(k)) { self.n.insert(k.clone(), *v); }
    }
}
pub fn amounts_of(p: &Pool) -> Vec<u128> {
    match p { Pool::SimplePool(x) => x.amounts.clone(), Pool::StableSwapPool(x) => x.c_amounts.clone(), Pool::RatedSwapPool(x) => x.c_amounts.clone(), Pool::DegenSwapPool(x) => x.c_amounts.clone() }
}
fn sorted(mut v: Vec<String>) -> String { v.sort(); v.join(",") }
pub fn obs(w: &W) -> Obs {
    let mut o = w.view(|c| {
        let mut o = Obs { n: BTreeMap::new(), c: BTreeMap::new() };
        for a in WHO.iter() {
            let id = s(a);
            if let Some(acc) = c.internal_get_account(&id) {
                o.set(&format!("acc/{}", a), 1);
                o.set(&format!("near/{}", a), acc.near_amount);
                for t in acc.get_tokens() {
                    o.add(&format!("reg/{}/{}", a, t), 1);
                    o.set(&format!("bal/{}/{}", a, t), acc.get_balance(&t).unwrap());
                }
                for t in acc.legacy_tokens.keys() { o.set(&format!("oldt/{}/{}", a, t), 1); }
                o.set(&format!("old/{}", a), acc.legacy_tokens.len() as u128);
                for p in 0..c.pools.len() {
                    if let Some(r) = acc.get_shadow_record(p) {
                        o.set(&format!("sf/{}/{}", a, p), r.shadow_in_farm);
                        o.set(&format!("sb/{}/{}", a, p), r.shadow_in_burrow);
                        o.set(&format!("srec/{}/{}", a, p), 1);
                    }
                }
            }
            if let Some(m) = c.get_lostfound_account(&id) { for (t, v) in m.iter() { o.set(&format!("lf/{}/{}", a, t), v); } }
        }
        for p in 0..c.pools.len() {
            let pool = c.pools.get(p).unwrap();
            for (i, v) in amounts_of(&pool).iter().enumerate() { o.set(&format!("amt/{}/{}", p, i), *v); }
            o.set(&format!("sup/{}", p), pool.share_total_balance());
            o.set(&format!("fee/{}", p), pool.get_fee() as u128);
            for a in WHO.iter() {
                o.set(&format!("sh/{}/{}", p, a), pool.share_balances(&s(a)));
                if pool.share_has_registered(&s(a)) { o.set(&format!("shr/{}/{}", p, a), 1); }
            }
            for (i, v) in crate::swap_volume::internal_get_swap_volume_u256_vec_or_default(p, &pool.get_volumes()).iter().enumerate() {
                o.set(&format!("vol/{}/{}/in", p, i), v.input.low_u128());
                o.set(&format!("vol/{}/{}/out", p, i), v.output.low_u128());
            }
        }
        o.c.insert(s("pools"), c.pools.len().to_string());
        o.c.insert(s("owner"), c.owner_id.clone());
        o.c.insert(s("boost"), c.boost_farm_id.clone());
        o.c.insert(s("burrow"), c.burrowland_id.clone());
        o.c.insert(s("admin_fee"), c.admin_fee_bps.to_string());
        o.c.insert(s("state"), c.state.to_string());
        o.c.insert(s("wnear"), format!("{:?}", c.wnear_id));
        o.c.insert(s("white"), sorted(c.whitelisted_tokens.to_vec()));
        o.c.insert(s("guardians"), sorted(c.guardians.to_vec()));
        o.c.insert(s("frozen"), sorted(c.frozen_tokens.to_vec()));
        o.c.insert(s("referrals"), sorted(c.referrals.iter().map(|x| format!("{:?}", x)).collect()));
        o.c.insert(s("postfix"), sorted(c.auto_whitelisted_postfix.iter().cloned().collect()));
        o.c.insert(s("interval"), c.cumulative_info_record_interval_sec.to_string());
        o.c.insert(s("twap"), sorted(c.unit_share_cumulative_infos.keys().map(|x| x.to_string()).collect()));
        o.c.insert(s("rates"), sorted(c.list_rated_tokens().iter().map(|(k, v)| format!("{}={}", k, serde_json::to_string(v).unwrap())).collect()));
        let hx = |v: Vec<u8>| v.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        o.c.insert(s("degens"), sorted(crate::degen_swap::degen::read_degens_from_storage().iter().map(|(k, v)| format!("{}={}", k, hx(near_sdk::borsh::BorshSerialize::try_to_vec(v).unwrap()))).collect()));
        o.c.insert(s("oracles"), sorted(crate::degen_swap::degen::read_degen_oracle_configs_from_storage().iter().map(|(k, v)| format!("{}={}", k, hx(near_sdk::borsh::BorshSerialize::try_to_vec(v).unwrap()))).collect()));
        o.c.insert(s("limits"), sorted(crate::pool_limit_info::read_pool_limit_from_storage().iter().map(|(k, v)| format!("{}={}", k, serde_json::to_string(&v).unwrap())).collect()));
        o.c.insert(s("echo_tokens"), sorted(c.get_client_echo_token_id_whitelist()));
        o.c.insert(s("echo_senders"), sorted(c.get_client_echo_sender_id_whitelist()));
        o.c.insert(s("secure"), sorted(c.get_secure_sender_whitelist()));
        for p in 0..c.pools.len() {
            let v = match c.pools.get(p).unwrap() {
                Pool::StableSwapPool(x) => format!("{} {} {} {}", x.init_amp_factor, x.target_amp_factor, x.init_amp_time, x.stop_amp_time),
                Pool::RatedSwapPool(x) => format!("{} {} {} {}", x.init_amp_factor, x.target_amp_factor, x.init_amp_time, x.stop_amp_time),
                Pool::DegenSwapPool(x) => format!("{} {} {} {}", x.init_amp_factor, x.target_amp_factor, x.init_amp_time, x.stop_amp_time),
                _ => s(""),
            };
            o.c.insert(format!("amp/{}", p), v);
        }
        o
    }).unwrap();
    // nothing may be left behind for the virtual account
    let pre = near_sdk::IntoStorageKey::into_storage_key(StorageKey::AccountTokens { account_id: s("@") });
    let left = w.e.storage.iter().filter(|(k, v)| k.starts_with(&pre) && v.len() > 0 && !k.ends_with(b"@")).count();
    o.set("virtual", left as u128);
    o
}
/// where the two differ
pub fn diff(want: &Obs, got: &Obs) -> Option<(String, String)> {
    for k in want.n.keys().chain(got.n.keys()) {
        if want.g(k) != got.g(k) { return Some((k.clone(), format!("{}: expected {}, is {}", k, want.g(k), got.g(k)))); }
    }
    for k in want.c.keys().chain(got.c.keys()) {
        if want.c.get(k) != got.c.get(k) { return Some((k.clone(), format!("{}: expected {:?}, is {:?}", k, want.c.get(k), got.c.get(k)))); }
    }
    None
}

pub struct Op<'a> { pub what: String, pub pred: String, pub dep: u128, pub res: Vec<Option<Vec<u8>>>, pub run: Box<dyn Fn(&mut Contract) -> Out + 'a> }
pub fn op<'a>(what: String, pred: &str, dep: u128, run: impl Fn(&mut Contract) -> Out + 'a) -> Op<'a> { Op { what, pred: s(pred), dep, res: vec![], run: Box::new(run) } }
pub fn go(w: &mut W, o: &Op) -> Result<Out, String> {
    let res = o.res.iter().map(|x| match x { Some(v) => PromiseResult::Successful(v.clone()), None => PromiseResult::Failed }).collect();
    w.callx(&o.pred, o.dep, res, |c| (o.run)(c))
}
#[derive(Clone, Debug)]
pub struct Pend { kind: u8, tok: String, to: String, amt: u128, cb: Rc }
#[derive(Clone, Debug)]
pub struct Shadow { act: u8, who: String, pool: u64, amt: u128, fee: u128, cb: Rc }
#[derive(Clone, Debug)]
pub struct Mft { tid: String, from: String, to: String, amt: u128, cb: Rc }
pub struct H { pub w: W, pub pools: Vec<Vec<String>>, pub kinds: Vec<u8>, pend: Vec<Pend>, shadows: Vec<Shadow>, mfts: Vec<Mft> }

fn sh_act(k: u8) -> ShadowActions { match k { 0 => ShadowActions::ToFarming, 1 => ShadowActions::ToBurrowland, 2 => ShadowActions::FromFarming, _ => ShadowActions::FromBurrowland } }
fn u(v: &serde_json::Value) -> u128 { v.as_str().and_then(|x| x.parse().ok()).unwrap_or(u128::MAX) }
fn st<'a>(v: &'a serde_json::Value) -> &'a str { v.as_str().unwrap_or("?") }
/// outgoing token transfers with their continuations
pub fn sends(rcs: &[Rc]) -> Result<Vec<Pend>, String> {
    let mut v: Vec<Pend> = vec![];
    for r in rcs {
        match r.method.as_str() {
            "ft_transfer" => { rv_check!("P13,P22", r.deposit == 1, "transfer without its one yocto"); v.push(Pend { kind: 0, tok: r.to.clone(), to: s(st(&r.args["receiver_id"])), amt: u(&r.args["amount"]), cb: r.clone() }) }
            "near_withdraw" => v.push(Pend { kind: 1, tok: r.to.clone(), to: s(""), amt: u(&r.args["amount"]), cb: r.clone() }),
            "ft_transfer_call" => v.push(Pend { kind: 2, tok: r.to.clone(), to: s(st(&r.args["receiver_id"])), amt: u(&r.args["amount"]), cb: r.clone() }),
            "exchange_callback_post_withdraw" | "exchange_callback_post_withdraw_near" | "exchange_callback_post_withdraw_sigle_promise" => {
                let n = v.len();
                rv_check!("P13", n > 0 && r.to == ME && r.deps == 1, "continuation {} without its transfer", r.method);
                let p = &mut v[n - 1];
                p.cb = r.clone();
                let near = r.method.ends_with("_near");
                if near { p.to = s(st(&r.args["sender_id"])); }
                rv_check!("P13", near == (p.kind == 1) && st(&r.args["sender_id"]) == p.to && u(&r.args["amount"]) == p.amt && (near || st(&r.args["token_id"]) == p.tok), "continuation {:?} does not match the transfer of {} {} to {}", r.args, p.amt, p.tok, p.to);
            }
            _ => {}
        }
    }
    for p in &v { rv_check!("P13", p.cb.method.starts_with("exchange_callback") || p.kind == 2, "transfer of {} {} without a continuation", p.amt, p.tok); }
    Ok(v)
}
pub fn near_out(rcs: &[Rc], to: &str) -> u128 { rcs.iter().filter(|r| r.method.is_empty() && r.to == to).map(|r| r.deposit).sum() }
fn all_near(rcs: &[Rc]) -> u128 { rcs.iter().filter(|r| r.method.is_empty()).map(|r| r.deposit).sum() }

impl H {
    /// run `o`; on success the contract must be what `exp` makes of the state before; `must` says whether it has to succeed
    fn run(&mut self, cx: &mut Cx, o: &Op, tag: &str, must: Option<bool>, exp: impl FnOnce(&mut Obs, &Out, &W) -> Result<(), String>) -> Result<Option<Out>, String> {
        let pre = obs(&self.w);
        let r = go(&mut self.w, o);
        let what = format!("{} by {} deposit {}", o.what, o.pred, o.dep);
        cx.note(format!("{} -> {:?}", what, r));
        match r {
            Err(e) => {
                cx.tried(tag);
                if e.contains("not implemented") || e.contains("harness") { if must == Some(true) { return Err(format!("{}|{}: refused: {}", tag, what, e)); } return Ok(None); }
                if must == Some(true) { return Err(format!("{}|{}: refused: {}", tag, what, e)); }
                Ok(None)
            }
            Ok(out) => {
                if must == Some(false) { return Err(format!("{}|{}: accepted, though it must be refused ({:?})", tag, what, out)); }
                let mut e = pre.clone();
                exp(&mut e, &out, &self.w).map_err(|m| if m.contains('|') { m } else { format!("{}|{}: {}", tag, what, m) })?;
                let post = obs(&self.w);
                if let Some((k, m)) = diff(&e, &post) {
                    let more = if k.starts_with("vol/") { ",P24" } else if k.starts_with("near/") { ",P15" } else if k.starts_with("sf/") || k.starts_with("sb/") { ",P17" } else if k.starts_with("bal/") || k.starts_with("reg/") { ",P12" } else if k.starts_with("lf/") { ",P13" } else if k.starts_with("sh/") || k.starts_with("sup/") { ",P06" } else { "" };
                    return Err(format!("{}{}|{}: {}", tag, more, what, m));
                }
                self.invariants(&pre, &post, &what, o)?;
                cx.good(tag);
                Ok(Some(out))
            }
        }
    }
    fn invariants(&self, pre: &Obs, post: &Obs, what: &str, o: &Op) -> Result<(), String> {
        let exempt = o.what.contains("callback") || o.what.contains("donat") || o.what.contains("owner_token") || o.what.contains("liquidation");
        for a in WHO.iter() {
            let grew = post.usage(a) > pre.usage(a) || post.near(a) < pre.near(a);
            if post.has(a) && grew && !(exempt && *a == "owner") {
                rv_check!("P15", post.near(a) >= post.usage(a), "{}: account {} holds {} for storage that costs {}", what, a, post.near(a), post.usage(a));
            }
            for p in 0..self.pools.len() {
                let own = post.g(&format!("sh/{}/{}", p, a));
                for k in ["sf", "sb"].iter() {
                    let pl = post.g(&format!("{}/{}/{}", k, a, p));
                    rv_check!("P17", pl <= own, "{}: {} has pledged {} ({}) of pool {} but owns {}", what, a, pl, k, p, own);
                }
            }
        }
        for p in 0..self.pools.len() {
            let tot: u128 = WHO.iter().map(|a| post.g(&format!("sh/{}/{}", p, a))).sum();
            rv_check!("P06", tot == post.g(&format!("sup/{}", p)), "{}: shares of pool {} add up to {}, supply {}", what, p, tot, post.g(&format!("sup/{}", p)));
        }
        rv_check!("P14,P22", post.g("virtual") == 0, "{}: the virtual account keeps tokens", what);
        Ok(())
    }
    /// P19: the same call on a paused exchange, and with one of its tokens frozen
    fn gate(&mut self, cx: &mut Cx, o: &Op, toks: &[String]) -> Result<(), String> {
        if !cx.want("P19") { return Ok(()); }
        let mut f = self.w.fork();
        if go(&mut f, o).is_err() { cx.tried("P19"); return Ok(()); }
        let mut f = self.w.fork();
        f.call("owner", 1, |c| c.change_state(RunningState::Paused)).map_err(|e| format!("P19|pause refused: {}", e))?;
        rv_check!("P19", go(&mut f, o).is_err(), "{} by {} succeeds on a paused exchange", o.what, o.pred);
        for t in toks {
            let mut f = self.w.fork();
            f.call("owner", 1, |c| c.extend_frozenlist_tokens(vec![va(t)])).map_err(|e| format!("P19|freeze refused: {}", e))?;
            rv_check!("P19", go(&mut f, o).is_err(), "{} by {} succeeds although {} is frozen", o.what, o.pred, t);
        }
        cx.note(format!("{} by {}: refused when paused or when one of {:?} is frozen", o.what, o.pred, toks));
        cx.good("P19");
        Ok(())
    }
    fn other_tok(&self, cx: &mut Cx) -> String { s(*cx.r.pick(&TOK)) }
}

/// one pool operation on a copy, outside the contract's flows
fn psim<R>(f: &mut W, p: u64, g: impl FnOnce(&mut Pool, u32) -> R) -> Result<R, String> {
    f.call("caller", 0, |c| { let mut x = c.pools.get(p).expect("no pool"); let r = g(&mut x, c.admin_fee_bps); c.pools.replace(p, &x); r })
}
fn refinfo(f: &W, r: &Option<String>) -> Option<(String, u32)> { let r = r.clone()?; f.view(|c| c.referrals.get(&r)).unwrap().map(|x| (r.clone(), x)) }
fn vol(o: &mut Obs, p: u64, simple: bool, i: usize, j: usize, a: u128, b: u128) -> Option<()> {
    o.add(&format!("vol/{}/{}/in", p, i), a)?;
    o.add(&format!("vol/{}/{}/out", p, if simple { i } else { j }), b)
}
/// what a list of actions must do to a wallet; None: it must be refused
struct Chain<'a> { h: &'a H, f: W, vols: Vec<(u64, usize, usize, u128, u128)>, refi: Option<(String, u32)> }
trait Purse { fn take(&mut self, t: &str, v: u128) -> Option<()>; fn put(&mut self, t: &str, v: u128) -> Option<()>; }
struct AccP<'a>(&'a mut Obs, String);
impl<'a> Purse for AccP<'a> {
    fn take(&mut self, t: &str, v: u128) -> Option<()> { let a = self.1.clone(); self.0.debit(&a, t, v) }
    fn put(&mut self, t: &str, v: u128) -> Option<()> { let a = self.1.clone(); self.0.credit(&a, t, v) }
}
#[derive(Clone, Default)]
struct MapP(BTreeMap<String, u128>);
impl Purse for MapP {
    fn take(&mut self, t: &str, v: u128) -> Option<()> { if v == 0 { return Some(()); } let x = self.0.get(t)?.checked_sub(v)?; self.0.insert(s(t), x); Some(()) }
    fn put(&mut self, t: &str, v: u128) -> Option<()> { if v == 0 { return Some(()); } let x = self.0.get(t).cloned().unwrap_or(0).checked_add(v)?; self.0.insert(s(t), x); Some(()) }
}
impl<'a> Chain<'a> {
    fn new(h: &'a H, refid: &Option<String>) -> Chain<'a> { Chain { f: h.w.fork(), refi: refinfo(&h.w, refid), h, vols: vec![] } }
    fn run(&mut self, acts: &[Action], prev: Option<u128>, p: &mut dyn Purse) -> Option<u128> {
        let by_in = matches!(acts.get(0)?, Action::Swap(_));
        if acts.iter().any(|a| matches!(a, Action::Swap(_)) != by_in) { return None; }
        let mut res = prev;
        let mut open: Option<String> = None;
        for a in acts {
            let ri = self.refi.clone();
            match a {
                Action::Swap(x) => {
                    let ain = x.amount_in.map(|v| v.0).or(res)?;
                    p.take(&x.token_in, ain)?;
                    let out = psim(&mut self.f, x.pool_id, |q, fee| q.swap(&x.token_in, ain, &x.token_out, x.min_amount_out.0, AdminFees { admin_fee_bps: fee, exchange_id: s(ME), referral_info: ri }, false)).ok()?;
                    if out < x.min_amount_out.0 { return None; }
                    p.put(&x.token_out, out)?;
                    self.vol(x.pool_id, &x.token_in, &x.token_out, ain, out)?;
                    res = Some(out);
                }
                Action::SwapByOutput(x) => {
                    let aout = match x.amount_out {
                        Some(v) => { if let Some(t) = &open { p.take(t, res?)?; } p.put(&x.token_out, v.0)?; v.0 }
                        None => { if open.as_ref()? != &x.token_out { return None; } res? }
                    };
                    let ain = psim(&mut self.f, x.pool_id, |q, fee| q.swap_by_output(&x.token_in, aout, &x.token_out, x.max_amount_in.map(|v| v.0), AdminFees { admin_fee_bps: fee, exchange_id: s(ME), referral_info: ri }, false)).ok()?;
                    if let Some(m) = x.max_amount_in { if ain > m.0 { return None; } }
                    self.vol(x.pool_id, &x.token_in, &x.token_out, ain, aout)?;
                    res = Some(ain);
                    open = Some(x.token_in.clone());
                }
            }
        }
        if !by_in { if let Some(t) = &open { p.take(t, res?)?; } }
        res
    }
    fn vol(&mut self, p: u64, i: &str, o: &str, a: u128, b: u128) -> Option<()> {
        let t = self.h.pools.get(p as usize)?;
        self.vols.push((p, t.iter().position(|x| x == i)?, t.iter().position(|x| x == o)?, a, b));
        Some(())
    }
    fn apply(&self, e: &mut Obs) -> Option<()> {
        let fo = obs(&self.f);
        e.pools_of(&fo);
        for (p, i, j, a, b) in &self.vols { vol(e, *p, self.h.kinds[*p as usize] == 0, *i, *j, *a, *b)?; }
        Some(())
    }
}
fn white(h: &H, t: &str) -> bool { let t = s(t); h.w.view(|c| c.whitelisted_tokens.contains(&t)).unwrap() }
fn rnd_actions(h: &H, cx: &mut Cx, start: Option<&str>, who: &str) -> Vec<Action> {
    let o = obs(&h.w);
    let by_out = cx.r.chance(1, 3);
    let n = 1 + cx.r.below(4) as usize;
    let mut v: Vec<Action> = vec![];
    let mut cur: Option<String> = start.map(|x| s(x));
    for k in 0..n {
        let fits: Vec<usize> = (0..h.pools.len()).filter(|p| (!by_out || h.kinds[*p] == 0 || cx.r.chance(1, 30)) && (cur.is_none() || h.pools[*p].contains(cur.as_ref().unwrap()))).collect();
        if fits.is_empty() { break; }
        let p = *cx.r.pick(&fits);
        let mut ts = h.pools[p].clone();
        if let Some(c) = &cur { ts.retain(|x| x != c); ts.insert(0, c.clone()); } else { let i = cx.r.below(ts.len() as u64) as usize; ts.swap(0, i); }
        let last = ts.len() as u64 - 1;
        let other = ts[1 + cx.r.below(last) as usize].clone();
        let (a, bb) = (ts[0].clone(), other);
        if !by_out {
            let amt = if k > 0 && cx.r.chance(4, 5) || (k == 0 && start.is_some() && cx.r.chance(2, 3)) { None } else { Some(U128(match cx.r.below(4) { 0 => o.bal(who, &a), 1 => cx.r.amt(1 << 60), _ => { let m = o.bal(who, &a) / 3; cx.r.amt(m.max(1)) } })) };
            let min = if cx.r.chance(1, 12) { 1 << 80 } else { cx.r.below(2) as u128 };
            v.push(Action::Swap(SwapAction { pool_id: if cx.r.chance(1, 150) { 99 } else { p as u64 }, token_in: a.clone(), amount_in: amt, token_out: bb.clone(), min_amount_out: U128(min) }));
            cur = if cx.r.chance(1, 12) { None } else { Some(bb) };
        } else {
            // chains run from the output backwards
            let (ain, aout) = (bb.clone(), a.clone());
            let amt = if k > 0 && cx.r.chance(3, 4) { None } else { Some(U128({ let m = h.w.view(|c| amounts_of(&c.pools.get(p as u64).unwrap())).unwrap(); let m = m.iter().min().cloned().unwrap_or(0) / 5; cx.r.amt(m.max(1)) })) };
            let mx = match cx.r.below(6) { 0 => Some(U128(cx.r.bits(60))), 1 => Some(U128(u128::MAX)), _ => None };
            v.push(Action::SwapByOutput(SwapByOutputAction { pool_id: p as u64, token_in: ain.clone(), amount_out: amt, token_out: aout, max_amount_in: mx }));
            cur = if cx.r.chance(1, 6) { None } else { Some(ain) };
        }
    }
    if v.is_empty() || cx.r.chance(1, 60) { v.push(Action::Swap(SwapAction { pool_id: 0, token_in: s("tok.a"), amount_in: Some(U128(100)), token_out: s("tok.b"), min_amount_out: U128(0) })); }
    v
}
fn act_json(v: &[Action]) -> serde_json::Value { serde_json::to_value(v).unwrap() }
fn acts_s(v: &[Action]) -> String { serde_json::to_string(v).unwrap() }
fn toks_of(v: &[Action]) -> Vec<String> { let mut x: Vec<String> = v.iter().flat_map(|a| a.tokens()).collect(); x.sort(); x.dedup(); x }
fn set_price(c: &str, v: u128, now: u64) { let mut g = global_get_degen(&s(c)); g.update_price_info(PriceInfo { stored_degen: v, degen_updated_at: now }); global_set_degen(&s(c), &g); }
pub fn refresh(w: &mut W, r: &mut Rng) {
    let p = |r: &mut Rng| r.range(7 * 10u128.pow(23), 13 * 10u128.pow(23));
    let (x, y, z) = (p(r), p(r), p(r));
    let now = w.e.now;
    w.call("x", 0, |_| {
        let mut g = global_get_rate(&s("tok.d")).unwrap();
        g.set(&format!("\"{}\"", x).into_bytes());
        global_set_rate(&s("tok.d"), &g);
        set_price("tok.a", y, now);
        set_price("tok.d", z, now);
    }).unwrap();
}
const BIG: u128 = 10u128.pow(24);
pub fn build(cx: &mut Cx) -> H {
    let r = &mut cx.r;
    let mut w = W::new("owner", *r.pick(&[0, 1, 4, 1000, 2000, 4000]), *r.pick(&[0, 1, 5, 1000]));
    if r.chance(1, 8) { w.call("owner", 1, |c| c.modify_admin_fee(0)).unwrap(); }
    let wl: Vec<&str> = TOK.iter().cloned().filter(|_| r.chance(9, 10)).collect();
    w.call("owner", 1, |c| { c.extend_whitelisted_tokens(wl.iter().map(|t| va(t)).collect()); c.extend_guardians(vec![va("guard")]); c.modify_wnear_id(s("wnear")); }).unwrap();
    for a in ["owner", "alice", "bob", "carol", "referrer", "dave", ME].iter() {
        if *a == ME && r.chance(1, 2) { continue; }
        if *a == "dave" && r.chance(1, 2) { continue; }
        let tight = MIN_ACC + PER_TOK * r.below(5) as u128 + r.below(2) as u128 * BYTE * 50;
        let amt = if ["alice", "bob", "owner"].contains(a) || r.chance(1, 2) { NEAR1 } else { tight };
        w.call(a, amt, |c| c.storage_deposit(None, None)).unwrap();
    }
    // balances, some kept in the older layouts
    for a in ["alice", "bob", "carol", "owner", "dave"].iter() {
        let have: Vec<&str> = TOK.iter().filter(|_| r.chance(4, 5)).cloned().collect();
        let toks: Vec<(String, u128)> = have.iter().map(|t| (s(t), match r.below(5) { 0 => 0, 1 => 1 + r.bits(40), _ => BIG / 1000 * (1 + r.below(3000) as u128) })).collect();
        let layout = r.below(4);
        let half = r.below(1 + toks.len() as u64) as usize;
        let ok = *a == "alice" || *a == "bob" || *a == "owner";
        w.call(a, 0, |c| {
            if let Some(mut acc) = c.internal_get_account(&s(a)) {
                if !ok && acc.near_amount < MIN_ACC + PER_TOK * toks.len() as u128 { return; }
                match layout {
                    0 => { let v = AccountV1 { near_amount: acc.near_amount, tokens: toks.iter().cloned().collect(), storage_used: 0 }; c.accounts.insert(&s(a), &VAccount::V1(v)); }
                    1 => {
                        for (t, v) in &toks[half..] { acc.tokens.insert(t, v); }
                        let v = AccountV2 { near_amount: acc.near_amount, legacy_tokens: toks[..half].iter().cloned().collect(), tokens: acc.tokens, storage_used: 0 };
                        c.accounts.insert(&s(a), &VAccount::V2(v));
                    }
                    2 => { acc.legacy_tokens = toks[..half].iter().cloned().collect(); for (t, v) in &toks[half..] { acc.tokens.insert(t, v); } c.accounts.insert(&s(a), &acc.into()); }
                    _ => { for (t, v) in &toks { acc.tokens.insert(t, v); } c.accounts.insert(&s(a), &acc.into()); }
                }
            }
        }).unwrap();
    }
    let mut h = H { w, pools: vec![], kinds: vec![], pend: vec![], shadows: vec![], mfts: vec![] };
    let now = h.w.e.now;
    h.w.call("owner", 0, |_| {
        global_register_rate(&s("STNEAR"), &s("tok.d"), None);
        global_register_degen_oracle_config(DegenOracleConfig::PriceOracle(PriceOracleConfig { oracle_id: s("oracle"), expire_ts: 3600_000_000_000, maximum_recency_duration_sec: 90, maximum_staleness_duration_sec: 90 }));
        for t in ["tok.a", "tok.d"].iter() { global_register_degen(&s(t), DegenType::PriceOracle { decimals: 24 }); clear_caches(); set_price(t, BIG, now); }
    }).unwrap();
    refresh(&mut h.w, r);
    let fees = [0u32, 1, 5, 30, 100, 1999];
    let defs: [(&[&str], u8); 5] = [(&["tok.a", "tok.b"], 0), (&["tok.b", "tok.c"], 0), (&["tok.a", "tok.c", "wnear"], 1), (&["tok.c", "tok.d"], 2), (&["tok.a", "tok.d"], 3)];
    for (ts, k) in defs.iter() {
        let fee = *r.pick(&fees);
        let toks: Vec<ValidAccountId> = ts.iter().map(|t| va(t)).collect();
        let dec: Vec<u8> = if *k == 1 { ts.iter().map(|_| *r.pick(&[18u8, 24, 19])).collect() } else { vec![24; ts.len()] };
        h.w.call("owner", NEAR1, |c| match k { 0 => c.add_simple_pool(toks, fee), 1 => c.add_stable_swap_pool(toks, dec.clone(), fee, 100), 2 => c.add_rated_swap_pool(toks, dec.clone(), fee, 240), _ => c.add_degen_swap_pool(toks, dec.clone(), fee, 1000) }).unwrap();
        let id = h.pools.len() as u64;
        h.pools.push(ts.iter().map(|t| s(t)).collect());
        h.kinds.push(*k);
        for a in ["alice", "bob"].iter() {
            if *a == "bob" && r.chance(1, 3) { continue; }
            let am: Vec<u128> = ts.iter().enumerate().map(|(i, _)| if *k == 1 && dec[i] < 24 { 10u128.pow(dec[i] as u32) / 100 * (1 + r.below(300) as u128) } else { BIG / 100 * (1 + r.below(300) as u128) }).collect();
            for (t, v) in ts.iter().zip(am.iter()) {
                let _ = h.w.call(a, 0, |c| { let mut acc = c.internal_unwrap_account(&s(a)); acc.deposit(&s(t), *v); c.internal_save_account(&s(a), acc); });
            }
            let us: Vec<U128> = am.iter().map(|v| U128(*v)).collect();
            h.w.call(a, NEAR1, |c| if *k == 0 { c.add_liquidity(id, us, None) } else { c.add_stable_liquidity(id, us, U128(0)) }).unwrap();
        }
        for a in ["referrer", "carol", "dave"].iter() { if r.chance(1, 2) { h.w.call(a, NEAR1, |c| c.mft_register(format!(":{}", id), va(a))).unwrap(); } }
    }
    if r.chance(3, 4) { h.w.call("owner", 1, |c| c.insert_referral(va("referrer"), *r.pick(&[1u32, 100, 2000, 9999]))).unwrap(); }
    if r.chance(1, 2) {
        h.w.call("owner", 1, |c| { c.extend_client_echo_token_id_whitelist(vec![s("tok.a"), s("*.b")]); c.extend_client_echo_sender_id_whitelist(vec![s("alice"), s("bob")]); c.extend_secure_sender_whitelist(vec![s("carol")]); }).unwrap();
    }
    h
}
const ACTORS: [&str; 6] = ["alice", "bob", "carol", "dave", "owner", "referrer"];

fn op_storage(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&ACTORS));
    match cx.r.below(5) {
        0 | 1 => {
            let to = if cx.r.chance(1, 2) { None } else { Some(s(*cx.r.pick(&ACTORS))) };
            let only = *cx.r.pick(&[None, Some(true), Some(false)]);
            let dep = match cx.r.below(6) { 0 => 0, 1 => MIN_ACC - 1, 2 => MIN_ACC, 3 => MIN_ACC + PER_TOK, 4 => cx.r.below128(MIN_ACC * 2), _ => cx.r.below128(NEAR1) };
            let acc = to.clone().unwrap_or(who.clone());
            let had = o.has(&acc);
            let op = op(format!("storage_deposit({:?},{:?})", to, only), &who, dep, |c| { let b = c.storage_deposit(to.as_ref().map(|x| va(x)), only); vec![b.total.0, b.available.0] });
            h.gate(cx, &op, &[])?;
            let full = only != Some(true);
            let must = if !had && dep < MIN_ACC { Some(false) } else if had && full && o.near(&acc) + dep < o.usage(&acc) { Some(false) } else { Some(true) };
            h.run(cx, &op, "P15", must, |e, out, w| {
                let back = if full { e.add(&format!("near/{}", acc), dep); 0 } else if had { dep } else { e.set(&format!("near/{}", acc), MIN_ACC); dep - MIN_ACC };
                e.set(&format!("acc/{}", acc), 1);
                rv_check!("P15", near_out(&w.rcs, &op.pred) == back && all_near(&w.rcs) == back, "{}: refunded {:?}, expected {}", op.what, w.rcs, back);
                rv_check!("P15", out[0] == e.near(&acc) && out[1] == e.near(&acc).saturating_sub(e.usage(&acc)), "{}: reports {:?}", op.what, out);
                Ok(())
            })?;
        }
        2 | 3 => {
            let av = o.near(&who).saturating_sub(o.usage(&who));
            let amt = match cx.r.below(6) { 0 => None, 1 => Some(0), 2 => Some(av), 3 => Some(av + 1), 4 => Some(1), _ => Some(cx.r.below128(av.max(1) * 2)) };
            let dep = if cx.r.chance(1, 10) { 0 } else { 1 };
            let x = match amt { None | Some(0) => av, Some(v) => v };
            let op = op(format!("storage_withdraw({:?})", amt), &who, dep, |c| { let b = c.storage_withdraw(amt.map(U128)); vec![b.total.0, b.available.0] });
            h.gate(cx, &op, &[])?;
            h.run(cx, &op, "P15", Some(o.has(&who) && dep == 1 && av > 0 && x <= av), |e, out, w| {
                e.sub(&format!("near/{}", who), x);
                rv_check!("P15", near_out(&w.rcs, &who) == x && all_near(&w.rcs) == x, "{}: sent {:?}, expected {} to {}", op.what, w.rcs, x, who);
                rv_check!("P15", out[0] == e.near(&who) && out[1] == e.near(&who).saturating_sub(e.usage(&who)), "{}: reports {:?}", op.what, out);
                Ok(())
            })?;
        }
        _ => {
            let op = op(s("storage_unregister"), &who, 1, |c| vec![c.storage_unregister(None) as u128]);
            h.gate(cx, &op, &[])?;
            let had = o.has(&who);
            let busy = had && (TOK.iter().any(|t| o.is_reg(&who, t)) || (0..h.pools.len()).any(|p| o.g(&format!("srec/{}/{}", who, p)) > 0));
            let held = TOK.iter().any(|t| o.bal(&who, t) > 0) || (0..h.pools.len()).any(|p| o.g(&format!("sf/{}/{}", who, p)) + o.g(&format!("sb/{}/{}", who, p)) > 0);
            h.run(cx, &op, "P15,P17,P12", if busy && held { Some(false) } else if busy { None } else { Some(true) }, |e, out, w| {
                rv_check!("P15", !busy || !held, "{}: closed while not empty", op.what);
                let n = e.near(&who);
                e.drop_acc(&who);
                rv_check!("P15", out[0] == had as u128 && near_out(&w.rcs, &who) == n && all_near(&w.rcs) == n, "{}: returned {:?} and sent {:?}, expected {}", op.what, out, w.rcs, n);
                Ok(())
            })?;
        }
    }
    Ok(())
}
fn op_register(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&ACTORS));
    let ts: Vec<String> = (0..1 + cx.r.below(3)).map(|_| h.other_tok(cx)).collect();
    let add = cx.r.chance(1, 2);
    let vs: Vec<ValidAccountId> = ts.iter().map(|t| va(t)).collect();
    let dep = if cx.r.chance(1, 10) { 0 } else { 1 };
    let mut e = o.clone();
    let mut fine = o.has(&who) && dep == 1;
    for t in &ts {
        if add { if !e.is_reg(&who, t) { e.set(&format!("reg/{}/{}", who, t), 1); } }
        else {
            if e.bal(&who, t) > 0 { fine = false; }
            if e.is_reg(&who, t) { e.touch(&who, t); e.set(&format!("reg/{}/{}", who, t), 0); }
        }
    }
    fine &= e.near(&who) >= e.usage(&who);
    let op = op(format!("{}register_tokens({:?})", if add { "" } else { "un" }, ts), &who, dep, |c| { if add { c.register_tokens(vs.clone()) } else { c.unregister_tokens(vs.clone()) } vec![] });
    h.gate(cx, &op, &[])?;
    h.run(cx, &op, "P12,P15", Some(fine), |x, _, _| { *x = e; Ok(()) })?;
    Ok(())
}
fn op_deposit(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&ACTORS));
    let t = h.other_tok(cx);
    let top = if cx.r.chance(1, 10) { u128::MAX } else { BIG };
    let amt = cx.r.amt(top);
    let op = op(format!("ft_on_transfer(\"\", {})", amt), &t, 0, |c| match c.ft_on_transfer(va(&who), U128(amt), s("")) { PromiseOrValue::Value(v) => vec![v.0], _ => vec![u128::MAX] });
    h.gate(cx, &op, &[t.clone()])?;
    let mut e = o.clone();
    let fine = o.has(&who) && (white(h, &t) || o.is_reg(&who, &t)) && e.credit(&who, &t, amt).is_some() && e.near(&who) >= e.usage(&who);
    h.run(cx, &op, "P22,P12,P15", Some(fine), |x, out, w| {
        *x = e;
        rv_check!("P22", out[0] == 0 && w.rcs.is_empty(), "{}: credited, and refunds {}", op.what, out[0]);
        Ok(())
    })?;
    Ok(())
}
fn op_withdraw(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&ACTORS));
    let t = h.other_tok(cx);
    let bal = o.bal(&who, &t);
    let amt = match cx.r.below(6) { 0 => 0, 1 => bal, 2 => bal.saturating_add(1), 3 => 1, _ => cx.r.amt(bal.max(1)) };
    let unreg = *cx.r.pick(&[None, Some(true), Some(false)]);
    let skip = *cx.r.pick(&[None, Some(true), Some(false)]);
    let dep = if cx.r.chance(1, 20) { 0 } else { 1 };
    let by_owner = cx.r.chance(1, 10);
    let x = if amt == 0 { bal } else { amt };
    let (who, unreg) = if by_owner { (s("owner"), None) } else { (who, unreg) };
    let x = if by_owner { amt } else { x };
    let pred = if by_owner && cx.r.chance(1, 2) { s("guard") } else { who.clone() };
    let op = if by_owner { op(format!("withdraw_owner_token({},{},{:?})", t, amt, skip), &pred, dep, |c| { c.withdraw_owner_token(va(&t), U128(amt), skip); vec![] }) }
        else { op(format!("withdraw({},{},{:?},{:?})", t, amt, unreg, skip), &pred, dep, |c| { c.withdraw(va(&t), U128(amt), unreg, skip); vec![] }) };
    h.gate(cx, &op, &(if by_owner { vec![] } else { vec![t.clone()] }))?;
    let mut e = o.clone();
    let mut fine = dep == 1 && o.has(&who) && x > 0 && e.debit(&who, &t, x).is_some();
    if fine && unreg == Some(true) { if e.bal(&who, &t) > 0 { fine = false; } else { e.set(&format!("reg/{}/{}", who, t), 0); } }
    let fine = fine && (by_owner || e.near(&who) >= e.usage(&who));
    let mut got = vec![];
    h.run(cx, &op, "P12,P13", Some(fine), |z, _, w| {
        *z = e;
        got = sends(&w.rcs)?;
        let near = t == "wnear" && skip == Some(false);
        rv_check!("P13,P12", got.len() == 1 && got[0].tok == t && got[0].amt == x && got[0].to == who && got[0].kind == near as u8, "{}: debited {} {} of {} and sent {:?}", op.what, x, t, who, w.rcs);
        Ok(())
    })?;
    h.pend.extend(got);
    Ok(())
}
fn op_callback(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    if h.pend.is_empty() { return Ok(()); }
    let i = cx.r.below(h.pend.len() as u64) as usize;
    let p = h.pend.remove(i);
    if p.kind == 2 { return Ok(()); }
    let fail = cx.r.chance(4, 5);
    let a = &p.cb.args;
    let (ct, cw, ca) = (s(a["token_id"].as_str().unwrap_or("")), s(st(&a["sender_id"])), u(&a["amount"]));
    let cw2 = cw.clone();
    let mut op = if p.kind == 0 { op(format!("callback exchange_callback_post_withdraw({},{},{}) {}", ct, cw, ca, if fail { "failed" } else { "done" }), ME, 0, move |c| vec![c.exchange_callback_post_withdraw(ct.clone(), cw.clone(), U128(ca)).0]) }
        else { op(format!("callback exchange_callback_post_withdraw_near({},{}) {}", cw, ca, if fail { "failed" } else { "done" }), ME, 0, move |c| vec![c.exchange_callback_post_withdraw_near(cw.clone(), U128(ca)).0]) };
    let _ = cw2;
    op.res = vec![if fail { None } else { Some(b"\"1\"".to_vec()) }];
    let keep = h.w.e.balance;
    let lim = BYTE * h.w.e.usage as u128 + 100 * NEAR1;
    h.w.e.balance = match cx.r.below(5) { 0 => lim, 1 => lim + 1, 2 => lim - 1, 3 => lim / 2, _ => keep };
    let rich = h.w.e.balance > lim;
    let o = obs(&h.w);
    let mut e = o.clone();
    let mut fine = true;
    if fail {
        let k = e.bal(&p.to, &p.tok);
        let room = o.has(&p.to) && (o.is_reg(&p.to, &p.tok) || o.near(&p.to) >= o.usage(&p.to) + PER_TOK);
        if room {
            let nv = k.checked_add(p.amt);
            fine = nv.is_some();
            if fine { e.set(&format!("bal/{}/{}", p.to, p.tok), nv.unwrap()); e.set(&format!("reg/{}/{}", p.to, p.tok), 1); }
        } else if rich { fine = e.add(&format!("lf/{}/{}", p.to, p.tok), p.amt).is_some(); }
        else { e.set("acc/owner", 1); fine = e.credit("owner", &p.tok, p.amt).is_some(); }
    }
    let r = h.run(cx, &op, "P13", Some(fine), |z, out, w| {
        *z = e;
        rv_check!("P13", out[0] == if fail { 0 } else { p.amt }, "{}: returned {}", op.what, out[0]);
        let n = if !fail && p.kind == 1 { p.amt } else { 0 };
        rv_check!("P13", all_near(&w.rcs) == n && near_out(&w.rcs, &p.to) == n && w.rcs.iter().all(|r| r.method.is_empty()), "{}: sent {:?}", op.what, w.rcs);
        Ok(())
    });
    h.w.e.balance = keep;
    r?;
    Ok(())
}
fn op_lostfound(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let lf: Vec<(String, String)> = o.n.keys().filter(|k| k.starts_with("lf/")).map(|k| { let v: Vec<&str> = k.splitn(3, '/').collect(); (s(v[1]), s(v[2])) }).collect();
    let (mut who, t) = if !lf.is_empty() && cx.r.chance(4, 5) { cx.r.pick(&lf).clone() } else { (s(*cx.r.pick(&ACTORS)), h.other_tok(cx)) };
    if cx.r.chance(1, 6) { who = s(*cx.r.pick(&ACTORS)); }
    let dep = if cx.r.chance(1, 12) { 0 } else { 1 };
    let k = format!("lf/{}/{}", who, t);
    let x = o.g(&k);
    let op = op(format!("claim_lostfound({})", t), &who, dep, |c| { c.claim_lostfound(va(&t)); vec![] });
    h.gate(cx, &op, &[t.clone()])?;
    let mut got = vec![];
    h.run(cx, &op, "P13", Some(x > 0 && dep == 1), |e, _, w| {
        e.set(&k, 0);
        got = sends(&w.rcs)?;
        rv_check!("P13", got.len() == 1 && got[0].tok == t && got[0].amt == x && got[0].to == who, "{}: {} {} of {} were recorded, sent {:?}", op.what, x, t, who, w.rcs);
        Ok(())
    })?;
    h.pend.extend(got);
    Ok(())
}
pub fn op_swap(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&ACTORS));
    let acts = rnd_actions(h, cx, None, &who);
    let refid = match cx.r.below(4) { 0 => None, 1 => Some(s("bob")), _ => Some(s("referrer")) };
    let dep = if cx.r.chance(1, 2) { 0 } else { 1 };
    let skip = *cx.r.pick(&[None, Some(true), Some(false)]);
    let in_va = cx.r.chance(1, 3);
    let wl = dep > 0 || acts.iter().all(|a| a.tokens().iter().all(|t| o.is_reg(&who, t) || white(h, t)));
    let mut e = o.clone();
    if !in_va {
        let op = op(format!("execute_actions({})", acts_s(&acts)), &who, dep, |c| vec![c.execute_actions(acts.clone(), refid.as_ref().map(|x| va(x)), skip).to_amount()]);
        h.gate(cx, &op, &toks_of(&acts))?;
        let res = {
            let mut ch = Chain::new(h, &refid);
            let r = if o.has(&who) && wl { ch.run(&acts, None, &mut AccP(&mut e, who.clone())) } else { None };
            r.and_then(|x| ch.apply(&mut e).map(|_| x))
        };
        let fine = res.is_some() && e.near(&who) >= e.usage(&who);
        if cx.want("P23") && fine && matches!(acts[0], Action::Swap(_)) && acts.len() == 1 {
            if let Action::Swap(a) = &acts[0] {
                if let Some(ain) = a.amount_in {
                    let v = h.w.view(|c| c.get_return(a.pool_id, va(&a.token_in), ain, va(&a.token_out)).0);
                    rv_check!("P23", v == Ok(res.unwrap()), "get_return({}) says {:?}, execution gives {}", acts_s(&acts), v, res.unwrap());
                    cx.good("P23");
                }
            }
        }
        if cx.want("P23") && acts.len() == 1 {
            if let (Action::SwapByOutput(a), Some(x)) = (&acts[0], res) {
                if let Some(ao) = a.amount_out {
                    let v = h.w.view(|c| c.get_return_by_output(a.pool_id, va(&a.token_in), ao, va(&a.token_out)).0);
                    rv_check!("P23", v == Ok(x), "get_return_by_output({}) says {:?}, execution charges {}", acts_s(&acts), v, x);
                    cx.good("P23");
                }
            }
        }
        h.run(cx, &op, "P14,P24", Some(fine), |z, out, w| {
            *z = e;
            rv_check!("P14", out[0] == res.unwrap(), "{}: returned {}, expected {}", op.what, out[0], res.unwrap());
            rv_check!("P14", sends(&w.rcs)?.is_empty() && all_near(&w.rcs) == 0, "{}: sends {:?}", op.what, w.rcs);
            Ok(())
        })?;
        return Ok(());
    }
    let mut put: BTreeMap<String, u128> = BTreeMap::new();
    for t in TOK.iter() { if cx.r.chance(1, 2) || acts[0].tokens().contains(&s(t)) { let v = match cx.r.below(5) { 0 => 0, 1 => o.bal(&who, t), _ => cx.r.amt((o.bal(&who, t) / 2).max(1)) }; put.insert(s(t), v); } }
    let hm: HashMap<String, U128> = put.iter().map(|(k, v)| (k.clone(), U128(*v))).collect();
    let op = op(format!("execute_actions_in_va({:?},{})", put, acts_s(&acts)), &who, dep, |c| {
        let r = c.execute_actions_in_va(hm.clone(), acts.clone(), refid.as_ref().map(|x| va(x)), skip);
        TOK.iter().map(|t| r.get(*t).map(|v| v.0).unwrap_or(0)).collect()
    });
    h.gate(cx, &op, &toks_of(&acts))?;
    let mut left = MapP::default();
    let fine = (|| {
        if !o.has(&who) || !wl { return None; }
        for (t, v) in &put { e.debit(&who, t, *v)?; left.put(t, *v)?; }
        let mut ch = Chain::new(h, &refid);
        ch.run(&acts, None, &mut left)?;
        ch.apply(&mut e)?;
        for (t, v) in &left.0 { e.credit(&who, t, *v)?; }
        if e.near(&who) < e.usage(&who) { return None; }
        Some(())
    })().is_some();
    if cx.want("P23") && fine {
        let v = h.w.view(|c| c.predict_swap_actions(hm.clone(), acts.clone()).into_iter().map(|(k, v)| (k, v.0)).filter(|x| x.1 > 0).collect::<BTreeMap<String, u128>>());
        let l: BTreeMap<String, u128> = left.0.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect();
        rv_check!("P23", v == Ok(l.clone()), "predict_swap_actions({:?},{}) says {:?}, execution gives {:?}", put, acts_s(&acts), v, l);
        cx.good("P23");
    }
    h.run(cx, &op, "P14,P24", Some(fine), |z, out, w| {
        *z = e;
        let want: Vec<u128> = TOK.iter().map(|t| left.0.get(*t).cloned().unwrap_or(0)).collect();
        rv_check!("P14", out == &want, "{}: returned {:?}, expected {:?}", op.what, out, want);
        rv_check!("P14", sends(&w.rcs)?.is_empty(), "{}: sends {:?}", op.what, w.rcs);
        Ok(())
    })?;
    Ok(())
}
fn glob(list: &[&str], x: &str) -> bool { list.iter().any(|p| *p == x || (p.starts_with('*') && x.ends_with(&p[1..]))) }
pub fn op_direct(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let who = s(*cx.r.pick(&["alice", "bob", "carol", "dave", "burrow"]));
    let t = h.other_tok(cx);
    let acts = rnd_actions(h, cx, Some(&t), "alice");
    let amt = if cx.r.chance(1, 12) { cx.r.amt(1 << 30) } else { cx.r.amt(BIG / 10) };
    let refid = match cx.r.below(3) { 0 => None, _ => Some(s("referrer")) };
    let echo = if cx.r.chance(1, 5) { Some(s("hi")) } else { None };
    let rcpt = if cx.r.chance(1, 4) { Some(s(*cx.r.pick(&ACTORS))) } else { None };
    let skipn = *cx.r.pick(&[None, Some(true), Some(false)]);
    let mut m = json!({"actions": act_json(&acts), "skip_degen_price_sync": cx.r.chance(1, 2)});
    if let Some(x) = &refid { m["referral_id"] = json!(x); }
    if let Some(x) = &echo { m["client_echo"] = json!(x); }
    if let Some(x) = &rcpt { m["swap_out_recipient"] = json!(x); }
    if let Some(x) = skipn { m["skip_unwrap_near"] = json!(x); }
    let m = m.to_string();
    let op = op(format!("ft_on_transfer({}, {}) from {}", m, amt, who), &t, 0, |c| match c.ft_on_transfer(va(&who), U128(amt), m.clone()) { PromiseOrValue::Value(v) => vec![v.0], _ => vec![u128::MAX] });
    h.gate(cx, &op, &toks_of(&acts))?;
    let mut e = obs(&h.w);
    let echo_ok = match &echo {
        None => true,
        Some(_) => {
            let on = !e.c["secure"].is_empty();
            rcpt.is_none() && on && (glob(&["carol"], &who) || (glob(&["tok.a", "*.b"], &t) && glob(&["alice", "bob"], &who)))
        }
    };
    let mut left = MapP::default();
    let fine = echo_ok && (|| {
        left.put(&t, amt)?;
        let mut ch = Chain::new(h, &refid);
        let first = matches!(acts[0], Action::Swap(_));
        ch.run(&acts, if first { Some(amt) } else { None }, &mut left)?;
        ch.apply(&mut e)
    })().is_some();
    let want: BTreeMap<String, u128> = left.0.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect();
    let one = echo.is_some() && who == "burrow" && want.len() != 1;
    let mut got = vec![];
    h.run(cx, &op, "P22,P14", Some(fine && !one), |z, out, w| {
        *z = e;
        rv_check!("P22", out[0] == 0, "{}: swapped and also refunds {}", op.what, out[0]);
        got = sends(&w.rcs)?;
        let sum: BTreeMap<String, u128> = got.iter().map(|p| (p.tok.clone(), p.amt)).collect();
        rv_check!("P22", sum == want && got.len() == want.len(), "{}: results {:?}, sent {:?}", op.what, want, got);
        let to = rcpt.clone().unwrap_or(who.clone());
        rv_check!("P22", got.iter().all(|p| p.to == to), "{}: results sent to {:?}, expected {}", op.what, got, to);
        rv_check!("P22", got.iter().all(|p| p.kind == if echo.is_some() { 2 } else if p.tok == "wnear" && skipn == Some(false) { 1 } else { 0 }), "{}: results sent as {:?}", op.what, got);
        Ok(())
    })?;
    h.pend.extend(got);
    Ok(())
}
pub fn op_zap(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let who = s(*cx.r.pick(&["alice", "bob", "carol", "dave"]));
    let t = h.other_tok(cx);
    let acts = rnd_actions(h, cx, Some(&t), "alice");
    let amt = cx.r.amt(BIG / 5);
    let mut left = MapP::default();
    let o = obs(&h.w);
    let mut e = o.clone();
    let refid = if cx.r.chance(1, 2) { Some(s("referrer")) } else { None };
    let mut ch = Chain::new(h, &refid);
    let by_in = matches!(acts[0], Action::Swap(_));
    let swapped = (|| { left.put(&t, amt)?; ch.run(&acts, if by_in { Some(amt) } else { None }, &mut left) })().is_some();
    let mut infos = vec![];
    let mut preds: Vec<(u128, Vec<u128>)> = vec![];
    let mut fine = swapped && o.has(&who);
    let mut near = o.near(&who);
    let mut ts = toks_of(&acts);
    for k in 0..1 + cx.r.below(2) {
        // prefer a pool for which tokens are at hand
        let fits: Vec<usize> = (0..h.pools.len()).filter(|p| h.pools[*p].iter().all(|x| left.0.get(x).cloned().unwrap_or(0) > 0 || h.kinds[*p] > 0)).collect();
        let p = if fits.is_empty() { cx.r.below(h.pools.len() as u64) } else { *cx.r.pick(&fits) as u64 };
        let am: Vec<u128> = h.pools[p as usize].iter().map(|x| { let v = left.0.get(x).cloned().unwrap_or(0); match cx.r.below(6) { 0 => v / 2, 1 if k > 0 => v.saturating_add(1), _ => v } }).collect();
        let min = match cx.r.below(10) { 0 => u128::MAX / 2, _ => 0 };
        let simple = h.kinds[p as usize] == 0;
        let mut i = json!({"pool_id": p, "amounts": am.iter().map(|x| x.to_string()).collect::<Vec<_>>()});
        if simple { i["min_amounts"] = json!(am.iter().map(|_| min.to_string()).collect::<Vec<_>>()); } else { i["min_shares"] = json!(min.to_string()); }
        infos.push(i);
        ts.extend(h.pools[p as usize].clone());
        if fine {
            let used = ch.f.e.usage;
            let r = psim(&mut ch.f, p, |q, fee| { let mut a = am.clone(); let sh = if simple { q.add_liquidity(&who, &mut a, false) } else { q.add_stable_liquidity(&who, &a, min, AdminFees::new(fee), false) }; (sh, a) });
            match r {
                Ok((sh, a)) if !(simple && a.iter().any(|x| *x < min)) => {
                    preds.push((sh, a.clone()));
                    for (x, v) in h.pools[p as usize].iter().zip(a.iter()) { if left.take(x, *v).is_none() { fine = false; } }
                    let cost = (ch.f.e.usage - used) as u128 * BYTE;
                    if cost > near { fine = false } else { near -= cost; }
                }
                _ => fine = false,
            }
        }
    }
    ts.sort();
    ts.dedup();
    fine &= ts.iter().all(|x| white(h, x) || o.is_reg(&who, x));
    if fine {
        fine = (|| { ch.apply(&mut e)?; e.set(&format!("near/{}", who), near); for (x, v) in &left.0 { e.credit(&who, x, *v)?; } if e.near(&who) < e.usage(&who) { return None; } Some(()) })().is_some();
    }
    let mut m = json!({"hot_zap_actions": act_json(&acts), "add_liquidity_infos": infos, "skip_degen_price_sync": true});
    if let Some(x) = &refid { m["referral_id"] = json!(x); }
    let m2 = m.clone();
    let m = m.to_string();
    if cx.want("P23") && fine {
        let infos: Vec<crate::token_receiver::AddLiquidityInfo> = serde_json::from_value(m2["add_liquidity_infos"].clone()).unwrap();
        let v = h.w.view(|c| c.predict_hot_zap(refid.as_ref().map(|x| va(x)), Some(va(&who)), va(&t), U128(amt), acts.clone(), infos).map(|(p, l)| (p.iter().map(|x| (x.mint_shares.0, x.need_amounts.iter().map(|y| y.0).collect::<Vec<_>>())).collect::<Vec<_>>(), l.into_iter().map(|(k, v)| (k, v.0)).filter(|x| x.1 > 0).collect::<BTreeMap<_, _>>())));
        let l: BTreeMap<String, u128> = left.0.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect();
        rv_check!("P23", v == Ok(Some((preds.clone(), l.clone()))), "predict_hot_zap({}) says {:?}, execution gives {:?}", m, v, (preds, l));
        cx.good("P23");
    }
    let op = op(format!("ft_on_transfer({}, {}) from {}", m, amt, who), &t, 0, |c| match c.ft_on_transfer(va(&who), U128(amt), m.clone()) { PromiseOrValue::Value(v) => vec![v.0], _ => vec![u128::MAX] });
    drop(ch);
    h.gate(cx, &op, &ts)?;
    h.run(cx, &op, "P22,P14,P15", Some(fine), |z, out, w| {
        *z = e;
        rv_check!("P22", out[0] == 0, "{}: used and also refunds {}", op.what, out[0]);
        rv_check!("P22", sends(&w.rcs)?.is_empty() && all_near(&w.rcs) == 0, "{}: sends {:?}", op.what, w.rcs);
        Ok(())
    })?;
    Ok(())
}
pub fn op_add(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&ACTORS));
    let p = cx.r.below(h.pools.len() as u64);
    let simple = h.kinds[p as usize] == 0;
    let am: Vec<u128> = h.pools[p as usize].iter().map(|t| { let v = o.bal(&who, t); match cx.r.below(6) { 0 => v, 1 => v.saturating_add(1), 2 if !simple => 0, _ => cx.r.amt((v / 4).max(1)) } }).collect();
    let min = match cx.r.below(8) { 0 => u128::MAX / 2, 1 => am[0], _ => 0 };
    let dep = match cx.r.below(6) { 0 => 0, 1 => 1, _ => NEAR1 };
    let us: Vec<U128> = am.iter().map(|v| U128(*v)).collect();
    let op = op(format!("add_liquidity({},{:?},{})", p, am, min), &who, dep, |c| vec![if simple { c.add_liquidity(p, us.clone(), Some(us.iter().map(|_| U128(min)).collect())).0 } else { c.add_stable_liquidity(p, us.clone(), U128(min)).0 }]);
    h.gate(cx, &op, &h.pools[p as usize].clone())?;
    let mut e = o.clone();
    let mut f = h.w.fork();
    let used = f.e.usage;
    let r = psim(&mut f, p, |q, fee| { let mut a = am.clone(); let sh = if simple { q.add_liquidity(&who, &mut a, false) } else { q.add_stable_liquidity(&who, &a, min, AdminFees::new(fee), false) }; (sh, a) });
    let fo = obs(&f);
    if cx.want("P23") {
        if let Ok((sh, a)) = &r {
            let v = h.w.view(|c| if simple { let x = c.predict_add_simple_liquidity(p, &us); (x.mint_shares.0, x.need_amounts.iter().map(|y| y.0).collect()) } else { (c.predict_add_stable_liquidity(p, &us).0, am.clone()) });
            rv_check!("P23", v == Ok((*sh, a.clone())), "prediction for {}: {:?}, execution gives {} shares for {:?}", op.what, v, sh, a);
            cx.good("P23");
        }
    }
    let mut cost_bound = 0;
    let fine = match &r {
        Ok((_, a)) => {
            e.pools_of(&fo);
            let mut ok = dep > 0 && o.has(&who) && !(simple && a.iter().any(|x| *x < min));
            for (t, v) in h.pools[p as usize].iter().zip(a.iter()) { ok &= v <= &am[h.pools[p as usize].iter().position(|x| x == t).unwrap()] && e.debit(&who, t, *v).is_some(); }
            cost_bound = (f.e.usage - used) as u128 * BYTE;
            ok && e.near(&who) >= e.usage(&who)
        }
        Err(_) => false,
    };
    // moving old balances into the current layout may need storage of its own
    let moved = o.g(&format!("old/{}", who)) != e.g(&format!("old/{}", who)) || h.w.view(|c| !matches!(c.accounts.get(&who), Some(VAccount::Current(_)))).unwrap();
    let must = if !fine { Some(false) } else if moved || o.g(&format!("old/{}", who)) > 0 { if dep >= NEAR1 { Some(true) } else { None } } else { Some(dep >= cost_bound) };
    let before = h.w.e.usage;
    h.run(cx, &op, "P14,P15", must, |z, out, w| {
        *z = e;
        let (sh, _) = r.as_ref().unwrap();
        rv_check!("P04,P08,P14", out[0] == *sh, "{}: reports {} shares, created {}", op.what, out[0], sh);
        let cost = w.e.usage.saturating_sub(before) as u128 * BYTE;
        rv_check!("P15", dep >= cost && all_near(&w.rcs) == dep - cost && near_out(&w.rcs, &op.pred) == dep - cost, "{}: storage grew by {} yocto, deposit {}, sent back {:?}", op.what, cost, dep, w.rcs);
        Ok(())
    })?;
    Ok(())
}
fn free(o: &Obs, a: &str, p: u64) -> u128 { o.g(&format!("sh/{}/{}", p, a)).saturating_sub(o.g(&format!("sf/{}/{}", a, p)).max(o.g(&format!("sb/{}/{}", a, p)))) }
pub fn op_remove(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let mut who = s(*cx.r.pick(&ACTORS));
    let p = cx.r.below(h.pools.len() as u64);
    let simple = h.kinds[p as usize] == 0;
    let own = o.g(&format!("sh/{}/{}", p, who));
    let fr = free(&o, &who, p);
    let by_tok = !simple && cx.r.chance(1, 2);
    let fee_liq = !by_tok && cx.r.chance(1, 8);
    let mut pred = who.clone();
    let mut own = own;
    let mut fr = fr;
    if fee_liq { pred = s(*cx.r.pick(&["owner", "guard"])); who = s(ME); own = o.g(&format!("sh/{}/{}", p, ME)); fr = own; }
    let x = match cx.r.below(6) { 0 => own, 1 => fr, 2 => fr.saturating_add(1), 3 => cx.r.below128(own.max(1)) + 1, _ => cx.r.amt((fr / 3).max(1)) };
    let min = if cx.r.chance(1, 10) { u128::MAX / 2 } else { 0 };
    let dep = if cx.r.chance(1, 20) { 0 } else { 1 };
    let n = h.pools[p as usize].len();
    let to = if fee_liq { s("owner") } else { who.clone() };
    let mut e = o.clone();
    let mut f = h.w.fork();
    let lim = if cx.r.chance(1, 6) { x } else { u128::MAX };
    let am: Vec<u128> = h.w.view(|c| match c.pools.get(p).unwrap() { Pool::SimplePool(q) => q.amounts.clone(), q => q.share_decimals_amounts() }).unwrap_or(vec![1; n]).iter().map(|v| { let v = v / 20; match cx.r.below(4) { 0 => 0, _ => cx.r.amt(v.max(1)) } }).collect();
    let (op, r): (Op, Result<(u128, Vec<u128>), String>) = if by_tok {
        let us: Vec<U128> = am.iter().map(|v| U128(*v)).collect();
        let a2 = am.clone();
        let r = psim(&mut f, p, |q, fee| q.remove_liquidity_by_tokens(&who, a2.clone(), lim, AdminFees::new(fee), false)).map(|b| (b, am.clone()));
        let us2 = us.clone();
        if cx.want("P23") {
            if let Ok((b, _)) = &r {
                let v = h.w.view(|c| c.predict_remove_liquidity_by_tokens(p, &us2).0);
                rv_check!("P23", v == Ok(*b), "predict_remove_liquidity_by_tokens({},{:?}) says {:?}, execution burns {}", p, am, v, b);
                cx.good("P23");
            }
        }
        (op(format!("remove_liquidity_by_tokens({},{:?},{})", p, am, lim), &pred, dep, move |c| vec![c.remove_liquidity_by_tokens(p, us.clone(), U128(lim)).0]), r)
    } else {
        let r = psim(&mut f, p, |q, _| q.remove_liquidity(&who, x, vec![min; n], false)).map(|a| (x, a));
        if cx.want("P23") {
            if let Ok((_, a)) = &r {
                let v = h.w.view(|c| c.predict_remove_liquidity(p, U128(x)).iter().map(|y| y.0).collect::<Vec<_>>());
                rv_check!("P23", v.as_ref() == Ok(a), "predict_remove_liquidity({},{}) says {:?}, execution pays {:?}", p, x, v, a);
                cx.good("P23");
            }
        }
        let mins: Vec<U128> = (0..n).map(|_| U128(min)).collect();
        if fee_liq { (op(format!("remove_exchange_fee_liquidity({},{},{})", p, x, min), &pred, dep, move |c| { c.remove_exchange_fee_liquidity(p, U128(x), mins.clone()); vec![] }), r) }
        else { (op(format!("remove_liquidity({},{},{})", p, x, min), &pred, dep, move |c| c.remove_liquidity(p, U128(x), mins.clone()).iter().map(|v| v.0).collect()), r) }
    };
    let fo = obs(&f);
    let fine = match &r {
        Ok((burn, a)) => {
            e.pools_of(&fo);
            let mut ok = dep == 1 && o.has(&to) && *burn <= fr;
            for (t, v) in h.pools[p as usize].iter().zip(a.iter()) { ok &= e.credit(&to, t, *v).is_some(); }
            ok && e.near(&to) >= e.usage(&to)
        }
        Err(_) => false,
    };
    h.gate(cx, &op, &(if fee_liq { vec![] } else { h.pools[p as usize].clone() }))?;
    h.run(cx, &op, "P14,P15,P17", Some(fine), |z, out, w| {
        *z = e;
        let (burn, a) = r.as_ref().unwrap();
        rv_check!("P05,P09,P10,P14", if by_tok { out[0] == *burn } else { fee_liq || out == a }, "{}: reports {:?}, expected {:?} {:?}", op.what, out, burn, a);
        rv_check!("P14", w.rcs.is_empty(), "{}: sends {:?}", op.what, w.rcs);
        Ok(())
    })?;
    Ok(())
}
trait TokAmounts { fn share_decimals_amounts(&self) -> Vec<u128>; }
impl TokAmounts for Pool {
    fn share_decimals_amounts(&self) -> Vec<u128> { match self { Pool::StableSwapPool(x) => x.get_amounts(), Pool::RatedSwapPool(x) => x.get_amounts(), Pool::DegenSwapPool(x) => x.get_amounts(), Pool::SimplePool(x) => x.amounts.clone() } }
}
pub fn op_mft(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&ACTORS));
    let to = s(*cx.r.pick(&["alice", "bob", "carol", "dave", "referrer", ME, "owner"]));
    let pool = cx.r.chance(3, 4);
    let p = cx.r.below(h.pools.len() as u64);
    let t = h.other_tok(cx);
    let tid = if pool { format!(":{}", p) } else { t.clone() };
    match cx.r.below(10) {
        0 => {
            let dep = *cx.r.pick(&[0u128, 1, NEAR1, NEAR1]);
            let op = op(format!("mft_register({},{})", tid, to), &who, dep, |c| { c.mft_register(tid.clone(), va(&to)); vec![] });
            h.gate(cx, &op, &[])?;
            let known = o.g(&format!("shr/{}/{}", p, to)) > 0;
            let before = h.w.e.usage;
            h.run(cx, &op, "P16,P06,P15", if !pool || known { Some(false) } else if dep == NEAR1 { Some(true) } else { None }, |e, _, w| {
                e.set(&format!("shr/{}/{}", p, to), 1);
                let cost = w.e.usage.saturating_sub(before) as u128 * BYTE;
                rv_check!("P15", dep >= cost && all_near(&w.rcs) == dep - cost && near_out(&w.rcs, &who) == dep - cost, "{}: costs {}, sent back {:?}", op.what, cost, w.rcs);
                Ok(())
            })?;
        }
        1 => {
            let op = op(format!("mft_unregister({})", tid), &who, 1, |c| { c.mft_unregister(tid.clone()); vec![] });
            h.gate(cx, &op, &[])?;
            let known = o.g(&format!("shr/{}/{}", p, who)) > 0;
            let before = h.w.e.usage;
            h.run(cx, &op, "P16,P06", Some(pool && known && o.g(&format!("sh/{}/{}", p, who)) == 0), |e, _, w| {
                e.set(&format!("shr/{}/{}", p, who), 0);
                let cost = before.saturating_sub(w.e.usage) as u128 * BYTE;
                rv_check!("P15,P16", all_near(&w.rcs) == cost && near_out(&w.rcs, &who) == cost, "{}: freed {}, sent {:?}", op.what, cost, w.rcs);
                Ok(())
            })?;
        }
        k => {
            let all = pool && k == 9;
            let call = all || k >= 6;
            let (own, avail) = if pool { (o.g(&format!("sh/{}/{}", p, who)), free(&o, &who, p)) } else { (o.bal(&who, &t), o.bal(&who, &t)) };
            let amt = if all { avail } else { match cx.r.below(6) { 0 => own, 1 => avail, 2 => avail.saturating_add(1), 3 => 0, _ => cx.r.amt((avail / 2).max(1)) } };
            let dep = if cx.r.chance(1, 20) { 0 } else { 1 };
            let op = op(format!("mft_transfer{}({},{},{})", if all { "_all_call" } else if call { "_call" } else { "" }, tid, to, amt), &who, dep, |c| {
                if all { c.mft_transfer_all_call(tid.clone(), va(&to), None, s("m")); } else if call { c.mft_transfer_call(tid.clone(), va(&to), U128(amt), None, s("m")); } else { c.mft_transfer(tid.clone(), va(&to), U128(amt), None); }
                vec![]
            });
            h.gate(cx, &op, &[])?;
            let mut e = o.clone();
            let mut ok = dep == 1 && who != to && (amt > 0 || !pool) && amt <= avail;
            if pool { ok &= o.g(&format!("shr/{}/{}", p, to)) > 0 && o.g(&format!("shr/{}/{}", p, who)) > 0; if ok { e.sub(&format!("sh/{}/{}", p, who), amt).unwrap(); e.add(&format!("sh/{}/{}", p, to), amt).unwrap(); } }
            else { ok &= o.has(&who) && o.has(&to) && e.debit(&who, &t, amt).is_some() && e.credit(&to, &t, amt).is_some() && e.near(&who) >= e.usage(&who) && e.near(&to) >= e.usage(&to); }
            let mut got = None;
            h.run(cx, &op, if pool { "P16,P17,P06" } else { "P16,P12" }, Some(ok), |z, _, w| {
                *z = e;
                if !call { rv_check!("P16", w.rcs.is_empty(), "{}: sends {:?}", op.what, w.rcs); return Ok(()); }
                let r = &w.rcs;
                rv_check!("P16", r.len() == 2 && r[0].to == to && r[0].method == "mft_on_transfer" && st(&r[0].args["sender_id"]) == who && u(&r[0].args["amount"]) == amt && st(&r[0].args["token_id"]) == tid, "{}: tells the receiver {:?}", op.what, r);
                rv_check!("P16", r[1].to == ME && r[1].method == "mft_resolve_transfer" && r[1].deps == 1 && st(&r[1].args["sender_id"]) == who && st(&r[1].args["receiver_id"]) == to && u(&r[1].args["amount"]) == amt && st(&r[1].args["token_id"]) == tid, "{}: continues with {:?}", op.what, r);
                got = Some(Mft { tid: tid.clone(), from: who.clone(), to: to.clone(), amt, cb: r[1].clone() });
                Ok(())
            })?;
            h.mfts.extend(got);
        }
    }
    Ok(())
}
fn op_resolve(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    if h.mfts.is_empty() { return Ok(()); }
    let i = cx.r.below(h.mfts.len() as u64) as usize;
    let m = h.mfts.remove(i);
    let o = obs(&h.w);
    let pool: Option<u64> = m.tid.strip_prefix(':').map(|x| x.parse().unwrap());
    let bal = match pool { Some(p) => o.g(&format!("sh/{}/{}", p, m.to)), None => o.bal(&m.to, &m.tid) };
    let (res, un): (Option<Vec<u8>>, u128) = match cx.r.below(7) {
        0 => (None, m.amt),
        1 => (Some(b"junk".to_vec()), m.amt),
        2 => (Some(b"\"0\"".to_vec()), 0),
        3 => { let v = m.amt.saturating_add(1 + cx.r.bits(20)); (Some(format!("\"{}\"", v).into_bytes()), m.amt) }
        _ => { let v = cx.r.amt(m.amt); (Some(format!("\"{}\"", v).into_bytes()), v) }
    };
    let refund = un.min(bal);
    let to = if o.has(&m.from) { m.from.clone() } else { s(ME) };
    let mut e = o.clone();
    let mut must = Some(true);
    let x = m.cb.clone();
    if refund > 0 {
        if to == m.to { must = None; }
        match pool {
            Some(p) => {
                if o.g(&format!("shr/{}/{}", p, to)) == 0 { must = None; }
                if refund > free(&o, &m.to, p) { must = Some(false); }
                e.sub(&format!("sh/{}/{}", p, m.to), refund).unwrap();
                e.add(&format!("sh/{}/{}", p, to), refund).unwrap();
            }
            None => {
                if !o.has(&to) || to == m.to { must = None; }
                else {
                    if e.debit(&m.to, &m.tid, refund).is_none() || e.credit(&to, &m.tid, refund).is_none() { must = Some(false); }
                    if e.near(&to) < e.usage(&to) || e.near(&m.to) < e.usage(&m.to) { must = Some(false); }
                }
            }
        }
    }
    let mut op = op(format!("callback mft_resolve_transfer({:?}) answer {:?}", x.args, res.as_ref().map(|v| String::from_utf8_lossy(v).to_string())), ME, 0, move |c| vec![c.mft_resolve_transfer(s(st(&x.args["token_id"])), s(st(&x.args["sender_id"])), &s(st(&x.args["receiver_id"])), U128(u(&x.args["amount"]))).0]);
    op.res = vec![res];
    h.run(cx, &op, "P16", must, |z, _, w| { *z = e; rv_check!("P16", w.rcs.is_empty(), "{}: sends {:?}", op.what, w.rcs); Ok(()) })?;
    Ok(())
}
fn op_shadow(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&["alice", "bob", "alice", "bob", "carol", "dave"]));
    let p = cx.r.below(h.pools.len() as u64);
    let k = cx.r.below(4) as u8;
    let own = o.g(&format!("sh/{}/{}", p, who));
    let key = format!("{}/{}/{}", if k % 2 == 0 { "sf" } else { "sb" }, who, p);
    let have = o.g(&key);
    let max = if k < 2 { own - have } else { have };
    let amt = match cx.r.below(6) { 0 => None, 1 => Some(max), 2 => Some(max.saturating_add(1)), 3 => Some(0), _ => Some(cx.r.amt((max / 2).max(1))) };
    let x = amt.unwrap_or(max);
    let dep = if cx.r.chance(1, 8) { 0 } else { NEAR1 };
    let op = op(format!("shadow_action({},{},{:?})", k, p, amt), &who, dep, |c| { c.shadow_action(sh_act(k), p, amt.map(U128), s("m")); vec![] });
    h.gate(cx, &op, &[])?;
    let fine = o.has(&who) && x > 0 && x <= max;
    let before = h.w.e.usage;
    let mut got = None;
    let must = if !fine { Some(false) } else if k < 2 && dep == 0 { None } else { Some(o.near(&who) >= o.usage(&who) || k >= 2) };
    h.run(cx, &op, "P17", must, |e, _, w| {
        if k < 2 { e.add(&key, x); e.set(&format!("srec/{}/{}", who, p), 1); }
        let r: Vec<&Rc> = w.rcs.iter().filter(|r| !r.method.is_empty()).collect();
        let target = if k % 2 == 0 { "boostfarm" } else { "burrow" };
        rv_check!("P17", r.len() == 2 && r[0].to == target && r[0].method == (if k < 2 { "on_cast_shadow" } else { "on_remove_shadow" }) && st(&r[0].args["account_id"]) == who && u(&r[0].args["amount"]) == x && st(&r[0].args["shadow_id"]) == format!("shadow_ref_v1-{}", p), "{}: tells {:?}", op.what, r);
        rv_check!("P17", r[1].to == ME && r[1].method == "callback_on_shadow" && r[1].deps == 1 && st(&r[1].args["sender_id"]) == who && u(&r[1].args["amount"]) == x, "{}: continues with {:?}", op.what, r[1]);
        if k < 2 {
            let cost = w.e.usage.saturating_sub(before) as u128 * BYTE;
            rv_check!("P15,P17", dep >= cost && all_near(&w.rcs) == dep - cost && u(&r[1].args["storage_fee"]) == cost, "{}: costs {}, sent {:?}", op.what, cost, w.rcs);
        }
        got = Some(Shadow { act: k, who: who.clone(), pool: p, amt: x, fee: u(&r[1].args["storage_fee"]), cb: r[1].clone() });
        Ok(())
    })?;
    h.shadows.extend(got);
    Ok(())
}
fn op_shadow_cb(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    if h.shadows.is_empty() { return Ok(()); }
    let i = cx.r.below(h.shadows.len() as u64) as usize;
    let m = h.shadows.remove(i);
    let o = obs(&h.w);
    let ok = cx.r.chance(1, 2);
    let key = format!("{}/{}/{}", if m.act % 2 == 0 { "sf" } else { "sb" }, m.who, m.pool);
    let back = (m.act < 2) != ok;
    let x = m.cb.clone();
    let mut op = op(format!("callback_on_shadow({:?}) {}", x.args, if ok { "done" } else { "failed" }), ME, 0, move |c| {
        let act: ShadowActions = serde_json::from_value(x.args["action"].clone()).unwrap();
        vec![c.callback_on_shadow(act, s(st(&x.args["sender_id"])), x.args["pool_id"].as_u64().unwrap(), U128(u(&x.args["amount"])), U128(u(&x.args["storage_fee"]))) as u128]
    });
    op.res = vec![if ok { Some(vec![]) } else { None }];
    let before = h.w.e.usage;
    let must = if !o.has(&m.who) || (back && o.g(&key) < m.amt) { None } else { Some(!(m.act < 2 && !ok) || true) };
    let must = if o.near(&m.who) < o.usage(&m.who) { None } else { must };
    h.run(cx, &op, "P17", must, |e, out, w| {
        rv_check!("P17", out[0] == ok as u128, "{}: returned {:?}", op.what, out);
        if back {
            rv_check!("P17", e.sub(&key, m.amt).is_some(), "{}: released more than was pledged", op.what);
            if e.g(&format!("sf/{}/{}", m.who, m.pool)) == 0 && e.g(&format!("sb/{}/{}", m.who, m.pool)) == 0 { e.set(&format!("srec/{}/{}", m.who, m.pool), 0); }
        }
        if back && m.act < 2 { rv_check!("P17,P15", all_near(&w.rcs) == m.fee && near_out(&w.rcs, &m.who) == m.fee, "{}: returns {:?}, fee was {}", op.what, w.rcs, m.fee); }
        else { rv_check!("P17,P15", w.rcs.is_empty(), "{}: sends {:?}", op.what, w.rcs); }
        if back && m.act >= 2 { let c = before.saturating_sub(w.e.usage) as u128 * BYTE; e.add(&format!("near/{}", m.who), c); }
        Ok(())
    })?;
    Ok(())
}
fn op_liquidate(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let cand: Vec<(String, u64)> = o.n.keys().filter(|k| k.starts_with("sb/")).map(|k| { let v: Vec<&str> = k.split('/').collect(); (s(v[1]), v[2].parse().unwrap()) }).collect();
    let (who, p) = if cand.is_empty() || cx.r.chance(1, 15) { (s("alice"), 0) } else { cx.r.pick(&cand).clone() };
    let liq = s(*cx.r.pick(&["bob", "carol", "alice", "dave"]));
    let sb = o.g(&format!("sb/{}/{}", who, p));
    let sf = o.g(&format!("sf/{}/{}", who, p));
    let own = o.g(&format!("sh/{}/{}", p, who));
    let x = match cx.r.below(5) { 0 => sb, 1 => sb.saturating_add(1), 2 => 1, _ => cx.r.amt(sb.max(1)) };
    let min = if cx.r.chance(1, 12) { u128::MAX / 2 } else { 0 };
    let pred = if cx.r.chance(1, 12) { s(*cx.r.pick(&["alice", "owner", ME, "boostfarm"])) } else { s("burrow") };
    let n = h.pools[p as usize].len();
    let op = op(format!("on_burrow_liquidation({},{},{},{})", liq, who, p, x), &pred, 0, |c| { c.on_burrow_liquidation(liq.clone(), who.clone(), format!("shadow_ref_v1-{}", p), U128(x), vec![U128(min); n]); vec![] });
    let mut e = o.clone();
    let mut f = h.w.fork();
    let r = psim(&mut f, p, |q, _| q.remove_liquidity(&who, x, vec![min; n], false));
    let fo = obs(&f);
    let mut pull = 0;
    let fine = (|| {
        if pred != "burrow" || !o.has(&who) { return None; }
        let a = r.as_ref().ok()?;
        e.pools_of(&fo);
        e.sub(&format!("sb/{}/{}", who, p), x)?;
        // the farming pledge gives way only as far as the remaining shares demand
        let left = own.checked_sub(x)?;
        pull = sf.saturating_sub(left);
        e.sub(&format!("sf/{}/{}", who, p), pull)?;
        if e.g(&format!("sf/{}/{}", who, p)) == 0 && e.g(&format!("sb/{}/{}", who, p)) == 0 { e.set(&format!("srec/{}/{}", who, p), 0); }
        if e.near(&who) < e.usage(&who) { return None; }
        if !o.has(&liq) { return None; }
        for (t, v) in h.pools[p as usize].iter().zip(a.iter()) { e.credit(&liq, t, *v)?; }
        if e.near(&liq) < e.usage(&liq) { return None; }
        Some(())
    })().is_some();
    let tight = o.near(&who) < o.usage(&who);
    // storage freed by the record goes to the liquidated account: measure it on a copy
    let freed = {
        let mut g = h.w.fork();
        let b0 = g.e.usage;
        let rr = g.call("x", 0, |c| { let mut acc = c.internal_unwrap_account(&who); acc.update_shadow_record(p, &ShadowActions::FromBurrowland, x); if pull > 0 { acc.update_shadow_record(p, &ShadowActions::FromFarming, pull); } });
        if rr.is_ok() { b0.saturating_sub(g.e.usage) as u128 * BYTE } else { 0 }
    };
    h.run(cx, &op, "P17", if fine && !tight { Some(true) } else if pred != "burrow" || x > sb { Some(false) } else { None }, |z, _, w| {
        *z = e;
        z.add(&format!("near/{}", who), freed);
        let told: Vec<&Rc> = w.rcs.iter().filter(|r| r.method == "on_remove_shadow").collect();
        rv_check!("P17", told.len() == (pull > 0) as usize && told.iter().all(|r| u(&r.args["amount"]) == pull && r.to == "boostfarm" && st(&r.args["account_id"]) == who), "{}: the farm is told {:?}, expected {}", op.what, told, pull);
        Ok(())
    })?;
    Ok(())
}
fn op_donate(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let o = obs(&h.w);
    let who = s(*cx.r.pick(&ACTORS));
    let unreg = *cx.r.pick(&[None, Some(true), Some(false)]);
    if cx.r.chance(1, 2) {
        let p = cx.r.below(h.pools.len() as u64);
        let fr = free(&o, &who, p);
        let amt = match cx.r.below(6) { 0 => None, 1 => Some(fr), 2 => Some(fr + 1), 3 => Some(o.g(&format!("sh/{}/{}", p, who))), _ => Some(cx.r.amt((fr / 2).max(1))) };
        let op = op(format!("donation_share({},{:?},{:?})", p, amt, unreg), &who, 1, |c| { c.donation_share(p, amt.map(U128), unreg); vec![] });
        h.gate(cx, &op, &[])?;
        let before = h.w.e.usage;
        let must = match amt { Some(v) => if v == 0 || v > fr || who == ME { Some(false) } else if unreg == Some(true) { if v == o.g(&format!("sh/{}/{}", p, who)) { Some(true) } else { Some(false) } } else { Some(true) }, None => None };
        let own = o.g(&format!("sh/{}/{}", p, who));
        h.run(cx, &op, "P17,P06", must, |e, _, w| {
            let x = amt.unwrap_or(fr);
            rv_check!("P17", x <= fr, "{}: gave away {} of {} free shares", op.what, x, fr);
            e.sub(&format!("sh/{}/{}", p, who), x).unwrap();
            e.add(&format!("sh/{}/{}", p, ME), x).unwrap();
            if unreg == Some(true) { rv_check!("P06", own == x, "{}: unregistered with shares left", op.what); e.set(&format!("shr/{}/{}", p, who), 0); }
            let freed = before.saturating_sub(w.e.usage) as u128 * BYTE;
            if e.has(&who) {
                // a record saved from an older layout changes size too, so only the range of the refund is known
                let got = obs(w).near(&who).wrapping_sub(e.near(&who));
                rv_check!("P15", got <= 250 * BYTE && got % BYTE == 0 && (unreg == Some(true)) == (got > 0), "{}: credited {} NEAR for the freed storage", op.what, got);
                e.add(&format!("near/{}", who), got);
            } else { rv_check!("P15", near_out(&w.rcs, &who) == freed, "{}: freed {}", op.what, freed); }
            Ok(())
        })?;
    } else {
        let t = h.other_tok(cx);
        let bal = o.bal(&who, &t);
        let amt = match cx.r.below(5) { 0 => None, 1 => Some(bal), 2 => Some(bal.saturating_add(1)), _ => Some(cx.r.amt((bal / 2).max(1))) };
        let x = amt.unwrap_or(bal);
        let op = op(format!("donation_token({},{:?},{:?})", t, amt, unreg), &who, 1, |c| { c.donation_token(va(&t), amt.map(U128), unreg); vec![] });
        h.gate(cx, &op, &[])?;
        let mut e = o.clone();
        let fine = (|| {
            if !o.has(&who) || !o.has("owner") || x == 0 { return None; }
            e.debit(&who, &t, x)?;
            if unreg == Some(true) { if e.bal(&who, &t) > 0 { return None; } e.set(&format!("reg/{}/{}", who, t), 0); }
            if e.near(&who) < e.usage(&who) { return None; }
            e.credit("owner", &t, x)
        })().is_some();
        h.run(cx, &op, "P12", Some(fine), |z, _, w| { *z = e; rv_check!("P12", w.rcs.is_empty(), "{}: sends {:?}", op.what, w.rcs); Ok(()) })?;
    }
    Ok(())
}
fn op_add_pool(h: &mut H, cx: &mut Cx) -> Result<(), String> {
    let ts: Vec<&str> = (0..2).map(|_| *cx.r.pick(&TOK)).collect();
    let fee = *cx.r.pick(&[0u32, 30, 9999, 10000]);
    let dep = *cx.r.pick(&[0u128, NEAR1]);
    let op = op(format!("add_simple_pool({:?},{})", ts, fee), "alice", dep, |c| vec![c.add_simple_pool(ts.iter().map(|t| va(t)).collect(), fee) as u128]);
    h.gate(cx, &op, &[])?;
    Ok(())
}
pub fn history(cx: &mut Cx) -> Result<(), String> {
    let mut h = build(cx);
    let steps = 14 + cx.r.below(30);
    let only = cx.prop.clone();
    // operations that matter more for the property under check
    let heavy: &[u64] = match only.as_str() { "P13" => &[3, 4, 4, 5, 7], "P14" => &[6, 6, 6], "P15" => &[0, 0, 1, 9, 10], "P16" => &[11, 11, 12, 12], "P17" => &[13, 13, 14, 14, 15, 16, 10, 11], "P22" => &[2, 7, 7, 8, 8], "P23" => &[6, 8, 9, 10], "P24" => &[6, 7], "P12" => &[1, 2, 3, 6, 10, 16, 11], _ => &[] };
    for _ in 0..steps {
        h.w.e.now += match cx.r.below(5) { 0 => 0, 1 => 1_000_000_000, _ => cx.r.below(200) * 1_000_000_000 };
        if cx.r.chance(1, 6) { refresh(&mut h.w, &mut cx.r); }
        let k = if !heavy.is_empty() && cx.r.chance(2, 3) { *cx.r.pick(heavy) } else { cx.r.below(18) };
        match k {
            0 => op_storage(&mut h, cx)?,
            1 => op_register(&mut h, cx)?,
            2 => op_deposit(&mut h, cx)?,
            3 => op_withdraw(&mut h, cx)?,
            4 => op_callback(&mut h, cx)?,
            5 => op_lostfound(&mut h, cx)?,
            6 => op_swap(&mut h, cx)?,
            7 => op_direct(&mut h, cx)?,
            8 => op_zap(&mut h, cx)?,
            9 => op_add(&mut h, cx)?,
            10 => op_remove(&mut h, cx)?,
            11 => op_mft(&mut h, cx)?,
            12 => op_resolve(&mut h, cx)?,
            13 => op_shadow(&mut h, cx)?,
            14 => op_shadow_cb(&mut h, cx)?,
            15 => op_liquidate(&mut h, cx)?,
            16 => op_donate(&mut h, cx)?,
            _ => op_add_pool(&mut h, cx)?,
        }
    }
    Ok(())
}
/// one Account value against a map, in every layout
fn account_case(cx: &mut Cx) -> Result<(), String> {
    fresh(1_700_000_000_000_000_000);
    let r = &mut cx.r;
    let n = r.below(5) as usize;
    let toks: Vec<(String, u128)> = (0..n).map(|i| (s(TOK[i]), if r.chance(1, 3) { 0 } else { r.amt(u128::MAX) })).collect();
    let half = r.below(n as u64 + 1) as usize;
    let near = MIN_ACC + r.below(6) as u128 * PER_TOK + r.below(200) as u128 * BYTE;
    let layout = r.below(3);
    let id = s("alice");
    let mut m: BTreeMap<String, u128> = toks.iter().cloned().collect();
    let mut old: Vec<String> = vec![];
    let mut acc = match layout {
        0 => { old = toks.iter().map(|x| x.0.clone()).collect(); AccountV1 { near_amount: near, tokens: toks.iter().cloned().collect(), storage_used: 3 }.into_current(&id) }
        1 => {
            old = toks[..half].iter().map(|x| x.0.clone()).collect();
            let mut a = Account::new(&id);
            for (t, v) in &toks[half..] { a.tokens.insert(t, v); }
            VAccount::V2(AccountV2 { near_amount: near, legacy_tokens: toks[..half].iter().cloned().collect(), tokens: a.tokens, storage_used: 3 }).into_current(&id)
        }
        _ => { let mut a = Account::new(&id); a.near_amount = near; for (t, v) in &toks { a.tokens.insert(t, v); } a }
    };
    cx.note(format!("account layout {} near {} tokens {:?} old {:?}", layout, near, toks, old));
    for _ in 0..1 + cx.r.below(10) {
        let t = s(*cx.r.pick(&TOK));
        let have = m.get(&t).cloned();
        let amt = match cx.r.below(5) { 0 => 0, 1 => have.unwrap_or(1), 2 => have.unwrap_or(1).saturating_add(1), _ => cx.r.amt(u128::MAX) };
        let k = cx.r.below(5);
        let usage = |m: &BTreeMap<String, u128>, old: &Vec<String>| MIN_ACC + (m.len() - old.len()) as u128 * PER_TOK + old.len() as u128 * PER_OLD;
        let (mut m2, mut old2) = (m.clone(), old.clone());
        let mut note = None;
        let fine = match k {
            0 => { if amt > 0 { match have.unwrap_or(0).checked_add(amt) { Some(v) => { m2.insert(t.clone(), v); old2.retain(|x| x != &t); true } None => false } } else { true } }
            1 => { if amt > 0 { match have.and_then(|v| v.checked_sub(amt)) { Some(v) => { m2.insert(t.clone(), v); old2.retain(|x| x != &t); true } None => false } } else { true } }
            2 => match have {
                Some(v) => match v.checked_add(amt) { Some(x) => { m2.insert(t.clone(), x); note = Some(true); true } None => false },
                None => { let fits = usage(&m, &old) + PER_TOK <= near; if fits { m2.insert(t.clone(), amt); } note = Some(fits); true }
            },
            3 => { m2.entry(t.clone()).or_insert(0); true }
            _ => { if have.unwrap_or(0) == 0 { m2.remove(&t); old2.retain(|x| x != &t); true } else { false } }
        };
        let what = format!("{}({},{})", ["deposit", "withdraw", "deposit_with_storage_check", "register", "unregister"][k as usize], t, amt);
        let got = tryit(|| match k { 0 => { acc.deposit(&t, amt); None } 1 => { acc.withdraw(&t, amt); None } 2 => Some(acc.deposit_with_storage_check(&t, amt)), 3 => { acc.register(&vec![va(&t)]); None } _ => { acc.unregister(&t); None } });
        cx.note(format!("{} -> {:?}", what, got));
        rv_check!("P12", got.is_ok() == fine, "{} on {:?}: {:?}, expected {}", what, have, got, if fine { "success" } else { "refusal" });
        if !fine { cx.tried("P12"); return Ok(()); }
        rv_check!("P12,P15", got.clone().unwrap() == note, "{}: returned {:?}, expected {:?}", what, got, note);
        m = m2;
        old = old2;
        for t in TOK.iter() { rv_check!("P12", acc.get_balance(&s(t)) == m.get(*t).cloned(), "{}: balance of {} is {:?}, expected {:?}", what, t, acc.get_balance(&s(t)), m.get(*t)); }
        let mut l = acc.get_tokens();
        l.sort();
        rv_check!("P12", l == m.keys().cloned().collect::<Vec<_>>(), "{}: tokens listed {:?}, expected {:?}", what, l, m);
        rv_check!("P12,P15", acc.near_amount == near, "{}: storage deposit became {}", what, acc.near_amount);
        rv_check!("P15", acc.storage_usage() == usage(&m, &old), "{}: storage cost {}, expected {}", what, acc.storage_usage(), usage(&m, &old));
        rv_check!("P15", acc.storage_available() == near.saturating_sub(usage(&m, &old)), "{}: available {}", what, acc.storage_available());
        cx.good("P12,P15");
    }
    Ok(())
}
