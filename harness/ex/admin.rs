// owner / guardian operations, the time-weighted records, and answers of rate and price oracles
use super::base::*;
use super::ledger::{self, build, op, Obs, H, TOK};
use super::world::*;
use crate::degen_swap::degen::{global_get_degen, global_register_degen, global_register_degen_oracle_config, Degen, DegenOracleConfig, DegenTrait, DegenType};
use crate::degen_swap::{PriceOracleConfig, PythOracleConfig};
use crate::oracle::pyth_oracle::PriceIdentifier;
use crate::pool_limit_info::DegenPoolLimitInfo;
use crate::rated_swap::rate::{global_get_rate, global_register_rate, RateTrait};
use crate::unit_lpt_cumulative_infos::UnitShareCumulativeInfo;
use crate::*;
use near_sdk::{serde_json, PromiseResult};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

pub static TESTS: &[Test] = &[
    Test { props: &["P18", "P11"], name: "admin_table", f: admin_case, quick: 900, thorough: 40000 },
    Test { props: &["P20"], name: "twap_model", f: twap_model, quick: 600, thorough: 20000 },
    Test { props: &["P20"], name: "twap_history", f: twap_history, quick: 500, thorough: 20000 },
    Test { props: &["P21"], name: "oracle_answers", f: oracle_case, quick: 20000, thorough: 600000 },
    Test { props: &["P21"], name: "value_limit", f: limit_case, quick: 400, thorough: 10000 },
];

fn has(o: &Obs, k: &str, t: &str) -> bool { o.c[k].split(',').any(|x| x == t) }
fn add(o: &mut Obs, k: &str, t: &str) {
    let mut v: Vec<String> = o.c[k].split(',').filter(|x| !x.is_empty()).map(|x| s(x)).collect();
    if !v.iter().any(|x| x == t) { v.push(s(t)); }
    v.sort();
    o.c.insert(s(k), v.join(","));
}
fn del(o: &mut Obs, k: &str, t: &str) {
    let v: Vec<String> = o.c[k].split(',').filter(|x| !x.is_empty() && *x != t).map(|x| s(x)).collect();
    o.c.insert(s(k), v.join(","));
}
/// effect on the observation (false: the arguments are wrong), and the parts that may change freely
type Eff = Box<dyn Fn(&mut Obs) -> bool>;
struct Row { what: String, owner_only: bool, unsure: bool, eff: Eff, free: Vec<String>, run: Box<dyn Fn(&mut Contract)> }
fn row(what: String, owner_only: bool, eff: impl Fn(&mut Obs) -> bool + 'static, run: impl Fn(&mut Contract) + 'static) -> Row {
    Row { what, owner_only, unsure: false, eff: Box::new(eff), free: vec![], run: Box::new(run) }
}
fn keyed(o: &Obs, k: &str, t: &str) -> bool { o.c[k].contains(&format!("{}=", t)) }
fn pick_row(h: &H, cx: &mut Cx) -> Row {
    let t = s(*cx.r.pick(&TOK));
    let who = s(*cx.r.pick(&["alice", "bob", "guard", "owner", "referrer"]));
    let pool = cx.r.below(6);
    let np = h.pools.len() as u64;
    let kind = h.kinds.get(pool as usize).cloned().unwrap_or(9);
    let now = h.w.e.now;
    let fee = *cx.r.pick(&[0u32, 1, 100, 7999, 8000, 8001, 9999, 10000, 20000]);
    let n = cx.r.below(35);
    let (t1, t2, w1, w2) = (t.clone(), t.clone(), who.clone(), who.clone());
    match n {
        0 => row(format!("set_owner({})", who), true, move |o| { o.c.insert(s("owner"), w1.clone()); true }, move |c| c.set_owner(va(&w2))),
        1 => { let amt = cx.r.below(3) as u128; row(format!("retrieve_unmanaged_token({},{})", t, amt), true, move |_| amt > 0, move |c| { c.retrieve_unmanaged_token(va(&t2), U128(amt)); }) }
        2 => row(format!("extend_guardians({})", who), true, move |o| { add(o, "guardians", &w1); true }, move |c| c.extend_guardians(vec![va(&w2)])),
        3 => row(format!("remove_guardians({})", who), true, move |o| { let x = has(o, "guardians", &w1); del(o, "guardians", &w1); x }, move |c| c.remove_guardians(vec![va(&w2)])),
        4 => row(format!("extend_auto_whitelisted_postfix({})", t), false, move |o| { add(o, "postfix", &t1); true }, move |c| c.extend_auto_whitelisted_postfix(vec![t2.clone()])),
        5 => row(format!("remove_auto_whitelisted_postfix({})", t), false, move |o| { let x = has(o, "postfix", &t1); del(o, "postfix", &t1); x }, move |c| c.remove_auto_whitelisted_postfix(vec![t2.clone()])),
        6 => row(format!("modify_boost_farm_id({})", who), false, move |o| { o.c.insert(s("boost"), w1.clone()); true }, move |c| c.modify_boost_farm_id(w2.clone())),
        7 => row(format!("modify_burrowland_id({})", who), false, move |o| { o.c.insert(s("burrow"), w1.clone()); true }, move |c| c.modify_burrowland_id(w2.clone())),
        8 => row(format!("modify_wnear_id({})", t), true, move |o| { o.c.insert(s("wnear"), format!("{:?}", Some(&t1))); true }, move |c| c.modify_wnear_id(t2.clone())),
        9 | 10 | 11 => {
            let to = if cx.r.chance(1, 2) { RunningState::Running } else { RunningState::Paused };
            let resume = to == RunningState::Running && h.w.view(|c| c.state == RunningState::Paused).unwrap();
            let (a, b) = (to == RunningState::Running, to == RunningState::Running);
            row(format!("change_state({})", to), resume, move |o| { o.c.insert(s("state"), (if a { RunningState::Running } else { RunningState::Paused }).to_string()); true }, move |c| c.change_state(if b { RunningState::Running } else { RunningState::Paused }))
        }
        12 => row(format!("extend_whitelisted_tokens({})", t), false, move |o| { add(o, "white", &t1); true }, move |c| c.extend_whitelisted_tokens(vec![va(&t2)])),
        13 => row(format!("remove_whitelisted_tokens({})", t), false, move |o| { let x = has(o, "white", &t1); del(o, "white", &t1); x }, move |c| c.remove_whitelisted_tokens(vec![va(&t2)])),
        14 => row(format!("extend_frozenlist_tokens({})", t), false, move |o| { add(o, "frozen", &t1); true }, move |c| c.extend_frozenlist_tokens(vec![va(&t2)])),
        15 => row(format!("remove_frozenlist_tokens({})", t), false, move |o| { let x = has(o, "frozen", &t1); del(o, "frozen", &t1); x }, move |c| c.remove_frozenlist_tokens(vec![va(&t2)])),
        16 | 17 | 18 => {
            let old = h.w.view(|c| c.referrals.get(&who)).unwrap();
            let k = n;
            row(format!("{}({},{})", ["insert_referral", "update_referral", "remove_referral"][k as usize - 16], who, fee), false, move |o| {
                let list = |o: &Obs| -> Vec<String> { o.c["referrals"].split("),").filter(|x| !x.is_empty()).map(|x| if x.ends_with(')') { s(x) } else { format!("{})", x) }).collect() };
                let mut v: Vec<String> = list(o).into_iter().map(|x| x.trim_start_matches(',').to_string()).collect();
                let fine = match k { 16 => old.is_none() && fee > 0 && fee < 10000, 17 => old.is_some() && fee > 0 && fee < 10000, _ => old.is_some() };
                if let Some(f) = old { let e = format!("{:?}", (w1.clone(), f)); v.retain(|x| *x != e); }
                if k != 18 { v.push(format!("{:?}", (w1.clone(), fee))); }
                v.sort();
                o.c.insert(s("referrals"), v.join(","));
                fine
            }, move |c| match k { 16 => c.insert_referral(va(&w2), fee), 17 => c.update_referral(va(&w2), fee), _ => c.remove_referral(va(&w2)) })
        }
        19 => row(format!("modify_admin_fee({})", fee), true, move |o| { o.c.insert(s("admin_fee"), fee.to_string()); fee <= 8000 }, move |c| c.modify_admin_fee(fee)),
        20 => row(format!("modify_total_fee({},{})", pool, fee), false, move |o| { if pool < np { o.set(&format!("fee/{}", pool), fee as u128); } pool < np && fee < 10000 }, move |c| c.modify_total_fee(pool, fee)),
        21 => {
            let sh = cx.r.amt(10u128.pow(24));
            let m = h.pools.get(pool as usize).map(|x| x.len()).unwrap_or(2);
            let mut x = row(format!("remove_exchange_fee_liquidity({},{})", pool, sh), false, |_| true, move |c| c.remove_exchange_fee_liquidity(pool, U128(sh), vec![U128(0); m]));
            x.unsure = true;
            x
        }
        22 => { let a = cx.r.amt(10u128.pow(22)); let mut x = row(format!("withdraw_owner_token({},{})", t, a), false, |_| true, move |c| { c.withdraw_owner_token(va(&t2), U128(a), None); }); x.unsure = true; x }
        23 | 24 => {
            let ramp = n == 23;
            let amp = *cx.r.pick(&[0u64, 1, 10, 50, 100, 240, 999, 1000, 2400, 9999, 10000, 99999, 1000000, 1000001]);
            let at = (now as i128 + *cx.r.pick(&[-1i128, 0, 86_399_999_999_999, 86_400_000_000_000, 86_400_000_000_001, 300_000_000_000_000])) as u64;
            let amp_at = |i: u128, t: u128, a: u64, z: u64| -> u128 {
                if now >= z { return t; }
                let part = |d: u128| to128(b(d) * b((now - a) as u128) / b((z - a) as u128)).unwrap();
                if t >= i { i + part(t - i) } else { i - part(i - t) }
            };
            let cur = h.w.view(|c| match c.pools.get(pool) { Some(pool::Pool::StableSwapPool(x)) => Some((amp_at(x.init_amp_factor, x.target_amp_factor, x.init_amp_time, x.stop_amp_time), x.init_amp_time)), Some(pool::Pool::RatedSwapPool(x)) => Some((amp_at(x.init_amp_factor, x.target_amp_factor, x.init_amp_time, x.stop_amp_time), x.init_amp_time)), Some(pool::Pool::DegenSwapPool(x)) => Some((amp_at(x.init_amp_factor, x.target_amp_factor, x.init_amp_time, x.stop_amp_time), x.init_amp_time)), _ => None }).unwrap();
            let day = 86_400_000_000_000u64;
            row(if ramp { format!("stable_swap_ramp_amp({},{},{})", pool, amp, at) } else { format!("stable_swap_stop_ramp_amp({})", pool) }, false, move |o| {
                let (a, t0) = match cur { Some(x) => x, None => return false };
                if !ramp { o.c.insert(format!("amp/{}", pool), format!("{} {} {} {}", a, a, now, now)); return true; }
                o.c.insert(format!("amp/{}", pool), format!("{} {} {} {}", a, amp, now, at));
                let (x, y) = (a as u128, amp as u128);
                t0.saturating_add(day) <= now && at >= now + day && y > 0 && y < 1_000_000 && y <= x * 10 && x <= y * 10
            }, move |c| if ramp { c.stable_swap_ramp_amp(pool, amp, near_sdk::json_types::WrappedTimestamp::from(at)) } else { c.stable_swap_stop_ramp_amp(pool) })
        }
        25 | 26 => {
            let reg = n == 25;
            let mut x = row(format!("{}register_rated_token({})", if reg { "" } else { "un" }, t), !reg, move |o| if reg { !keyed(o, "rates", &t1) } else { true }, move |c| if reg { c.register_rated_token(s("LINEAR"), va(&t2), None) } else { c.unregister_rated_token(va(&t2)) });
            x.free = vec![s("rates")];
            x
        }
        27 | 28 | 29 => {
            let k = n;
            let mut x = row(format!("{}({})", ["register_degen_token", "update_degen_token", "unregister_degen_token"][k as usize - 27], t), k != 27, move |o| match k { 27 => !keyed(o, "degens", &t1), 28 => keyed(o, "degens", &t1), _ => true }, move |c| match k { 27 => c.register_degen_token(va(&t2), DegenType::PriceOracle { decimals: 18 }), 28 => c.update_degen_token(va(&t2), DegenType::PriceOracle { decimals: 18 }), _ => c.unregister_degen_token(va(&t2)) });
            x.free = vec![s("degens")];
            x
        }
        30 => {
            let k = cx.r.below(3);
            let pyth = cx.r.chance(1, 2);
            let mk = move || if pyth { DegenOracleConfig::PythOracle(PythOracleConfig { oracle_id: s("p"), expire_ts: 5, pyth_price_valid_duration_sec: 60 }) } else { DegenOracleConfig::PriceOracle(PriceOracleConfig { oracle_id: s("q"), expire_ts: 7, maximum_recency_duration_sec: 9, maximum_staleness_duration_sec: 9 }) };
            let key = mk().get_key();
            let key2 = key.clone();
            let mut x = row(format!("{}({})", ["register_degen_oracle_config", "update_degen_oracle_config", "unregister_degen_oracle_config"][k as usize], key), k != 0, move |o| match k { 0 => !keyed(o, "oracles", &key), 1 => keyed(o, "oracles", &key), _ => true }, move |c| match k { 0 => c.register_degen_oracle_config(mk()), 1 => c.update_degen_oracle_config(mk()), _ => c.unregister_degen_oracle_config(key2.clone()) });
            x.free = vec![s("oracles")];
            x
        }
        31 => {
            let k = cx.r.below(3);
            let set = h.w.view(|_| crate::pool_limit_info::read_pool_limit_from_storage().get(&pool).is_some()).unwrap();
            let mut x = row(format!("{}({})", ["add_degen_pool_limit", "update_degen_pool_limit", "remove_pool_limit"][k as usize], pool), k != 0, move |_| match k { 0 => kind == 3 && !set, 1 => kind == 3 && set, _ => set }, move |c| match k { 0 => c.add_degen_pool_limit(pool, DegenPoolLimitInfo { tvl_limit: 5 }), 1 => c.update_degen_pool_limit(pool, DegenPoolLimitInfo { tvl_limit: 6 }), _ => c.remove_pool_limit(pool) });
            x.free = vec![s("limits")];
            x
        }
        32 => {
            let k = cx.r.below(6);
            let key = ["echo_tokens", "echo_senders", "secure"][(k % 3) as usize];
            row(format!("{} {} {}", if k < 3 { "extend" } else { "remove" }, key, t), k >= 3, move |o| { let x = has(o, key, &t1); if k < 3 { add(o, key, &t1); !x } else { del(o, key, &t1); x } }, move |c| {
                let v = vec![t2.clone()];
                match k { 0 => c.extend_client_echo_token_id_whitelist(v), 1 => c.extend_client_echo_sender_id_whitelist(v), 2 => c.extend_secure_sender_whitelist(v), 3 => c.remove_client_echo_token_id_whitelist(v), 4 => c.remove_client_echo_sender_id_whitelist(v), _ => c.remove_secure_sender_whitelist(v) }
            })
        }
        33 => {
            let k = cx.r.below(3);
            let x = cx.r.below(2000) as u32;
            let on = h.w.view(|c| c.unit_share_cumulative_infos.get(&pool).is_some()).unwrap();
            let enough = h.w.view(|c| pool < c.pools.len() && c.internal_unit_share_token_amounts(pool).is_some()).unwrap_or(false);
            let mut r = row(format!("{}({},{})", ["register_pool_twap_record", "unregister_pool_twap_record", "modify_cumulative_info_record_interval_sec"][k as usize], pool, x), false, move |o| match k { 0 => !on && enough, 1 => on, _ => { o.c.insert(s("interval"), x.to_string()); true } }, move |c| match k { 0 => c.register_pool_twap_record(pool), 1 => c.unregister_pool_twap_record(pool), _ => c.modify_cumulative_info_record_interval_sec(x) });
            if k < 2 { r.free = vec![s("twap")]; }
            r
        }
        _ => {
            let k = 1 + cx.r.below(3);
            let mut r = row(format!("add pool of kind {}", k), false, |_| true, move |c| { let (t, d) = (vec![va("tok.a"), va("tok.d")], vec![24u8, 24]); match k { 1 => c.add_stable_swap_pool(t, d, 10, 100), 2 => c.add_rated_swap_pool(t, d, 10, 100), _ => c.add_degen_swap_pool(t, d, 10, 100) }; });
            r.unsure = true;
            r
        }
    }
}
fn admin_case(cx: &mut Cx) -> Result<(), String> {
    let mut h = build(cx);
    for _ in 0..24 {
        h.w.e.now += *cx.r.pick(&[0u64, 1_000_000_000, 40_000_000_000_000, 86_400_000_000_000]);
        let x = pick_row(&h, cx);
        let pre = ledger::obs(&h.w);
        let who = s(*cx.r.pick(&["owner", "owner", "owner", "guard", "guard", "alice", "bob", "boostfarm", "burrow", ME, "stranger"]));
        let dep = *cx.r.pick(&[1u128, 1, 1, 1, 0, 2]);
        let is_owner = pre.c["owner"] == who;
        let role = is_owner || (!x.owner_only && has(&pre, "guardians", &who));
        let mut want = pre.clone();
        let valid = (x.eff)(&mut want);
        let pays = if x.what.starts_with("add pool") { true } else { dep == 1 };
        let dep = if x.what.starts_with("add pool") { dep * 10u128.pow(24) } else { dep };
        let o = op(x.what.clone(), &who, dep, |c| { (x.run)(c); vec![] });
        let tag = if x.what.contains("_amp") || x.what.contains("fee(") || x.what.contains("_referral") { "P18,P11" } else { "P18" };
        let r = ledger::go(&mut h.w, &o);
        cx.note(format!("{} by {} deposit {} -> {:?}", x.what, who, dep, r));
        match r {
            Err(e) => {
                cx.tried(tag);
                rv_check!(tag, x.unsure || !(valid && role && pays), "{} by {} with {} yocto is refused: {}", x.what, who, dep, e);
            }
            Ok(_) => {
                rv_check!("P18", role, "{} succeeds for {}, who is not {}", x.what, who, if x.owner_only { "the owner" } else { "the owner or a guardian" });
                rv_check!("P18", pays, "{} by {} succeeds with {} yocto attached", x.what, who, dep);
                rv_check!(tag, valid, "{} by {} is accepted", x.what, who);
                if x.unsure { if x.what.starts_with("add pool") { return Ok(()); } continue; }
                let last = ["update_degen_token", "unregister_degen_token", "unregister_degen_oracle_config"].iter().any(|k| x.what.starts_with(k));
                let post = ledger::obs(&h.w);
                for k in &x.free { want.c.insert(k.clone(), post.c[k].clone()); }
                if let Some((_, m)) = ledger::diff(&want, &post) { return Err(format!("{}|{} by {}: {}", tag, x.what, who, m)); }
                cx.good(tag);
                // later reads of such a token panic (while the real runtime starts every call afresh)
                if last { return Ok(()); }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- time-weighted records
#[derive(Clone, Debug, PartialEq)]
struct Twap { last: u64, cum: Vec<U512>, recs: Vec<(u64, Vec<U512>)> }
fn m256(x: U512) -> U512 { (x << 256) >> 256 }
impl Twap {
    fn new(t: u64, a: &[u128]) -> Twap { let c: Vec<U512> = a.iter().map(|x| b(*x)).collect(); Twap { last: t, cum: c.clone(), recs: vec![(t, c)] } }
    fn update(&mut self, t: u64, a: &[u128], every: u64) {
        if t == self.last { return; }
        for i in 0..self.cum.len() { self.cum[i] = m256(self.cum[i] + b(a[i]) * b((t - self.last) as u128)); }
        self.last = t;
        if t - self.recs[self.recs.len() - 1].0 >= every { self.recs.push((t, self.cum.clone())); if self.recs.len() > 60 { self.recs.remove(0); } }
    }
    fn avg(&self) -> Option<Vec<U512>> {
        let (t0, c0) = &self.recs[0];
        if self.last == *t0 { return None; }
        Some(self.cum.iter().zip(c0.iter()).map(|(x, y)| m256(*x + (U512::one() << 256) - *y) / b((self.last - t0) as u128)).collect())
    }
    fn json(&self) -> serde_json::Value {
        let f = |v: &Vec<U512>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        json!({"last_update_sec": self.last, "cumulative_token_amounts": f(&self.cum), "records": self.recs.iter().map(|(t, c)| json!({"time_sec": t, "cumulative_token_amounts": f(c)})).collect::<Vec<_>>()})
    }
}
fn twap_json(x: &UnitShareCumulativeInfo) -> serde_json::Value {
    let c = near_sdk::borsh::BorshSerialize::try_to_vec(x).unwrap();
    let y: UnitShareCumulativeInfo = near_sdk::borsh::BorshDeserialize::try_from_slice(&c).unwrap();
    serde_json::to_value(crate::unit_lpt_cumulative_infos::UnitShareCumulativeInfoView::from(y)).unwrap()
}
fn twap_model(cx: &mut Cx) -> Result<(), String> {
    fresh(1_700_000_000_000_000_000);
    let n = 2 + cx.r.below(3) as usize;
    let am = |r: &mut Rng| -> Vec<u128> { (0..n).map(|_| r.amt(u128::MAX)).collect() };
    let mut t = cx.r.below(4_000_000_000);
    let a = am(&mut cx.r);
    let mut m = Twap::new(t, &a);
    let mut x = UnitShareCumulativeInfo::new(t as u32, a.clone());
    let every = *cx.r.pick(&[0u64, 1, 10, 720, 100000]);
    cx.note(format!("start at {} with {:?}, record every {} s", t, a, every));
    rv_check!("P20", twap_json(&x) == m.json(), "after creation: {} expected {}", twap_json(&x), m.json());
    let steps = if cx.r.chance(1, 4) { 130 } else { 10 };
    for _ in 0..steps {
        t += match cx.r.below(5) { 0 => 0, 1 => 1, 2 => every, _ => cx.r.below(2 * every + 3) };
        if t > u32::MAX as u64 { break; }
        let a = am(&mut cx.r);
        let r = tryit(|| x.update(t as u32, a.clone(), every as u32));
        cx.note(format!("update at {} with {:?} -> {:?}", t, a, r));
        rv_check!("P20", r.is_ok(), "update at {} refused: {:?}", t, r);
        m.update(t, &a, every);
        rv_check!("P20", twap_json(&x) == m.json(), "after update at {}: {} expected {}", t, twap_json(&x), m.json());
        let got = tryit(|| x.twap_token_amounts());
        match m.avg() {
            None => rv_check!("P20", got.is_err(), "an average over no time: {:?}", got),
            Some(v) => {
                let v: Option<Vec<u128>> = v.into_iter().map(to128).collect();
                rv_check!("P20", got.clone().ok() == v, "average {:?}, expected {:?}", got, v);
            }
        }
        cx.good("P20");
    }
    Ok(())
}
fn sec(now: u64) -> u64 { now / 1_000_000_000 }
fn twap_history(cx: &mut Cx) -> Result<(), String> {
    let mut h = build(cx);
    let mut ms: BTreeMap<u64, Twap> = BTreeMap::new();
    let every = *cx.r.pick(&[0u64, 30, 720]);
    h.w.call("owner", 1, |c| c.modify_cumulative_info_record_interval_sec(every as u32)).unwrap();
    let amounts = |w: &W, p: u64| w.view(|c| c.internal_unit_share_token_amounts(p)).unwrap_or(None);
    for p in 0..h.pools.len() as u64 {
        let a = amounts(&h.w, p);
        let r = h.w.call("owner", 1, |c| c.register_pool_twap_record(p));
        rv_check!("P20", r.is_ok() == a.is_some(), "register_pool_twap_record({}): {:?} with {:?}", p, r, a);
        if let Some(a) = a { ms.insert(p, Twap::new(sec(h.w.e.now), &a)); }
    }
    for _ in 0..12 {
        h.w.e.now += match cx.r.below(5) { 0 => 0, 1 => 1_000_000_000, _ => cx.r.below(1000) * 1_000_000_000 };
        if cx.r.chance(1, 3) { ledger::refresh(&mut h.w, &mut cx.r); }
        let before: BTreeMap<u64, Option<Vec<u128>>> = ms.keys().map(|p| (*p, amounts(&h.w, *p))).collect();
        let pre = ledger::obs(&h.w);
        let k = cx.r.below(7);
        let sync = cx.r.below(h.pools.len() as u64);
        // what the operations themselves must do is not judged here (the records' own storage is the exchange's)
        let _ = match k {
            0 => ledger::op_swap(&mut h, cx),
            1 => ledger::op_direct(&mut h, cx),
            2 => ledger::op_zap(&mut h, cx),
            3 => ledger::op_add(&mut h, cx),
            4 => ledger::op_remove(&mut h, cx),
            5 => {
                let r = h.w.call("alice", 0, |c| c.sync_pool_twap_record(sync));
                let a = before.get(&sync).cloned().unwrap_or(None);
                cx.note(format!("sync_pool_twap_record({}) -> {:?}", sync, r));
                rv_check!("P20", r.is_ok() == a.is_some(), "sync_pool_twap_record({}): {:?} with {:?}", sync, r, a);
                Ok(())
            }
            _ => ledger::op_mft(&mut h, cx),
        };
        let by_owner = cx.log.last().map_or(false, |l| l.contains("remove_exchange_fee_liquidity"));
        let post = ledger::obs(&h.w);
        let mut gone = vec![];
        for (p, m) in ms.iter_mut() {
            let got = h.w.view(|c| serde_json::to_value(c.get_pool_twap_info_view(*p)).unwrap()).unwrap();
            let part = |o: &Obs| -> Vec<(String, u128)> { o.n.iter().filter(|(k, _)| k.starts_with(&format!("amt/{}/", p)) || **k == format!("sup/{}", p) || k.starts_with(&format!("vol/{}/", p))).map(|(k, v)| (k.clone(), *v)).collect() };
            let touched = !by_owner && part(&pre) != part(&post) || (k == 5 && sync == *p);
            let mut w = m.clone();
            if let Some(a) = &before[p] { w.update(sec(h.w.e.now), a, every); }
            if before[p].is_none() && got != m.json() { gone.push(*p); continue; }
            let fine = got == w.json() || (!touched && got == m.json());
            rv_check!("P20", fine, "after the last call the record of pool {} is {}, expected {} ({})", p, got, w.json(), if touched { "it changed the pool" } else { "pool untouched" });
            if touched { cx.good("P20"); } else { cx.tried("P20"); }
            if got == w.json() { *m = w; }
            // the published average is over exactly the recorded window
            let avg = h.w.view(|c| c.get_unit_share_twap_token_amounts(*p));
            let mut v = m.clone();
            let now_a = amounts(&h.w, *p);
            if let Some(a) = &now_a { v.update(sec(h.w.e.now), a, every); }
            let want = if now_a.is_some() && v.recs.len() == 60 { v.avg().map(|x| x.into_iter().map(|y| to128(y).unwrap()).collect::<Vec<_>>()) } else { None };
            if let Ok(g) = avg { rv_check!("P20", g.clone().map(|x| x.into_iter().map(|y| y.0).collect::<Vec<_>>()) == want, "published average of pool {} is {:?}, expected {:?}", p, g, want); }
        }
        // too few shares at the start of the call, enough after its first step: no longer followed
        for p in gone { ms.remove(&p); }
    }
    Ok(())
}

// ---------------------------------------------------------------- answers of rate and price oracles
const NOW: u64 = 1_700_000_000_000_000_000;
const P24: u128 = 1_000_000_000_000_000_000_000_000;
fn times(r: &mut Rng, now: u64, dur_sec: u64) -> u64 {
    let d = dur_sec * 1_000_000_000;
    match r.below(8) { 0 => now, 1 => now + 1, 2 => now - d, 3 => now - d - 1, 4 => now - d + 1, 5 => now + r.below(10) * 1_000_000_000, 6 => now - r.below(2 * d), _ => r.below(now) }
}
fn pyth(r: &mut Rng, now: u64, dur: u64) -> (serde_json::Value, Option<U512>) {
    let price: i64 = *r.pick(&[0i64, -1, 1, 100_000_000, 5_000_000_000_000, i64::MAX, -100_000_000]);
    let expo: i32 = *r.pick(&[-8i32, -5, 0, 1, 3, -18, -24]);
    let ns = now / 1_000_000_000;
    let at: i64 = match r.below(8) { 0 => ns as i64, 1 => (ns - dur) as i64, 2 => (ns - dur) as i64 - 1, 3 => 0, 4 => -5, 5 => (ns - dur) as i64 + 1, 6 => r.below(ns) as i64, _ => ns as i64 - r.below(dur) as i64 };
    let ok = price > 0 && at > 0 && (at as u64 + dur) * 1_000_000_000 >= now;
    let v = if ok { let x = b(P24) * b(price as u128); Some(if expo > 0 { x * b(10u128.pow(expo as u32)) } else { x / b(10u128.pow((-expo) as u32)) }) } else { None };
    (json!({"price": price.to_string(), "conf": "1", "expo": expo, "publish_time": at}), v)
}
fn oracle_case(cx: &mut Cx) -> Result<(), String> {
    let mut w = W::new("owner", 0, 0);
    let r = &mut cx.r;
    w.e.now = NOW + r.below(2_000_000_000);
    let now = w.e.now;
    let dur = 60u64;
    let id = |k: u8| PriceIdentifier([k; 32]);
    let hex = |k: u8| format!("{:02x}", k).repeat(32);
    let exp = *r.pick(&[1u64, 3600_000_000_000, 1000]);
    let kinds = ["STNEAR", "LINEAR", "NEARX"];
    let kind = *r.pick(&kinds);
    let sf_pyth = r.chance(1, 2);
    let extra = if sf_pyth { json!({"PythOracle": {"oracle_id": "p", "base_price_identifier": hex(7), "rate_price_identifier": hex(8), "pyth_price_valid_duration_sec": dur}}) } else { json!({"PriceOracle": {"oracle_id": "q", "base_contract_id": "frax", "maximum_recency_duration_sec": 90, "maximum_staleness_duration_sec": dur}}) };
    w.call("owner", 1, |_| {
        global_register_rate(&s(kind), &s("tok.r"), None);
        global_register_rate(&s("SFRAX"), &s("tok.s"), Some(extra.to_string()));
        global_register_degen_oracle_config(DegenOracleConfig::PriceOracle(PriceOracleConfig { oracle_id: s("q"), expire_ts: exp, maximum_recency_duration_sec: 90, maximum_staleness_duration_sec: dur as u32 }));
        global_register_degen_oracle_config(DegenOracleConfig::PythOracle(PythOracleConfig { oracle_id: s("p"), expire_ts: exp, pyth_price_valid_duration_sec: dur as u32 }));
        global_register_degen(&s("tok.a"), DegenType::PriceOracle { decimals: 18 });
        global_register_degen(&s("tok.b"), DegenType::PriceOracle { decimals: 6 });
        global_register_degen(&s("tok.c"), DegenType::PythOracle { price_identifier: id(1) });
        global_register_degen(&s("tok.d"), DegenType::PythOracle { price_identifier: id(2) });
    }).map_err(|e| format!("P21|set up refused: {}", e))?;
    // what is stored: rate tokens (value, time), degen tokens (value, time) or nothing
    type St = BTreeMap<&'static str, Option<(u128, u64)>>;
    let read = |w: &W| -> St {
        w.view(|_| {
            let mut m: St = BTreeMap::new();
            for t in ["tok.r", "tok.s"].iter() { let g = global_get_rate(&s(t)).unwrap(); m.insert(t, Some((g.get(), g.last_update_ts()))); }
            for t in ["tok.a", "tok.b", "tok.c", "tok.d"].iter() { let p = match global_get_degen(&s(t)) { Degen::PriceOracle(d) => d.price_info, Degen::PythOracle(d) => d.price_info }; m.insert(t, p.map(|x| (x.stored_degen, x.degen_updated_at))); }
            m
        }).unwrap()
    };
    for _ in 0..6 {
        let r = &mut cx.r;
        w.e.now += *r.pick(&[0u64, 1, 30_000_000_000, 3600_000_000_000, 86_400_000_000_000]);
        let now = { let _ = now; w.e.now };
        let pre = read(&w);
        let mut want = pre.clone();
        let bad = |r: &mut Rng| match r.below(3) { 0 => PromiseResult::Failed, 1 => PromiseResult::Successful(b"\"x".to_vec()), _ => PromiseResult::Successful(b"null".to_vec()) };
        let pd = |r: &mut Rng, ids: &[&str]| {
            let ts = times(r, now, dur);
            let rec = *r.pick(&[0u64, 90, 91, 50]);
            let ok = rec <= 90 && ts <= now && now - ts <= dur * 1_000_000_000;
            let mut ps: Vec<(String, Option<(u128, u8)>)> = vec![];
            for i in ids { let p = (1 + r.bits(90), *r.pick(&[24u8, 18, 26, 30, 5])); ps.push((s(i), if r.chance(1, 6) { None } else { Some(p) })); }
            let v = json!({"timestamp": ts.to_string(), "recency_duration_sec": rec, "prices": ps.iter().map(|(i, p)| json!({"asset_id": i, "price": p.map(|(m, d)| json!({"multiplier": m.to_string(), "decimals": d}))})).collect::<Vec<_>>()});
            (v, ok, ps)
        };
        let scaled = |p: Option<(u128, u8)>, dec: u8| -> Option<u128> { let (m, d) = p?; if d < dec { return None; } to128(b(P24) * b(m) / b(10u128.pow((d - dec) as u32))) };
        let k = r.below(6);
        let (what, res, fine): (String, Result<(), String>, bool) = match k {
            0 => {
                let val = r.bits(127);
                let raw = if r.chance(1, 3) { bad(r) } else { PromiseResult::Successful(format!("\"{}\"", val).into_bytes()) };
                let ok = matches!(&raw, PromiseResult::Successful(x) if x == &format!("\"{}\"", val).into_bytes());
                if ok { want.insert("tok.r", Some((val, now))); }
                (format!("update_token_rate_callback({}) with {:?}", kind, raw), w.callx(ME, 0, vec![raw], |c| c.update_token_rate_callback(s("tok.r"))), ok)
            }
            1 if sf_pyth => {
                let (a, x) = pyth(r, now, dur);
                let (c, y) = pyth(r, now, dur);
                let (mut ra, rb) = (PromiseResult::Successful(a.to_string().into_bytes()), PromiseResult::Successful(c.to_string().into_bytes()));
                let fail = r.chance(1, 6);
                if fail { ra = bad(r); }
                let v = if fail { None } else { match (x, y) { (Some(x), Some(y)) if !x.is_zero() && x.bits() <= 256 && (b(P24) * y).bits() <= 256 => to128(b(P24) * y / x), _ => None } };
                if let Some(v) = v { want.insert("tok.s", Some((v, now))); }
                (format!("update_token_rate_callback(SFRAX) with {:?} {}", ra, c), w.callx(ME, 0, vec![ra, rb], |c| c.update_token_rate_callback(s("tok.s"))), v.is_some())
            }
            1 => {
                let wrong = r.chance(1, 6);
                let (v, ok, ps) = pd(r, if wrong { &["tok.s", "frax"] } else { &["frax", "tok.s"] });
                let val = match (&ps[0].1, &ps[1].1) { (Some((a, da)), Some((c, dc))) if ok && !wrong && da == dc => to128(b(P24) * b(*c) / b(*a)), _ => None };
                if let Some(v) = val { want.insert("tok.s", Some((v, now))); }
                (format!("update_token_rate_callback(SFRAX) with {}", v), w.callx(ME, 0, vec![PromiseResult::Successful(v.to_string().into_bytes())], |c| c.update_token_rate_callback(s("tok.s"))), val.is_some())
            }
            2 => {
                let wrong = r.chance(1, 6);
                let (v, ok, ps) = pd(r, if wrong { &["tok.b"] } else { &["tok.a"] });
                let val = if ok && !wrong { scaled(ps[0].1, 18) } else { None };
                let fail = r.chance(1, 8);
                if let (Some(v), false) = (val, fail) { want.insert("tok.a", Some((v, now))); }
                let raw = if fail { PromiseResult::Failed } else { PromiseResult::Successful(v.to_string().into_bytes()) };
                (format!("update_degen_token_price_callback(tok.a) with {:?} {}", fail, v), w.callx(ME, 0, vec![raw], |c| c.update_degen_token_price_callback(s("tok.a"))), val.is_some() || fail)
            }
            3 => {
                let (v, x) = pyth(r, now, dur);
                let val = x.and_then(to128);
                if let Some(v) = val { want.insert("tok.c", Some((v, now))); }
                (format!("update_degen_token_price_callback(tok.c) with {}", v), w.callx(ME, 0, vec![PromiseResult::Successful(v.to_string().into_bytes())], |c| c.update_degen_token_price_callback(s("tok.c"))), val.is_some())
            }
            4 => {
                let (v, ok, ps) = { let ids: &[&str] = *r.pick(&[&["tok.a", "tok.b"][..], &["tok.b"], &["other", "tok.b"], &["tok.b", "tok.a"]]); pd(r, ids) };
                let fail = r.chance(1, 8);
                let mut fine = ok || fail;
                if ok && !fail {
                    for (t, p) in &ps { if p.is_none() || t == "other" { continue; } match scaled(*p, if t == "tok.a" { 18 } else { 6 }) { Some(v) => { want.insert(if t == "tok.a" { "tok.a" } else { "tok.b" }, Some((v, now))); } None => fine = false } }
                }
                let raw = if fail { PromiseResult::Failed } else { PromiseResult::Successful(v.to_string().into_bytes()) };
                let map: HashMap<String, u8> = vec![(s("tok.a"), 18u8), (s("tok.b"), 6)].into_iter().collect();
                (format!("batch_update_degen_token_by_price_oracle_callback with {:?} {}", fail, v), w.callx(ME, 0, vec![raw], |c| c.batch_update_degen_token_by_price_oracle_callback(map)), fine)
            }
            _ => {
                let (v1, x1) = pyth(r, now, dur);
                let (v2, x2) = pyth(r, now, dur);
                let skip = r.below(3);
                let fail = r.chance(1, 8);
                let mut fine = true;
                if !fail {
                    if skip != 1 { if let Some(x) = x1 { match to128(x) { Some(v) => { want.insert("tok.c", Some((v, now))); } None => fine = false } } }
                    if skip != 2 { if let Some(x) = x2 { match to128(x) { Some(v) => { want.insert("tok.d", Some((v, now))); } None => fine = false } } }
                }
                let mut o = serde_json::Map::new();
                o.insert(hex(1), if skip == 1 { serde_json::Value::Null } else { v1 });
                if skip != 2 { o.insert(hex(2), v2); }
                let txt = serde_json::Value::from(o).to_string();
                let raw = if fail { PromiseResult::Failed } else { PromiseResult::Successful(txt.clone().into_bytes()) };
                let map: HashMap<PriceIdentifier, Vec<String>> = vec![(id(1), vec![s("tok.c")]), (id(2), vec![s("tok.d")])].into_iter().collect();
                (format!("batch_update_degen_token_by_pyth_oracle_callback with {:?} {}", fail, txt), w.callx(ME, 0, vec![raw], |c| c.batch_update_degen_token_by_pyth_oracle_callback(map)), fine)
            }
        };
        cx.note(format!("{} -> {:?}", what, res));
        rv_check!("P21", res.is_ok() == fine, "{} at {}: {:?}, expected {}", what, now, res, if fine { "success" } else { "refusal" });
        let post = read(&w);
        if !fine { want = pre.clone(); }
        rv_check!("P21", post == want, "{} at {}: stored {:?}, expected {:?}", what, now, post, want);
        cx.good("P21");
        // validity is exactly the allowed age
        let d = *cx.r.pick(&[0u64, 1, exp, exp + 1, exp - 1, 86_400_000_000_000, 86_400_000_000_001]);
        let mut f = w.fork();
        f.e.now += d;
        let t = f.e.now;
        for (k, v) in &post {
            let age = if *k == "tok.r" || *k == "tok.s" { 86_400_000_000_000 } else { exp };
            let got = f.view(|_| if *k == "tok.r" || *k == "tok.s" { global_get_rate(&s(k)).unwrap().are_actual() } else { global_get_degen(&s(k)).is_price_valid() }).unwrap_or(false);
            let want = match v { Some((_, at)) => t <= at + age, None => false };
            rv_check!("P21", got == want, "{} stored {:?} counts as {} at {}", k, v, if got { "valid" } else { "stale" }, t);
        }
    }
    Ok(())
}
/// a degen pool with a value limit
fn limit_case(cx: &mut Cx) -> Result<(), String> {
    let mut h = build(cx);
    let p = 4u64;
    ledger::refresh(&mut h.w, &mut cx.r);
    let sum = |w: &W| -> U512 {
        w.view(|c| {
            let x = c.pools.get(p).unwrap();
            ledger::amounts_of(&x).iter().zip(x.tokens().iter()).fold(U512::zero(), |acc, (a, t)| acc + b(*a) * b(global_get_degen(t).get_price_info().stored_degen) / b(P24) / b(P24))
        }).unwrap()
    };
    let v = sum(&h.w);
    let lim = match cx.r.below(5) { 0 => v, 1 => v + b(cx.r.bits(3)), 2 => v - b(1).min(v), 3 => v + b(1), _ => v * b(2) };
    let lim = to128(lim).unwrap();
    let on = cx.r.chance(5, 6);
    if on { h.w.call("owner", 1, |c| c.add_degen_pool_limit(p, DegenPoolLimitInfo { tvl_limit: lim })).map_err(|e| format!("P21|add_degen_pool_limit refused: {}", e))?; }
    for _ in 0..4 {
        let am: Vec<U128> = (0..2).map(|_| U128(1 + cx.r.bits(83))).collect();
        for (t, a) in ["tok.a", "tok.d"].iter().zip(am.iter()) { let a = a.0; let _ = h.w.call("alice", 0, |c| { let mut acc = c.internal_unwrap_account(&s("alice")); acc.deposit(&s(t), a); c.internal_save_account(&s("alice"), acc); }); }
        let mut f = h.w.fork();
        let am2 = am.clone();
        let r = f.call("alice", 10u128.pow(22), |c| c.add_stable_liquidity(p, am2, U128(0)));
        cx.note(format!("add_stable_liquidity({},{:?}) limit {} -> {:?}", p, am, lim, r));
        if r.is_ok() {
            let after = sum(&f);
            if on { rv_check!("P21", after <= b(lim), "the pool is worth {} after an addition, limit {}", after, lim); }
            cx.good("P21");
            h.w = f;
        } else {
            cx.tried("P21");
            // without the limit it must go through, and then exceed it
            let mut g = h.w.fork();
            if on { g.call("owner", 1, |c| c.remove_pool_limit(p)).map_err(|e| format!("P21|remove_pool_limit refused: {}", e))?; }
            let am2 = am.clone();
            let q = g.call("alice", 10u128.pow(22), |c| c.add_stable_liquidity(p, am2, U128(0)));
            if on && q.is_ok() { rv_check!("P21", sum(&g) > b(lim), "an addition to {} within the limit {} is refused: {:?}", sum(&g), lim, r); }
        }
    }
    Ok(())
}
