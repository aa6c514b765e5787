// the farming contract against an independent model of its whole state
use super::base::*;
use super::world::*;
use crate::farm_seed::SeedType;
use crate::simple_farm::{SimpleFarmStatus, DENOM};
use crate::*;
use near_contract_standards::fungible_token::receiver::FungibleTokenReceiver;
use near_contract_standards::storage_management::StorageManagement;
use near_sdk::collections::LookupMap;
use near_sdk::json_types::U128;
use near_sdk::{PromiseOrValue, PromiseResult};
use std::collections::{BTreeMap, BTreeSet};

pub const TESTS: &[Test] = &[
    Test { props: &["F01", "F02", "F03", "F04", "F05", "F06"], name: "farming_history", f: history, quick: 3000, thorough: 60000 },
    Test { props: &["F01", "F02", "F03"], name: "farm_model", f: farm_case, quick: 60000, thorough: 2000000 },
];
const BYTE: u128 = 10_000_000_000_000_000_000;
const MINREG: u128 = (64 + 16 + 12 + 10 * (64 + 16) + 10 * (64 + 32)) * BYTE;
pub const WHO: [&str; 4] = ["alice", "bob", "carol", "owner"];
pub const SEEDS: [&str; 4] = ["seed.a", "seed.b", "mft@0", "mft@7"];
pub const RTOK: [&str; 2] = ["rew.a", "rew.b"];

#[derive(Clone, Default, Debug)] pub struct MSeed { pub amt: u128, pub min: u128, pub mft: bool, pub farms: BTreeSet<String>, pub next: u32 }
#[derive(Clone, Default, Debug)] pub struct MFarm { pub seed: String, pub tok: String, pub start: u32, pub per: u128, pub ival: u32, pub st: u8, pub und: u128, pub uncl: u128, pub rps: U512, pub rr: u32, pub total: u128, pub claimed: u128, pub benef: u128 }
#[derive(Clone, Default, Debug)] pub struct MUser { pub near: u128, pub rew: BTreeMap<String, u128>, pub seeds: BTreeMap<String, u128>, pub cnt: u32 }
#[derive(Clone, Default, Debug)]
pub struct M { pub owner: String, pub paused: bool, pub seeds: BTreeMap<String, MSeed>, pub farms: BTreeMap<String, MFarm>, pub old: BTreeMap<String, MFarm>, pub users: BTreeMap<String, MUser>, pub urps: BTreeMap<(String, String), U512>, pub count: u64, pub info: BTreeMap<String, u128> }
fn mf(f: &Farm) -> MFarm {
    let Farm::SimpleFarm(f) = f;
    MFarm { seed: f.terms.seed_id.clone(), tok: f.terms.reward_token.clone(), start: f.terms.start_at, per: f.terms.reward_per_session, ival: f.terms.session_interval,
        st: match f.status { SimpleFarmStatus::Created => 0, SimpleFarmStatus::Running => 1, SimpleFarmStatus::Ended => 2, SimpleFarmStatus::Cleared => 3 },
        und: f.last_distribution.undistributed, uncl: f.last_distribution.unclaimed, rps: U512::from_little_endian(&f.last_distribution.rps), rr: f.last_distribution.rr,
        total: f.amount_of_reward, claimed: f.amount_of_claimed, benef: f.amount_of_beneficiary }
}
pub fn obs(w: &W) -> M {
    w.view(|c| {
        let d = c.data();
        let mut m = M { owner: d.owner_id.clone(), paused: d.state == RunningState::Paused, count: d.farmer_count, ..Default::default() };
        for (k, v) in d.seeds.iter() { let v = v.get_ref(); m.seeds.insert(k, MSeed { amt: v.amount, min: v.min_deposit, mft: matches!(v.seed_type, SeedType::MFT), farms: v.farms.iter().cloned().collect(), next: v.next_index }); }
        for (k, v) in d.farms.iter() { m.farms.insert(k, mf(&v)); }
        for (k, v) in d.outdated_farms.iter() { m.old.insert(k, mf(&v)); }
        for (k, v) in d.reward_info.iter() { m.info.insert(k, v); }
        let ids: Vec<String> = m.farms.keys().chain(m.old.keys()).cloned().collect();
        for a in WHO.iter() {
            if let Some(f) = d.farmers.get(&s(a)) { let f = f.get_ref(); m.users.insert(s(a), MUser { near: f.amount, rew: f.rewards.iter().map(|(k, v)| (k.clone(), *v)).collect(), seeds: f.seeds.iter().map(|(k, v)| (k.clone(), *v)).collect(), cnt: f.rps_count }); }
            let l: LookupMap<FarmId, RPS> = LookupMap::new(StorageKeys::UserRps { account_id: s(a) });
            for i in &ids { if let Some(r) = l.get(i) { m.urps.insert((s(a), i.clone()), U512::from_little_endian(&r)); } }
        }
        m
    }).unwrap()
}
fn flat(m: &M) -> BTreeMap<String, (String, &'static str)> {
    let mut o = BTreeMap::new();
    let mut p = |k: String, v: String, t: &'static str| { o.insert(k, (v, t)); };
    p(s("owner"), m.owner.clone(), "F06"); p(s("paused"), m.paused.to_string(), "F06"); p(s("count"), m.count.to_string(), "F06");
    for (k, v) in &m.seeds { p(format!("seed {} amount", k), v.amt.to_string(), "F04"); p(format!("seed {} type", k), v.mft.to_string(), "F04"); p(format!("seed {} settings", k), format!("{} {:?} {}", v.min, v.farms, v.next), "F06"); }
    for (w, fs) in [("farm", &m.farms), ("outdated farm", &m.old)].iter() { for (k, v) in fs.iter() {
        p(format!("{} {} terms", w, k), format!("{} {} {} {}", v.seed, v.tok, v.per, v.ival), "F06,F02");
        p(format!("{} {} start", w, k), v.start.to_string(), "F02"); p(format!("{} {} status", w, k), v.st.to_string(), "F02,F06");
        p(format!("{} {} undistributed", w, k), v.und.to_string(), "F01,F02"); p(format!("{} {} round", w, k), v.rr.to_string(), "F02");
        p(format!("{} {} unclaimed", w, k), v.uncl.to_string(), "F01,F03"); p(format!("{} {} rps", w, k), v.rps.to_string(), "F03");
        p(format!("{} {} total", w, k), v.total.to_string(), "F01"); p(format!("{} {} claimed", w, k), v.claimed.to_string(), "F01,F03"); p(format!("{} {} beneficiary", w, k), v.benef.to_string(), "F01");
    } }
    for (k, v) in &m.users {
        p(format!("farmer {} near", k), v.near.to_string(), "F06"); p(format!("farmer {} rps records", k), v.cnt.to_string(), "F06");
        for (t, x) in &v.rew { p(format!("farmer {} reward {}", k, t), x.to_string(), "F05,F03"); }
        for (t, x) in &v.seeds { p(format!("farmer {} stake {}", k, t), x.to_string(), "F04"); }
    }
    for ((a, f), r) in &m.urps { p(format!("farmer {} rps of {}", a, f), r.to_string(), "F03"); }
    for (t, v) in &m.info { p(format!("reward info {}", t), v.to_string(), "F01"); }
    o
}
/// first difference: (properties, text)
pub fn diff(e: &M, g: &M) -> Option<(String, String)> {
    let (a, z) = (flat(e), flat(g));
    for (k, (v, t)) in &a { let got = z.get(k).map(|x| x.0.clone()); if got.as_ref() != Some(v) { return Some((s(t), format!("{}: expected {}, is {}", k, v, got.unwrap_or(s("missing"))))); } }
    for (k, (v, t)) in &z { if !a.contains_key(k) { return Some((s(t), format!("{}: expected nothing, is {}", k, v))); } }
    None
}
pub fn lim(x: U512, bits: usize) -> Option<U512> { if x.bits() > bits { None } else { Some(x) } }
/// what a farm hands out up to `now` with `total` staked: (undistributed, unclaimed, rps, round); Err: refused; Ok(None): nothing to do
pub fn due(f: &MFarm, total: u128, now: u64) -> Result<Option<(u128, u128, U512, u32)>, ()> {
    if f.st != 1 { return Ok(None); }
    let t0 = f.start as u128 * NS as u128;
    if (now as u128) < t0 { return Ok(None); }
    if f.ival == 0 { return Err(()); }
    let gone = ((now / NS) as u32 - f.start) / f.ival;
    let n = gone.checked_sub(f.rr).ok_or(())?;
    let plan = b(n as u128) * b(f.per);
    if plan.bits() > 128 { return Err(()); }
    let (x, rr) = if plan > b(f.und) { (f.und, b(f.rr as u128) + b(f.und / f.per) + b((f.und % f.per > 0) as u128)) } else { (to128(plan).unwrap(), b(gone as u128)) };
    let rps = if total == 0 { f.rps } else { f.rps + b(x) * b(DENOM) / b(total) };
    Ok(Some((f.und - x, f.uncl.checked_add(x).ok_or(())?, rps, rr.as_u32())))
}
pub fn distribute(f: &mut MFarm, total: u128, now: u64) -> Option<()> {
    if let Some((u, c, r, rr)) = due(f, total, now).ok()? {
        if rr != f.rr {
            f.und = u; f.uncl = c; f.rps = lim(r, 256)?; f.rr = rr;
            if total == 0 { f.claimed = f.claimed.checked_add(f.uncl)?; f.benef = f.benef.checked_add(f.uncl)?; f.uncl = 0; }
        }
        if f.und == 0 { f.st = 2; }
    }
    Some(())
}
pub fn claim(f: &mut MFarm, urps: U512, stake: u128, total: u128, now: u64) -> Option<u128> {
    distribute(f, total, now)?;
    let d = f.rps.checked_sub(urps)?;
    let x = to128(lim(b(stake) * d, 256)? / b(DENOM))?;
    f.uncl = f.uncl.checked_sub(x)?;
    f.claimed = f.claimed.checked_add(x)?;
    Some(x)
}
impl M {
    fn claim_farm(&mut self, a: &str, id: &str, total: u128, now: u64) -> Option<()> {
        let f = self.farms.get_mut(id)?;
        let u = self.users.get_mut(a)?;
        let k = (s(a), s(id));
        let had = self.urps.contains_key(&k);
        let x = claim(f, self.urps.get(&k).cloned().unwrap_or(U512::zero()), u.seeds.get(&f.seed).cloned().unwrap_or(0), total, now)?;
        self.urps.insert(k, f.rps);
        if !had { u.cnt += 1; }
        if x > 0 { let r = u.rew.entry(f.tok.clone()).or_insert(0); *r = r.checked_add(x)?; }
        Some(())
    }
    fn claim_seed(&mut self, a: &str, sd: &str, now: u64) -> Option<()> {
        if !self.users.contains_key(a) { return None; }
        if let Some(x) = self.seeds.get(sd).cloned() { for id in &x.farms { self.claim_farm(a, id, x.amt, now)?; } }
        Some(())
    }
    fn stake(&mut self, a: &str, sd: &str, amt: u128) -> Option<()> {
        let z = self.seeds.get_mut(sd)?;
        z.amt = z.amt.checked_add(amt)?;
        let u = self.users.get_mut(a)?;
        if amt > 0 { let r = u.seeds.entry(s(sd)).or_insert(0); *r = r.checked_add(amt)?; }
        Some(())
    }
    fn usage(&self, a: &str) -> u128 { let u = &self.users[a]; (64 + 16 + 12 + (u.rew.len() + u.seeds.len()) as u128 * (4 + 64 + 16) + u.cnt as u128 * (4 + 1 + 128 + 32)) * BYTE }
    fn fits(&self, a: &str) -> Option<()> { if self.users[a].near >= self.usage(a) && self.users[a].near > 0 { Some(()) } else { None } }
}
/// statements about a reachable state that follow from no single call
fn invariants(m: &M) -> Result<(), String> {
    for (k, v) in &m.seeds {
        let sum = m.users.values().fold(U512::zero(), |x, u| x + b(u.seeds.get(k).cloned().unwrap_or(0)));
        rv_check!("F04", sum == b(v.amt), "total of seed {} is {}, farmers hold {}", k, v.amt, sum);
        for id in &v.farms { rv_check!("F06", m.farms.get(id).map(|f| &f.seed == k).unwrap_or(false), "seed {} lists farm {} that is not there", k, id); }
    }
    for (k, f) in m.farms.iter().chain(m.old.iter()) {
        rv_check!("F01", b(f.total) == b(f.und) + b(f.uncl) + b(f.claimed), "farm {}: {} added, {} undistributed + {} unclaimed + {} claimed", k, f.total, f.und, f.uncl, f.claimed);
        rv_check!("F01", f.benef <= f.claimed, "farm {}: beneficiary {} of {} claimed", k, f.benef, f.claimed);
        rv_check!("F02", b(f.rr as u128) * b(f.per) >= b(f.total - f.und), "farm {}: released {} in {} rounds of {}", k, f.total - f.und, f.rr, f.per);
        rv_check!("F02", f.st < 2 || f.und == 0, "farm {} ended with {} undistributed", k, f.und);
    }
    for (k, f) in &m.farms {
        let mut owed = U512::zero();
        for (a, u) in &m.users {
            let r = m.urps.get(&(a.clone(), k.clone())).cloned().unwrap_or(U512::zero());
            let st = u.seeds.get(&f.seed).cloned().unwrap_or(0);
            rv_check!("F03", r <= f.rps, "farm {}: farmer {} has marker {} beyond {}", k, a, r, f.rps);
            owed = owed + b(st) * (f.rps - r) / b(DENOM);
        }
        rv_check!("F03", owed <= b(f.uncl), "farm {}: owes {} with {} unclaimed", k, owed, f.uncl);
    }
    for t in RTOK.iter() {
        let sum = m.farms.values().chain(m.old.values()).filter(|f| &f.tok == t).fold(U512::zero(), |x, f| x + b(f.total));
        rv_check!("F01", sum == b(m.info.get(*t).cloned().unwrap_or(0)), "reward {} received {:?}, farms got {}", t, m.info.get(*t), sum);
    }
    rv_check!("F06", m.count == m.users.len() as u64, "{} farmers counted, {} registered", m.count, m.users.len());
    Ok(())
}
#[derive(Clone, Debug)] enum Pend { Seed(String, String, u128, bool), Rew(String, String, u128) }
struct H { w: W, pend: Vec<Pend> }
type Sent = Vec<(String, String, u128, String)>; // to, method, amount, receiver
fn sent(rcs: &[Rc]) -> Sent {
    rcs.iter().filter(|r| r.to != ME).map(|r| if r.method.is_empty() { (r.to.clone(), s("near"), r.deposit, r.to.clone()) } else {
        (r.to.clone(), format!("{}{} +{}", r.method, r.args.get("token_id").and_then(|x| x.as_str()).unwrap_or(""), r.deposit), r.args["amount"].as_str().and_then(|x| x.parse().ok()).unwrap_or(u128::MAX), s(r.args["receiver_id"].as_str().unwrap_or("?"))) }).collect()
}
impl H {
    /// runs `f`; `want` is the model's next state with the outgoing transfers (None: must be refused)
    fn run<R: std::fmt::Debug>(&mut self, cx: &mut Cx, tag: &str, what: String, pred: &str, dep: u128, res: Vec<PromiseResult>, want: Option<(M, Sent)>, f: impl FnOnce(&mut Contract) -> R) -> Result<Option<R>, String> {
        let pre = obs(&self.w);
        let r = self.w.callx(pred, dep, res, f);
        let what = format!("{} by {} deposit {}", what, pred, dep);
        cx.note(format!("{} at {} -> {}", what, self.w.e.now, match &r { Ok(x) => format!("{:?}", x), Err(e) => format!("refused: {}", e) }));
        match (r, want) {
            (Err(_), None) => { cx.tried(tag); let post = obs(&self.w); rv_check!(tag, diff(&pre, &post).is_none(), "{}: refused but changed the state", what); Ok(None) }
            (Err(e), Some(_)) => Err(format!("{}|{}: refused: {}", tag, what, e)),
            (Ok(_), None) => Err(format!("{}|{}: accepted, though it must be refused", tag, what)),
            (Ok(x), Some((e, snd))) => {
                let post = obs(&self.w);
                if let Some((t, m)) = diff(&e, &post) { return Err(format!("{}|{}: {}", t, what, m)); }
                let got = sent(&self.w.rcs);
                rv_check!(tag, got == snd, "{}: sends {:?}, expected {:?}", what, got, snd);
                invariants(&post).map_err(|m| { let (t, r) = m.split_once('|').unwrap(); format!("{}|after {}: {}", t, what, r) })?;
                cx.good(tag);
                Ok(Some(x))
            }
        }
    }
}
fn nearout(to: &str, x: u128) -> (String, String, u128, String) { (s(to), s("near"), x, s(to)) }
fn val(p: PromiseOrValue<U128>) -> Option<u128> { match p { PromiseOrValue::Value(v) => Some(v.0), _ => None } }
pub fn history(cx: &mut Cx) -> Result<(), String> {
    let mut h = H { w: W::new("owner"), pend: vec![] };
    let big = *cx.r.pick(&[1000u128, 10u128.pow(12), 10u128.pow(24), 10u128.pow(30)]);
    for a in WHO.iter() { if cx.r.chance(4, 5) { let v = MINREG + cx.r.below(4).min(1) as u128 * MINREG * 4; h.w.call(a, v, |c| c.storage_deposit(None, None)).unwrap(); } }
    let n = if cx.thorough { 120 } else { 70 };
    for k in 0..n {
        let now = h.w.e.now;
        let o = obs(&h.w);
        if o.owner != "owner" && cx.r.chance(1, 3) { let ow = o.owner.clone(); h.w.call(&ow, 0, |c| c.set_owner(va("owner"))).unwrap(); continue; }
        if o.paused && cx.r.chance(1, 3) { let ow = o.owner.clone(); h.w.call(&ow, 1, |c| c.resume_contract()).unwrap(); continue; }
        let who = s(*cx.r.pick(&WHO));
        let known: Vec<String> = o.seeds.keys().cloned().collect();
        let sd = if k >= 3 && !known.is_empty() && cx.r.chance(9, 10) { cx.r.pick(&known).clone() } else { s(SEEDS[if k < 3 { cx.r.below(2) as usize * 2 } else { cx.r.below(4) as usize }]) };
        let ids: Vec<String> = o.farms.keys().chain(o.old.keys()).cloned().collect();
        let mut id = if ids.is_empty() { s("seed.a#0") } else { cx.r.pick(&ids).clone() };
        if cx.r.chance(1, 40) { id = cx.r.pick(&["seed.a#9", "seed.zz#0", "seed.a", "seed.a#0#1"]).to_string(); }
        let yocto = if cx.r.chance(1, 15) { 0 } else { 1 };
        let go = !o.paused;
        if cx.r.chance(1, 2) { h.w.e.now += match cx.r.below(4) { 0 => cx.r.below(NS), 1 => NS * cx.r.below(20), 2 => NS * cx.r.below(400), _ => NS * 60 * cx.r.below(3) }; }
        let now = h.w.e.now.max(now);
        let mut e = o.clone();
        let pickk = if k < 3 { 0 } else if k < 6 { 1 } else { cx.r.below(24) };
        // mostly act on what is there: a farmer's own stake, a reward it holds
        let (who, sd) = {
            let held: Vec<(String, String)> = match pickk { 8 | 9 | 10 | 15 | 16 => o.users.iter().flat_map(|(a, u)| u.seeds.keys().map(move |x| (a.clone(), x.clone()))).collect(), 11 | 12 => o.users.iter().flat_map(|(a, u)| u.rew.keys().map(move |x| (a.clone(), x.clone()))).collect(), 19 => o.users.iter().filter(|x| x.1.rew.is_empty() && x.1.seeds.is_empty()).map(|x| (x.0.clone(), sd.clone())).collect(), _ => vec![] };
            if !held.is_empty() && cx.r.chance(4, 5) { cx.r.pick(&held).clone() } else { (who, sd) }
        };
        if pickk < 4 && pickk > 0 && !o.farms.is_empty() && cx.r.chance(5, 6) { let l: Vec<String> = o.farms.keys().cloned().collect(); id = cx.r.pick(&l).clone(); }
        match pickk {
            0 => {
                let (per, ival) = (1 + cx.r.amt(big / 50), 1 + cx.r.below(120) as u32);
                let start = match cx.r.below(3) { 0 => 0, 1 => (now / NS) as u32 + cx.r.below(300) as u32, _ => (now / NS) as u32 - cx.r.below(300) as u32 };
                let tok = s(*cx.r.pick(&RTOK));
                let min = if big > 1 << 70 && cx.r.chance(1, 3) { None } else { *cx.r.pick(&[Some(U128(1)), Some(U128(50))]) };
                let dep = if cx.r.chance(1, 8) { 0 } else { *cx.r.pick(&[5 * 10u128.pow(23), 10u128.pow(24)]) };
                let caller = if k < 3 || cx.r.chance(4, 5) { o.owner.clone() } else { who.clone() };
                let z = e.seeds.entry(sd.clone()).or_insert(MSeed { min: min.map(|x| x.0).unwrap_or(10u128.pow(18)), mft: sd.contains('@'), ..Default::default() });
                let nid = format!("{}#{}", sd, z.next);
                z.next += 1;
                z.farms.insert(nid.clone());
                e.farms.insert(nid.clone(), MFarm { seed: sd.clone(), tok: tok.clone(), start, per, ival, ..Default::default() });
                let terms = || HRSimpleFarmTerms { seed_id: sd.clone(), reward_token: va(&tok), start_at: start, reward_per_session: U128(per), session_interval: ival };
                let mut f = W { e: Env { storage: h.w.e.storage.clone(), now: h.w.e.now, usage: h.w.e.usage, me: s(ME), balance: h.w.e.balance }, state: h.w.state.clone(), rcs: vec![], logs: vec![] };
                let grown = f.call(&o.owner, 10u128.pow(25), |c| c.create_simple_farm(terms(), min)).map(|_| (f.e.usage - h.w.e.usage) as u128 * BYTE).unwrap_or(0);
                let want = if caller == o.owner && dep >= grown { let back = dep - grown; Some((e, if back > 0 { vec![nearout(&caller, back)] } else { vec![] })) } else { None };
                let r = h.run(cx, "F06", format!("create_simple_farm({},{},start {},{} per {}s)", sd, tok, start, per, ival), &caller, dep, vec![], want, |c| c.create_simple_farm(terms(), min))?;
                if let Some(x) = r { rv_check!("F06", x == nid, "farm {} reported as {}", nid, x); }
            }
            1 | 2 | 3 => {
                // reward comes in
                let tok = match o.farms.get(&id) { Some(f) if cx.r.chance(9, 10) => f.tok.clone(), _ => s(*cx.r.pick(&RTOK)) };
                let per = o.farms.get(&id).map(|f| f.per).unwrap_or(1);
                let amt = if cx.r.chance(1, 2) { per.saturating_mul(1 + cx.r.below(100) as u128) + cx.r.below(2) as u128 } else { 1 + cx.r.amt(big) };
                let want = (|| {
                    if !go { return None; }
                    let f = e.farms.get_mut(&id)?;
                    if f.tok != tok { return None; }
                    match f.st {
                        0 => { f.st = 1; if f.start == 0 { f.start = (now / NS) as u32; } }
                        1 => if let Some((u, ..)) = due(f, DENOM, now).ok()? { if u == 0 { return None; } },
                        _ => return None,
                    }
                    f.total = f.total.checked_add(amt)?;
                    f.und = f.und.checked_add(amt)?;
                    let i = e.info.entry(tok.clone()).or_insert(0);
                    *i = i.checked_add(amt)?;
                    Some((e, vec![]))
                })();
                let r = h.run(cx, "F01,F02", format!("reward ft_on_transfer({},{})", amt, id), &tok, 0, vec![], want, |c| val(c.ft_on_transfer(va(&who), U128(amt), id.clone())))?;
                if let Some(x) = r { rv_check!("F01", x == Some(0), "part of the reward sent back: {:?}", x); }
            }
            4 | 5 | 6 | 7 => {
                let amt = match cx.r.below(4) { 0 => cx.r.amt(60), _ => 1 + cx.r.amt(big) };
                let want = (|| {
                    if !go || amt < o.seeds.get(&sd)?.min { return None; }
                    e.claim_seed(&who, &sd, now)?;
                    e.stake(&who, &sd, amt)?;
                    e.fits(&who)?;
                    Some((e, vec![]))
                })();
                let (con, tid) = if sd.contains('@') { let v: Vec<&str> = sd.split('@').collect(); (s(v[0]), Some(format!(":{}", v[1]))) } else { (sd.clone(), None) };
                let bad = cx.r.chance(1, 40);
                let want = if bad && tid.is_some() { None } else { want };
                let r = h.run(cx, "F04,F03", format!("stake {} of {} for {}", amt, sd, who), &con, 0, vec![], want, |c| match &tid { None => val(c.ft_on_transfer(va(&who), U128(amt), s(""))), Some(t) => val(crate::token_receiver::MFTTokenReceiver::mft_on_transfer(c, if bad { t[1..].to_string() } else { t.clone() }, who.clone(), U128(amt), s(""))) })?;
                if let Some(x) = r { rv_check!("F04", x == Some(0), "part of the stake sent back: {:?}", x); }
            }
            8 | 9 | 10 => {
                let have = o.users.get(&who).and_then(|u| u.seeds.get(&sd)).cloned().unwrap_or(0);
                let amt = match cx.r.below(6) { 0 | 1 | 2 => have, 3 => have.saturating_add(1), _ => cx.r.amt(have) };
                let want = (|| {
                    if !go || yocto != 1 { return None; }
                    e.claim_seed(&who, &sd, now)?;
                    let z = e.seeds.get_mut(&sd)?;
                    let u = e.users.get_mut(&who)?;
                    let x = u.seeds.get(&sd)?.checked_sub(amt)?;
                    z.amt = z.amt.checked_sub(amt)?;
                    if x == 0 {
                        u.seeds.remove(&sd);
                        for f in &z.farms { if e.urps.remove(&(who.clone(), f.clone())).is_some() { u.cnt = u.cnt.saturating_sub(1); } }
                    } else { u.seeds.insert(sd.clone(), x); }
                    let v: Vec<&str> = sd.split('@').collect();
                    let t = if v.len() == 2 { (s(v[0]), format!("mft_transfer:{} +1", v[1]), amt, who.clone()) } else { (sd.clone(), s("ft_transfer +1"), amt, who.clone()) };
                    Some((e, vec![t]))
                })();
                let mft = sd.contains('@');
                let r = h.run(cx, "F04,F03", format!("withdraw_seed({},{})", sd, amt), &who, yocto, vec![], want, |c| { c.withdraw_seed(sd.clone(), U128(amt)); })?;
                if r.is_some() {
                    h.pend.push(Pend::Seed(sd.clone(), who.clone(), amt, mft));
                    let cb: Vec<&Rc> = h.w.rcs.iter().filter(|r| r.to == ME).collect();
                    rv_check!("F04", cb.len() == 1 && cb[0].deps == 1 && cb[0].method == if mft { "callback_post_withdraw_mft_seed" } else { "callback_post_withdraw_ft_seed" } && cb[0].args["sender_id"] == who.as_str() && cb[0].args["seed_id"] == sd.as_str() && cb[0].args["amount"] == amt.to_string().as_str(), "withdrawal of {} {} continues with {:?}", amt, sd, cb);
                }
            }
            11 | 12 => {
                let tok = if RTOK.contains(&sd.as_str()) { sd.clone() } else { s(*cx.r.pick(&RTOK)) };
                let have = o.users.get(&who).and_then(|u| u.rew.get(&tok)).cloned();
                let h0 = have.unwrap_or(0);
                let amt = match cx.r.below(6) { 0 => None, 1 => Some(0), 2 => Some(h0), 3 => Some(h0 + 1), _ => Some(cx.r.amt(h0)) };
                let mut x = amt.unwrap_or(0);
                let want = (|| {
                    if !go || yocto != 1 { return None; }
                    let u = e.users.get_mut(&who)?;
                    let v = *u.rew.get(&tok)?;
                    if x > v { return None; }
                    if x == 0 { x = v; u.rew.remove(&tok); } else { u.rew.insert(tok.clone(), v - x); }
                    Some((e, vec![(tok.clone(), s("ft_transfer +1"), x, who.clone())]))
                })();
                let r = h.run(cx, "F05", format!("withdraw_reward({},{:?})", tok, amt), &who, yocto, vec![], want, |c| { c.withdraw_reward(va(&tok), amt.map(U128)); })?;
                if r.is_some() {
                    h.pend.push(Pend::Rew(tok.clone(), who.clone(), x));
                    let cb: Vec<&Rc> = h.w.rcs.iter().filter(|r| r.to == ME).collect();
                    rv_check!("F05", cb.len() == 1 && cb[0].deps == 1 && cb[0].method == "callback_post_withdraw_reward" && cb[0].args["sender_id"] == who.as_str() && cb[0].args["token_id"] == tok.as_str() && cb[0].args["amount"] == x.to_string().as_str(), "withdrawal of {} {} continues with {:?}", x, tok, cb);
                }
            }
            13 | 14 => {
                if h.pend.is_empty() { continue; }
                let p = h.pend.swap_remove(cx.r.below(h.pend.len() as u64) as usize);
                let fail = cx.r.chance(2, 3);
                let res = || vec![if fail { PromiseResult::Failed } else { PromiseResult::Successful(vec![]) }];
                if cx.r.chance(1, 20) {
                    // no or two results: never taken for an outcome
                    let rs = if cx.r.chance(1, 2) { vec![] } else { vec![PromiseResult::Failed, PromiseResult::Failed] };
                    match &p {
                        Pend::Seed(sd, a, x, mft) => { h.run(cx, "F04", format!("callback for {:?} with {} results", p, rs.len()), ME, 0, rs, None, |c| if *mft { c.callback_post_withdraw_mft_seed(sd.clone(), a.clone(), U128(*x)) } else { c.callback_post_withdraw_ft_seed(sd.clone(), a.clone(), U128(*x)) })?; }
                        Pend::Rew(t, a, x) => { h.run(cx, "F05", format!("callback for {:?} with {} results", p, rs.len()), ME, 0, rs, None, |c| c.callback_post_withdraw_reward(t.clone(), a.clone(), U128(*x)))?; }
                    }
                    h.pend.push(p);
                    continue;
                }
                match p {
                    Pend::Seed(sd, a, x, mft) => {
                        let want = if !fail { Some((e, vec![])) } else { (|| { e.claim_seed(&a, &sd, now)?; e.stake(&a, &sd, x)?; Some((e, vec![])) })() };
                        let r = h.run(cx, "F04,F03", format!("callback withdraw seed {} {} {} failed={}", sd, a, x, fail), ME, 0, res(), want, |c| if mft { c.callback_post_withdraw_mft_seed(sd.clone(), a.clone(), U128(x)) } else { c.callback_post_withdraw_ft_seed(sd.clone(), a.clone(), U128(x)) }.0)?;
                        if let Some(v) = r { rv_check!("F04", v == if fail { 0 } else { x }, "callback reports {} of {}", v, x); }
                    }
                    Pend::Rew(t, a, x) => {
                        let want = if !fail { Some((e, vec![])) } else { (|| { let u = e.users.get_mut(&a)?; let r = u.rew.entry(t.clone()).or_insert(0); *r = r.checked_add(x)?; Some((e, vec![])) })() };
                        let r = h.run(cx, "F05", format!("callback withdraw reward {} {} {} failed={}", t, a, x, fail), ME, 0, res(), want, |c| c.callback_post_withdraw_reward(t.clone(), a.clone(), U128(x)).0)?;
                        if let Some(v) = r { rv_check!("F05", v == if fail { 0 } else { x }, "callback reports {} of {}", v, x); }
                    }
                }
            }
            15 | 16 => {
                let by_seed = cx.r.chance(1, 2);
                let parts: Vec<&str> = id.split('#').collect();
                let want = (|| {
                    if !go || !o.users.contains_key(&who) { return None; }
                    if by_seed { e.claim_seed(&who, &sd, now)?; } else {
                        if parts.len() != 2 { return None; }
                        if let (Some(z), true) = (o.seeds.get(parts[0]), o.farms.contains_key(&id)) { e.claim_farm(&who, &id, z.amt, now)?; }
                    }
                    e.fits(&who)?;
                    Some((e, vec![]))
                })();
                if !by_seed && o.users.contains_key(&who) && o.farms.contains_key(&id) {
                    let v = h.w.view(|c| c.get_unclaimed_reward(va(&who), id.clone()).0);
                    let f = &o.farms[&id];
                    let stake = o.users[&who].seeds.get(&f.seed).cloned().unwrap_or(0);
                    let (tot, r) = (o.seeds[&f.seed].amt, o.urps.get(&(who.clone(), id.clone())).cloned().unwrap_or(U512::zero()));
                    let mut g = f.clone();
                    if let (Ok(v), Some(x)) = (v, claim(&mut g, r, stake, tot, now)) { rv_check!("F03", v == x, "view promises {} {} of farm {}, a claim pays {}", who, v, id, x); }
                }
                h.run(cx, "F03,F01", format!("claim {}", if by_seed { &sd } else { &id }), &who, 0, vec![], want, |c| if by_seed { c.claim_reward_by_seed(sd.clone()) } else { c.claim_reward_by_farm(id.clone()) })?;
            }
            17 => {
                let to = s(*cx.r.pick(&WHO));
                let amt = *cx.r.pick(&[0, MINREG - 1, MINREG, MINREG + 1, MINREG / 2, MINREG * 4]);
                let only = *cx.r.pick(&[None, Some(true), Some(false)]);
                let mut snd: Sent = vec![];
                let want = (|| {
                    if !go { return None; }
                    if let Some(near) = o.users.get(&to).map(|u| u.near) {
                        if only == Some(true) || amt + near < o.usage(&to) { return None; }
                        e.users.get_mut(&to)?.near += amt;
                    } else {
                        if amt < MINREG { return None; }
                        let keep = if only == Some(true) { MINREG } else { amt };
                        if amt > keep { snd.push(nearout(&who, amt - keep)); }
                        e.users.insert(to.clone(), MUser { near: keep, ..Default::default() });
                        e.count += 1;
                    }
                    Some((e, snd))
                })();
                let r = h.run(cx, "F06", format!("storage_deposit({},{:?})", to, only), &who, amt, vec![], want, |c| { let x = c.storage_deposit(Some(va(&to)), only); (x.total.0, x.available.0) })?;
                if let Some(x) = r { let m = obs(&h.w); rv_check!("F06", x == (m.users[&to].near, m.users[&to].near.saturating_sub(m.usage(&to))), "storage_deposit reports {:?}", x); }
            }
            18 => {
                let free = o.users.get(&who).map(|u| u.near.saturating_sub(o.usage(&who))).unwrap_or(0);
                let amt = match cx.r.below(4) { 0 => None, 1 => Some(free), 2 => Some(free + 1), _ => Some(cx.r.amt(free)) };
                let want = (|| {
                    if !go || yocto != 1 { return None; }
                    let us = if o.users.contains_key(&who) { o.usage(&who) } else { return None };
                    let u = e.users.get_mut(&who)?;
                    let fr = u.near.checked_sub(us)?;
                    let x = amt.unwrap_or(fr);
                    if x > fr { return None; }
                    u.near -= x;
                    Some((e, vec![nearout(&who, x)]))
                })();
                h.run(cx, "F06", format!("storage_withdraw({:?})", amt), &who, yocto, vec![], want, |c| { let x = c.storage_withdraw(amt.map(U128)); (x.total.0, x.available.0) })?;
            }
            19 => {
                let force = *cx.r.pick(&[None, Some(true), Some(false)]);
                let want = (|| {
                    if !go || yocto != 1 { return None; }
                    match o.users.get(&who) {
                        None => Some((e, vec![])),
                        Some(u) => { if !u.rew.is_empty() || !u.seeds.is_empty() { return None; } e.users.remove(&who); e.count -= 1; Some((e, vec![nearout(&who, u.near)])) }
                    }
                })();
                h.run(cx, "F06", format!("storage_unregister({:?})", force), &who, yocto, vec![], want, |c| c.storage_unregister(force))?;
            }
            20 => {
                let parts: Vec<&str> = id.split('#').collect();
                let want = (|| {
                    if !go || parts.len() != 2 || !o.users.contains_key(&who) { return None; }
                    let z = o.seeds.get(parts[0])?;
                    if !z.farms.contains(&id) && e.urps.remove(&(who.clone(), id.clone())).is_some() { let u = e.users.get_mut(&who)?; u.cnt = u.cnt.saturating_sub(1); }
                    Some((e, vec![]))
                })();
                h.run(cx, "F06,F03", format!("remove_user_rps_by_farm({})", id), &who, 0, vec![], want, |c| c.remove_user_rps_by_farm(id.clone()))?;
            }
            21 => {
                let caller = if cx.r.chance(4, 5) { o.owner.clone() } else { who.clone() };
                let parts: Vec<&str> = id.split('#').collect();
                let mut done = false;
                let want = (|| {
                    if caller != o.owner || parts.len() != 2 { return None; }
                    if let (Some(z), Some(f)) = (o.seeds.get(parts[0]), o.farms.get(&id)) {
                        let over = f.st == 2 || f.st == 1 && match due(f, z.amt, now) { Ok(Some((u, ..))) => u == 0, Ok(None) => false, Err(()) => return None };
                        if over {
                            done = true;
                            let mut g = e.farms.remove(&id)?;
                            distribute(&mut g, z.amt, now)?;
                            g.st = 3;
                            g.claimed = g.claimed.checked_add(g.uncl)?;
                            g.benef = g.benef.checked_add(g.uncl)?;
                            g.uncl = 0;
                            e.old.insert(id.clone(), g);
                            e.seeds.get_mut(parts[0])?.farms.remove(&id);
                        }
                    }
                    Some((e, vec![]))
                })();
                let r = h.run(cx, "F06", format!("force_clean_farm({})", id), &caller, 0, vec![], want, |c| c.force_clean_farm(id.clone()))?;
                if let Some(x) = r { rv_check!("F06", x == done, "force_clean_farm reports {}", x); }
            }
            22 => {
                let caller = if cx.r.chance(2, 3) { o.owner.clone() } else { who.clone() };
                let ok = caller == o.owner;
                match cx.r.below(4) {
                    0 => { e.owner = who.clone(); h.run(cx, "F06", format!("set_owner({})", who), &caller, 0, vec![], if ok { Some((e, vec![])) } else { None }, |c| c.set_owner(va(&who)))?; }
                    1 => { let v = cx.r.amt(100); let want = if ok && e.seeds.contains_key(&sd) { e.seeds.get_mut(&sd).unwrap().min = v; Some((e, vec![])) } else { None }; h.run(cx, "F06", format!("modify_seed_min_deposit({},{})", sd, v), &caller, 0, vec![], want, |c| c.modify_seed_min_deposit(sd.clone(), U128(v)))?; }
                    2 => { e.paused = true; h.run(cx, "F06", s("pause_contract"), &caller, yocto, vec![], if ok && yocto == 1 { Some((e, vec![])) } else { None }, |c| c.pause_contract())?; }
                    _ => { e.paused = false; h.run(cx, "F06", s("resume_contract"), &caller, yocto, vec![], if ok && yocto == 1 { Some((e, vec![])) } else { None }, |c| c.resume_contract())?; }
                }
            }
            _ => { h.w.e.now += NS * cx.r.below(1000); }
        }
    }
    Ok(())
}
/// one farm, driven directly, extreme numbers
pub fn farm_case(cx: &mut Cx) -> Result<(), String> {
    let w = W::new("owner");
    let mut now = 1_000_000u64 * NS + cx.r.below(NS);
    let per = 1 + cx.r.bits(126);
    let ival = 1 + cx.r.below(100) as u32;
    let start = *cx.r.pick(&[0u32, 900_000, 1_000_000, 1_000_100]);
    let tm = crate::simple_farm::SimpleFarmTerms { seed_id: s("seed.a"), reward_token: s("rew.a"), start_at: start, reward_per_session: per, session_interval: ival };
    let env = |now: u64| { let e = Env { storage: Default::default(), now, usage: 1, me: s(ME), balance: 10u128.pow(30) }; set_env(&e, Default::default(), "x", 0, vec![]); };
    env(now);
    let mut f = Farm::SimpleFarm(crate::simple_farm::SimpleFarm::new(s("seed.a#0"), tm));
    let mut st: Vec<(u128, U512)> = vec![(0, U512::zero()); 3];
    let _ = &w;
    for _ in 0..25 {
        now += match cx.r.below(3) { 0 => cx.r.below(NS), 1 => NS * cx.r.below(ival as u64 + 2), _ => NS * cx.r.below(1000) };
        env(now);
        let pre = mf(&f);
        let total: u128 = st.iter().map(|x| x.0).sum();
        let bytes = near_sdk::borsh::BorshSerialize::try_to_vec(&f).unwrap();
        let back = |f: &mut Farm| *f = near_sdk::borsh::BorshDeserialize::try_from_slice(&bytes).unwrap();
        let mut e = pre.clone();
        match cx.r.below(6) {
            0 => {
                let amt = cx.r.amt(u128::MAX >> 1);
                let want = (|| {
                    match e.st { 0 => { e.st = 1; if e.start == 0 { e.start = (now / NS) as u32; } } 1 => if let Some((u, ..)) = due(&e, DENOM, now).ok()? { if u == 0 { return Some(false); } }, _ => return Some(false) }
                    e.total = e.total.checked_add(amt)?;
                    e.und = e.und.checked_add(amt)?;
                    Some(true)
                })();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.add_reward(&amt)));
                cx.note(format!("add_reward {} at {} -> {:?}", amt, now, r.as_ref().ok()));
                match (r, want) {
                    (Err(_), None) => { back(&mut f); continue; }
                    (Ok(Some(x)), Some(true)) => rv_check!("F01", x == e.und, "add_reward reports {}", x),
                    (Ok(None), Some(false)) => {}
                    (r, w) => return Err(format!("F01,F02|add_reward({}) gives {:?}, expected {:?} (state {:?})", amt, r.ok(), w, pre)),
                }
            }
            1 => { now += NS * ival as u64; continue; }
            k => {
                let i = cx.r.below(3) as usize;
                let (stake, ur) = st[i];
                let v = if total > 0 && stake > 0 { std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut z = [0u8; 32]; let mut q = [0u8; 64]; ur.to_little_endian(&mut q); z.copy_from_slice(&q[..32]); f.view_farmer_unclaimed_reward(&z, &stake, &total) })).ok() } else { Some(0) };
                let want = claim(&mut e, ur, stake, total, now);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut z = [0u8; 32]; let mut q = [0u8; 64]; ur.to_little_endian(&mut q); z.copy_from_slice(&q[..32]); f.claim_user_reward(&z, &stake, &total, true) }));
                cx.note(format!("claim by {} stake {} of {} at {} -> {:?}", i, stake, total, now, r.as_ref().ok().map(|x| x.1)));
                match (r, want) {
                    (Err(_), None) => { back(&mut f); continue; }
                    (Ok((rps, x)), Some(y)) => {
                        rv_check!("F03", x == y && U512::from_little_endian(&rps) == e.rps, "claim pays {}, expected {} (state {:?})", x, y, pre);
                        rv_check!("F03", v == Some(x), "view promised {:?}, claim pays {}", v, x);
                        st[i].1 = e.rps;
                    }
                    (r, w) => return Err(format!("F01,F02,F03|claim gives {:?}, expected {:?} (state {:?})", r.ok().map(|x| x.1), w, pre)),
                }
                if k > 3 { st[i].0 = cx.r.amt(u128::MAX >> 3); }
            }
        }
        let got = mf(&f);
        let one = |x: &MFarm| M { farms: vec![(s("f"), x.clone())].into_iter().collect(), ..Default::default() };
        if let Some((t, m)) = diff(&one(&e), &one(&got)) { return Err(format!("{}|at {}: {} (before {:?})", t, now, m, pre)); }
        rv_check!("F01", b(got.total) == b(got.und) + b(got.uncl) + b(got.claimed), "{} added, {} undistributed + {} unclaimed + {} claimed", got.total, got.und, got.uncl, got.claimed);
        let owed = st.iter().fold(U512::zero(), |x, (k, r)| x + b(*k) * (got.rps - *r) / b(DENOM));
        rv_check!("F03", owed <= b(got.uncl), "owes {} with {} unclaimed", owed, got.uncl);
        cx.good("F01,F02,F03");
    }
    Ok(())
}
