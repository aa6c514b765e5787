// constant-product pool against an independent integer model
use super::base::*;
use super::world::*;
use crate::admin_fee::AdminFees;
use crate::pool::Pool;
use crate::simple_pool::SimplePool;
use crate::*;
use std::collections::BTreeMap;

pub static TESTS: &[Test] = &[
    Test { props: &["P01", "P02", "P03", "P04", "P05", "P06", "P23"], name: "simple_pool_model", f: model_case, quick: 60000, thorough: 2000000 },
    Test { props: &["P01", "P02", "P03", "P04", "P05", "P06", "P23"], name: "simple_pool_history", f: history_case, quick: 12000, thorough: 400000 },
];

#[derive(Clone, Debug, PartialEq)]
pub struct M { pub a: [u128; 2], pub sup: u128, pub sh: BTreeMap<String, u128>, pub fee: u32 }
pub const TOK: [&str; 2] = ["tok.a", "tok.b"];
const WHO: [&str; 6] = ["alice", "bob", "carol", "dave", ME, "referrer"];

pub fn read(p: &SimplePool) -> M {
    let mut sh = BTreeMap::new();
    for w in WHO.iter() { if p.shares.contains_key(&s(w)) { sh.insert(s(w), p.shares.get(&s(w)).unwrap()); } }
    M { a: [p.amounts[0], p.amounts[1]], sup: p.shares_total_supply, sh, fee: p.total_fee }
}
fn sp(p: &Pool) -> &SimplePool { match p { Pool::SimplePool(x) => x, _ => panic!("kind") } }
pub struct Fee { pub bps: u32, pub refd: Option<(String, u32)> }
impl Fee {
    pub fn mk(&self) -> AdminFees { AdminFees { admin_fee_bps: self.bps, exchange_id: s(ME), referral_info: self.refd.clone() } }
}
fn need(c: bool) -> Option<()> { if c { Some(()) } else { None } }
fn idx(t: &str) -> Option<usize> { TOK.iter().position(|x| *x == t) }

impl M {
    fn credit(&mut self, who: &str, n: u128) -> Option<()> {
        if n == 0 { return Some(()); }
        self.sup = self.sup.checked_add(n)?;
        *self.sh.entry(s(who)).or_insert(0) += n;
        Some(())
    }
    /// the largest out with (a_in*D + in*(D-fee)) * (a_out - out) >= a_in*D*a_out
    pub fn quote(&self, i: usize, o: usize, din: u128) -> Option<u128> {
        need(self.a[i] > 0 && self.a[o] > 0 && i != o && din > 0)?;
        let d = 10_000u128;
        let eff = b(din) * b(d - self.fee as u128);
        let base = b(self.a[i]) * b(d);
        let keep = (base * b(self.a[o]) + (base + eff) - U512::one()) / (base + eff);
        to128(b(self.a[o]) - keep)
    }
    fn fees(&mut self, i: usize, o: usize, din: u128, dout: u128, f: &Fee) -> Option<()> {
        let before = isqrt(b(self.a[i]) * b(self.a[o]));
        self.a[i] = self.a[i].checked_add(din)?;
        self.a[o] = self.a[o].checked_sub(dout)?;
        let after = isqrt(b(self.a[i]) * b(self.a[o]));
        need(after >= before)?;
        if f.bps == 0 { return Some(()); }
        let num = (after - before) * b(self.sup);
        if num.is_zero() { return Some(()); }
        let adm = to128(num / (before * b(10_000) / b(f.bps as u128)))?;
        let mut r = 0;
        if let Some((id, bps)) = &f.refd { if self.sh.contains_key(id) { r = to128(b(adm) * b(*bps as u128) / b(10_000))?; } }
        if r > 0 { let id = f.refd.as_ref().unwrap().0.clone(); self.credit(&id, r)?; }
        self.credit(ME, adm.checked_sub(r)?)
    }
    pub fn swap(&mut self, i: &str, din: u128, o: &str, min: u128, f: &Fee) -> Option<u128> {
        need(i != o)?;
        let (i, o) = (idx(i)?, idx(o)?);
        let out = self.quote(i, o, din)?;
        need(out >= min)?;
        self.fees(i, o, din, out, f)?;
        Some(out)
    }
    pub fn swap_out(&mut self, i: &str, dout: u128, o: &str, max: Option<u128>, f: &Fee) -> Option<u128> {
        need(i != o)?;
        let (i, o) = (idx(i)?, idx(o)?);
        need(self.a[i] > 0 && self.a[o] > dout && dout > 0)?;
        let d = 10_000u128;
        let n = b(self.a[i]) * b(dout) * b(d);
        let q = b(self.a[o] - dout) * b(d - self.fee as u128);
        let din = to128(n / q + U512::one())?;
        if let Some(m) = max { need(din <= m)?; }
        self.fees(i, o, din, dout, f)?;
        Some(din)
    }
    pub fn add(&mut self, who: &str, am: &mut [u128; 2]) -> Option<u128> {
        need(am[0] > 0 && am[1] > 0)?;
        let n = if self.sup > 0 {
            need(self.a[0] > 0 && self.a[1] > 0)?;
            let q = |k: usize| b(am[k] - 1) * b(self.sup) / b(self.a[k]);
            let fair = std::cmp::min(q(0), q(1));
            for k in 0..2 {
                let x = to128(b(self.a[k]) * fair / b(self.sup))?.checked_add(1)?;
                self.a[k] = self.a[k].checked_add(x)?;
                am[k] = x;
            }
            to128(fair)?
        } else {
            for k in 0..2 { self.a[k] = self.a[k].checked_add(am[k])?; }
            10u128.pow(24)
        };
        need(n > 0)?;
        self.credit(who, n)?;
        Some(n)
    }
    pub fn remove(&mut self, who: &str, n: u128, min: &[u128]) -> Option<Vec<u128>> {
        let own = *self.sh.get(who)?;
        need(own >= n && self.sup > 0 && min.len() == 2)?;
        self.sh.insert(s(who), own - n);
        let mut out = vec![];
        for k in 0..2 {
            let x = to128(b(self.a[k]) * b(n) / b(self.sup))?;
            need(x >= min[k])?;
            self.a[k] = self.a[k].checked_sub(x)?;
            out.push(x);
        }
        self.sup = self.sup.checked_sub(n)?;
        Some(out)
    }
}

pub fn fee_of(r: &mut Rng) -> Fee {
    Fee { bps: *r.pick(&[0, 1, 30, 2000, 5000, 9999, 10000]), refd: match r.below(4) { 0 => None, 1 => Some((s("referrer"), *r.pick(&[0, 1, 100, 5000, 10000]))), 2 => Some((s("stranger"), 100)), _ => Some((s("bob"), r.below(10001) as u32)) } }
}
pub fn mk(m: &M, id: u32) -> Pool {
    let mut p = SimplePool::new(id, vec![va(TOK[0]), va(TOK[1])], 30);
    p.total_fee = m.fee;
    p.amounts = vec![m.a[0], m.a[1]];
    p.shares_total_supply = m.sup;
    for (k, v) in &m.sh { p.shares.insert(k, v); }
    Pool::SimplePool(p)
}
fn rnd_model(r: &mut Rng) -> M {
    let big = *r.pick(&[u128::MAX, u128::MAX >> 8, 10u128.pow(30), 10u128.pow(33), 10u128.pow(12), 1000]);
    let mut sh = BTreeMap::new();
    let mut sup = 0u128;
    let ms = *r.pick(&[u128::MAX, 10u128.pow(30), 10u128.pow(24), 10u128.pow(6)]);
    for w in WHO.iter() {
        if r.chance(1, 3) { continue; }
        let v = if r.chance(1, 4) { 0 } else { r.amt(ms) };
        if let Some(x) = sup.checked_add(v) { sup = x; sh.insert(s(w), v); }
    }
    let a = if sup == 0 { [0, 0] } else { [r.amt(big).max(1), r.amt(big).max(1)] };
    M { a, sup, sh, fee: *r.pick(&[0, 1, 5, 30, 100, 2000, 9999]) }
}
/// value per existing share: new_sqrt/new_sup >= old_sqrt/old_sup, compared on squares with 1 unit of root rounding
fn same(cx: &mut Cx, tag: &str, p: &Pool, m: &M, what: &str) -> Result<(), String> {
    let g = read(sp(p));
    cx.note(format!("state {:?}", g));
    rv_check!(tag, g.a == m.a, "{}: reserves {:?}, expected {:?}", what, g.a, m.a);
    rv_check!(format!("{},P06", tag), g.sup == m.sup, "{}: supply {}, expected {}", what, g.sup, m.sup);
    rv_check!(format!("{},P06", tag), g.sh == m.sh, "{}: share ledger {:?}, expected {:?}", what, g.sh, m.sh);
    let tot: u128 = g.sh.values().fold(0u128, |x, y| x.saturating_add(*y));
    rv_check!("P06", tot == g.sup, "{}: shares add up to {}, supply {}", what, tot, g.sup);
    rv_check!(tag, g.fee == m.fee, "{}: fee changed", what);
    Ok(())
}
fn op(cx: &mut Cx, p: &mut Pool, m: &mut M, wild: bool) -> Result<(), String> {
    let who = s(*cx.r.pick(&WHO[..4]));
    let bytes = p.try_to_vec().unwrap();
    let ticks = cx.r.below(9);
    let want = |cx: &Cx, t: &str| cx.prop == t;
    let k = if want(cx, "P01") || want(cx, "P02") { *cx.r.pick(&[0u64, 0, 0, 0, 2, 3, 4]) } else if want(cx, "P03") { *cx.r.pick(&[1u64, 1, 1, 0, 2, 3]) } else if want(cx, "P04") { *cx.r.pick(&[2u64, 2, 2, 0, 3]) } else if want(cx, "P05") { *cx.r.pick(&[3u64, 3, 0, 2]) } else { ticks };
    let f = fee_of(&mut cx.r);
    let (ti, to) = if cx.r.chance(1, 25) { (*cx.r.pick(&[TOK[0], TOK[1], "tok.x"]), *cx.r.pick(&[TOK[0], TOK[1], "tok.x"])) } else if cx.r.chance(1, 2) { (TOK[0], TOK[1]) } else { (TOK[1], TOK[0]) };
    let ii = idx(ti).unwrap_or(0);
    let oi = idx(to).unwrap_or(0);
    let mut n = m.clone();
    // 256-bit intermediates may overflow above 2^110; the call is then refused
    let lim = 1u128 << 110;
    let mut huge = m.a[0] > lim || m.a[1] > lim || m.sup > lim;
    let near = |r: &mut Rng, base: u128| -> u128 { if base == 0 { return r.amt(10u128.pow(30)); } match r.below(4) { 0 => r.range(0, base), 1 => base / (1 + r.below(1_000_000) as u128), 2 => base.saturating_add(r.bits(20)), _ => r.bits(60).min(base) } };
    match k {
        0 => {
            let din = if wild { cx.r.amt(u128::MAX) } else { near(&mut cx.r, m.a[ii]) };
            huge = huge || din > lim;
            let q = idx(ti).and_then(|i| idx(to).and_then(|o| m.quote(i, o, din)));
            let min = match cx.r.below(6) { 0 => q.unwrap_or(0).saturating_add(1), 1 => q.unwrap_or(0), 2 => cx.r.amt(u128::MAX), _ => 0 };
            let e = n.swap(ti, din, to, min, &f);
            let what = format!("swap {} of {} for {} min {} fee {:?}/{:?}", din, ti, to, min, f.bps, f.refd);
            cx.note(what.clone());
            let vw = if want(cx, "P23") && q.is_some() { tryit(|| { let mut c = Pool::try_from_slice(&bytes).unwrap(); c.swap(&s(ti), din, &s(to), min, f.mk(), true) }).ok() } else { None };
            let g = atomic(|| p.swap(&s(ti), din, &s(to), min, f.mk(), false));
            match (&e, &g) {
                (Some(x), Ok(y)) => {
                    rv_check!("P01", x == y, "{}: paid {}, formula allows {}", what, y, x);
                    if want(cx, "P23") { rv_check!("P23", vw == Some(*y), "{}: predicted {:?}, executed {}", what, vw, y); }
                    rv_check!("P01", *y >= min, "{}: below minimum", what);
                    let (o, w) = (read(sp(p)), &*m);
                    rv_check!("P01", b(o.a[0]) * b(o.a[1]) >= b(w.a[0]) * b(w.a[1]), "{}: product fell", what);
                    cx.good("P01,P23");
                    if n.sup > m.sup { cx.good("P02,P06") } else { cx.tried("P02,P06") }
                    let g = read(sp(p));
                    rv_check!("P01", g.a == n.a, "{}: reserves {:?}, expected {:?}", what, g.a, n.a);
                    same(cx, "P02", p, &n, &what)?;
                    *m = n;
                }
                (None, Err(_)) => { cx.tried("P01,P02"); *p = Pool::try_from_slice(&bytes).unwrap(); same(cx, "P01", p, m, &what)?; }
                (Some(_), Err(_)) if huge => { cx.tried("P01"); *p = Pool::try_from_slice(&bytes).unwrap(); }
                (Some(x), Err(er)) => rv_check!("P01", false, "{}: refused with {}, should pay {}", what, er, x),
                (None, Ok(y)) => rv_check!("P01", false, "{}: paid {} where the call must fail", what, y),
            }
        }
        1 => {
            let dout = if wild { cx.r.amt(u128::MAX) } else { let r = near(&mut cx.r, m.a[oi]); if cx.r.chance(1, 10) { m.a[oi].saturating_sub(1 + cx.r.below(2) as u128) } else { r } };
            huge = huge || dout > lim;
            let mut t = m.clone();
            let q = t.swap_out(ti, dout, to, None, &Fee { bps: 0, refd: None }).unwrap_or(0);
            let max = match cx.r.below(4) { 0 => Some(q), 1 => Some(q.saturating_sub(1)), 2 => None, _ => Some(u128::MAX) };
            let e = n.swap_out(ti, dout, to, max, &f);
            let what = format!("exact-output swap {} for {} of {} max {:?} fee {:?}/{:?}", ti, dout, to, max, f.bps, f.refd);
            cx.note(what.clone());
            let vw = if want(cx, "P23") { tryit(|| { let mut c = Pool::try_from_slice(&bytes).unwrap(); c.swap_by_output(&s(ti), dout, &s(to), max, f.mk(), true) }).ok() } else { None };
            let g = atomic(|| p.swap_by_output(&s(ti), dout, &s(to), max, f.mk(), false));
            match (&e, &g) {
                (Some(x), Ok(y)) => {
                    // (a_in*D + y*(D-fee)) * (a_out - dout) >= a_in*D*a_out
                    let d = 10_000u128;
                    rv_check!("P03", (b(m.a[ii]) * b(d) + b(*y) * b(d - m.fee as u128)) * b(m.a[oi] - dout) >= b(m.a[ii]) * b(d) * b(m.a[oi]), "{}: charged {}, not enough", what, y);
                    rv_check!("P03", x == y, "{}: charged {}, formula says {}", what, y, x);
                    if let Some(mx) = max { rv_check!("P03", *y <= mx, "{}: charged {} above maximum", what, y); }
                    if want(cx, "P23") { rv_check!("P23", vw == Some(*y), "{}: predicted {:?}, executed {}", what, vw, y); }
                    cx.good("P03,P06,P23");
                    if n.sup > m.sup { cx.good("P02") } else { cx.tried("P02") }
                    let g = read(sp(p));
                    rv_check!("P03", g.a == n.a, "{}: reserves {:?}, expected {:?}", what, g.a, n.a);
                    same(cx, "P02", p, &n, &what)?;
                    *m = n;
                }
                (None, Err(_)) => { cx.tried("P03"); *p = Pool::try_from_slice(&bytes).unwrap(); same(cx, "P03", p, m, &what)?; }
                (Some(_), Err(_)) if huge => { cx.tried("P03"); *p = Pool::try_from_slice(&bytes).unwrap(); }
                (Some(x), Err(er)) => rv_check!("P03", false, "{}: refused with {}, should charge {}", what, er, x),
                (None, Ok(y)) => rv_check!("P03", false, "{}: charged {} where the call must fail", what, y),
            }
        }
        2 => {
            let mut am = if wild { [cx.r.amt(u128::MAX), cx.r.amt(u128::MAX)] } else { [near(&mut cx.r, m.a[0]), near(&mut cx.r, m.a[1])] };
            if cx.r.chance(1, 3) && m.a[0] > 0 { am[1] = to128(fdiv(am[0], m.a[1], m.a[0])).unwrap_or(am[1]); }
            let off = am;
            huge = huge || am[0] > lim || am[1] > lim;
            let e = n.add(&who, &mut am);
            let what = format!("{} adds liquidity {:?}", who, off);
            cx.note(what.clone());
            let mut taken = off.to_vec();
            let vw = if want(cx, "P23") { tryit(|| { let mut c = Pool::try_from_slice(&bytes).unwrap(); c.add_liquidity(&who, &mut off.to_vec(), true) }).ok() } else { None };
            let g = atomic(|| p.add_liquidity(&who, &mut taken, false));
            match (&e, &g) {
                (Some(x), Ok(y)) => {
                    for k in 0..2 {
                        rv_check!("P04", taken[k] <= off[k], "{}: took {} of {} offered", what, taken[k], off[k]);
                        if m.sup > 0 { rv_check!("P04", b(taken[k]) * b(m.sup) >= b(*y) * b(m.a[k]), "{}: {} shares for {} dilute", what, y, taken[k]); }
                    }
                    rv_check!("P04", x == y && taken == am.to_vec(), "{}: {} shares for {:?}, expected {} for {:?}", what, y, taken, x, am);
                    if want(cx, "P23") { rv_check!("P23", vw == Some(*y), "{}: predicted {:?}, executed {}", what, vw, y); }
                    cx.good("P04,P06,P23");
                    same(cx, "P04", p, &n, &what)?;
                    *m = n;
                }
                (None, Err(_)) => { cx.tried("P04"); *p = Pool::try_from_slice(&bytes).unwrap(); same(cx, "P04", p, m, &what)?; }
                (Some(_), Err(_)) if huge => { cx.tried("P04"); *p = Pool::try_from_slice(&bytes).unwrap(); }
                (Some(x), Err(er)) => rv_check!("P04", false, "{}: refused with {}, should mint {}", what, er, x),
                (None, Ok(y)) => rv_check!("P04", false, "{}: minted {} where the call must fail", what, y),
            }
        }
        3 => {
            let own = m.sh.get(&who).cloned().unwrap_or(0);
            let q = match cx.r.below(6) { 0 => own, 1 => own.saturating_add(1), 2 => cx.r.amt(u128::MAX), _ => near(&mut cx.r, own).min(own) };
            let x: Vec<u128> = (0..2).map(|k| if m.sup > 0 { to128(fdiv(m.a[k], q, m.sup)).unwrap_or(0) } else { 0 }).collect();
            let min = match cx.r.below(6) { 0 => x.clone(), 1 => vec![x[0].saturating_add(1), 0], 2 => vec![0, x[1].saturating_add(1)], _ => vec![0, 0] };
            let e = n.remove(&who, q, &min);
            let what = format!("{} removes {} shares min {:?}", who, q, min);
            cx.note(what.clone());
            let vw = if want(cx, "P23") { tryit(|| { let mut c = Pool::try_from_slice(&bytes).unwrap(); c.remove_liquidity(&who, q, min.clone(), true) }).ok() } else { None };
            let g = atomic(|| p.remove_liquidity(&who, q, min.clone(), false));
            match (&e, &g) {
                (Some(x), Ok(y)) => {
                    rv_check!("P05", x == y, "{}: paid {:?}, proportional part {:?}", what, y, x);
                    if want(cx, "P23") { rv_check!("P23", vw.as_ref() == Some(y), "{}: predicted {:?}, executed {:?}", what, vw, y); }
                    if q > 0 { cx.good("P05,P06,P23"); } else { cx.tried("P05,P06,P23"); }
                    same(cx, "P05", p, &n, &what)?;
                    *m = n;
                }
                (None, Err(_)) => { cx.tried("P05"); *p = Pool::try_from_slice(&bytes).unwrap(); same(cx, "P05", p, m, &what)?; }
                (Some(_), Err(_)) if huge => { cx.tried("P05"); *p = Pool::try_from_slice(&bytes).unwrap(); }
                (Some(x), Err(er)) => rv_check!("P05", false, "{}: refused with {}, should pay {:?}", what, er, x),
                (None, Ok(y)) => rv_check!("P05", false, "{}: paid {:?} where the call must fail", what, y),
            }
        }
        4 | 5 => {
            let mut to = s(*cx.r.pick(&WHO[..4]));
            if to == who { to = s(if who == "alice" { "bob" } else { "alice" }); }
            let own = m.sh.get(&who).cloned().unwrap_or(0);
            let q = match cx.r.below(5) { 0 => own, 1 => own.saturating_add(1), 2 => 0, _ => cx.r.range(0, own) };
            let ok = m.sh.contains_key(&who) && m.sh.contains_key(&to) && q <= own;
            let what = format!("{} sends {} shares to {}", who, q, to);
            cx.note(what.clone());
            let g = atomic(|| p.share_transfer(&who, &to, q));
            rv_check!("P06", ok == g.is_ok(), "{}: result {:?}, expected success {}", what, g, ok);
            if ok { *n.sh.get_mut(&who).unwrap() -= q; *n.sh.get_mut(&to).unwrap() += q; *m = n; cx.good("P06"); } else { cx.tried("P06"); *p = Pool::try_from_slice(&bytes).unwrap(); }
            same(cx, "P06", p, m, &what)?;
        }
        6 => {
            let ok = !m.sh.contains_key(&who);
            let what = format!("register {}", who);
            cx.note(what.clone());
            let g = atomic(|| p.share_register(&who));
            rv_check!("P06", ok == g.is_ok(), "{}: result {:?}, expected success {}", what, g, ok);
            if ok { m.sh.insert(who.clone(), 0); cx.good("P06"); }
            same(cx, "P06", p, m, &what)?;
            rv_check!("P06", p.share_has_registered(&who), "{}: not registered", what);
        }
        7 => {
            let ok = m.sh.get(&who) == Some(&0);
            let what = format!("unregister {}", who);
            cx.note(what.clone());
            let g = atomic(|| p.share_unregister(&who));
            rv_check!("P06", ok == g.is_ok(), "{}: result {:?}, expected success {}", what, g, ok);
            if ok { m.sh.remove(&who); cx.good("P06"); }
            same(cx, "P06", p, m, &what)?;
        }
        _ => {
            for w in WHO.iter() { rv_check!("P06", p.share_balances(&s(w)) == m.sh.get(*w).cloned().unwrap_or(0), "balance of {}", w); }
            rv_check!("P06", p.share_total_balance() == m.sup, "total");
            cx.good("P06");
        }
    }
    Ok(())
}
fn model_case(cx: &mut Cx) -> Result<(), String> {
    fresh(1_700_000_000_000_000_000);
    let mut m = rnd_model(&mut cx.r);
    let mut p = mk(&m, cx.r.below(1000) as u32);
    cx.note(format!("start {:?}", m));
    for _ in 0..2 { let w = cx.r.chance(1, 4); op(cx, &mut p, &mut m, w)?; }
    Ok(())
}
fn history_case(cx: &mut Cx) -> Result<(), String> {
    fresh(1_700_000_000_000_000_000);
    let mut m = M { a: [0, 0], sup: 0, sh: BTreeMap::new(), fee: *cx.r.pick(&[0, 1, 30, 100, 9999]) };
    let mut p = Pool::SimplePool(SimplePool::new(cx.r.below(1000) as u32, vec![va(TOK[0]), va(TOK[1])], m.fee));
    let mut am = [cx.r.amt(10u128.pow(33)).max(1), cx.r.amt(10u128.pow(33)).max(1)];
    cx.note(format!("fee {} first deposit {:?}", m.fee, am));
    let mut tk = am.to_vec();
    m.add("alice", &mut am).unwrap();
    let n = p.add_liquidity(&s("alice"), &mut tk, false);
    rv_check!("P04,P06", n == 10u128.pow(24), "first supply {}", n);
    same(cx, "P04", &p, &m, "first deposit")?;
    for w in ["bob", "carol", ME, "referrer"].iter() { if cx.r.chance(1, 2) { p.share_register(&s(w)); m.sh.insert(s(w), 0); } }
    for _ in 0..12 { op(cx, &mut p, &mut m, false)?; }
    Ok(())
}
