// stable, rated and degen pools against an independent wide-integer model
use super::base::*;
use super::simple::{fee_of, Fee};
use super::world::*;
use crate::degen_swap::degen::{global_get_degen, global_register_degen, global_register_degen_oracle_config, global_set_degen, DegenOracleConfig, DegenType, PriceInfo};
use crate::degen_swap::{DegenSwapPool, PriceOracleConfig, PythOracleConfig};
use crate::pool::Pool;
use crate::rated_swap::rate::{global_get_rate, global_register_rate, global_set_rate, RateTrait};
use crate::rated_swap::RatedSwapPool;
use crate::stable_swap::StableSwapPool;
use crate::*;
use std::cell::Cell;
use std::collections::BTreeMap;

const PLAIN: &[&str] = &["P07", "P08", "P09", "P10", "P11", "P06", "P23"];
const ALL: &[&str] = &["P07", "P08", "P09", "P10", "P11", "P06", "P21", "P23"];
pub static TESTS: &[Test] = &[
    Test { props: PLAIN, name: "stable_pool_model", f: |c| model_case(c, 0), quick: 12000, thorough: 400000 },
    Test { props: ALL, name: "rated_pool_model", f: |c| model_case(c, 1), quick: 9000, thorough: 300000 },
    Test { props: ALL, name: "degen_pool_model", f: |c| model_case(c, 2), quick: 9000, thorough: 300000 },
    Test { props: ALL, name: "stable_type_history", f: history_case, quick: 2000, thorough: 60000 },
    Test { props: &["P11"], name: "pool_construction", f: new_case, quick: 3000, thorough: 100000 },
];
pub const TOKS: [&str; 4] = ["tok.a", "tok.b", "tok.c", "tok.d"];
const WHO: [&str; 6] = ["alice", "bob", "carol", "dave", ME, "referrer"];
pub const T0: u64 = 1_700_000_000_000_000_000;
const DAY: u64 = 86_400_000_000_000;
const PREC: u128 = 1_000_000_000_000_000_000_000_000;

thread_local! { static OVER: Cell<bool> = Cell::new(false); }
fn over<T>() -> Option<T> { OVER.with(|o| o.set(true)); None }
fn need(c: bool) -> Option<()> { if c { Some(()) } else { None } }

#[derive(Clone, Debug, PartialEq)]
pub struct S {
    pub kind: usize, pub dec: Vec<u8>, pub c: Vec<u128>, pub sup: u128, pub sh: BTreeMap<String, u128>, pub fee: u32,
    pub ia: u128, pub ta: u128, pub it: u64, pub st: u64, pub rates: Vec<u128>, pub fresh_until: Vec<u64>,
}
impl S {
    fn bits(&self) -> usize { if self.kind == 0 { 256 } else { 384 } }
    fn mul(&self, a: U512, b: U512) -> Option<U512> { match a.checked_mul(b) { Some(x) if x.bits() <= self.bits() => Some(x), _ => over() } }
    fn add(&self, a: U512, b: U512) -> Option<U512> { match a.checked_add(b) { Some(x) if x.bits() <= self.bits() => Some(x), _ => over() } }
    fn n128(&self, a: U512) -> Option<u128> { match to128(a) { Some(x) => Some(x), None => over() } }
    fn prec(&self) -> u128 { if self.kind == 0 { 1 } else { PREC } }
    fn target(&self) -> u8 { if self.kind == 0 { 18 } else { 24 } }
    pub fn minres(&self) -> u128 { 10u128.pow(self.target() as u32 - 3) }
    pub fn ok_rates(&self, now: u64) -> bool { self.kind == 0 || self.fresh_until.iter().all(|t| now <= *t) }
    /// token amount -> internal amount, rounded down
    pub fn down(&self, i: usize, x: u128) -> Option<u128> {
        let (d, t) = (self.dec[i], self.target());
        if d <= t { x.checked_mul(10u128.pow((t - d) as u32)).or_else(over) } else { Some(x / 10u128.pow((d - t) as u32)) }
    }
    /// internal amount -> token amount, rounded down
    pub fn out(&self, i: usize, c: u128) -> Option<u128> {
        let (d, t) = (self.dec[i], self.target());
        if d <= t { Some(c / 10u128.pow((t - d) as u32)) } else { c.checked_mul(10u128.pow((d - t) as u32)).or_else(over) }
    }
    /// token amount -> internal amount, rounded up (what a payment is worth at least)
    pub fn up(&self, i: usize, x: u128) -> Option<u128> {
        let c = self.down(i, x)?;
        if self.out(i, c)? < x { c.checked_add(1) } else { Some(c) }
    }
    pub fn amp(&self, now: u64) -> Option<u128> {
        if now >= self.st { return Some(self.ta); }
        need(now >= self.it)?;
        let (w, d) = ((self.st - self.it) as u128, (now - self.it) as u128);
        if self.ta >= self.ia { Some(self.ia + (self.ta - self.ia) * d / w) } else { Some(self.ia - (self.ia - self.ta) * d / w) }
    }
    pub fn d(&self, x: &[u128], now: u64) -> Option<U512> {
        let n = x.len() as u128;
        let mut sum = 0u128;
        for v in x { sum = match sum.checked_add(*v) { Some(y) => y, None => return over() }; }
        if sum == 0 { return Some(U512::zero()); }
        let ann = b(self.amp(now)?) * b(n.pow(n as u32));
        let mut d = b(sum);
        for _ in 0..256 {
            let mut p = d;
            for v in x {
                if *v == 0 { return None; }
                if v.checked_mul(n).is_none() { return over(); }
                p = self.mul(p, d)? / (b(*v) * b(n));
            }
            let prev = d;
            let num = self.mul(d, self.add(self.mul(p, b(n))?, b(sum) * ann)?)?;
            let den = self.add(self.mul(d, ann - U512::one())?, self.mul(p, b(n + 1))?)?;
            if den.is_zero() { return None; }
            d = num / den;
            let gap = if d > prev { d - prev } else { prev - d };
            if gap <= U512::one() { break; }
        }
        Some(d)
    }
    pub fn rated(&self, c: &[u128]) -> Option<Vec<u128>> { (0..c.len()).map(|i| self.val(i, c[i])).collect() }
    pub fn val(&self, i: usize, c: u128) -> Option<u128> { self.n128(b(c) * b(self.rates[i]) / b(self.prec())) }
    pub fn unval(&self, i: usize, v: u128) -> Option<u128> { need(self.rates[i] > 0)?; self.n128(b(v) * b(self.prec()) / b(self.rates[i])) }
    pub fn dr(&self, c: &[u128], now: u64) -> Option<U512> { let r = self.rated(c)?; self.d(&r, now) }
    fn y(&self, x: u128, v: &[u128], i: usize, o: usize, now: u64) -> Option<U512> {
        let n = v.len() as u128;
        let ann = b(self.amp(now)?) * b(n.pow(n as u32));
        let d = self.d(v, now)?;
        need(x > 0)?;
        let mut s = b(x);
        let mut c = self.mul(d, d)? / b(x);
        for k in 0..v.len() {
            if k != i && k != o {
                s = s + b(v[k]);
                need(v[k] > 0)?;
                c = self.mul(c, d)? / b(v[k]);
            }
        }
        if s.bits() > 128 { return over(); }
        c = self.mul(c, d)? / (ann * b(n.pow(n as u32)));
        let bb = d / ann + s;
        let mut y = d;
        for _ in 0..256 {
            let prev = y;
            let num = self.add(self.mul(y, y)?, c)?;
            let den = self.add(y * b(2), bb)?;
            need(den > d)?;
            y = num / (den - d);
            let gap = if y > prev { y - prev } else { prev - y };
            if gap <= U512::one() { break; }
        }
        Some(y)
    }
    fn ratio(&self, x: u128, m: u128, d: u128) -> Option<u128> { self.n128(fdiv(x, m, d)) }
    fn credit(&mut self, who: &str, n: u128) -> Option<()> {
        if n == 0 { return Some(()); }
        self.sup = match self.sup.checked_add(n) { Some(x) => x, None => return over() };
        *self.sh.entry(s(who)).or_insert(0) += n;
        Some(())
    }
    /// (shares for the user, shares the imbalance fee is worth)
    fn lp(&self, from: &[u128], to: &[u128], fee: u32, now: u64) -> Option<(u128, u128)> {
        let n = from.len();
        let grow = (0..n).all(|i| to[i] >= from[i]);
        let d0 = self.dr(from, now)?;
        let d1 = self.dr(to, now)?;
        need(if grow { d1 > d0 } else { d1 < d0 })?;
        let nf = fee * n as u32 / (4 * (n as u32 - 1));
        let mut t = to.to_vec();
        for i in 0..n {
            need(!d0.is_zero())?;
            let ideal = self.n128(self.mul(d1, b(from[i]))? / d0)?;
            let diff = if ideal > t[i] { ideal - t[i] } else { t[i] - ideal };
            t[i] = t[i].checked_sub(self.ratio(diff, nf as u128, 10_000)?)?;
        }
        let d2 = self.dr(&t, now)?;
        let part = |x: U512| -> Option<u128> { self.n128(self.mul(b(self.sup), x)? / d0) };
        if grow {
            need(d2 >= d0)?;
            let (m, f) = (part(d2 - d0)?, part(d1 - d0)?);
            Some((m, f.checked_sub(m)?))
        } else {
            need(d2 <= d0)?;
            let (m, f) = (part(d0 - d2)?, part(d0 - d1)?);
            Some((m, m.checked_sub(f)?))
        }
    }
    fn fee_part(&mut self, part: u128, f: &Fee) -> Option<()> {
        if part == 0 { return Some(()); }
        let adm = self.ratio(part, f.bps as u128, 10_000)?;
        let mut r = 0;
        if let Some((id, bps)) = &f.refd { r = self.ratio(adm, *bps as u128, 10_000)?; if !self.sh.contains_key(id) { r = 0 } else { let id = id.clone(); self.credit(&id, r)?; } }
        self.credit(ME, adm.checked_sub(r)?)
    }
    pub fn swap(&mut self, i: usize, o: usize, din: u128, min: u128, f: &Fee, now: u64) -> Option<u128> {
        need(i != o && i < self.c.len() && o < self.c.len())?;
        need(self.ok_rates(now))?;
        let cin = self.down(i, din)?;
        let v = self.rated(&self.c)?;
        let vin = self.val(i, cin)?;
        let nx = match v[i].checked_add(vin) { Some(x) => x, None => return over() };
        let y = self.n128(self.y(nx, &v, i, o, now)?)?;
        let dy = v[o].checked_sub(y)?.saturating_sub(1);
        let tf = self.ratio(dy, self.fee as u128, 10_000)?;
        let af = self.ratio(tf, f.bps as u128, 10_000)?;
        let sw = dy.checked_sub(tf)?;
        let nd = v[o].checked_sub(sw)?.checked_sub(af)?;
        let (sw, af) = (self.unval(o, sw)?, self.unval(o, af)?);
        self.unval(o, tf)?;
        let pay = self.out(o, sw)?;
        need(pay >= min)?;
        self.c[i] = self.unval(i, nx)?;
        self.c[o] = self.unval(o, nd)?;
        need(self.c[o] >= self.minres())?;
        if f.bps > 0 && af > 0 {
            let mut t = self.c.clone();
            t[o] = match t[o].checked_add(af) { Some(x) => x, None => return over() };
            let (m, _) = self.lp(&self.c, &t, 0, now)?;
            self.c = t;
            let mut r = 0;
            if let Some((id, bps)) = &f.refd { if self.sh.contains_key(id) { r = self.ratio(m, *bps as u128, 10_000)?; let id = id.clone(); self.credit(&id, r)?; } }
            self.credit(ME, m.checked_sub(r)?)?;
        }
        Some(pay)
    }
    pub fn put(&mut self, who: &str, am: &[u128], min: u128, f: &Fee, now: u64) -> Option<u128> {
        need(am.len() == self.c.len())?;
        need(self.ok_rates(now))?;
        let mut t = self.c.clone();
        let mut add = vec![];
        for k in 0..t.len() { let x = self.down(k, am[k])?; add.push(x); t[k] = match t[k].checked_add(x) { Some(y) => y, None => return over() }; }
        let (m, part) = if self.sup == 0 {
            need(add.iter().all(|x| *x > 0))?;
            (self.n128(self.dr(&add, now)?)?, 0)
        } else { self.lp(&self.c, &t, self.fee, now)? };
        need(m >= min)?;
        self.c = t;
        self.credit(who, m)?;
        self.fee_part(part, f)?;
        Some(m)
    }
    pub fn take(&mut self, who: &str, n: u128, min: &[u128]) -> Option<Vec<u128>> {
        need(min.len() == self.c.len())?;
        let own = *self.sh.get(who)?;
        need(own >= n && self.sup > 0)?;
        let mut out = vec![];
        for k in 0..min.len() {
            let x = self.n128(fdiv(self.c[k], n, self.sup))?;
            self.c[k] = self.c[k].checked_sub(x)?;
            need(self.c[k] >= self.minres())?;
            let p = self.out(k, x)?;
            need(p >= min[k])?;
            out.push(p);
        }
        self.sh.insert(s(who), own - n);
        self.sup -= n;
        Some(out)
    }
    pub fn take_tokens(&mut self, who: &str, am: &[u128], max: u128, f: &Fee, now: u64) -> Option<u128> {
        need(am.len() == self.c.len())?;
        need(self.ok_rates(now))?;
        let mut t = self.c.clone();
        for k in 0..t.len() { t[k] = t[k].checked_sub(self.up(k, am[k])?)?; need(t[k] >= self.minres())?; }
        let (burn, part) = self.lp(&self.c, &t, self.fee, now)?;
        let own = *self.sh.get(who)?;
        need(burn <= own && burn <= max)?;
        self.sh.insert(s(who), own - burn);
        self.sup = self.sup.checked_sub(burn)?;
        self.c = t;
        self.fee_part(part, f)?;
        Some(burn)
    }
    pub fn ramp(&mut self, fa: u128, ft: u64, now: u64) -> Option<()> {
        need(now >= self.it.checked_add(DAY)? && ft >= now + DAY)?;
        let a = self.amp(now)?;
        need(fa > 0 && fa < 1_000_000)?;
        need((fa >= a && fa <= a * 10) || (fa < a && fa * 10 >= a))?;
        self.ia = a; self.it = now; self.ta = fa; self.st = ft;
        Some(())
    }
    pub fn stop(&mut self, now: u64) -> Option<()> {
        let a = self.amp(now)?;
        self.ia = a; self.ta = a; self.it = now; self.st = now;
        Some(())
    }
}
macro_rules! on { ($p:expr, $x:ident => $e:expr) => { match $p { Pool::StableSwapPool($x) => $e, Pool::RatedSwapPool($x) => $e, Pool::DegenSwapPool($x) => $e, _ => panic!("kind") } } }
pub fn read(p: &Pool, m: &S) -> S {
    let mut g = m.clone();
    on!(p, x => { g.c = x.c_amounts.clone(); g.sup = x.shares_total_supply; g.fee = x.total_fee; g.ia = x.init_amp_factor; g.ta = x.target_amp_factor; g.it = x.init_amp_time; g.st = x.stop_amp_time; g.dec = x.token_decimals.clone();
        g.sh = WHO.iter().filter_map(|w| x.shares.get(&s(w)).map(|v| (s(w), v))).collect(); });
    g
}
pub fn build(m: &S, id: u32) -> Pool {
    let t: Vec<_> = TOKS[..m.dec.len()].iter().map(|x| va(x)).collect();
    let mut p = match m.kind {
        0 => Pool::StableSwapPool(StableSwapPool::new(id, t, m.dec.clone(), 100, m.fee)),
        1 => Pool::RatedSwapPool(RatedSwapPool::new(id, t, m.dec.clone(), 100, m.fee)),
        _ => Pool::DegenSwapPool(DegenSwapPool::new(id, t, m.dec.clone(), 100, m.fee)),
    };
    on!(&mut p, x => { x.c_amounts = m.c.clone(); x.shares_total_supply = m.sup; x.init_amp_factor = m.ia; x.target_amp_factor = m.ta; x.init_amp_time = m.it; x.stop_amp_time = m.st;
        for (k, v) in &m.sh { x.shares.insert(k, v); } });
    p
}
fn same(cx: &mut Cx, tag: &str, p: &Pool, m: &S, what: &str) -> Result<(), String> {
    let g = read(p, m);
    cx.note(format!("state c={:?} sup={} sh={:?}", g.c, g.sup, g.sh));
    rv_check!(tag, g.c == m.c, "{}: reserves {:?}, expected {:?}", what, g.c, m.c);
    rv_check!(format!("{},P06", tag), g.sup == m.sup, "{}: supply {}, expected {}", what, g.sup, m.sup);
    rv_check!(format!("{},P06", tag), g.sh == m.sh, "{}: share ledger {:?}, expected {:?}", what, g.sh, m.sh);
    let tot: u128 = g.sh.values().fold(0u128, |x, y| x.saturating_add(*y));
    rv_check!("P06", tot == g.sup, "{}: shares add up to {}, supply {}", what, tot, g.sup);
    rv_check!(format!("{},P11", tag), (g.ia, g.ta, g.it, g.st, g.fee) == (m.ia, m.ta, m.it, m.st, m.fee), "{}: amplification or fee setting changed to {:?}", what, (g.ia, g.ta, g.it, g.st, g.fee));
    Ok(())
}
/// random rates in storage, and what they are
pub fn setup_rates(r: &mut Rng, m: &mut S, now: u64) {
    let n = m.dec.len();
    m.rates = vec![if m.kind == 0 { 1 } else { PREC }; n];
    m.fresh_until = vec![u64::MAX; n];
    if m.kind == 0 { return; }
    let val = |r: &mut Rng| match r.below(8) { 0 => PREC, 1 => PREC + 1, 2 => PREC / 2, 3 => PREC * 3, 4 => PREC + PREC / 100 * r.below(50) as u128, 5 => PREC / 1000, _ => r.range(PREC / 2, 2 * PREC) };
    let old = r.chance(1, 6);
    let ago = |r: &mut Rng, span: u64| -> u64 { match r.below(4) { 0 => 0, 1 => span, 2 if old => span + 1 + r.below(3) * span, _ => r.below(span) } };
    if m.kind == 2 {
        let (e1, e2) = (3600_000_000_000u64, 7200_000_000_000u64);
        global_register_degen_oracle_config(DegenOracleConfig::PriceOracle(PriceOracleConfig { oracle_id: s("oracle"), expire_ts: e1, maximum_recency_duration_sec: 90, maximum_staleness_duration_sec: 90 }));
        global_register_degen_oracle_config(DegenOracleConfig::PythOracle(PythOracleConfig { oracle_id: s("pyth"), expire_ts: e2, pyth_price_valid_duration_sec: 60 }));
        for k in 0..n {
            let py = r.chance(1, 2);
            global_register_degen(&s(TOKS[k]), if py { DegenType::PythOracle { price_identifier: crate::pyth_oracle::PriceIdentifier([k as u8; 32]) } } else { DegenType::PriceOracle { decimals: m.dec[k] } });
            clear_caches();
            let e = if py { e2 } else { e1 };
            let at = now - ago(r, e);
            let v = val(r);
            let mut g = global_get_degen(&s(TOKS[k]));
            g.update_price_info(PriceInfo { stored_degen: v, degen_updated_at: at });
            global_set_degen(&s(TOKS[k]), &g);
            clear_caches();
            m.rates[k] = v;
            m.fresh_until[k] = at + e;
        }
    } else {
        for k in 0..n {
            if r.chance(1, 3) { continue; }
            global_register_rate(&s(*r.pick(&["STNEAR", "LINEAR", "NEARX"])), &s(TOKS[k]), None);
            clear_caches();
            let t = now - ago(r, DAY);
            let v = val(r);
            at(t);
            let mut g = global_get_rate(&s(TOKS[k])).unwrap();
            g.set(&format!("\"{}\"", v).into_bytes());
            global_set_rate(&s(TOKS[k]), &g);
            clear_caches();
            m.rates[k] = v;
            m.fresh_until[k] = t + DAY;
        }
        at(now);
    }
}
fn rnd_state(r: &mut Rng, kind: usize, now: u64) -> S {
    let n = *r.pick(&[2usize, 2, 2, 3, 3, 4]);
    let dec: Vec<u8> = (0..n).map(|_| *r.pick(&[6u8, 18, 24, 8, 1, 12, 17, 19, 20])).collect();
    let mut m = S { kind, dec, c: vec![], sup: 0, sh: BTreeMap::new(), fee: *r.pick(&[0, 1, 5, 30, 100, 2000, 9999]), ia: 0, ta: 0, it: 0, st: 0, rates: vec![], fresh_until: vec![] };
    setup_rates(r, &mut m, now);
    m.ta = *r.pick(&[1u128, 2, 10, 100, 240, 1000, 5000, 999_999]);
    m.ia = m.ta;
    if r.chance(1, 2) {
        m.ia = *r.pick(&[1u128, 7, 100, 1000, 9999]);
        m.it = now - match r.below(4) { 0 => 0, 1 => DAY, 2 => DAY - 1, _ => r.below(10 * DAY) };
        m.st = m.it + match r.below(4) { 0 => 0, 1 => DAY, _ => DAY + r.below(20 * DAY) };
    }
    let unit = 10u128.pow(m.target() as u32);
    let scale = *r.pick(&[unit, unit * 1000, unit * 1_000_000, unit * 100_000_000, m.minres()]);
    m.c = (0..n).map(|_| match r.below(5) { 0 => scale, 1 => r.range(scale / 10 + 1, scale), 2 => m.minres() + r.bits(20), _ => r.range(scale, scale.saturating_mul(9)) }.max(m.minres())).collect();
    let want = match r.below(3) { 0 => to128(m.dr(&m.c.clone(), now).unwrap_or(b(unit))).unwrap_or(unit), 1 => scale, _ => scale / 3 + 1 };
    let mut left = want;
    for w in WHO.iter() {
        if r.chance(1, 4) { continue; }
        let v = match r.below(4) { 0 => 0, 1 => left, _ => r.range(0, left) };
        left -= v;
        m.sh.insert(s(w), v);
    }
    let e = m.sh.entry(s("alice")).or_insert(0);
    *e += left;
    m.sup = want;
    m
}
fn op(cx: &mut Cx, p: &mut Pool, m: &mut S, now: &mut u64, hist: bool) -> Result<(), String> {
    let want = |cx: &Cx, t: &str| cx.prop == t;
    let k: u64 = match cx.prop.as_str() {
        "P07" => *cx.r.pick(&[0u64, 0, 0, 0, 1, 2, 9]), "P08" => *cx.r.pick(&[1u64, 1, 1, 0, 3]), "P09" => *cx.r.pick(&[2u64, 2, 2, 1, 0]), "P10" => *cx.r.pick(&[3u64, 3, 3, 1, 0, 9]),
        "P11" => *cx.r.pick(&[7u64, 7, 7, 8, 9, 9, 10, 10, 0]), "P06" => *cx.r.pick(&[0u64, 1, 2, 3, 4, 4, 5, 6, 9]), "P21" => *cx.r.pick(&[0u64, 1, 3, 9, 2]), _ => *cx.r.pick(&[0u64, 1, 2, 3, 9]),
    };
    clear_caches();
    at(*now);
    let n = m.c.len();
    let who = s(*cx.r.pick(&WHO[..4]));
    let bytes = p.try_to_vec().unwrap();
    let f = fee_of(&mut cx.r);
    let mut t = m.clone();
    OVER.with(|o| o.set(false));
    let live = m.ok_rates(*now);
    let lim = 1u128 << 100;
    let big = |v: &[u128]| v.iter().any(|x| *x > lim);
    let near = |r: &mut Rng, m: &S, i: usize| -> u128 { let base = m.out(i, m.c[i]).unwrap_or(1); match r.below(6) { 0 => r.range(0, base), 1 => base / (1 + r.below(1_000_000) as u128), 2 => base.saturating_add(r.bits(20)), 3 => r.bits(40), 4 => base.saturating_mul(r.below(30) as u128), _ => r.bits(70).min(base) } };
    macro_rules! settle { ($tag:expr, $what:expr, $e:expr, $g:expr, $huge:expr, $goods:expr, $pay:expr) => {{
        let ov = OVER.with(|o| o.get());
        match (&$e, &$g) {
            (Some(x), Ok(y)) => {
                if !live && m.kind != 0 { if $tag != "P09" { rv_check!("P21", false, "{}: accepted with an expired rate or price", $what); } }
                rv_check!($tag, x == y, "{}: result {:?}, expected {:?}", $what, y, x);
                $pay;
                cx.good($goods);
                same(cx, $tag, p, &t, &$what)?;
                *m = t;
            }
            (None, Err(_)) => { cx.tried($tag); if !live { cx.good("P21"); } *p = Pool::try_from_slice(&bytes).unwrap(); same(cx, $tag, p, m, &$what)?; }
            (Some(_), Err(_)) if $huge => { cx.tried($tag); *p = Pool::try_from_slice(&bytes).unwrap(); }
            (None, Ok(_)) if ov => { cx.tried($tag); return Ok(()); }
            (Some(x), Err(er)) => rv_check!($tag, false, "{}: refused with {}, should give {:?}", $what, er, x),
            (None, Ok(y)) => {
                if !live && $tag != "P09" { rv_check!(format!("P21,{}", $tag), false, "{}: gave {:?} with an expired rate or price", $what, y); }
                rv_check!($tag, false, "{}: gave {:?} where the call must fail", $what, y);
            }
        }
    }} }
    match k {
        0 => {
            let i = cx.r.below(n as u64) as usize;
            let o = if cx.r.chance(1, 25) { i } else { (i + 1 + cx.r.below(n as u64 - 1) as usize) % n };
            let (ti, to) = (s(TOKS[i]), if cx.r.chance(1, 40) { s("tok.x") } else { s(TOKS[o]) });
            let oi = if to == "tok.x" { 99 } else { o };
            let din = if cx.r.chance(1, 12) { cx.r.amt(u128::MAX) } else { near(&mut cx.r, m, i) };
            let q = m.clone().swap(i, oi, din, 0, &Fee { bps: 0, refd: None }, *now);
            OVER.with(|o| o.set(false));
            let min = match cx.r.below(6) { 0 => q.unwrap_or(0).saturating_add(1), 1 => q.unwrap_or(0), _ => 0 };
            let e = t.swap(i, oi, din, min, &f, *now);
            let what = format!("swap {} of {} for {} min {} fee {:?}/{:?}", din, ti, to, min, f.bps, f.refd);
            cx.note(what.clone());
            let vw = if want(cx, "P23") { tryit(|| { let mut c = Pool::try_from_slice(&bytes).unwrap(); c.swap(&ti, din, &to, min, f.mk(), true) }).ok() } else { None };
            let vr = if want(cx, "P23") && m.kind > 0 { tryit(|| { let c = Pool::try_from_slice(&bytes).unwrap(); if m.kind == 1 { c.get_rated_return(&ti, din, &to, &None, &f.mk()) } else { c.get_degen_return(&ti, din, &to, &None, &f.mk()) } }).ok() } else { None };
            let g = atomic(|| p.swap(&ti, din, &to, min, f.mk(), false));
            settle!("P07", what, e, g, big(&m.c) || din > lim || big(&m.rates) || m.down(i, din).map(|x| x > lim).unwrap_or(true), "P07,P21,P06,P23", {
                let gg = read(p, m);
                for k in 0..n { if k != i && k != o { rv_check!("P07", gg.c[k] == m.c[k], "{}: reserve {} moved", what, k); } }
                rv_check!("P07", gg.c[o] >= m.minres(), "{}: reserve {} under the minimum", what, gg.c[o]);
                if m.kind == 0 { rv_check!("P07", gg.c[i] == m.c[i] + m.down(i, din).unwrap(), "{}: input reserve", what); } else { rv_check!("P07", gg.c[i] <= m.c[i] + m.down(i, din).unwrap(), "{}: input reserve grew by more than was paid", what); }
                rv_check!("P07", m.c[o] - gg.c[o] >= m.up(o, *g.as_ref().unwrap()).unwrap(), "{}: paid more than the reserve fell", what);
                if want(cx, "P23") { rv_check!("P23", vw == g.as_ref().ok().cloned(), "{}: predicted {:?}, executed {:?}", what, vw, g); if m.kind > 0 { rv_check!("P23", vr == g.as_ref().ok().cloned(), "{}: rated prediction {:?}, executed {:?}", what, vr, g); } }
            });
        }
        1 => {
            let mut am: Vec<u128> = (0..n).map(|i| if cx.r.chance(1, 12) { cx.r.amt(u128::MAX) } else if cx.r.chance(1, 4) { 0 } else { near(&mut cx.r, m, i) }).collect();
            if cx.r.chance(1, 30) { am.push(1); } else if cx.r.chance(1, 30) { am.pop(); }
            let q = m.clone().put(&who, &am, 0, &f, *now);
            OVER.with(|o| o.set(false));
            let min = match cx.r.below(6) { 0 => q.unwrap_or(0).saturating_add(1), 1 => q.unwrap_or(0), _ => 0 };
            let e = t.put(&who, &am, min, &f, *now);
            let what = format!("{} adds {:?} min {} fee {:?}/{:?}", who, am, min, f.bps, f.refd);
            cx.note(what.clone());
            let vw = if want(cx, "P23") { tryit(|| { let mut c = Pool::try_from_slice(&bytes).unwrap(); c.add_stable_liquidity(&who, &am, min, f.mk(), true) }).ok() } else { None };
            let vr = if want(cx, "P23") && m.kind > 0 { tryit(|| { let c = Pool::try_from_slice(&bytes).unwrap(); if m.kind == 1 { c.predict_add_rated_liquidity(&am, &None, &f.mk()) } else { c.predict_add_degen_liquidity(&am, &None, &f.mk()) } }).ok() } else { None };
            let g = atomic(|| p.add_stable_liquidity(&who, &am, min, f.mk(), false));
            let huge = big(&m.c) || big(&t.c) || big(&am) || (0..n.min(am.len())).any(|i| m.down(i, am[i]).map(|x| x > lim).unwrap_or(true)) || m.sup > lim;
            settle!("P08", what, e, g, huge, "P08,P21,P06,P23", {
                if want(cx, "P23") { rv_check!("P23", vw == g.as_ref().ok().cloned(), "{}: predicted {:?}, executed {:?}", what, vw, g); if m.kind > 0 { rv_check!("P23", vr == g.as_ref().ok().cloned(), "{}: rated prediction {:?}, executed {:?}", what, vr, g); } }
            });
        }
        2 => {
            let own = m.sh.get(&who).cloned().unwrap_or(0);
            let q = match cx.r.below(7) { 0 => own, 1 => own.saturating_add(1), 2 => cx.r.amt(u128::MAX), 3 => own / 2, 4 => own.saturating_sub(own / 1000), _ => cx.r.range(0, own) };
            let x: Vec<u128> = (0..n).map(|k| if m.sup > 0 { to128(fdiv(m.c[k], q, m.sup)).and_then(|v| m.out(k, v)).unwrap_or(0) } else { 0 }).collect();
            let mut min = match cx.r.below(5) { 0 => x.clone(), 1 => { let mut y = x.clone(); let j = cx.r.below(n as u64) as usize; y[j] = y[j].saturating_add(1); y } _ => vec![0; n] };
            if cx.r.chance(1, 30) { min.push(0); }
            OVER.with(|o| o.set(false));
            let e = t.take(&who, q, &min);
            let what = format!("{} removes {} shares min {:?}", who, q, min);
            cx.note(what.clone());
            let vw = if want(cx, "P23") { tryit(|| { let mut c = Pool::try_from_slice(&bytes).unwrap(); c.remove_liquidity(&who, q, min.clone(), true) }).ok() } else { None };
            let g = atomic(|| p.remove_liquidity(&who, q, min.clone(), false));
            settle!("P09", what, e, g, big(&m.c) || m.sup > lim, if q > 0 { "P09,P06,P23" } else { "" }, {
                let gg = read(p, m);
                for k in 0..n {
                    let y = g.as_ref().unwrap()[k];
                    rv_check!("P09", gg.c[k] >= m.minres(), "{}: reserve under the minimum", what);
                    rv_check!("P09", m.c[k] - gg.c[k] >= m.up(k, y).unwrap() && b(m.up(k, y).unwrap()) * b(m.sup) <= b(m.c[k]) * b(q), "{}: overpays {} of token {}", what, y, k);
                }
                if want(cx, "P23") { rv_check!("P23", vw.as_ref() == g.as_ref().ok(), "{}: predicted {:?}, executed {:?}", what, vw, g); }
            });
        }
        3 => {
            let mut am: Vec<u128> = (0..n).map(|i| if cx.r.chance(1, 20) { cx.r.amt(u128::MAX) } else if cx.r.chance(1, 4) { 0 } else { let o = m.out(i, m.c[i]).unwrap_or(1); let h = o / (1 + cx.r.below(20) as u128); match cx.r.below(4) { 0 => cx.r.range(0, h), 1 => cx.r.bits(30).min(h), 2 => m.out(i, m.c[i].saturating_sub(m.minres()) + cx.r.below(2) as u128).unwrap_or(0), _ => h } }).collect();
            if cx.r.chance(1, 30) { am.push(0); }
            let e0 = { let mut z = m.clone(); let own = z.sup; z.sh.insert(who.clone(), own); z.take_tokens(&who, &am, u128::MAX, &f, *now) };
            OVER.with(|o| o.set(false));
            let max = match cx.r.below(5) { 0 => e0.unwrap_or(0), 1 => e0.unwrap_or(1).saturating_sub(1), _ => u128::MAX };
            let e = t.take_tokens(&who, &am, max, &f, *now);
            let what = format!("{} removes tokens {:?} max {} fee {:?}/{:?}", who, am, max, f.bps, f.refd);
            cx.note(what.clone());
            let vw = if want(cx, "P23") { tryit(|| { let mut c = Pool::try_from_slice(&bytes).unwrap(); c.remove_liquidity_by_tokens(&who, am.clone(), max, f.mk(), true) }).ok() } else { None };
            let vr = if want(cx, "P23") && m.kind > 0 { tryit(|| { let c = Pool::try_from_slice(&bytes).unwrap(); if m.kind == 1 { c.predict_remove_rated_liquidity_by_tokens(&am, &None, &f.mk()) } else { c.predict_remove_degen_liquidity_by_tokens(&am, &None, &f.mk()) } }).ok() } else { None };
            let g = atomic(|| p.remove_liquidity_by_tokens(&who, am.clone(), max, f.mk(), false));
            settle!("P10", what, e, g, big(&m.c) || big(&am) || m.sup > lim, "P10,P21,P06,P23", {
                let gg = read(p, m);
                for k in 0..n { rv_check!("P10", gg.c[k] >= m.minres() && m.c[k] - gg.c[k] >= m.up(k, am[k]).unwrap(), "{}: reserve {} fell less than what was paid", what, k); }
                if want(cx, "P23") { rv_check!("P23", vw == g.as_ref().ok().cloned(), "{}: predicted {:?}, executed {:?}", what, vw, g); if m.kind > 0 { rv_check!("P23", vr == g.as_ref().ok().cloned(), "{}: rated prediction {:?}, executed {:?}", what, vr, g); } }
            });
        }
        4 => {
            let mut to = s(*cx.r.pick(&WHO[..4]));
            if to == who { to = s(if who == "alice" { "bob" } else { "alice" }); }
            let own = m.sh.get(&who).cloned().unwrap_or(0);
            let q = match cx.r.below(5) { 0 => own, 1 => own.saturating_add(1), 2 => 0, _ => cx.r.range(0, own) };
            let ok = m.sh.contains_key(&who) && m.sh.contains_key(&to) && q <= own;
            let what = format!("{} sends {} shares to {}", who, q, to);
            cx.note(what.clone());
            let g = atomic(|| p.share_transfer(&who, &to, q));
            rv_check!("P06", ok == g.is_ok(), "{}: result {:?}, expected success {}", what, g, ok);
            if ok { *t.sh.get_mut(&who).unwrap() -= q; *t.sh.get_mut(&to).unwrap() += q; *m = t; cx.good("P06"); } else { cx.tried("P06"); *p = Pool::try_from_slice(&bytes).unwrap(); }
            same(cx, "P06", p, m, &what)?;
        }
        5 => {
            let ok = !m.sh.contains_key(&who);
            let what = format!("register {}", who);
            let g = atomic(|| p.share_register(&who));
            rv_check!("P06", ok == g.is_ok(), "{}: result {:?}, expected success {}", what, g, ok);
            if ok { m.sh.insert(who.clone(), 0); cx.good("P06"); }
            same(cx, "P06", p, m, &what)?;
        }
        6 => {
            let ok = m.sh.get(&who) == Some(&0);
            let what = format!("unregister {}", who);
            let g = atomic(|| p.share_unregister(&who));
            rv_check!("P06", ok == g.is_ok(), "{}: result {:?}, expected success {}", what, g, ok);
            if ok { m.sh.remove(&who); cx.good("P06"); }
            same(cx, "P06", p, m, &what)?;
        }
        7 => {
            let a = m.amp(*now).unwrap_or(1);
            let fa = match cx.r.below(8) { 0 => a * 10, 1 => a * 10 + 1, 2 => a / 10, 3 => (a + 9) / 10, 4 => *cx.r.pick(&[0u128, 1, 999_999, 1_000_000, 1_000_001]), 5 => a, _ => cx.r.range(1, a * 12) };
            let ft = *now + match cx.r.below(5) { 0 => DAY, 1 => DAY - 1, 2 => 0, _ => DAY + cx.r.below(30 * DAY) };
            let e = t.ramp(fa, ft, *now);
            let what = format!("ramp from {} to {} until +{} (last ramp began {} ago)", a, fa, ft - *now, *now - m.it);
            cx.note(what.clone());
            let nw = *now;
            let g = atomic(|| on!(&mut *p, x => { let _ = nw; x.ramp_amplification(fa, ft) }));
            rv_check!("P11", e.is_some() == g.is_ok(), "{}: result {:?}, expected success {}", what, g, e.is_some());
            if e.is_some() { *m = t; cx.good("P11"); } else { cx.tried("P11"); *p = Pool::try_from_slice(&bytes).unwrap(); }
            same(cx, "P11", p, m, &what)?;
        }
        8 => {
            t.stop(*now);
            let what = s("stop the ramp");
            let g = atomic(|| on!(&mut *p, x => x.stop_ramp_amplification()));
            rv_check!("P11", g.is_ok(), "{}: {:?}", what, g);
            *m = t;
            same(cx, "P11", p, m, &what)?;
            let a = on!(&*p, x => x.get_amp());
            rv_check!("P11", Some(a as u128) == m.amp(*now), "amp {} after the stop, expected {:?}", a, m.amp(*now));
            cx.good("P11");
        }
        9 => {
            if hist { *now += match cx.r.below(4) { 0 => 1, 1 => cx.r.below(DAY), _ => cx.r.below(3 * DAY) }; at(*now); }
        }
        _ => {
            // the effective amplification over time
            let mut ts: Vec<u64> = vec![*now, m.it, m.st, m.st.saturating_sub(1)];
            for _ in 0..3 { ts.push(m.it + cx.r.below(m.st.saturating_sub(m.it) + 2)); }
            ts.sort();
            let (lo, hi) = if m.ia < m.ta { (m.ia, m.ta) } else { (m.ta, m.ia) };
            let mut last: Option<u128> = None;
            for x in ts.into_iter().filter(|x| *x >= m.it) {
                at(x);
                let a = on!(&*p, q => q.get_amp()) as u128;
                rv_check!("P11", a >= lo && a <= hi, "amp {} at {} outside {}..{}", a, x, lo, hi);
                rv_check!("P11", Some(a) == m.amp(x), "amp {} at {}, linear value {:?} ({:?})", a, x, m.amp(x), (m.ia, m.ta, m.it, m.st));
                if let Some(l) = last { rv_check!("P11", if m.ta >= m.ia { a >= l } else { a <= l }, "amp moves from {} to {} at {}", l, a, x); }
                last = Some(a);
            }
            at(*now);
            cx.good("P11");
        }
    }
    Ok(())
}
fn model_case(cx: &mut Cx, kind: usize) -> Result<(), String> {
    let mut now = T0;
    fresh(now);
    let mut m = rnd_state(&mut cx.r, kind, now);
    let mut p = build(&m, cx.r.below(1000) as u32);
    cx.note(format!("start {:?}", m));
    for _ in 0..2 { op(cx, &mut p, &mut m, &mut now, false)?; }
    Ok(())
}
fn history_case(cx: &mut Cx) -> Result<(), String> {
    let kind = cx.r.below(3) as usize;
    let mut now = T0;
    fresh(now);
    let mut m = rnd_state(&mut cx.r, kind, now);
    m.sup = 0;
    m.sh.clear();
    let n = m.c.len();
    let first: Vec<u128> = (0..n).map(|i| m.out(i, m.c[i]).unwrap_or(1).max(1) + 1).collect();
    m.c = vec![0; n];
    m.ta = m.ia; m.it = 0; m.st = 0;
    let mut p = build(&m, cx.r.below(1000) as u32);
    cx.note(format!("kind {} decimals {:?} fee {} amp {} rates {:?} first {:?}", kind, m.dec, m.fee, m.ia, m.rates, first));
    // a first deposit with one token missing must fail
    let mut bad = first.clone();
    bad[cx.r.below(n as u64) as usize] = 0;
    let none = Fee { bps: 0, refd: None };
    let g = atomic(|| p.add_stable_liquidity(&s("alice"), &bad, 0, none.mk(), false));
    rv_check!("P08", g.is_err(), "first deposit {:?} accepted with {:?}", bad, g);
    p = build(&m, 7);
    OVER.with(|o| o.set(false));
    let e = m.put("alice", &first, 0, &none, now);
    let g = atomic(|| p.add_stable_liquidity(&s("alice"), &first, 0, none.mk(), false));
    if OVER.with(|o| o.get()) { return Ok(()); }
    rv_check!("P08,P21", e == g.clone().ok(), "first deposit {:?} gave {:?}, expected {:?}", first, g, e);
    if e.is_none() { cx.tried("P08,P21"); return Ok(()); }
    cx.good("P08");
    same(cx, "P08", &p, &m, "first deposit")?;
    for w in ["bob", "carol", ME, "referrer"].iter() { if cx.r.chance(1, 2) { p.share_register(&s(w)); m.sh.insert(s(w), 0); } }
    for _ in 0..10 { op(cx, &mut p, &mut m, &mut now, true)?; }
    Ok(())
}
fn new_case(cx: &mut Cx) -> Result<(), String> {
    fresh(T0);
    let kind = cx.r.below(3) as usize;
    let n = 2 + cx.r.below(3) as usize;
    let dec: Vec<u8> = (0..n).map(|_| *cx.r.pick(&[0u8, 1, 6, 18, 24, 24, 18, 25])).collect();
    let amp = *cx.r.pick(&[0u128, 1, 100, 999_999, 1_000_000, 1_000_001, u128::MAX]);
    let fee = *cx.r.pick(&[0u32, 1, 9999, 10_000, 10_001, u32::MAX]);
    let t: Vec<_> = TOKS[..n].iter().map(|x| va(x)).collect();
    let g = tryit(|| match kind { 0 => StableSwapPool::new(1, t, dec.clone(), amp, fee).total_fee, 1 => RatedSwapPool::new(1, t, dec.clone(), amp, fee).total_fee, _ => DegenSwapPool::new(1, t, dec.clone(), amp, fee).total_fee });
    let ok = dec.iter().all(|d| *d >= 1 && *d <= 24) && amp >= 1 && amp <= 1_000_000 && fee < 10_000;
    rv_check!("P11", g.is_ok() == ok, "pool kind {} with decimals {:?} amp {} fee {}: {:?}", kind, dec, amp, fee, g);
    if ok { cx.good("P11") } else { cx.tried("P11") }
    Ok(())
}
