// Shared by both harnesses: random values, case runner, receipts.
use near_sdk::{serde_json, MockedBlockchain, PromiseResult, RuntimeFeesConfig, VMConfig, VMContext};
use serde_json::Value;
use std::collections::HashMap;


pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 { ((self.next() as u128) << 64) | self.next() as u128 }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn below128(&mut self, n: u128) -> u128 { if n == 0 { 0 } else { self.u128() % n } }
    pub fn range(&mut self, a: u128, b: u128) -> u128 { if b <= a { a } else if b - a == u128::MAX { self.u128() } else { a + self.below128(b - a + 1) } }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// value of random bit length up to `bits`
    pub fn bits(&mut self, bits: u32) -> u128 {
        let b = self.below(bits as u64 + 1) as u32;
        if b == 0 { 0 } else { (self.u128() >> (128 - b)) | (1u128 << (b - 1)) }
    }
    /// amounts: edges, round numbers, random magnitudes up to `max`
    pub fn amt(&mut self, max: u128) -> u128 {
        let v = match self.below(10) {
            0 => self.below(4) as u128,
            1 => max,
            2 => max - max.min(self.below(3) as u128),
            3 => 10u128.pow(self.below(31) as u32),
            4 => 10u128.pow(self.below(30) as u32) * (1 + self.below(9) as u128),
            5 => self.range(0, max),
            _ => self.bits(127),
        };
        if v > max { if max == u128::MAX { v } else { v % (max + 1) } } else { v }
    }
}

#[derive(Default)]
pub struct Stats { pub evals: u64, pub good: u64, pub samples: Vec<String> }
pub struct Cx { pub r: Rng, pub log: Vec<String>, pub st: Stats, pub thorough: bool, pub prop: String }
impl Cx {
    pub fn note(&mut self, s: String) { if self.log.len() < 400 { self.log.push(s) } }
    /// an evaluation that really exercised one of the properties in `tags`
    pub fn good(&mut self, tags: &str) { if tags.contains(self.prop.as_str()) { self.st.evals += 1; self.st.good += 1; } }
    /// an evaluation where the operation was (rightly) refused
    pub fn tried(&mut self, tags: &str) { if tags.contains(self.prop.as_str()) { self.st.evals += 1; } }
    pub fn want(&self, tags: &str) -> bool { tags.contains(self.prop.as_str()) }
}
pub type CaseFn = fn(&mut Cx) -> Result<(), String>;
pub struct Test { pub props: &'static [&'static str], pub name: &'static str, pub f: CaseFn, pub quick: u64, pub thorough: u64 }

fn hash(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

fn one(t: &Test, prop: &str, seed: u64, idx: u64, thorough: bool) -> (Cx, Result<(), String>) {
    let mut cx = Cx { r: Rng(hash(t.name) ^ seed.wrapping_mul(0x2545F4914F6CDD1D) ^ idx.wrapping_mul(0x9E3779B97F4A7C15)), log: vec![], st: Stats::default(), thorough, prop: prop.to_string() };
    cx.r.next();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t.f)(&mut cx)));
    let r = match r { Ok(x) => x, Err(e) => Err(format!("{}|unexpected panic: {}", t.props[0], pmsg(e))) };
    (cx, r)
}
/// a failure counts for the properties named before its `|`
fn mine(prop: &str, m: &str) -> bool { match m.split_once('|') { Some((t, _)) => t.contains(prop), None => true } }
pub fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
}

/// runs every test of `prop`; prints one JSON line per test; returns true when nothing failed
pub fn run_tests(tests: &[&'static [Test]], prop: &str, seed: u64, thorough: bool, only: Option<(String, u64)>, scale: f64, w: (u64, u64)) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let mut ok = true;
    for t in tests.iter().flat_map(|x| x.iter()) {
        if !t.props.contains(&prop) { continue; }
        if let Some((n, i)) = &only {
            if n != t.name { continue; }
            let (cx, r) = one(t, prop, seed, *i, thorough);
            if let Err(m) = r.or_else(|m| if mine(prop, &m) { Err(m) } else { Ok(()) }) {
                ok = false;
                println!("{}", serde_json::json!({"test": t.name, "fail": m, "case": i, "seed": seed, "log": cx.log}));
            } else { println!("{}", serde_json::json!({"test": t.name, "case": i, "seed": seed, "held": true, "log": if std::env::var("RV_LOG").is_ok() { cx.log } else { vec![] }})); }
            continue;
        }
        let n = (((if thorough { t.thorough } else { t.quick }) as f64 * scale) as u64).max(1);
        let mut g = Stats::default();
        let mut cases = 0u64;
        let mut other = 0u64;
        let t0 = std::time::Instant::now();
        let mut o = serde_json::json!({"test": t.name});
        let mut i = w.0;
        while i < n {
            let (cx, r) = one(t, prop, seed, i, thorough);
            cases += 1;
            g.evals += cx.st.evals;
            g.good += cx.st.good;
            if g.samples.len() < 2 && cx.st.good > 0 { g.samples.push(cx.log.iter().take(8).cloned().collect::<Vec<_>>().join(" ; ").chars().take(700).collect()) }
            if let Err(m) = r {
                if !mine(prop, &m) { other += 1; if o.get("other_fail").is_none() { o["other_fail"] = Value::from(m); } i += w.1; continue; }
                ok = false;
                o["fail"] = Value::from(m);
                o["case"] = Value::from(i);
                o["seed"] = Value::from(seed);
                o["log"] = Value::from(cx.log);
                break;
            }
            i += w.1;
        }
        o["other"] = Value::from(other);
        o["cases"] = Value::from(cases);
        o["evals"] = Value::from(g.evals);
        o["good"] = Value::from(g.good);
        o["samples"] = Value::from(g.samples);
        o["ms"] = Value::from(t0.elapsed().as_millis() as u64);
        println!("{}", o);
    }
    ok
}

// ---------------------------------------------------------------- chain mock
pub struct Env { pub storage: HashMap<Vec<u8>, Vec<u8>>, pub now: u64, pub usage: u64, pub me: String, pub balance: u128 }
#[derive(Clone, Debug)]
pub struct Rc { pub to: String, pub method: String, pub args: Value, pub deposit: u128, pub deps: usize }

pub fn set_env(e: &Env, storage: HashMap<Vec<u8>, Vec<u8>>, pred: &str, deposit: u128, results: Vec<PromiseResult>) {
    let ctx = VMContext {
        current_account_id: e.me.clone(), signer_account_id: pred.to_string(), signer_account_pk: vec![0u8; 32],
        predecessor_account_id: pred.to_string(), input: vec![], block_index: e.now / 1_000_000_000, block_timestamp: e.now, epoch_height: 0,
        account_balance: e.balance, account_locked_balance: 0, storage_usage: e.usage, attached_deposit: deposit,
        prepaid_gas: 10u64.pow(18), random_seed: vec![0u8; 32], is_view: false, output_data_receivers: vec![],
    };
    near_sdk::env::set_blockchain_interface(Box::new(MockedBlockchain::new(ctx, VMConfig::free(), RuntimeFeesConfig::default(), results, storage, Default::default(), None)));
}
pub fn end_env() -> (HashMap<Vec<u8>, Vec<u8>>, u64, Vec<Rc>, Vec<String>) {
    let mut bi = near_sdk::env::take_blockchain_interface().unwrap();
    let b = bi.as_mut_mocked_blockchain().unwrap();
    let usage = b.outcome().storage_usage;
    let logs = b.logs();
    let mut rcs = vec![];
    for r in b.created_receipts() {
        let v: Value = serde_json::from_str(&quote_nums(&serde_json::to_string(r).unwrap())).unwrap();
        for a in v["actions"].as_array().unwrap() {
            if let Some(f) = a.get("FunctionCall") {
                rcs.push(Rc { to: v["receiver_id"].as_str().unwrap().into(), method: f["method_name"].as_str().unwrap().into(),
                    args: serde_json::from_str(f["args"].as_str().unwrap()).unwrap_or(Value::Null),
                    deposit: f["deposit"].as_str().unwrap().parse().unwrap(), deps: v["receipt_indices"].as_array().unwrap().len() });
            } else if let Some(f) = a.get("Transfer") {
                rcs.push(Rc { to: v["receiver_id"].as_str().unwrap().into(), method: "".into(), args: Value::Null, deposit: f["deposit"].as_str().unwrap().parse().unwrap(), deps: 0 });
            }
        }
    }
    (b.take_storage(), usage, rcs, logs)
}
/// quote `"deposit":123` and `"gas":123`, which may not fit serde_json's integers
fn quote_nums(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find("\"deposit\":") {
        let q = p + "\"deposit\":".len();
        out.push_str(&rest[..q]);
        rest = &rest[q..];
        let n = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
        if n > 0 { out.push('"'); out.push_str(&rest[..n]); out.push('"'); }
        rest = &rest[n..];
    }
    out.push_str(rest);
    out
}
#[macro_export]
macro_rules! rv_check { ($t:expr, $c:expr, $($a:tt)*) => { if !($c) { return Err(format!("{}|{}", $t, format!($($a)*))); } } }
