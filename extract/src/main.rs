//! Mechanical extraction of functions of /repo into the Verus dialect.
//! usage: extract REPO UNIT.vc OUT.rs OUT.json
//! exit 0: written; exit 3: tool limit (lost anchor / unsupported construct), reason on stderr.
mod db;
mod rw;
mod unit;

use std::fmt::Write as _;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: extract REPO UNIT.vc OUT.rs OUT.json");
        std::process::exit(2);
    }
    let mut vac = false;
    let mut trust: Vec<String> = vec![];
    for x in &a[5..] {
        if x == "--vacuity" {
            vac = true;
        } else if let Some(t) = x.strip_prefix("--trust=") {
            trust.extend(t.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()));
        }
    }
    match run(&a[1], &a[2], &a[3], &a[4], vac, &trust) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("TOOL-LIMIT: {}", e);
            std::process::exit(3);
        }
    }
}

fn run(repo: &str, unit_path: &str, out_rs: &str, out_json: &str, vac: bool, trust: &[String]) -> Result<(), String> {
    let mut u = unit::load(unit_path)?;
    let mut db = db::Db::default();
    for f in &u.files {
        db.load(repo, f)?;
    }
    // names defined by hand-written verus text (models, specs, lemmas)
    let mut provided: std::collections::HashSet<String> = Default::default();
    for it in &u.items {
        if let unit::Item::Verus(t) = it {
            for n in unit::fn_names(t) {
                provided.insert(n);
            }
        }
    }
    let contracted: std::collections::HashSet<String> = u
        .items
        .iter()
        .filter_map(|i| if let unit::Item::Fn(f) = i { Some(f.name.clone()) } else { None })
        .collect();
    let items = std::mem::take(&mut u.items);
    let mut out = String::new();
    out.push_str("use vstd::prelude::*;\nverus! {\n");
    let mut meta = String::new();
    let mut limits: Vec<String> = vec![];
    // the same shared text or imported contract reached twice is emitted once
    let mut once: std::collections::HashSet<String> = Default::default();
    for it in items {
        match it {
            unit::Item::Verus(t) => {
                if !once.insert(t.clone()) {
                    continue;
                }
                out.push_str(&t);
                out.push('\n');
            }
            unit::Item::Const(n) => {
                let c = db.consts.get(&n).ok_or(format!("lost anchor: const {}", n))?;
                out.push_str(&rw::emit_const(&db, c));
                out.push('\n');
            }
            unit::Item::Type(n, opts) => {
                let t = db.types.get(&n).ok_or(format!("lost anchor: type {}", n))?;
                out.push_str(&rw::emit_type(t, &opts)?);
                out.push('\n');
            }
            unit::Item::Fn(mut f) => {
                if f.props.iter().any(|p| p == "imported") && !once.insert(format!("@fn {}", f.name)) {
                    continue;
                }
                let start = out.lines().count() + 1;
                let mut limit = String::new();
                if vac && !f.trusted {
                    f.exit.push_str("\nproof { assert(false); }\n");
                }
                if trust.contains(&f.name) {
                    f.trusted = true;
                    limit = "the verifier does not accept the extracted text".into();
                }
                let mut r = if f.skip {
                    // function present in the contract file but currently only bounded: emit nothing
                    Ok(rw::Emitted { text: String::new(), loops: 0, inlined: vec![], srcline: 0, srcfile: String::new(), body: String::new() })
                } else {
                    rw::emit_fn(&db, &f, &provided, &contracted)
                };
                if let (Err(x), false) = (&r, f.trusted) {
                    // not extractable any more: keep only its contract (callers still checked), and say so
                    limit = x.clone();
                    f.trusted = true;
                    r = rw::emit_fn(&db, &f, &provided, &contracted);
                    if let Err(_) = r {
                        r = Ok(rw::Emitted { text: String::new(), loops: 0, inlined: vec![], srcline: 0, srcfile: String::new(), body: String::new() });
                    }
                }
                match r {
                    Ok(e) => {
                        out.push_str(&e.text);
                        out.push('\n');
                        let end = out.lines().count();
                        if !meta.is_empty() {
                            meta.push_str(",\n");
                        }
                        let _ = write!(
                            meta,
                            "{{\"fn\":{:?},\"props\":{:?},\"trusted\":{},\"start\":{},\"end\":{},\"loops\":{},\"inlined\":{:?},\"src\":\"{}:{}\",\"clauses\":{},\"limit\":{:?}}}",
                            f.name, f.props, f.trusted, start, end, e.loops, e.inlined, e.srcfile, e.srcline, f.clauses(), limit
                        );
                    }
                    Err(x) => limits.push(format!("{}: {}", f.name, x)),
                }
            }
        }
    }
    let ax: Vec<String> = out.split("broadcast axiom fn ").skip(1).map(|t| t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()).collect();
    out.push_str(&format!("\nbroadcast use {{{}}};\n", ax.join(", ")));
    out.push_str("\nfn main() {}\n} // verus!\n");
    if !limits.is_empty() {
        return Err(limits.join(" | "));
    }
    std::fs::write(out_rs, &out).map_err(|e| e.to_string())?;
    std::fs::write(out_json, format!("[{}]", meta)).map_err(|e| e.to_string())?;
    Ok(())
}
