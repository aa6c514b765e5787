//! Contract file (.vc) parser.
#[derive(Clone, Default, Debug)]
pub struct FnSpec {
    pub name: String, // key in db
    pub emit: String, // name to emit (last segment) or alias
    pub owner: Option<String>,
    pub params: Vec<String>,
    pub ret: String,
    pub props: Vec<String>,
    pub trusted: bool,
    pub skip: bool,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: std::collections::BTreeMap<usize, String>,
    pub entry: String,
    pub exit: String,
    pub loop_entry: std::collections::BTreeMap<usize, String>,
    pub loop_end: std::collections::BTreeMap<usize, String>,
    pub before_loop: std::collections::BTreeMap<usize, String>,
    pub after_loop: std::collections::BTreeMap<usize, String>,
    pub subst: Vec<(String, String)>,
    pub param_types: Vec<(String, String)>,
    pub generics: String,
    pub selfmut: bool,
    pub extra_args: Vec<String>,
    pub at: Vec<(String, String)>,
}
impl FnSpec {
    /// number of contract clauses, counted as commas-separated top-level entries
    pub fn clauses(&self) -> usize {
        let mut n = 0;
        for t in std::iter::once(&self.spec).chain(self.loops.values()) {
            let mut d = 0i32;
            let mut nonempty = false;
            for c in t.chars() {
                match c {
                    '(' | '[' | '{' => d += 1,
                    ')' | ']' | '}' => d -= 1,
                    ',' if d == 0 => {
                        if nonempty {
                            n += 1;
                        }
                        nonempty = false;
                    }
                    c if !c.is_whitespace() => nonempty = true,
                    _ => {}
                }
            }
            if nonempty {
                n += 1;
            }
        }
        n
    }
}

pub enum Item {
    Verus(String),
    Const(String),
    Type(String, Vec<String>),
    Fn(FnSpec),
}
#[derive(Default)]
pub struct Unit {
    pub files: Vec<String>,
    pub items: Vec<Item>,
    seen: std::collections::HashSet<String>,
}

pub fn fn_names(t: &str) -> Vec<String> {
    let mut out = vec![];
    let b: Vec<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
    for w in b.windows(2) {
        if w[0] == "fn" {
            out.push(w[1].to_string());
        }
    }
    out
}

pub fn load(path: &str) -> Result<Unit, String> {
    let mut u = Unit::default();
    load_into(path, &mut u, None, &Default::default())?;
    Ok(u)
}

fn dir(path: &str) -> String {
    let d = std::path::Path::new(path).parent().unwrap().to_string_lossy().to_string();
    if d.is_empty() { ".".into() } else { d }
}

/// `only`: Some(set) = import only these fns, as trusted (contract proved in its own unit), plus verus text tagged shared.
fn load_into(path: &str, u: &mut Unit, only: Option<&[String]>, vars: &std::collections::BTreeMap<String, String>) -> Result<(), String> {
    let mut text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    for (k, v) in vars {
        text = text.replace(&format!("${{{}}}", k), v);
    }
    let mut cur: Option<FnSpec> = None;
    let mut sect: (String, String) = ("none".into(), String::new()); // kind,arg
    let mut buf = String::new();
    fn flush(cur: &mut Option<FnSpec>, sect: &(String, String), buf: &mut String, u: &mut Unit, only: Option<&[String]>) {
        let t = std::mem::take(buf);
        let (k, a) = (sect.0.as_str(), &sect.1);
        let li = || a.trim().parse::<usize>().unwrap_or(0);
        match k {
            "verus" => {
                if only.is_none() || a.trim() == "shared" {
                    u.items.push(Item::Verus(t))
                }
            }
            "fn" => cur.as_mut().unwrap().spec = t,
            "loop" => {
                cur.as_mut().unwrap().loops.insert(li(), t);
            }
            "entry" => cur.as_mut().unwrap().entry = t,
            "exit" => cur.as_mut().unwrap().exit = t,
            "loop_entry" => {
                cur.as_mut().unwrap().loop_entry.insert(li(), t);
            }
            "loop_end" => {
                cur.as_mut().unwrap().loop_end.insert(li(), t);
            }
            "before_loop" => {
                cur.as_mut().unwrap().before_loop.insert(li(), t);
            }
            "after_loop" => {
                cur.as_mut().unwrap().after_loop.insert(li(), t);
            }
            "at" => {
                let p = a.trim().to_string();
                cur.as_mut().unwrap().at.push((p, t));
            }
            _ => {}
        }
    }
    fn endfn(cur: &mut Option<FnSpec>, u: &mut Unit, only: Option<&[String]>) {
        if let Some(mut f) = cur.take() {
            if let Some(set) = only {
                if !set.iter().any(|s| *s == f.name || s == "*") {
                    return;
                }
                f.trusted = true;
                f.props.clear();
                f.props.push("imported".into());
            }
            u.items.push(Item::Fn(f));
        }
    }
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix('@') {
            flush(&mut cur, &sect, &mut buf, u, only);
            let (kw, arg) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
            sect = (kw.to_string(), arg.to_string());
            match kw {
                "include" => {
                    endfn(&mut cur, u, only);
                    // @include path VAR=val ...
                    let mut it = arg.split_whitespace();
                    let p = format!("{}/{}", dir(path), it.next().unwrap_or(""));
                    let mut vars = vars.clone();
                    for kv in it {
                        if let Some((k, v)) = kv.split_once('=') {
                            vars.insert(k.into(), v.into());
                        }
                    }
                    let key = format!("{}{:?}", p, vars);
                    if u.seen.insert(key) {
                        load_into(&p, u, only, &vars)?;
                    }
                }
                "import" => {
                    // @import unit.vc fn1 fn2 ...
                    endfn(&mut cur, u, only);
                    let mut it = arg.split_whitespace();
                    let p = format!("{}/{}", dir(path), it.next().unwrap_or(""));
                    let names: Vec<String> = it.map(|s| s.to_string()).collect();
                    if only.is_some() {
                        continue;
                    }
                    load_into(&p, u, Some(&names), &Default::default())?;
                }
                "file" => {
                    endfn(&mut cur, u, only);
                    let f = arg.trim().to_string();
                    if !u.files.contains(&f) {
                        u.files.push(f);
                    }
                }
                "const" => {
                    endfn(&mut cur, u, only);
                    if only.is_none() {
                        for c in arg.split_whitespace() {
                            u.items.push(Item::Const(c.into()));
                        }
                    }
                }
                "type" => {
                    endfn(&mut cur, u, only);
                    if only.is_none() {
                        let mut it = arg.split_whitespace();
                        let n = it.next().unwrap_or("").to_string();
                        u.items.push(Item::Type(n, it.map(|s| s.into()).collect()));
                    }
                }
                "verus" => endfn(&mut cur, u, only),
                "fn" => {
                    endfn(&mut cur, u, only);
                    cur = Some(parse_header(arg)?);
                }
                "subst" => {
                    let (a, b) = arg.split_once("=>").ok_or("bad @subst")?;
                    cur.as_mut().ok_or("@subst outside fn")?.subst.push((a.trim().into(), b.trim().into()));
                    sect = ("none".into(), String::new());
                }
                "loop" | "entry" | "exit" | "loop_entry" | "loop_end" | "before_loop" | "after_loop" | "at" => {
                    if cur.is_none() {
                        return Err(format!("{}: @{} outside @fn", path, kw));
                    }
                }
                "end" => {
                    endfn(&mut cur, u, only);
                    sect = ("none".into(), String::new());
                }
                _ => return Err(format!("{}: unknown directive @{}", path, kw)),
            }
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut cur, &sect, &mut buf, u, only);
    endfn(&mut cur, u, only);
    Ok(())
}

// Name(params) -> ret  key=val...
fn parse_header(h: &str) -> Result<FnSpec, String> {
    let mut f = FnSpec::default();
    let open = h.find('(').ok_or(format!("bad @fn header {}", h))?;
    let close = h.find(')').ok_or(format!("bad @fn header {}", h))?;
    f.name = h[..open].trim().to_string();
    f.params = h[open + 1..close].split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
    let rest = h[close + 1..].trim();
    let mut words = rest.split_whitespace().peekable();
    f.ret = "r".into();
    while let Some(w) = words.next() {
        if w == "->" {
            f.ret = words.next().unwrap_or("r").to_string();
        } else if let Some(v) = w.strip_prefix("props=") {
            f.props = v.split(',').map(|s| s.into()).collect();
        } else if w == "trusted" {
            f.trusted = true;
        } else if w == "selfmut" {
            f.selfmut = true;
        } else if w == "skip" {
            f.skip = true;
        } else if let Some(v) = w.strip_prefix("rlimit=") {
            f.attrs.push(format!("#[verifier::rlimit({})]", v));
        } else if w == "spinoff" {
            f.attrs.push("#[verifier::spinoff_prover]".into());
        } else if let Some(v) = w.strip_prefix("as=") {
            f.emit = v.into();
        } else if let Some(v) = w.strip_prefix("generics=") {
            f.generics = v.into();
        } else if let Some(v) = w.strip_prefix("arg:") {
            let (a, b) = v.split_once('=').ok_or("bad arg")?;
            f.extra_args.push(format!("{}: {}", a, b.replace("~", " ")));
        } else if let Some(v) = w.strip_prefix("ptype:") {
            let (a, b) = v.split_once('=').ok_or("bad ptype")?;
            f.param_types.push((a.into(), b.into()));
        } else {
            return Err(format!("bad word {} in @fn {}", w, f.name));
        }
    }
    // names may have a module prefix: mod::Type::fn or mod#..; owner = segment starting uppercase
    let segs: Vec<&str> = f.name.split("::").collect();
    let last = segs.last().unwrap().to_string();
    if f.emit.is_empty() {
        f.emit = last.split('<').next().unwrap().to_string();
    }
    if segs.len() >= 2 {
        let o = segs[segs.len() - 2];
        if o.chars().next().unwrap().is_uppercase() {
            f.owner = Some(o.to_string());
        }
    }
    Ok(f)
}
