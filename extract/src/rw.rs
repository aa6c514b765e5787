//! Rewriting of real function bodies into the Verus dialect. Every rule is a local, semantics-preserving
//! change under the reading "a panic reverts the whole call" (see DESIGN.md, "What the extraction drops").
use crate::db::{Db, FnSrc};
use crate::unit::FnSpec;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Emitted {
    pub text: String,
    pub loops: usize,
    pub inlined: Vec<String>,
    pub srcline: usize,
    pub srcfile: String,
    pub body: String,
}

struct Rw<'a> {
    db: &'a Db,
    provided: &'a HashSet<String>,
    contracted: &'a HashSet<String>,
    owner: Option<String>,
    spec: &'a FnSpec,
    loop_n: usize,
    tmp: usize,
    depth: usize,
    inlined: Vec<String>,
    err: Option<String>,
    self_as: Option<Ident>,
}

struct FindReturn(bool, bool); // return, ?
impl<'ast> Visit<'ast> for FindReturn {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) => self.0 = true,
            Expr::Try(_) => self.1 = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e)
    }
}
fn has_return(b: &Block) -> (bool, bool) {
    let mut f = FindReturn(false, false);
    f.visit_block(b);
    (f.0, f.1)
}

fn path_last(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        return Some(p.path.segments.last().unwrap().ident.to_string());
    }
    None
}
fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}
fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Paren(p) => is_lit(&p.expr),
        Expr::Unary(u) => is_lit(&u.expr),
        _ => false,
    }
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

struct TyRw;
impl VisitMut for TyRw {
    fn visit_path_mut(&mut self, p: &mut Path) {
        // std::collections::HashMap -> HashMap, near_sdk::X -> X, crate::a::b -> b
        if p.segments.len() > 1 {
            let first = p.segments[0].ident.to_string();
            if ["std", "near_sdk", "crate", "core", "super"].contains(&first.as_str()) {
                let last = p.segments.last().unwrap().clone();
                p.leading_colon = None;
                p.segments = std::iter::once(last).collect();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.is_ident("String") {
                *t = parse_quote!(Str);
                return;
            }
        }
        if let Type::Reference(r) = t {
            if let Type::Path(p) = &*r.elem {
                if p.path.is_ident("str") {
                    *t = parse_quote!(&Str);
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}


/// source of iteration
struct Src {
    setup: Vec<Stmt>,
    init: Expr,
    len: Expr,
    elem: Expr,
}

fn stmts_of(b: &Block) -> Vec<Stmt> {
    b.stmts.clone()
}

fn cfg_test_stmt(_s: &Stmt) -> bool {
    false
}

const LOG_MACROS: &[&str] = &["log", "println", "eprintln", "debug_assert", "debug_assert_eq"];

impl<'a> Rw<'a> {
    fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("__{}{}", p, self.tmp)
    }
    fn ex(&mut self, e: &Expr) -> Expr {
        let mut c = e.clone();
        self.visit_expr_mut(&mut c);
        c
    }
    fn blk(&mut self, b: &Block) -> Block {
        let mut c = b.clone();
        self.visit_block_mut(&mut c);
        c
    }

    // ---------- iteration sources ----------
    fn iter_src(&mut self, e: &Expr, k: usize) -> Option<Src> {
        let e = strip_paren(e);
        let i = format_ident!("__i{}", k);
        match e {
            Expr::Range(r) => {
                let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    return None;
                }
                let a = self.ex(a);
                let b = self.ex(b);
                let n = format_ident!("__n{}", k);
                Some(Src { setup: vec![parse_quote!(let #n = #b;)], init: a, len: parse_quote!(#n), elem: parse_quote!(#i) })
            }
            Expr::Reference(r) if matches!(strip_paren(&r.expr), Expr::MethodCall(m) if m.method == "iter" || m.method == "iter_mut") => self.iter_src(&r.expr.clone(), k),
            Expr::Reference(r) if !matches!(&*r.expr, Expr::Range(_)) => {
                let inner = &r.expr;
                let m: Expr = if r.mutability.is_some() { parse_quote!((#inner).iter_mut()) } else { parse_quote!((#inner).iter()) };
                self.iter_src(&m, k)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "iter" | "into_iter" | "iter_mut" => {
                        let s = format_ident!("__s{}", k);
                        if let Expr::Range(_) = strip_paren(&m.receiver) {
                            return self.iter_src(&m.receiver, k);
                        }
                        let recv = self.ex(&m.receiver);
                        let setup: Vec<Stmt> = match name.as_str() {
                            "iter" if matches!(strip_paren(&m.receiver), Expr::MethodCall(_) | Expr::Call(_)) => {
                                let h = format_ident!("__h{}", k);
                                vec![parse_quote!(let #h = #recv;), parse_quote!(let #s = (#h).vref();)]
                            }
                            "iter" => vec![parse_quote!(let #s = (#recv).vref();)],
                            "iter_mut" => vec![],
                            _ => vec![parse_quote!(let #s = #recv;)],
                        };
                        let elem: Expr = match name.as_str() {
                            "iter" => parse_quote!(#s.vidx(#i)),
                            "iter_mut" => parse_quote!((#recv).vidx_mut(#i)),
                            _ => parse_quote!(#s.vidx(#i).vclone()),
                        };
                        let len: Expr = if name == "iter_mut" { parse_quote!((#recv).len()) } else { parse_quote!(#s.len()) };
                        Some(Src { setup, init: parse_quote!(0usize), len, elem })
                    }
                    "keys" | "values" if m.args.is_empty() => {
                        let s = format_ident!("__s{}", k);
                        let recv = self.ex(&m.receiver);
                        let f = format_ident!("v{}", name);
                        Some(Src { setup: vec![parse_quote!(let #s = (#recv).#f();)], init: parse_quote!(0usize), len: parse_quote!(#s.len()), elem: parse_quote!(#s.vidx(#i)) })
                    }
                    "cloned" | "copied" => {
                        let mut s = self.iter_src(&m.receiver, k)?;
                        let e = s.elem;
                        s.elem = parse_quote!((#e).vclone());
                        Some(s)
                    }
                    "enumerate" => {
                        let mut s = self.iter_src(&m.receiver, k)?;
                        let e = s.elem;
                        s.elem = parse_quote!((#i, #e));
                        Some(s)
                    }
                    "zip" => {
                        let mut s = self.iter_src(&m.receiver, k)?;
                        let other = m.args.first()?;
                        let k2 = k + 500;
                        let s2 = match self.iter_src(other, k2) {
                            Some(x) => x,
                            None => {
                                let o: Expr = parse_quote!((#other).into_iter());
                                self.iter_src(&o, k2)?
                            }
                        };
                        let i2 = format_ident!("__i{}", k2);
                        struct R2<'x>(&'x Ident, &'x Ident);
                        impl<'x> VisitMut for R2<'x> {
                            fn visit_ident_mut(&mut self, e: &mut Ident) {
                                if *e == *self.0 {
                                    *e = self.1.clone();
                                }
                            }
                        }
                        let mut e2 = s2.elem;
                        R2(&i2, &i).visit_expr_mut(&mut e2);
                        s.setup.extend(s2.setup);
                        let (l1, l2, e1) = (s.len, s2.len, s.elem);
                        s.len = parse_quote!(vmin(#l1, #l2));
                        s.elem = parse_quote!((#e1, #e2));
                        Some(s)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn take_loop(&mut self) -> usize {
        let k = self.loop_n;
        self.loop_n += 1;
        k
    }

    fn mk_loop(&mut self, k: usize, src: Src, pre: Vec<Stmt>, pat: Option<Pat>, cond: Option<Expr>, body: Vec<Stmt>) -> Vec<Stmt> {
        let i = format_ident!("__i{}", k);
        let Src { setup, init, len, elem } = src;
        let mut out: Vec<Stmt> = setup;
        out.push(parse_quote!(let mut #i = #init;));
        out.extend(pre);
        let bind: Vec<Stmt> = match pat {
            Some(p) => split_ref_pat(&p, &elem),
            None => vec![],
        };
        let c: Expr = match cond {
            Some(c) => parse_quote!(#c && #i < #len),
            None => parse_quote!(#i < #len),
        };
        let k = Index::from(k);
        out.push(parse_quote!(__vbefore!(#k);));
        out.push(parse_quote!(while #c { __vloop!(#k); __ventry!(#k); #(#bind)* #i = #i + 1; #(#body)* __vend!(#k); }));
        out.push(parse_quote!(__vafter!(#k);));
        out
    }

    fn closure1(&self, e: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = strip_paren(e) {
            if c.inputs.len() == 1 {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                return Some((p, (*c.body).clone()));
            }
        }
        None
    }

    /// iterator chains ending in a consumer
    fn chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let probe = |s: &mut Self, e: &Expr| -> bool {
            // cheap syntactic test that e is an iterator source
            let mut t = Rw { db: s.db, provided: s.provided, contracted: s.contracted, owner: s.owner.clone(), spec: s.spec, loop_n: 0, tmp: 100000, depth: s.depth, inlined: vec![], err: None, self_as: s.self_as.clone() };
            t.iter_src(e, 0).is_some()
        };
        match name.as_str() {
            "collect" | "sum" => {
                let (base, pat, body): (Expr, Pat, Expr) = match strip_paren(&m.receiver) {
                    Expr::MethodCall(mm) if mm.method == "map" => {
                        let (p, b) = match self.closure1(mm.args.first()?) {
                            Some(x) => x,
                            None => {
                                let f = mm.args.first()?.clone();
                                (parse_quote!(__x), parse_quote!(#f(__x)))
                            }
                        };
                        ((*mm.receiver).clone(), p, b)
                    }
                    o => (o.clone(), parse_quote!(__x), parse_quote!(__x)),
                };
                let (base, filt) = match strip_paren(&base) {
                    Expr::MethodCall(mm) if mm.method == "filter" => ((*mm.receiver).clone(), Some(self.closure1(mm.args.first()?)?)),
                    _ => (base.clone(), None),
                };
                if !probe(self, &base) {
                    return None;
                }
                let k = self.take_loop();
                let src = self.iter_src(&base, k)?;
                let body = self.ex(&body);
                let v = format_ident!("__v{}", k);
                let e = format_ident!("__e{}", k);
                let hs = m.turbofish.as_ref().map_or(false, |t| matches!(t.args.first(), Some(GenericArgument::Type(Type::Path(tp))) if tp.path.segments.last().map_or(false, |x| x.ident == "HashSet")));
                if hs && name == "collect" && filt.is_none() {
                    let st = self.mk_loop(k, src, vec![parse_quote!(let mut #v = HashSet::new();)], Some(pat), None, vec![parse_quote!(let #e = #body;), parse_quote!(let _ = #v.insert(#e);)]);
                    return Some(parse_quote!({ #(#st)* #v }));
                }
                if let (Some((fp, fc)), true) = (&filt, name == "collect") {
                    let fc = self.ex(fc);
                    let st = self.mk_loop(
                        k,
                        src,
                        vec![parse_quote!(let mut #v = Vec::new();)],
                        Some(parse_quote!(__fx)),
                        None,
                        vec![parse_quote!(let __fc = { let #fp = &__fx; #fc };), parse_quote!(if __fc { let #pat = __fx; let #e = #body; #v.push(#e); })],
                    );
                    return Some(parse_quote!({ #(#st)* #v }));
                }
                if filt.is_some() {
                    return None;
                }
                let (pre, bd): (Vec<Stmt>, Vec<Stmt>) = if name == "collect" {
                    (vec![parse_quote!(let mut #v = Vec::new();)], vec![parse_quote!(let #e = #body;), parse_quote!(#v.push(#e);)])
                } else {
                    (vec![parse_quote!(let mut #v = 0;)], vec![parse_quote!(let #e = #body;), parse_quote!(#v = vadd(#v, #e);)])
                };
                let st = self.mk_loop(k, src, pre, Some(pat), None, bd);
                Some(parse_quote!({ #(#st)* #v }))
            }
            "position" | "any" | "all" | "find" => {
                if !probe(self, &m.receiver) {
                    return None;
                }
                let (pat, body) = self.closure1(m.args.first()?)?;
                let k = self.take_loop();
                let src = self.iter_src(&m.receiver, k)?;
                let body = self.ex(&body);
                let v = format_ident!("__v{}", k);
                let i = format_ident!("__i{}", k);
                let (pre, cond, bd): (Vec<Stmt>, Expr, Vec<Stmt>) = match name.as_str() {
                    "position" => (
                        vec![parse_quote!(let mut #v: Option<usize> = None;)],
                        parse_quote!(#v.is_none()),
                        vec![parse_quote!(if #body { #v = Some(#i - 1); })],
                    ),
                    "any" => (vec![parse_quote!(let mut #v = false;)], parse_quote!(!#v), vec![parse_quote!(if #body { #v = true; })]),
                    "all" => (vec![parse_quote!(let mut #v = true;)], parse_quote!(#v), vec![parse_quote!(if !(#body) { #v = false; })]),
                    _ => return None,
                };
                let st = self.mk_loop(k, src, pre, Some(pat), Some(cond), bd);
                Some(parse_quote!({ #(#st)* #v }))
            }
            "for_each" => {
                if !probe(self, &m.receiver) {
                    return None;
                }
                let (pat, body) = self.closure1(m.args.first()?)?;
                let k = self.take_loop();
                let src = self.iter_src(&m.receiver, k)?;
                let body = self.ex(&body);
                let st = self.mk_loop(k, src, vec![], Some(pat), None, vec![parse_quote!({ #body; })]);
                Some(parse_quote!({ #(#st)* }))
            }
            "fold" => {
                if !probe(self, &m.receiver) {
                    return None;
                }
                let init = self.ex(m.args.first()?);
                if let Expr::Closure(c) = strip_paren(&m.args[1]) {
                    let acc = c.inputs[0].clone();
                    let pat = c.inputs[1].clone();
                    let k = self.take_loop();
                    let src = self.iter_src(&m.receiver, k)?;
                    let body = self.ex(&c.body);
                    let v = format_ident!("__v{}", k);
                    let st = self.mk_loop(k, src, vec![parse_quote!(let mut #v = #init;)], Some(pat), None, vec![parse_quote!(#v = { let #acc = #v; #body };)]);
                    return Some(parse_quote!({ #(#st)* #v }));
                }
                None
            }
            _ => None,
        }
    }

    fn panic_expr() -> Expr {
        parse_quote!(vpanic())
    }

    fn macro_expr(&mut self, mac: &Macro) -> Expr {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        let args = || -> Vec<Expr> {
            mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default()
        };
        match name.as_str() {
            "assert" | "require" => {
                let a = args();
                if a.is_empty() {
                    self.fail("assert! args");
                    return parse_quote!(());
                }
                let c = self.ex(&a[0]);
                parse_quote!(if !(#c) { vpanic() })
            }
            "assert_eq" | "assert_ne" => {
                let a = args();
                if a.len() < 2 {
                    self.fail("assert_eq! args");
                    return parse_quote!(());
                }
                let (l, r) = (self.ex(&a[0]), self.ex(&a[1]));
                if name == "assert_eq" {
                    parse_quote!(if !veq(&(#l), &(#r)) { vpanic() })
                } else {
                    parse_quote!(if veq(&(#l), &(#r)) { vpanic() })
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Self::panic_expr(),
            "vec" => {
                if mac.tokens.is_empty() {
                    return parse_quote!(Vec::new());
                }
                // vec![x; n]
                struct Rep(Expr, Expr);
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let a: Expr = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(r) = syn::parse2::<Rep>(mac.tokens.clone()) {
                    let (x, n) = (self.ex(&r.0), self.ex(&r.1));
                    return parse_quote!(vvec(#x, #n));
                }
                let a = args();
                let v = self.fresh("vv");
                let ps: Vec<Stmt> = a
                    .iter()
                    .map(|x| {
                        let x = self.ex(x);
                        parse_quote!(#v.push(#x);)
                    })
                    .collect();
                parse_quote!({ let mut #v = Vec::new(); #(#ps)* #v })
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let a: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        Ok(M(a, p, g))
                    }
                }
                match syn::parse2::<M>(mac.tokens.clone()) {
                    Ok(M(a, p, g)) => {
                        let a = self.ex(&a);
                        match g {
                            Some(g) => {
                                let g = self.ex(&g);
                                parse_quote!(match #a { #p if #g => true, _ => false })
                            }
                            None => parse_quote!(match #a { #p => true, _ => false }),
                        }
                    }
                    Err(_) => {
                        self.fail("matches! form");
                        parse_quote!(())
                    }
                }
            }
            "format" => {
                // only the identity of the resulting text is abstracted
                let a = args();
                let rest: Vec<Expr> = a.iter().skip(1).map(|x| self.ex(x)).collect();
                let lit = a.first().map(|e| e.to_token_stream().to_string()).unwrap_or_default();
                if lit == "\":{}\"" && rest.len() == 1 {
                    let x = &rest[0];
                    return parse_quote!(vformat_mft(#x));
                }
                if lit == "\"{}@{}\"" && rest.len() == 2 {
                    let (x, y) = (&rest[0], &rest[1]);
                    return parse_quote!(vformat_at(#x, #y));
                }
                if lit == "\"{}#{}\"" && rest.len() == 2 {
                    let (x, y) = (&rest[0], &rest[1]);
                    return parse_quote!(vformat_hash(#x, #y));
                }
                parse_quote!(vformat())
            }
            n if n.starts_with("__v") => Expr::Macro(ExprMacro { attrs: vec![], mac: mac.clone() }),
            n => {
                self.fail(format!("unsupported macro {}!", n));
                parse_quote!(())
            }
        }
    }

    fn is_log_stmt(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Macro(m) => LOG_MACROS.contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = path_str(&p.path);
                    return ["env::log", "log_str", "env::log_str", "near_sdk::env::log"].contains(&s.as_str());
                }
                false
            }
            Expr::MethodCall(m) => m.method == "emit" && m.args.is_empty(),
            _ => false,
        }
    }

    fn lookup_fn(&self, key: &str) -> Option<&'a FnSrc> {
        self.db.fns.get(key)
    }

    /// turn `if c {..; return e;} rest` into nested ifs; None if not possible
    fn unreturn(&self, stmts: &[Stmt]) -> Option<Vec<Stmt>> {
        for (idx, s) in stmts.iter().enumerate() {
            let rest = &stmts[idx + 1..];
            match s {
                Stmt::Expr(Expr::Return(r), _) => {
                    let mut out: Vec<Stmt> = stmts[..idx].to_vec();
                    if let Some(e) = &r.expr {
                        out.push(Stmt::Expr((**e).clone(), None));
                    }
                    let _ = rest;
                    return Some(out);
                }
                Stmt::Expr(Expr::If(i), _) => {
                    let (tr, tq) = has_return(&i.then_branch);
                    let er = i.else_branch.as_ref().map_or((false, false), |(_, e)| {
                        let mut f = FindReturn(false, false);
                        f.visit_expr(e);
                        (f.0, f.1)
                    });
                    if tq || er.1 {
                        return None;
                    }
                    if tr || er.0 {
                        // then branch: with rest appended if it can fall through
                        let mut t: Vec<Stmt> = i.then_branch.stmts.clone();
                        if !ends_return(&t) {
                            t.extend(rest.to_vec());
                        }
                        let t = self.unreturn(&t)?;
                        let mut e: Vec<Stmt> = match &i.else_branch {
                            Some((_, e)) => match &**e {
                                Expr::Block(b) => b.block.stmts.clone(),
                                o => vec![Stmt::Expr(o.clone(), Some(Default::default()))],
                            },
                            None => vec![],
                        };
                        if !ends_return(&e) {
                            e.extend(rest.to_vec());
                        }
                        let e = self.unreturn(&e)?;
                        let c = &i.cond;
                        let mut out: Vec<Stmt> = stmts[..idx].to_vec();
                        out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#e)* }), None));
                        return Some(out);
                    }
                }
                other => {
                    let mut f = FindReturn(false, false);
                    f.visit_stmt(other);
                    if f.0 || f.1 {
                        return None;
                    }
                }
            }
        }
        Some(stmts.to_vec())
    }

    /// inline a callee that has no contract in this unit
    fn inline(&mut self, key: &str, recv: Option<Expr>, args: &[Expr]) -> Option<Expr> {
        let f = self.lookup_fn(key)?;
        if self.depth > 6 {
            self.fail(format!("inlining too deep at {}", key));
            return None;
        }
        let (_, q) = has_return(&f.block);
        let body = match self.unreturn(&f.block.stmts) {
            Some(b) if !q => b,
            _ => {
                self.fail(format!("helper {} has no contract and cannot be inlined (early return or ?)", key));
                return None;
            }
        };
        let mut pre: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let mut ai = 0;
        let mut self_as = self.self_as.clone();
        for inp in f.sig.inputs.iter() {
            match inp {
                FnArg::Receiver(r) => {
                    let rv = match &recv {
                        Some(r) => r.clone(),
                        None => {
                            if ai < args.len() {
                                ai += 1;
                                args[ai - 1].clone()
                            } else {
                                return None;
                            }
                        }
                    };
                    let is_self = matches!(&rv, Expr::Path(p) if p.path.is_ident("self"));
                    if is_self && self.self_as.is_none() {
                        // same self
                    } else {
                        let id = self.fresh("self");
                        if r.mutability.is_some() && r.reference.is_some() {
                            pre.push(parse_quote!(let #id = &mut #rv;));
                        } else if r.reference.is_some() {
                            pre.push(parse_quote!(let #id = &#rv;));
                        } else {
                            pre.push(parse_quote!(let #id = #rv;));
                        }
                        self_as = Some(id);
                    }
                }
                FnArg::Typed(t) => {
                    if ai >= args.len() {
                        return None;
                    }
                    let a = &args[ai];
                    ai += 1;
                    let tmp = self.fresh("arg");
                    let mut ty = (*t.ty).clone();
                    TyRw.visit_type_mut(&mut ty);
                    let generic = matches!(&*t.ty, Type::ImplTrait(_)) || !f.sig.generics.params.is_empty();
                    let pat = &t.pat;
                    if generic {
                        pre.push(parse_quote!(let #tmp = #a;));
                        binds.push(parse_quote!(let #pat = #tmp;));
                    } else {
                        pre.push(parse_quote!(let #tmp: #ty = #a;));
                        binds.push(parse_quote!(let #pat: #ty = #tmp;));
                    }
                }
            }
        }
        let saved_owner = self.owner.clone();
        let saved_self = self.self_as.clone();
        if f.owner.is_some() {
            self.owner = f.owner.clone();
        }
        self.self_as = self_as;
        self.depth += 1;
        self.inlined.push(key.to_string());
        let b: Block = parse_quote!({ #(#body)* });
        let b = self.blk(&b);
        self.depth -= 1;
        self.owner = saved_owner;
        self.self_as = saved_self;
        let st = b.stmts;
        let out: Expr = match &f.sig.output {
            ReturnType::Default => parse_quote!({ #(#pre)* #(#binds)* #(#st)* }),
            ReturnType::Type(_, t) => {
                let mut t = (**t).clone();
                TyRw.visit_type_mut(&mut t);
                if has_lifetime_or_self(&t) {
                    parse_quote!({ #(#pre)* #(#binds)* #(#st)* })
                } else {
                    let r = self.fresh("inl");
                    parse_quote!({ #(#pre)* #(#binds)* let #r: #t = { #(#st)* }; #r })
                }
            }
        };
        Some(out)
    }

    fn should_inline(&self, key: &str, last: &str) -> bool {
        self.db.fns.contains_key(key) && !self.contracted.contains(key) && !self.provided.contains(last)
    }

    fn place_read_write(&mut self, left: &Expr) -> (Expr, Box<dyn Fn(Expr) -> Expr>) {
        let l0 = strip_paren(left).clone();
        match &l0 {
            Expr::Index(ix) => {
                let b = self.place(&ix.expr, true);
                let i = self.ex(&ix.index);
                let read: Expr = {
                    let br = self.ex(&ix.expr);
                    parse_quote!(*#br.vidx(#i))
                };
                (read, Box::new(move |e| parse_quote!(#b.vset(#i, #e))))
            }
            _ => {
                let read = self.ex(&l0);
                let w = self.place(&l0, true);
                (read, Box::new(move |e| parse_quote!(#w = #e)))
            }
        }
    }
    /// an lvalue path: index bases become vidx_mut
    fn place(&mut self, e: &Expr, mutable: bool) -> Expr {
        match e {
            Expr::Field(f) => {
                let b = self.place(&f.base, mutable);
                let m = &f.member;
                parse_quote!(#b.#m)
            }
            Expr::Index(ix) if mutable => {
                let b = self.place(&ix.expr, true);
                let i = self.ex(&ix.index);
                parse_quote!(#b.vidx_mut(#i))
            }
            Expr::Paren(p) => {
                let b = self.place(&p.expr, mutable);
                parse_quote!((#b))
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                let b = self.place(&u.expr, mutable);
                parse_quote!(*#b)
            }
            o => self.ex(o),
        }
    }
}

fn ends_return(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => {
            ends_return(&i.then_branch.stmts)
                && match &i.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => ends_return(&b.block.stmts),
                        o => ends_return(&[Stmt::Expr(o.clone(), None)]),
                    },
                    None => false,
                }
        }
        Some(Stmt::Macro(m)) => ["panic", "unreachable", "unimplemented"].contains(&m.mac.path.segments.last().unwrap().ident.to_string().as_str()),
        _ => false,
    }
}

fn has_lifetime_or_self(t: &Type) -> bool {
    let s = t.to_token_stream().to_string();
    s.contains("Self") || s.contains('&')
}

const WRAP: &[&str] = &["U256", "U384", "u128", "u64", "u32", "u8", "u16", "usize", "i128", "i64", "Timestamp", "Balance", "Gas"];

impl<'a> VisitMut for Rw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        TyRw.visit_type_mut(t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        let n = old.len();
        for (ix, s) in old.into_iter().enumerate() {
            if cfg_test_stmt(&s) {
                continue;
            }
            match &s {
                Stmt::Expr(e, _) if self.is_log_stmt(e) => continue,
                Stmt::Macro(m) => {
                    let nm = m.mac.path.segments.last().unwrap().ident.to_string();
                    if LOG_MACROS.contains(&nm.as_str()) {
                        continue;
                    }
                    let e = self.macro_expr(&m.mac);
                    let tail = ix + 1 == n && m.semi_token.is_none();
                    if let Expr::Macro(mm) = &e {
                        out.push(Stmt::Macro(StmtMacro { attrs: vec![], mac: mm.mac.clone(), semi_token: Some(Default::default()) }));
                    } else if tail {
                        out.push(Stmt::Expr(e, None));
                    } else {
                        out.push(Stmt::Expr(e, Some(Default::default())));
                    }
                    continue;
                }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    if let Some(st) = self.for_loop(f) {
                        out.extend(st);
                    }
                    continue;
                }
                Stmt::Expr(Expr::While(w), _) => {
                    let st = self.while_loop(w);
                    out.extend(st);
                    continue;
                }
                Stmt::Expr(Expr::Loop(l), semi) if l.label.is_none() => {
                    let k = self.take_loop();
                    let body = self.blk(&l.body).stmts;
                    let k = Index::from(k);
                    out.push(parse_quote!(__vbefore!(#k);));
                    out.push(Stmt::Expr(parse_quote!(loop { __vloop!(#k); __ventry!(#k); #(#body)* __vend!(#k); }), *semi));
                    if semi.is_some() {
                        out.push(parse_quote!(__vafter!(#k);));
                    }
                    continue;
                }
                _ => {}
            }
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        // statement anchored proofs (@at): not used for semantics
        b.stmts = out;
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        if let Pat::Type(t) = &mut l.pat {
            TyRw.visit_type_mut(&mut t.ty);
        }
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            if let (Type::Path(tp), Expr::MethodCall(mm)) = (&*t.ty, &mut *i.expr) {
                if mm.method == "collect" && mm.turbofish.is_none() && tp.path.segments.last().map_or(false, |x| x.ident == "HashSet") {
                    mm.turbofish = Some(parse_quote!(::<HashSet<_>>));
                }
            }
        }
        if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = &mut i.diverge {
                self.visit_expr_mut(d);
            }
        }
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        TyRw.visit_path_mut(p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let old = std::mem::replace(e, Expr::Verbatim(Default::default()));
        *e = self.rewrite(old);
    }
}

impl<'a> Rw<'a> {
    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Vec<Stmt>> {
        let k = self.take_loop();
        let src = match self.iter_src(&f.expr, k) {
            Some(s) => s,
            None => {
                // owned or borrowed collection given by value: iterate by index over it
                let e = &f.expr;
                if let Expr::MethodCall(mc) = strip_paren(e) {
                    const ADAPT: &[&str] = &["map", "filter", "rev", "skip", "take", "chain", "step_by", "windows", "chunks", "iter", "into_iter", "iter_mut", "keys", "values", "chars", "zip", "enumerate", "flat_map", "filter_map", "drain", "skip_while", "take_while"];
                    if ADAPT.contains(&mc.method.to_string().as_str()) {
                        self.fail(format!("unsupported iterator {}", e.to_token_stream()));
                        return None;
                    }
                }
                let s = format_ident!("__s{}", k);
                let i = format_ident!("__i{}", k);
                let x = self.ex(e);
                Src { setup: vec![parse_quote!(let #s = #x;)], init: parse_quote!(0usize), len: parse_quote!(#s.len()), elem: parse_quote!(#s.vnext(#i)) }
            }
        };
        let body = self.blk(&f.body).stmts;
        let st = self.mk_loop(k, src, vec![], Some((*f.pat).clone()), None, body);
        Some(vec![Stmt::Expr(parse_quote!({ #(#st)* }), None)])
    }
    fn while_loop(&mut self, w: &ExprWhile) -> Vec<Stmt> {
        let k = self.take_loop();
        let k = Index::from(k);
        if let Expr::Let(_) = &*w.cond {
            self.fail("while let");
        }
        let c = self.ex(&w.cond);
        let body = self.blk(&w.body).stmts;
        vec![
            parse_quote!(__vbefore!(#k);),
            Stmt::Expr(parse_quote!(while #c { __vloop!(#k); __ventry!(#k); #(#body)* __vend!(#k); }), None),
            parse_quote!(__vafter!(#k);),
        ]
    }

    fn bin(&mut self, op: &BinOp, l: Expr, r: Expr) -> Expr {
        match op {
            BinOp::Add(_) => parse_quote!(vadd(#l, #r)),
            BinOp::Sub(_) => parse_quote!(vsub(#l, #r)),
            BinOp::Mul(_) => parse_quote!(vmul(#l, #r)),
            BinOp::Div(_) => parse_quote!(vdiv(#l, #r)),
            BinOp::Rem(_) => parse_quote!(vrem(#l, #r)),
            BinOp::Shr(_) => parse_quote!(vshr(#l, #r)),
            BinOp::Shl(_) => parse_quote!(vshl(#l, #r)),
            BinOp::Lt(_) => parse_quote!(vlt(#l, #r)),
            BinOp::Le(_) => parse_quote!(vle(#l, #r)),
            BinOp::Gt(_) => parse_quote!(vgt(#l, #r)),
            BinOp::Ge(_) => parse_quote!(vge(#l, #r)),
            BinOp::Eq(_) => parse_quote!(veq(&(#l), &(#r))),
            BinOp::Ne(_) => parse_quote!(!veq(&(#l), &(#r))),
            BinOp::BitAnd(_) => parse_quote!((#l & #r)),
            BinOp::BitOr(_) => parse_quote!((#l | #r)),
            BinOp::And(_) => parse_quote!((#l && #r)),
            BinOp::Or(_) => parse_quote!((#l || #r)),
            _ => {
                self.fail("unsupported operator");
                parse_quote!(())
            }
        }
    }

    fn rewrite(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Binary(b) => {
                let assign = match b.op {
                    BinOp::AddAssign(_) => Some(BinOp::Add(Default::default())),
                    BinOp::SubAssign(_) => Some(BinOp::Sub(Default::default())),
                    BinOp::MulAssign(_) => Some(BinOp::Mul(Default::default())),
                    BinOp::DivAssign(_) => Some(BinOp::Div(Default::default())),
                    BinOp::RemAssign(_) => Some(BinOp::Rem(Default::default())),
                    _ => None,
                };
                if let Some(op) = assign {
                    let r = self.ex(&b.right);
                    let (read, write) = self.place_read_write(&b.left);
                    let t = self.fresh("t");
                    let v = self.bin(&op, read, r);
                    let w = write(parse_quote!(#t));
                    return parse_quote!({ let #t = #v; #w; });
                }
                let lit2 = is_lit(&b.left) && is_lit(&b.right);
                let l = self.ex(&b.left);
                let r = self.ex(&b.right);
                if lit2 {
                    let op = b.op;
                    return parse_quote!((#l #op #r));
                }
                self.bin(&b.op, l, r)
            }
            Expr::Assign(a) => {
                let r = self.ex(&a.right);
                if let Expr::Infer(_) = &*a.left {
                    return parse_quote!({ let _ = #r; });
                }
                match strip_paren(&a.left) {
                    Expr::Index(_) => {
                        let (_, write) = self.place_read_write(&a.left);
                        let t = self.fresh("t");
                        let w = write(parse_quote!(#t));
                        parse_quote!({ let #t = #r; #w; })
                    }
                    _ => {
                        let l = self.place(&a.left, true);
                        parse_quote!(#l = #r)
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = strip_paren(&ix.index) {
                    let b = self.ex(&ix.expr);
                    let lo: Expr = match &r.start { Some(x) => self.ex(x), None => parse_quote!(0usize) };
                    return match &r.end {
                        Some(x) => { let x = self.ex(x); parse_quote!(#b.vslice_to(#lo, #x)) }
                        None => parse_quote!(#b.vslice_from(#lo)),
                    };
                }
                let b = self.ex(&ix.expr);
                let i = self.ex(&ix.index);
                parse_quote!((*#b.vidx(#i)))
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    if let Expr::Index(ix) = strip_paren(&r.expr) {
                        let b = self.place(&ix.expr, true);
                        let i = self.ex(&ix.index);
                        return parse_quote!(#b.vidx_mut(#i));
                    }
                    let p = self.place(&r.expr, true);
                    return parse_quote!(&mut #p);
                }
                let p = self.ex(&r.expr);
                parse_quote!(&#p)
            }
            Expr::Unsafe(_) if self.provided.contains("v_unsafe") => parse_quote!(v_unsafe()),
            Expr::Macro(m) => self.macro_expr(&m.mac),
            Expr::ForLoop(f) => match self.for_loop(&f) {
                Some(st) => parse_quote!({ #(#st)* }),
                None => parse_quote!(()),
            },
            Expr::While(w) => {
                let st = self.while_loop(&w);
                parse_quote!({ #(#st)* })
            }
            Expr::MethodCall(m) => self.method(m),
            Expr::Call(c) => self.call(c),
            Expr::Path(mut p) => {
                if p.path.is_ident("self") {
                    if let Some(s) = &self.self_as {
                        return parse_quote!(#s);
                    }
                }
                TyRw.visit_path_mut(&mut p.path);
                self.fix_self(&mut p.path);
                Expr::Path(p)
            }
            Expr::Struct(mut s) => {
                TyRw.visit_path_mut(&mut s.path);
                self.fix_self(&mut s.path);
                for f in s.fields.iter_mut() {
                    self.visit_expr_mut(&mut f.expr);
                }
                if let Some(r) = &mut s.rest {
                    self.visit_expr_mut(r);
                }
                Expr::Struct(s)
            }
            Expr::Paren(p) => {
                let x = self.ex(&p.expr);
                parse_quote!((#x))
            }
            Expr::Closure(mut c) => {
                self.visit_expr_mut(&mut c.body);
                Expr::Closure(c)
            }
            Expr::Cast(c) => {
                let x = self.ex(&c.expr);
                let mut t = c.ty;
                TyRw.visit_type_mut(&mut t);
                if is_lit(&x) {
                    return parse_quote!((#x as #t));
                }
                parse_quote!((#x as #t))
            }
            Expr::Match(mut m) => {
                m.attrs.clear();
                m.expr = Box::new(self.ex(&m.expr));
                for a in m.arms.iter_mut() {
                    a.attrs.clear();
                    TyRwPat.visit_pat_mut(&mut a.pat);
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    let b = self.ex(&a.body);
                    a.body = Box::new(b);
                    a.comma = Some(Default::default());
                }
                Expr::Match(m)
            }
            other => {
                let mut o = other;
                visit_mut::visit_expr_mut(self, &mut o);
                o
            }
        }
    }

    fn fix_self(&self, p: &mut Path) {
        if self.depth > 0 && p.segments.len() >= 1 && p.segments[0].ident == "Self" {
            if let Some(o) = &self.owner {
                p.segments[0].ident = format_ident!("{}", o);
            }
        }
    }

    fn method(&mut self, m: ExprMethodCall) -> Expr {
        if let Some(x) = self.chain(&m) {
            return x;
        }
        let name = m.method.to_string();
        let args0: Vec<Expr> = m.args.iter().cloned().collect();
        // map.entry(k).and_modify(|v| ..).or_insert(d), as a statement: update in place or insert
        if name == "or_insert" {
            if let Expr::MethodCall(am) = strip_paren(&m.receiver) {
                if let (true, Expr::MethodCall(en), Some(Expr::Closure(c))) = (am.method == "and_modify", strip_paren(&am.receiver), am.args.first().map(|x| strip_paren(x).clone())) {
                    if en.method == "entry" && c.inputs.len() == 1 {
                        let k = self.ex(&en.args[0]);
                        let mp = self.ex(&en.receiver);
                        let d = self.ex(&args0[0]);
                        let pat = &c.inputs[0];
                        let body = self.ex(&c.body);
                        return parse_quote!({ let __k = #k; let __d = #d; match #mp.get_mut(&__k) { Some(#pat) => { #body; } None => { let _ = #mp.insert(__k, __d); } } });
                    }
                }
            }
        }
        match name.as_str() {
            "expect" | "unwrap" | "unwrap_or_default" | "unwrap_or" | "ok" | "checked_sub" | "checked_add" | "checked_mul" | "checked_div" | "checked_pow" | "into" | "pow"
            | "saturating_sub" | "cloned" | "copied" | "to_string" | "is_empty" | "max" | "min" | "try_into" | "wrapping_add" | "overflowing_add"
            | "overflowing_sub" | "mul" | "div" | "add" | "sub" if !(matches!(name.as_str(), "mul" | "div" | "add" | "sub") && args0.len() != 1) => {
                let r = self.ex(&m.receiver);
                let a: Vec<Expr> = if name == "expect" { vec![] } else { args0.iter().map(|x| self.ex(x)).collect() };
                return match name.as_str() {
                    "expect" | "unwrap" => parse_quote!(vunwrap(#r)),
                    "into" => parse_quote!(vinto(#r)),
                    "copied" => parse_quote!(vcloned(#r)),
                    "to_string" => {
                        if let Expr::Lit(_) = strip_paren(&m.receiver) {
                            parse_quote!(vlit(#r))
                        } else {
                            parse_quote!((#r).vto_string())
                        }
                    }
                    "is_empty" => parse_quote!((#r).vis_empty()),
                    n => {
                        // the argument of U256::checked_add(x.into()) has the receiver's type
                        let same = n.starts_with("checked_") && matches!(args0.first().map(|x| strip_paren(x).clone()), Some(Expr::MethodCall(mm)) if mm.method == "into");
                        let f = if same { format_ident!("v{}_s", n) } else { format_ident!("v{}", n) };
                        parse_quote!(#f(#r #(, #a)*))
                    }
                };
            }
            "unwrap_or_else" | "map" | "and_then" | "map_or" | "ok_or_else" => {
                // Option combinators with closures: expand to match
                if name == "unwrap_or_else" {
                    if let Expr::Closure(c) = strip_paren(&args0[0]) {
                        let r = self.ex(&m.receiver);
                        let b = self.ex(&c.body);
                        if c.inputs.is_empty() {
                            return parse_quote!(match #r { Some(__x) => __x, None => #b });
                        }
                    }
                }
                if name == "map" || name == "and_then" {
                    let r = self.ex(&m.receiver);
                    let (p, b) = match self.closure1(&args0[0]) {
                        Some((p, b)) => (p, self.ex(&b)),
                        None => {
                            let f = &args0[0];
                            let call: Expr = parse_quote!(#f(__x));
                            (parse_quote!(__x), self.ex(&call))
                        }
                    };
                    if name == "map" {
                        return parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                    }
                    return parse_quote!(match #r { Some(#p) => #b, None => None });
                }
                if name == "map_or" {
                    if let Some((p, b)) = self.closure1(&args0[1]) {
                        let r = self.ex(&m.receiver);
                        let d = self.ex(&args0[0]);
                        let b = self.ex(&b);
                        return parse_quote!(match #r { Some(#p) => #b, None => #d });
                    }
                }
                self.fail(format!("unsupported combinator {}", name));
                return parse_quote!(());
            }
            "clone" => {
                let r = self.ex(&m.receiver);
                return parse_quote!((#r).vclone());
            }
            _ => {}
        }
        // inline helper methods without contract
        let is_self = matches!(strip_paren(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
        if is_self {
            if let Some(o) = self.owner.clone() {
                let key = format!("{}::{}", o, name);
                if self.should_inline(&key, &name) {
                    let args: Vec<Expr> = args0.iter().map(|x| self.ex(x)).collect();
                    let rv = self.ex(&m.receiver);
                    if let Some(x) = self.inline(&key, Some(rv), &args) {
                        return x;
                    }
                    return parse_quote!(());
                }
            }
        } else if !self.provided.contains(&name) {
            // unique owner in the db that is not contracted
            let suffix = format!("::{}", name);
            let any_contracted = self.contracted.iter().any(|k| k.ends_with(&suffix));
            if !any_contracted {
                let cands: Vec<String> = self
                    .db
                    .fns
                    .iter()
                    .filter(|(k, f)| k.ends_with(&suffix) && f.sig.receiver().is_some())
                    .map(|(k, _)| k.clone())
                    .collect();
                const STD: &[&str] = &["len", "push", "get", "insert", "remove", "contains_key", "contains", "as_ref", "as_mut", "iter", "is_some", "is_none", "take", "keys", "values"];
                if cands.len() == 1 && !STD.contains(&name.as_str()) {
                    let args: Vec<Expr> = args0.iter().map(|x| self.ex(x)).collect();
                    let mutable = self.db.fns[&cands[0]].sig.receiver().map_or(false, |r| r.mutability.is_some());
                    let rv = if mutable { self.place(&m.receiver, true) } else { self.ex(&m.receiver) };
                    if let Some(x) = self.inline(&cands[0], Some(rv), &args) {
                        return x;
                    }
                    return parse_quote!(());
                }
            }
        }
        let mut m = m;
        // receiver may be mutated: index receivers -> leave as shared unless method mutates (unknown): use vidx_mut for known mutators
        let mutators = ["push", "insert", "remove", "extend", "clear", "pop", "set"];
        let is_mut_recv = mutators.contains(&name.as_str());
        m.receiver = Box::new(if is_mut_recv { self.place(&m.receiver, true) } else { self.ex(&m.receiver) });
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
        m.turbofish = None;
        Expr::MethodCall(m)
    }

    fn call(&mut self, c: ExprCall) -> Expr {
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        if let Expr::Path(p) = &*c.func {
            let mut path = p.path.clone();
            TyRw.visit_path_mut(&mut path);
            let s = path_str(&path);
            let segs: Vec<String> = path.segments.iter().map(|x| x.ident.to_string()).collect();
            let last = segs.last().unwrap().clone();
            if s == "env::panic" || s == "env::panic_str" {
                return Self::panic_expr();
            }
            if last == "min" && (segs.len() == 1 || segs[segs.len() - 2] == "cmp") {
                let a: Vec<Expr> = args.iter().map(|x| self.ex(x)).collect();
                return parse_quote!(vmin(#(#a),*));
            }
            if last == "max" && (segs.len() == 1 || segs[segs.len() - 2] == "cmp") {
                let a: Vec<Expr> = args.iter().map(|x| self.ex(x)).collect();
                return parse_quote!(vmax(#(#a),*));
            }
            if segs.len() == 2 && last == "from" && (segs[0] == "String" || segs[0] == "Str") {
                let a = self.ex(&args[0]);
                return if let Expr::Lit(_) = strip_paren(&args[0]) { parse_quote!(vlit(#a)) } else { parse_quote!((#a).vto_string()) };
            }
            if segs.len() == 2 && last == "from" && WRAP.contains(&segs[0].as_str()) {
                let t = format_ident!("{}", segs[0]);
                let mut a = self.ex(&args[0]);
                if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = &a {
                    if i.suffix().is_empty() {
                        let v: LitInt = LitInt::new(&format!("{}u128", i.base10_digits()), i.span());
                        a = parse_quote!(#v);
                    }
                }
                return parse_quote!(vfrom::<_, #t>(#a));
            }
            // helper functions without contract
            let mut segs2 = segs.clone();
            if segs2[0] == "Self" {
                if let Some(o) = &self.owner {
                    segs2[0] = o.clone();
                }
            }
            let key = segs2.join("::");
            if self.should_inline(&key, &last) {
                let a: Vec<Expr> = args.iter().map(|x| self.ex(x)).collect();
                if let Some(x) = self.inline(&key, None, &a) {
                    return x;
                }
                return parse_quote!(());
            }
            // module::function form
            if segs2.len() == 2 && segs2[0].chars().next().unwrap().is_lowercase() {
                let key = &segs2[1];
                if self.should_inline(key, &last) && segs2[0] != "env" {
                    let a: Vec<Expr> = args.iter().map(|x| self.ex(x)).collect();
                    if let Some(x) = self.inline(key, None, &a) {
                        return x;
                    }
                    return parse_quote!(());
                }
            }
        }
        let mut c = c;
        self.visit_expr_mut(&mut c.func);
        for a in c.args.iter_mut() {
            self.visit_expr_mut(a);
        }
        Expr::Call(c)
    }
}

struct TyRwPat;
impl VisitMut for TyRwPat {
    fn visit_path_mut(&mut self, p: &mut Path) {
        TyRw.visit_path_mut(p);
    }
}

// ------------------------------------------------------------------ emission

fn pretty(ts: &str) -> String {
    // newline after { ; } outside string literals
    let mut out = String::new();
    let mut in_str = false;
    let mut esc = false;
    let mut paren = 0i32;
    for c in ts.chars() {
        out.push(c);
        if in_str {
            if esc {
                esc = false
            } else if c == '\\' {
                esc = true
            } else if c == '"' {
                in_str = false
            }
            continue;
        }
        match c {
            '"' => in_str = true,
            '(' | '[' => paren += 1,
            ')' | ']' => paren -= 1,
            '{' | '}' => out.push('\n'),
            ';' if paren <= 0 || true => out.push('\n'),
            _ => {}
        }
    }
    out
}

/// ghost text of `@at break k` before every `break ;` of loop k
fn ghost_breaks(body: &str, f: &FnSpec) -> String {
    if f.at.is_empty() {
        return body.to_string();
    }
    let mut stack: Vec<usize> = vec![];
    let mut out = String::new();
    let mut i = 0;
    let num = |t: &str| t.trim_start_matches(|c: char| !c.is_ascii_digit()).chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().unwrap_or(0);
    while i < body.len() {
        let r = &body[i..];
        if r.starts_with("__vloop !") {
            stack.push(num(&r[9..]));
        } else if r.starts_with("__vend !") {
            stack.pop();
        } else if r.starts_with("break ;") {
            if let Some(k) = stack.last() {
                for (a, t) in &f.at {
                    if *a == format!("break {}", k) {
                        out.push_str(t);
                    }
                }
            }
        }
        let c = r.chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

/// ghost text of `@at call NAME K` after the statement holding the K-th call of NAME
fn ghost_calls(body: String, f: &FnSpec) -> String {
    let mut s = body;
    for (a, t) in &f.at {
        if a == "return" {
            let mut from = 0;
            while let Some(p) = s[from..].find("return ") {
                let at = from + p;
                let st = at + 7;
                let mut d = 0i32;
                let mut end = None;
                for (o, c) in s[st..].char_indices() {
                    match c {
                        '(' | '[' | '{' => d += 1,
                        ')' | ']' | '}' => d -= 1,
                        ';' if d == 0 => {
                            end = Some(st + o);
                            break;
                        }
                        _ => {}
                    }
                }
                let e = match end {
                    Some(e) => e,
                    None => break,
                };
                let v = s[st..e].trim().to_string();
                let new = if v.is_empty() { format!("{} return ;", t) } else { format!("let r = {} ; {} return r ;", v, t) };
                s.replace_range(at..e + 1, &new);
                from = at + new.len();
            }
            continue;
        }
        let w: Vec<&str> = a.split_whitespace().collect();
        if w.len() != 3 || w[0] != "call" {
            continue;
        }
        let pat = format!("{} (", w[1]);
        let mut k: usize = w[2].parse().unwrap_or(0);
        let mut from = 0;
        while let Some(p) = s[from..].find(&pat) {
            let at = from + p;
            let whole = at == 0 || !s[..at].ends_with(|c: char| c.is_alphanumeric() || c == '_');
            from = at + pat.len();
            if !whole {
                continue;
            }
            if k > 0 {
                k -= 1;
                continue;
            }
            let mut d = 1i32;
            let mut end = None;
            for (o, c) in s[from..].char_indices() {
                match c {
                    '(' | '[' | '{' => d += 1,
                    ')' | ']' => d -= 1,
                    '}' => {
                        d -= 1;
                        if d < 0 {
                            break;
                        }
                    }
                    ';' if d <= 0 => {
                        end = Some(from + o + 1);
                        break;
                    }
                    _ => {}
                }
            }
            if let Some(e) = end {
                s.insert_str(e, t);
            }
            break;
        }
    }
    s
}

fn fill_markers(body: &str, f: &FnSpec, nloops: usize) -> std::result::Result<String, String> {
    let mut s = ghost_calls(ghost_breaks(body, f), f);
    for k in 0..nloops.max(1) {
        let inv = f.loops.get(&k).cloned().unwrap_or_default();
        let mk = |n: &str| format!("{} ! ({}) ;", n, k);
        // `{ __vloop ! (k) ;` -> invariant text before the brace
        let lp = mk("__vloop");
        if let Some(p) = s.find(&lp) {
            let brace = s[..p].rfind('{').unwrap();
            let after = p + lp.len();
            s = format!("{}\n{}\n{{{}", &s[..brace], inv, &s[after..]);
        }
        for (n, m) in [("__vbefore", &f.before_loop), ("__vafter", &f.after_loop), ("__ventry", &f.loop_entry), ("__vend", &f.loop_end)] {
            let t = m.get(&k).cloned().unwrap_or_default();
            s = s.replace(&mk(n), &format!("\n{}\n", t));
        }
    }
    if s.contains("__vloop !") {
        return Err("loop marker left".into());
    }
    for k in f.loops.keys() {
        if *k >= nloops {
            return Err(format!("lost anchor: loop {} not found (function has {} loops)", k, nloops));
        }
    }
    Ok(s)
}

pub fn emit_fn(db: &Db, f: &FnSpec, provided: &HashSet<String>, contracted: &HashSet<String>) -> std::result::Result<Emitted, String> {
    let src = db.fns.get(&f.name).ok_or_else(|| format!("lost anchor: fn {} not found", f.name))?;
    let mut rw = Rw {
        db,
        provided,
        contracted,
        owner: src.owner.clone(),
        spec: f,
        loop_n: 0,
        tmp: 0,
        depth: 0,
        inlined: vec![],
        err: None,
        self_as: None,
    };
    // signature
    let mut params: Vec<String> = vec![];
    if src.sig.receiver().is_none() {
        params = f.extra_args.clone();
    }
    let mut lets: Vec<String> = vec![];
    if f.params.len() != src.sig.inputs.len() {
        return Err(format!("lost anchor: fn {} has {} parameters, contract names {}", f.name, src.sig.inputs.len(), f.params.len()));
    }
    for (inp, canon) in src.sig.inputs.iter().zip(f.params.iter()) {
        match inp {
            FnArg::Receiver(r) => {
                if canon != "self" {
                    return Err(format!("lost anchor: fn {} receiver", f.name));
                }
                let s = if r.reference.is_some() {
                    if r.mutability.is_some() || f.selfmut { "&mut self" } else { "&self" }
                } else if r.mutability.is_some() {
                    lets.push("let mut self_ = self;".into());
                    return Err("mut self".into());
                } else {
                    "self"
                };
                params.push(s.into());
                params.extend(f.extra_args.iter().cloned());
            }
            FnArg::Typed(t) => {
                let mut ty = (*t.ty).clone();
                TyRw.visit_type_mut(&mut ty);
                let mut tys = ty.to_token_stream().to_string();
                for (a, b) in &f.param_types {
                    if a == canon {
                        tys = b.clone();
                    }
                }
                params.push(format!("{}: {}", canon, tys));
                match &*t.pat {
                    Pat::Ident(pi) => {
                        if pi.ident != canon || pi.mutability.is_some() {
                            lets.push(format!("let {}{} = {};", if pi.mutability.is_some() { "mut " } else { "" }, pi.ident, canon));
                        }
                    }
                    Pat::Wild(_) => {}
                    p => lets.push(format!("let {} = {};", p.to_token_stream(), canon)),
                }
            }
        }
    }
    let ret = match &src.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            TyRw.visit_type_mut(&mut t);
            let mut ts = t.to_token_stream().to_string();
            for (a, b) in &f.param_types {
                if a == "ret" {
                    ts = b.clone();
                }
            }
            format!(" -> ({}: {})", f.ret, ts)
        }
    };
    let mut body = String::new();
    if !f.trusted {
        let mut srcb = src.block.clone();
        annotate_result(&mut srcb, &src.sig.output);
        let b = rw.blk(&srcb);
        if let Some(e) = rw.err {
            return Err(e);
        }
        let (hr, hq) = has_return(&b);
        let inner = pretty(&b.to_token_stream().to_string());
        let mut inner = fill_markers(&inner, f, rw.loop_n)?;
        // a text literal compared with a string
        let mut parts = inner.split("& (\"");
        let mut lit = parts.next().unwrap_or("").to_string();
        for p in parts {
            match p.split_once("\")") {
                Some((l, r)) if !l.contains('"') => lit.push_str(&format!("& (vlit (\"{}\")){}", l, r)),
                _ => lit.push_str(&format!("& (\"{}", p)),
            }
        }
        inner = lit;
        for (a, c) in &f.subst {
            inner = inner.replace(a, c);
        }
        let _ = (hr, hq);
        if src.private && provided.contains("v_private") {
            lets.insert(0, "v_private();".into());
        }
        if f.exit.trim().is_empty() {
            body = format!("{{ {}\n{}\n{} }}", lets.join(" "), f.entry, inner);
        } else if ret.is_empty() {
            body = format!("{{ {}\n{}\n{};\n{} }}", lets.join(" "), f.entry, inner, f.exit);
        } else {
            body = format!("{{ {}\n{}\nlet {} = {};\n{}\n{} }}", lets.join(" "), f.entry, f.ret, inner, f.exit, f.ret);
        }
    }
    let mut gen = src.sig.generics.to_token_stream().to_string();
    if !f.generics.is_empty() {
        gen = f.generics.clone();
    }
    let mut text = String::new();
    if let Some(o) = &f.owner {
        text.push_str(&format!("impl {} {{\n", o));
    }
    text.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    for a in &f.attrs {
        text.push_str(a);
        text.push('\n');
    }
    if f.trusted {
        text.push_str("#[verifier::external_body]\n");
    }
    text.push_str(&format!("pub fn {}{}({}){}\n{}\n", f.emit, gen, params.join(", "), ret, f.spec));
    if f.trusted {
        text.push_str("{ unimplemented!() }\n");
    } else {
        text.push_str(&body);
    }
    if f.owner.is_some() {
        text.push_str("\n}");
    }
    Ok(Emitted { text, loops: rw.loop_n, inlined: rw.inlined, srcline: src.line, srcfile: src.file.clone(), body: String::new() })
}

/// `let mut x = vec![]; ... x` as function result: give x the declared result type (spec positions cannot infer it)
fn annotate_result(b: &mut Block, out: &ReturnType) {
    let ty = match out {
        ReturnType::Type(_, t) => (**t).clone(),
        _ => return,
    };
    let mut names: Vec<(Ident, Type)> = vec![];
    if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
        match (strip_paren(e), &ty) {
            (Expr::Path(p), _) => {
                if let Some(i) = p.path.get_ident() {
                    names.push((i.clone(), ty.clone()));
                }
            }
            (Expr::Tuple(t), Type::Tuple(tt)) => {
                for (e, ty) in t.elems.iter().zip(tt.elems.iter()) {
                    if let Expr::Path(p) = e {
                        if let Some(i) = p.path.get_ident() {
                            names.push((i.clone(), ty.clone()));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for s in b.stmts.iter_mut() {
        if let Stmt::Local(l) = s {
            if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                let it = init.expr.to_token_stream().to_string().replace(' ', "");
                if it == "vec![]" || it == "Vec::new()" || it.starts_with("Vec::with_capacity") {
                    if let Some((_, t)) = names.iter().find(|(n, _)| *n == pi.ident) {
                        let p = l.pat.clone();
                        let t = t.clone();
                        l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) });
                    }
                }
            }
        }
    }
}

/// value of a constant expression with `pow`, which the verifier's const evaluation does not accept
fn const_val(db: &Db, e: &Expr) -> Option<u128> {
    Some(match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.base10_parse::<u128>().ok()?,
            _ => return None,
        },
        Expr::Paren(p) => const_val(db, &p.expr)?,
        Expr::Group(p) => const_val(db, &p.expr)?,
        Expr::Cast(c) => const_val(db, &c.expr)?,
        Expr::Path(p) => const_val(db, &db.consts.get(&p.path.segments.last()?.ident.to_string())?.expr)?,
        Expr::Binary(b) => {
            let (l, r) = (const_val(db, &b.left)?, const_val(db, &b.right)?);
            match b.op {
                BinOp::Add(_) => l.checked_add(r)?,
                BinOp::Sub(_) => l.checked_sub(r)?,
                BinOp::Mul(_) => l.checked_mul(r)?,
                BinOp::Div(_) => l.checked_div(r)?,
                _ => return None,
            }
        }
        Expr::MethodCall(m) if m.method == "pow" => const_val(db, &m.receiver)?.checked_pow(const_val(db, m.args.first()?)? as u32)?,
        _ => return None,
    })
}

pub fn emit_const(db: &Db, c: &ItemConst) -> String {
    let mut t = (*c.ty).clone();
    TyRw.visit_type_mut(&mut t);
    let e = &c.expr;
    if e.to_token_stream().to_string().contains("pow") {
        if let Some(v) = const_val(db, e) {
            return format!("pub const {}: {} = {};", c.ident, t.to_token_stream(), v);
        }
    }
    format!("pub const {}: {} = {};", c.ident, t.to_token_stream(), e.to_token_stream())
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

/// opts: drop=field, add:field=Ty, ext (extra derives), type:field=Ty, noclone
pub fn emit_type(it: &Item, opts: &[String]) -> std::result::Result<String, String> {
    let drop: Vec<&str> = opts.iter().filter_map(|o| o.strip_prefix("drop=")).collect();
    let over: Vec<(&str, &str)> = opts.iter().filter_map(|o| o.strip_prefix("type:").and_then(|x| x.split_once('='))).collect();
    // storage areas the code reaches through handles with a constant prefix, kept as fields of the contract state
    let adds: Vec<(&str, &str)> = opts.iter().filter_map(|o| o.strip_prefix("add:").and_then(|x| x.split_once('='))).collect();
    let fix = |fields: &mut Fields| {
        match fields {
            Fields::Named(n) => {
                let old = std::mem::take(&mut n.named);
                for mut f in old {
                    let id = f.ident.as_ref().unwrap().to_string();
                    if drop.contains(&id.as_str()) {
                        continue;
                    }
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    if let Some((_, t)) = over.iter().find(|(n, _)| *n == id) {
                        f.ty = syn::parse_str(t).unwrap();
                    } else {
                        TyRw.visit_type_mut(&mut f.ty);
                    }
                    n.named.push(f);
                }
                for (n2, t) in &adds {
                    let id = format_ident!("{}", n2);
                    let ty: Type = syn::parse_str(t).unwrap();
                    let f: syn::FieldsNamed = parse_quote!({ pub #id: #ty });
                    n.named.push(f.named[0].clone());
                }
            }
            Fields::Unnamed(u) => {
                for f in u.unnamed.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                    TyRw.visit_type_mut(&mut f.ty);
                }
            }
            Fields::Unit => {}
        }
    };
    let noclone = opts.iter().any(|o| o == "noclone");
    let rename = opts.iter().find_map(|o| o.strip_prefix("as="));
    let (name, text, dv) = match it {
        Item::Struct(s) => {
            let mut s = s.clone();
            let dv = derives(&s.attrs);
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            if let Some(n) = rename {
                s.ident = format_ident!("{}", n);
            }
            fix(&mut s.fields);
            (s.ident.to_string(), quote!(#s).to_string(), dv)
        }
        Item::Enum(s) => {
            let mut s = s.clone();
            let dv = derives(&s.attrs);
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                // enum variant fields carry no visibility
                match &mut v.fields {
                    Fields::Named(n) => {
                        for f in n.named.iter_mut() {
                            f.attrs.clear();
                            TyRw.visit_type_mut(&mut f.ty);
                        }
                    }
                    Fields::Unnamed(u) => {
                        for f in u.unnamed.iter_mut() {
                            f.attrs.clear();
                            TyRw.visit_type_mut(&mut f.ty);
                        }
                    }
                    Fields::Unit => {}
                }
            }
            (s.ident.to_string(), quote!(#s).to_string(), dv)
        }
        _ => return Err("type kind".into()),
    };
    let mut out = pretty(&text);
    out.push('\n');
    if !noclone && dv.iter().any(|d| d == "Clone") {
        out.push_str(&format!("impl VClone for {} {{ #[verifier::external_body] fn vclone(&self) -> (r: Self) {{ unimplemented!() }} }}\n", name));
    }
    if dv.iter().any(|d| d == "PartialEq") {
        out.push_str(&format!("impl VEq for {} {{ open spec fn veqs(&self, o: &Self) -> bool {{ *self == *o }} #[verifier::external_body] fn veqx(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", name));
    }
    Ok(out)
}

/// `let (&a, b) = (x, y)` as `let a = *x; let b = y;` (reference patterns are outside the verifier's subset)
fn split_ref_pat(p: &Pat, e: &Expr) -> Vec<Stmt> {
    match (p, e) {
        (Pat::Tuple(t), Expr::Tuple(x)) if t.elems.len() == x.elems.len() && t.elems.iter().any(|q| matches!(q, Pat::Reference(_) | Pat::Tuple(_))) => {
            t.elems.iter().zip(x.elems.iter()).flat_map(|(q, y)| split_ref_pat(q, y)).collect()
        }
        (Pat::Reference(r), e) => {
            let q = &r.pat;
            vec![parse_quote!(let #q = *#e;)]
        }
        (p, e) => vec![parse_quote!(let #p = #e;)],
    }
}
