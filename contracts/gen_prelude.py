#!/usr/bin/env python3
"""Expands the repetitive impls of prelude.vc into the build directory."""
import sys
src, dst = sys.argv[1], sys.argv[2]
ints = ["u8","u16","u32","u64","u128","usize"]
arith = []
for t in ints:
    mx = f"{t}::MAX"
    arith.append(f"""impl VInt for {t} {{
    open spec fn vi(self) -> int {{ self as int }}
    open spec fn vmaxi() -> int {{ {mx} as int }}
    fn vltx(self, r: Self) -> (o: bool) {{ self < r }}
    fn vlex(self, r: Self) -> (o: bool) {{ self <= r }}
    #[verifier::external_body] fn vshrx(self, n: u32) -> (o: Self) {{ unimplemented!() }}
}}
impl VArith<{t}> for {t} {{
    type Out = {t};
    open spec fn rr(r: {t}) -> int {{ r as int }}
    fn addx(self, r: {t}) -> (o: Self) {{ if self > {mx} - r {{ vpanic() }} self + r }}
    fn subx(self, r: {t}) -> (o: Self) {{ if self < r {{ vpanic() }} self - r }}
    #[verifier::external_body] fn mulx(self, r: {t}) -> (o: Self) {{ unimplemented!() }}
    fn divx(self, r: {t}) -> (o: Self) {{ if r == 0 {{ vpanic() }} proof {{ lemma_div_range(self as int, r as int); }} self / r }}
    fn remx(self, r: {t}) -> (o: Self) {{ if r == 0 {{ vpanic() }} self % r }}
    fn caddx(self, r: {t}) -> (o: Option<Self>) {{ if self > {mx} - r {{ None }} else {{ Some((self + r) as {t}) }} }}
    fn csubx(self, r: {t}) -> (o: Option<Self>) {{ if self < r {{ None }} else {{ Some((self - r) as {t}) }} }}
    #[verifier::external_body] fn cmulx(self, r: {t}) -> (o: Option<Self>) {{ unimplemented!() }}
    fn cdivx(self, r: {t}) -> (o: Option<Self>) {{ if r == 0 {{ None }} else {{ Some(self / r) }} }}
}}""")
for t in ints:
    fl = [("addx","{t}"),("subx","{t}"),("mulx","{t}"),("divx","{t}"),("remx","{t}"),("caddx","Option<{t}>"),("csubx","Option<{t}>"),("cmulx","Option<{t}>"),("cdivx","Option<{t}>")]
    for a, b, rr in ((t, "&"+t, "*r as int"), ("&"+t, t, "r as int"), ("&"+t, "&"+t, "*r as int")):
        fns = "\n".join("    #[verifier::external_body] fn %s(self, r: %s) -> (o: %s) { unimplemented!() }" % (f, b, o.format(t=t)) for f, o in fl)
        arith.append("impl VArith<%s> for %s {\n    type Out = %s;\n    open spec fn rr(r: %s) -> int { %s }\n%s\n}" % (b, a, t, b, rr, fns))
arith.append("""pub proof fn lemma_div_range(a: int, b: int) requires 0 <= a, 0 < b ensures 0 <= a / b <= a { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b); vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(a, 1, b); assert(a / 1 == a); }""")
for t in ("i32","i64"):
    arith.append(f"""impl VInt for {t} {{
    open spec fn vi(self) -> int {{ self as int }}
    open spec fn vmaxi() -> int {{ {t}::MAX as int }}
    fn vltx(self, r: Self) -> (o: bool) {{ self < r }}
    fn vlex(self, r: Self) -> (o: bool) {{ self <= r }}
    #[verifier::external_body] fn vshrx(self, n: u32) -> (o: Self) {{ unimplemented!() }}
}}""")
for b,mx in (("U256","max_u256()"),("U384","max_u384()")):
    arith.append(f"""impl VInt for {b} {{
    open spec fn vi(self) -> int {{ self.v() }}
    open spec fn vmaxi() -> int {{ {mx} }}
    #[verifier::external_body] fn vltx(self, r: Self) -> (o: bool) {{ unimplemented!() }}
    #[verifier::external_body] fn vlex(self, r: Self) -> (o: bool) {{ unimplemented!() }}
    #[verifier::external_body] fn vshrx(self, n: u32) -> (o: Self) {{ unimplemented!() }}
}}""")
    for r,rs in [(b,"r.v()")]+[(t,"r as int") for t in ints]+[("i32","r as int")]:
        fns = "\n".join(f"    #[verifier::external_body] fn {f}(self, r: {r}) -> (o: {o}) {{ unimplemented!() }}"
          for f,o in [("addx","Self"),("subx","Self"),("mulx","Self"),("divx","Self"),("remx","Self"),("caddx","Option<Self>"),("csubx","Option<Self>"),("cmulx","Option<Self>"),("cdivx","Option<Self>")])
        arith.append(f"impl VArith<{r}> for {b} {{\n    type Out = {b};\n    open spec fn rr(r: {r}) -> int {{ {rs} }}\n{fns}\n}}")
for b in ("U256","U384"):
    for a, c, rr in (("&"+b, b, "r.v()"), (b, "&"+b, "(*r).v()"), ("&"+b, "&"+b, "(*r).v()")):
        fns = "\n".join(f"    #[verifier::external_body] fn {f}(self, r: {c}) -> (o: {o}) {{ unimplemented!() }}"
          for f,o in [("addx",b),("subx",b),("mulx",b),("divx",b),("remx",b),("caddx",f"Option<{b}>"),("csubx",f"Option<{b}>"),("cmulx",f"Option<{b}>"),("cdivx",f"Option<{b}>")])
        arith.append(f"impl VArith<{c}> for {a} {{\n    type Out = {b};\n    open spec fn rr(r: {c}) -> int {{ {rr} }}\n{fns}\n}}")
eqs = "\n".join(f"impl VEq for {t} {{ open spec fn veqs(&self, o: &Self) -> bool {{ *self == *o }} fn veqx(&self, o: &Self) -> (r: bool) {{ *self == *o }} }}" for t in ints+["bool"])
eqs += "\n" + "\n".join(f"impl VEq for {t} {{ open spec fn veqs(&self, o: &Self) -> bool {{ *self == *o }} #[verifier::external_body] fn veqx(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}" for t in ["Str","VAcc","U128"])
clones = "\n".join(f"impl VClone for {t} {{ #[verifier::external_body] fn vclone(&self) -> (r: Self) {{ unimplemented!() }} }}" for t in ints+["bool","Str","VAcc","U128","U256","U384"])
froms = []
for b in ("U256","U384"):
    for t in ints + ["i32"]:
        froms.append(f"impl VFrom<{t}> for {b} {{ open spec fn vfs(a: {t}, r: {b}) -> bool {{ r.v() == a as int }} #[verifier::external_body] fn vfromx(a: {t}) -> (r: {b}) {{ unimplemented!() }} }}")
    froms.append(f"impl VFrom<i64> for {b} {{ open spec fn vfs(a: i64, r: {b}) -> bool {{ a >= 0 && r.v() == a as int }} #[verifier::external_body] fn vfromx(a: i64) -> (r: {b}) {{ unimplemented!() }} }}")
    froms.append(f"impl VFrom<{b}> for {b} {{ open spec fn vfs(a: {b}, r: {b}) -> bool {{ r == a }} fn vfromx(a: {b}) -> (r: {b}) {{ a }} }}")
wid = {"u8":1,"u16":2,"u32":4,"u64":8,"u128":16}
for a in wid:
    for b in wid:
        if wid[a] <= wid[b]:
            froms.append(f"impl VFrom<{a}> for {b} {{ open spec fn vfs(a: {a}, r: {b}) -> bool {{ r == a as {b} }} fn vfromx(a: {a}) -> (r: {b}) {{ a as {b} }} }}")
sets=[]
for T,ref in (("HashSet",""),("UnorderedSet","&")):
    d = "" if not ref else "*"
    sets.append(f"""impl<K> {T}<K> {{
    pub uninterp spec fn view(&self) -> Set<K>;
    pub uninterp spec fn ord(&self) -> Seq<K>;
    #[verifier::external_body] pub fn {"new() -> (r: Self) ensures r@ == Set::<K>::empty()" if not ref else "newx() -> (r: Self)"} {{ unimplemented!() }}
    #[verifier::external_body] pub fn insert(&mut self, k: {ref}K) -> (r: bool) ensures final(self)@ == old(self)@.insert({d}k), r == !old(self)@.contains({d}k) {{ unimplemented!() }}
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) {{ unimplemented!() }}
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) {{ unimplemented!() }}
    #[verifier::external_body] pub fn len(&self) -> (r: {"u64" if ref else "usize"}) ensures r == self@.len(), is_order(self.ord(), self@) {{ unimplemented!() }}
    pub fn vref(&self) -> (r: &Self) ensures r == self {{ self }}
}}
impl<K> VIsEmpty for {T}<K> {{ open spec fn ves(&self) -> bool {{ self@.len() == 0 }} #[verifier::external_body] fn vis_empty(&self) -> (r: bool) {{ unimplemented!() }} }}
impl<K> {T}<K> {{
    /// iteration visits every element once, in an order fixed for the content
    #[verifier::external_body] pub fn vidx(&self, i: usize) -> (r: &K) ensures is_order(self.ord(), self@), i < self.ord().len(), *r == self.ord()[i as int] {{ unimplemented!() }}
}}""")
s = open(src).read()
for k,v in (("ARITH","\n".join(arith)),("EQS",eqs),("CLONES",clones),("FROMS","\n".join(froms)),("SETS","\n".join(sets))):
    s = s.replace("${"+k+"}", v)
open(dst,"w").write(s)
