@verus
// ---------------------------------------------------------------- trusted base: panics, text
pub mod vax {
use vstd::prelude::*;
pub spec const P128: int = 0x1_0000_0000_0000_0000_0000_0000_0000_0000int;
pub open spec fn max_u256() -> int { P128 * P128 - 1 }
pub open spec fn max_u384() -> int { P128 * P128 * P128 - 1 }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U256 { x: [u64; 4] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U384 { x: [u64; 6] }
impl U256 { pub uninterp spec fn v(self) -> int; }
impl U384 { pub uninterp spec fn v(self) -> int; }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct LookupMap<K, V> { k: std::marker::PhantomData<(K, V)> }
impl<K, V> LookupMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
}
pub broadcast axiom fn u256_range(a: U256) ensures 0 <= #[trigger] a.v() <= max_u256();
pub broadcast axiom fn u384_range(a: U384) ensures 0 <= #[trigger] a.v() <= max_u384();
}
pub use vax::*;
// A panic (assert!, expect, overflow, index out of range, division by zero, env::panic) reverts the whole NEAR call:
// modelled as divergence.
#[verifier::external_body]
pub fn vpanic() -> ! { panic!() }

#[verifier::external_body]
pub struct Str { s: std::string::String }
impl Str {
    #[verifier::external_body] pub fn into_bytes(self) -> Vec<u8> { unimplemented!() }
    #[verifier::external_body] pub fn starts_with<P>(&self, p: P) -> (r: bool) ensures r == s_starts(*self, p) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with<P>(&self, p: P) -> (r: bool) ensures r == s_ends(*self, p) { unimplemented!() }
    #[verifier::external_body] pub fn vslice_from(&self, i: usize) -> (r: Str) ensures r == s_tail(*self, i as int) { unimplemented!() }
}
// text operations, uninterpreted
pub uninterp spec fn s_starts<P>(s: Str, p: P) -> bool;
pub uninterp spec fn s_ends<P>(s: Str, p: P) -> bool;
pub uninterp spec fn s_tail(s: Str, i: int) -> Str;
pub type AccountId = Str;
pub type Balance = u128;
pub type Timestamp = u64;
pub type Gas = u64;
#[verifier::external_body]
pub fn vformat() -> (r: Str) { unimplemented!() }
pub uninterp spec fn s_mft(id: int) -> Str;
#[verifier::external_body]
pub fn vlit(s: &'static str) -> (r: Str) ensures r == s_lit(s) { unimplemented!() }
pub uninterp spec fn s_lit(s: &'static str) -> Str;

#[derive(Clone, Copy)]
pub struct U128(pub u128);
#[derive(Clone, Copy)]
pub struct U64(pub u64);
pub type ValidAccountId = VAcc;
pub struct VAcc(pub Str);
impl VAcc {
    pub fn as_ref(&self) -> (r: &Str) ensures *r == self.0 { &self.0 }
}

// ---------------------------------------------------------------- big integers (uint crate): trusted arithmetic model
impl U256 {
    #[verifier::external_body] pub fn zero() -> (r: U256) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U256) ensures r.v() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn max_value() -> (r: U256) ensures r.v() == max_u256() { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: u64) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
}
impl U384 {
    #[verifier::external_body] pub fn zero() -> (r: U384) ensures r.v() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U384) ensures r.v() == 1 { unimplemented!() }
    #[verifier::external_body] pub fn max_value() -> (r: U384) ensures r.v() == max_u384() { unimplemented!() }
    #[verifier::external_body] pub fn as_u128(&self) -> (r: u128) ensures r == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
}

// ---------------------------------------------------------------- checked machine arithmetic
pub trait VInt: Sized + Copy {
    spec fn vi(self) -> int;
    spec fn vmaxi() -> int;
    fn vltx(self, r: Self) -> (o: bool) ensures o == (self.vi() < r.vi());
    fn vlex(self, r: Self) -> (o: bool) ensures o == (self.vi() <= r.vi());
    fn vshrx(self, n: u32) -> (o: Self) ensures n == 1 ==> o.vi() == self.vi() / 2, n == 0 ==> o.vi() == self.vi(), o.vi() <= self.vi();
}
pub trait VArith<R>: VInt {
    type Out: VInt;
    spec fn rr(r: R) -> int;
    fn addx(self, r: R) -> (o: Self::Out) ensures o.vi() == self.vi() + Self::rr(r), 0 <= o.vi() <= <Self::Out as VInt>::vmaxi();
    fn subx(self, r: R) -> (o: Self::Out) ensures o.vi() == self.vi() - Self::rr(r), 0 <= o.vi() <= <Self::Out as VInt>::vmaxi();
    fn mulx(self, r: R) -> (o: Self::Out) ensures o.vi() == self.vi() * Self::rr(r), 0 <= o.vi() <= <Self::Out as VInt>::vmaxi();
    fn divx(self, r: R) -> (o: Self::Out) ensures Self::rr(r) != 0, o.vi() == self.vi() / Self::rr(r), 0 <= o.vi() <= <Self::Out as VInt>::vmaxi();
    fn remx(self, r: R) -> (o: Self::Out) ensures Self::rr(r) != 0, o.vi() == self.vi() % Self::rr(r), 0 <= o.vi() <= <Self::Out as VInt>::vmaxi();
    fn caddx(self, r: R) -> (o: Option<Self::Out>) ensures (self.vi() + Self::rr(r) <= <Self::Out as VInt>::vmaxi()) ==> (o is Some && o->0.vi() == self.vi() + Self::rr(r)), (self.vi() + Self::rr(r) > <Self::Out as VInt>::vmaxi()) ==> o is None;
    fn csubx(self, r: R) -> (o: Option<Self::Out>) ensures (self.vi() >= Self::rr(r)) ==> (o is Some && o->0.vi() == self.vi() - Self::rr(r)), (self.vi() < Self::rr(r)) ==> o is None;
    fn cmulx(self, r: R) -> (o: Option<Self::Out>) ensures (self.vi() * Self::rr(r) <= <Self::Out as VInt>::vmaxi()) ==> (o is Some && o->0.vi() == self.vi() * Self::rr(r)), (self.vi() * Self::rr(r) > <Self::Out as VInt>::vmaxi()) ==> o is None;
    fn cdivx(self, r: R) -> (o: Option<Self::Out>) ensures Self::rr(r) != 0 ==> (o is Some && o->0.vi() == self.vi() / Self::rr(r)), Self::rr(r) == 0 ==> o is None;
}
pub fn vadd<A: VArith<B>, B>(a: A, b: B) -> (o: A::Out) ensures o.vi() == a.vi() + A::rr(b), 0 <= o.vi() <= <A::Out as VInt>::vmaxi() { a.addx(b) }
pub fn vsub<A: VArith<B>, B>(a: A, b: B) -> (o: A::Out) ensures o.vi() == a.vi() - A::rr(b), 0 <= o.vi() <= <A::Out as VInt>::vmaxi() { a.subx(b) }
pub fn vmul<A: VArith<B>, B>(a: A, b: B) -> (o: A::Out) ensures o.vi() == a.vi() * A::rr(b), 0 <= o.vi() <= <A::Out as VInt>::vmaxi() { a.mulx(b) }
pub fn vdiv<A: VArith<B>, B>(a: A, b: B) -> (o: A::Out) ensures A::rr(b) != 0, o.vi() == a.vi() / A::rr(b), 0 <= o.vi() <= <A::Out as VInt>::vmaxi() { a.divx(b) }
pub fn vrem<A: VArith<B>, B>(a: A, b: B) -> (o: A::Out) ensures A::rr(b) != 0, o.vi() == a.vi() % A::rr(b), 0 <= o.vi() <= <A::Out as VInt>::vmaxi() { a.remx(b) }
pub fn vchecked_add<A: VArith<B>, B>(a: A, b: B) -> (o: Option<A::Out>)
    ensures (a.vi() + A::rr(b) <= <A::Out as VInt>::vmaxi()) ==> (o is Some && o->0.vi() == a.vi() + A::rr(b)), (a.vi() + A::rr(b) > <A::Out as VInt>::vmaxi()) ==> o is None { a.caddx(b) }
pub fn vchecked_sub<A: VArith<B>, B>(a: A, b: B) -> (o: Option<A::Out>)
    ensures (a.vi() >= A::rr(b)) ==> (o is Some && o->0.vi() == a.vi() - A::rr(b)), (a.vi() < A::rr(b)) ==> o is None { a.csubx(b) }
pub fn vchecked_mul<A: VArith<B>, B>(a: A, b: B) -> (o: Option<A::Out>)
    ensures (a.vi() * A::rr(b) <= <A::Out as VInt>::vmaxi()) ==> (o is Some && o->0.vi() == a.vi() * A::rr(b)), (a.vi() * A::rr(b) > <A::Out as VInt>::vmaxi()) ==> o is None { a.cmulx(b) }
pub fn vchecked_div<A: VArith<B>, B>(a: A, b: B) -> (o: Option<A::Out>)
    ensures A::rr(b) != 0 ==> (o is Some && o->0.vi() == a.vi() / A::rr(b)), A::rr(b) == 0 ==> o is None { a.cdivx(b) }
#[verifier::external_body] pub fn vchecked_add_s<A: VInt>(a: A, b: A) -> (o: Option<A>) ensures (a.vi() + b.vi() <= A::vmaxi()) ==> (o is Some && o->0.vi() == a.vi() + b.vi()), !(a.vi() + b.vi() <= A::vmaxi()) ==> o is None { unimplemented!() }
#[verifier::external_body] pub fn vchecked_sub_s<A: VInt>(a: A, b: A) -> (o: Option<A>) ensures (a.vi() >= b.vi()) ==> (o is Some && o->0.vi() == a.vi() - b.vi()), !(a.vi() >= b.vi()) ==> o is None { unimplemented!() }
#[verifier::external_body] pub fn vchecked_mul_s<A: VInt>(a: A, b: A) -> (o: Option<A>) ensures (a.vi() * b.vi() <= A::vmaxi()) ==> (o is Some && o->0.vi() == a.vi() * b.vi()), !(a.vi() * b.vi() <= A::vmaxi()) ==> o is None { unimplemented!() }
#[verifier::external_body] pub fn vchecked_div_s<A: VInt>(a: A, b: A) -> (o: Option<A>) ensures b.vi() != 0 ==> (o is Some && o->0.vi() == a.vi() / b.vi()), b.vi() == 0 ==> o is None { unimplemented!() }
pub fn vlt<A: VInt>(a: A, b: A) -> (o: bool) ensures o == (a.vi() < b.vi()) { a.vltx(b) }
pub fn vle<A: VInt>(a: A, b: A) -> (o: bool) ensures o == (a.vi() <= b.vi()) { a.vlex(b) }
pub fn vgt<A: VInt>(a: A, b: A) -> (o: bool) ensures o == (a.vi() > b.vi()) { b.vltx(a) }
pub fn vge<A: VInt>(a: A, b: A) -> (o: bool) ensures o == (a.vi() >= b.vi()) { b.vlex(a) }
pub fn vmin<A: VInt>(a: A, b: A) -> (o: A) ensures o == (if b.vi() < a.vi() { b } else { a }) { if b.vltx(a) { b } else { a } }
pub fn vmax<A: VInt>(a: A, b: A) -> (o: A) ensures o == (if b.vi() < a.vi() { a } else { b }) { if b.vltx(a) { a } else { b } }
pub fn vshr<A: VInt>(a: A, n: u32) -> (o: A) ensures n == 1 ==> o.vi() == a.vi() / 2, n == 0 ==> o.vi() == a.vi(), o.vi() <= a.vi() { a.vshrx(n) }
impl<T: VInt> VInt for &T {
    open spec fn vi(self) -> int { (*self).vi() }
    open spec fn vmaxi() -> int { T::vmaxi() }
    #[verifier::external_body] fn vltx(self, r: Self) -> (o: bool) { unimplemented!() }
    #[verifier::external_body] fn vlex(self, r: Self) -> (o: bool) { unimplemented!() }
    #[verifier::external_body] fn vshrx(self, n: u32) -> (o: Self) { unimplemented!() }
}
#[verifier::external_body] pub fn vsaturating_sub<A: VInt>(a: A, b: A) -> (o: A) ensures o.vi() == (if a.vi() >= b.vi() { a.vi() - b.vi() } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn vwrapping_add<A: VInt>(a: A, b: A) -> (o: A) ensures o.vi() == (a.vi() + b.vi()) % (A::vmaxi() + 1) { unimplemented!() }
#[verifier::external_body] pub fn voverflowing_add<A: VArith<B>, B>(a: A, b: B) -> (o: (A::Out, bool)) ensures o.0.vi() == (a.vi() + A::rr(b)) % (<A::Out as VInt>::vmaxi() + 1) { unimplemented!() }
#[verifier::external_body] pub fn voverflowing_sub<A: VArith<B>, B>(a: A, b: B) -> (o: (A::Out, bool)) ensures o.0.vi() == (a.vi() - A::rr(b)) % (<A::Out as VInt>::vmaxi() + 1) { unimplemented!() }
pub open spec fn spow(a: int, n: int) -> int decreases n { if n <= 0 { 1 } else { a * spow(a, n - 1) } }
#[verifier::external_body] pub fn vpow<A: VInt>(a: A, n: u32) -> (o: A) ensures o.vi() == spow(a.vi(), n as int), 0 <= o.vi() <= A::vmaxi() { unimplemented!() }
#[verifier::external_body] pub fn vchecked_pow<A: VInt>(a: A, n: u32) -> (o: Option<A>) ensures (spow(a.vi(), n as int) <= A::vmaxi()) ==> (o is Some && o->0.vi() == spow(a.vi(), n as int)), !(spow(a.vi(), n as int) <= A::vmaxi()) ==> o is None { unimplemented!() }
#[verifier::external_body] pub fn vchecked_pow_s<A: VInt>(a: A, n: A) -> (o: Option<A>) ensures (spow(a.vi(), n.vi()) <= A::vmaxi()) ==> (o is Some && o->0.vi() == spow(a.vi(), n.vi())), !(spow(a.vi(), n.vi()) <= A::vmaxi()) ==> o is None { unimplemented!() }
pub proof fn pow10_9() ensures spow(10, 9) == 1_000_000_000 { assert(spow(10, 9) == 1_000_000_000) by(compute); }

${ARITH}

// ---------------------------------------------------------------- equality, clone, conversion
pub trait VEq { spec fn veqs(&self, o: &Self) -> bool; fn veqx(&self, o: &Self) -> (r: bool) ensures r == self.veqs(o); }
pub fn veq<T: VEq + ?Sized>(a: &T, b: &T) -> (r: bool) ensures r == a.veqs(b) { a.veqx(b) }
impl<T: VEq + ?Sized> VEq for &T {
    open spec fn veqs(&self, o: &Self) -> bool { (**self).veqs(&**o) }
    #[verifier::external_body] fn veqx(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
${EQS}
impl VEq for U256 { open spec fn veqs(&self, o: &Self) -> bool { self.v() == o.v() } #[verifier::external_body] fn veqx(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl VEq for U384 { open spec fn veqs(&self, o: &Self) -> bool { self.v() == o.v() } #[verifier::external_body] fn veqx(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T> VEq for Option<T> { open spec fn veqs(&self, o: &Self) -> bool { *self == *o } #[verifier::external_body] fn veqx(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T> VEq for Vec<T> { open spec fn veqs(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn veqx(&self, o: &Self) -> (r: bool) { unimplemented!() } }

pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
${CLONES}
impl<A, B> VClone for (A, B) { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VClone for Option<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VClone for Vec<T> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VClone> VClone for &T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }

pub trait VFrom<A>: Sized { spec fn vfs(a: A, r: Self) -> bool; fn vfromx(a: A) -> (r: Self) ensures Self::vfs(a, r); }
pub fn vfrom<A, B: VFrom<A>>(a: A) -> (r: B) ensures B::vfs(a, r) { B::vfromx(a) }
pub fn vinto<A, B: VFrom<A>>(a: A) -> (r: B) ensures B::vfs(a, r) { B::vfromx(a) }
${FROMS}
impl VFrom<u128> for U128 { open spec fn vfs(a: u128, r: U128) -> bool { r.0 == a } fn vfromx(a: u128) -> (r: U128) { U128(a) } }
impl VFrom<U128> for u128 { open spec fn vfs(a: U128, r: u128) -> bool { r == a.0 } fn vfromx(a: U128) -> (r: u128) { a.0 } }
impl VFrom<u64> for U64 { open spec fn vfs(a: u64, r: U64) -> bool { r.0 == a } fn vfromx(a: u64) -> (r: U64) { U64(a) } }
impl VFrom<U64> for u64 { open spec fn vfs(a: U64, r: u64) -> bool { r == a.0 } fn vfromx(a: U64) -> (r: u64) { a.0 } }
impl VFrom<VAcc> for Str { open spec fn vfs(a: VAcc, r: Str) -> bool { r == a.0 } fn vfromx(a: VAcc) -> (r: Str) { a.0 } }
impl VFrom<Str> for Str { open spec fn vfs(a: Str, r: Str) -> bool { r == a } fn vfromx(a: Str) -> (r: Str) { a } }
pub trait VToString { spec fn vts(&self) -> Str; fn vto_string(&self) -> (r: Str) ensures r == self.vts(); }
impl VToString for VAcc { open spec fn vts(&self) -> Str { self.0 } #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
impl VToString for Str { open spec fn vts(&self) -> Str { *self } #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }

pub trait VUnwrap<T>: Sized { spec fn vsome(self, t: T) -> bool; fn unwx(self) -> (r: T) ensures self.vsome(r); }
impl<T> VUnwrap<T> for Option<T> { open spec fn vsome(self, t: T) -> bool { self == Some(t) } fn unwx(self) -> (r: T) { match self { Some(x) => x, None => vpanic() } } }
impl<T, E> VUnwrap<T> for Result<T, E> { open spec fn vsome(self, t: T) -> bool { self == Ok::<T, E>(t) } fn unwx(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vpanic() } } }
pub fn vunwrap<O: VUnwrap<T>, T>(o: O) -> (r: T) ensures o.vsome(r) { o.unwx() }
pub trait VDefault: Sized { spec fn dflt(x: Self) -> bool; fn dfltx() -> (r: Self) ensures Self::dflt(r); }
impl VDefault for u128 { open spec fn dflt(x: u128) -> bool { x == 0 } fn dfltx() -> (r: u128) { 0 } }
impl VDefault for u32 { open spec fn dflt(x: u32) -> bool { x == 0 } fn dfltx() -> (r: u32) { 0 } }
impl VDefault for u64 { open spec fn dflt(x: u64) -> bool { x == 0 } fn dfltx() -> (r: u64) { 0 } }
impl VDefault for bool { open spec fn dflt(x: bool) -> bool { !x } fn dfltx() -> (r: bool) { false } }
impl<T> VDefault for Vec<T> { open spec fn dflt(x: Vec<T>) -> bool { x@.len() == 0 } fn dfltx() -> (r: Vec<T>) { Vec::new() } }
pub fn vunwrap_or_default<T: VDefault>(o: Option<T>) -> (r: T) ensures o is Some ==> r == o->0, o is None ==> T::dflt(r) { match o { Some(x) => x, None => T::dfltx() } }
pub fn vcloned<T>(o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None }) { match o { Some(x) => Some(vcopy(x)), None => None } }
#[verifier::external_body] pub fn vcopy<T>(o: &T) -> (r: T) ensures r == *o { unimplemented!() }
pub trait VTryFrom<A>: Sized { spec fn vtf(a: A, r: Self) -> bool; }
#[verifier::external_body] pub fn vtry_into<A, B: VTryFrom<A>>(a: A) -> (r: Result<B, ()>) ensures r is Ok ==> B::vtf(a, r->Ok_0) { unimplemented!() }
impl VTryFrom<Str> for VAcc { open spec fn vtf(a: Str, r: VAcc) -> bool { r.0 == a } }
pub fn vunwrap_or<T>(o: Option<T>, d: T) -> (r: T) ensures r == (match o { Some(x) => x, None => d }) { match o { Some(x) => x, None => d } }
pub trait VIsEmpty { spec fn ves(&self) -> bool; fn vis_empty(&self) -> (r: bool) ensures r == self.ves(); }
impl<T> VIsEmpty for Vec<T> { open spec fn ves(&self) -> bool { self@.len() == 0 } fn vis_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> VIsEmpty for [T] { open spec fn ves(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
impl VIsEmpty for Str { uninterp spec fn ves(&self) -> bool; #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }

// ---------------------------------------------------------------- vectors, checked indexing
pub trait VIndex<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn vidx(&self, i: usize) -> (r: &T) ensures i < self.vseq().len(), *r == self.vseq()[i as int];
}
impl<T> VIndex<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn vidx(&self, i: usize) -> (r: &T) { if i >= self.len() { vpanic() } &self[i] }
}
impl<T> VIndex<T> for [T] {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn vidx(&self, i: usize) -> (r: &T) { if i >= self.len() { vpanic() } &self[i] }
}
pub trait VIndexMut<T> {
    spec fn vseqm(&self) -> Seq<T>;
    fn vset(&mut self, i: usize, x: T) ensures i < old(self).vseqm().len(), final(self).vseqm() == old(self).vseqm().update(i as int, x);
    fn vidx_mut(&mut self, i: usize) -> (r: &mut T) ensures i < old(self).vseqm().len(), *r == old(self).vseqm()[i as int], final(self).vseqm() == old(self).vseqm().update(i as int, *final(r));
    fn vref(&self) -> (r: &Self) ensures r == self;
}
impl<T> VIndexMut<T> for Vec<T> {
    open spec fn vseqm(&self) -> Seq<T> { self@ }
    fn vset(&mut self, i: usize, x: T) { if i >= self.len() { vpanic() } self.set(i, x); }
    fn vidx_mut(&mut self, i: usize) -> (r: &mut T) { if i >= self.len() { vpanic() } &mut self[i] }
    fn vref(&self) -> (r: &Self) { self }
}
pub trait VRef { fn vref(&self) -> (r: &Self) ensures r == self; }
impl<T> VRef for [T] { fn vref(&self) -> (r: &Self) { self } }
pub trait VNext<T> { spec fn vseqn(&self) -> Seq<T>; fn vnext(&self, i: usize) -> (r: T) ensures i < self.vseqn().len(), r == self.vseqn()[i as int]; }
impl<T: VClone> VNext<T> for Vec<T> {
    open spec fn vseqn(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vnext(&self, i: usize) -> (r: T) { unimplemented!() }
}
impl<'a, T> VNext<&'a T> for &'a [T] {
    open spec fn vseqn(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn vnext(&self, i: usize) -> (r: &'a T) { unimplemented!() }
}
impl<'a, T> VNext<&'a T> for &'a Vec<T> {
    open spec fn vseqn(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body] fn vnext(&self, i: usize) -> (r: &'a T) { unimplemented!() }
}
#[verifier::external_body]
pub fn vvec<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }

// ---------------------------------------------------------------- persistent maps (near_sdk collections, std HashMap): trusted map model
impl<K, V> LookupMap<K, V> {
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<V>) ensures r == (if self@.dom().contains(*k) { Some(self@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &K, v: &V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(*k, *v), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn new<P>(p: P) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}
@end
