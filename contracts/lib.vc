@verus
// ---------------------------------------------------------------- sums over finite maps
pub open spec fn msum<K>(m: Map<K, u128>) -> int
    decreases m.dom().len()
{
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); m[k] as int + msum(m.remove(k)) }
}
pub open spec fn mget<K>(m: Map<K, u128>, k: K) -> int { if m.dom().contains(k) { m[k] as int } else { 0 } }
pub proof fn msum_remove<K>(m: Map<K, u128>, k: K)
    requires m.dom().contains(k)
    ensures msum(m) == m[k] as int + msum(m.remove(k))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(c)) by { assert(m.dom().len() > 0); }
    assert(m.dom().len() != 0);
    if c != k {
        msum_remove(m.remove(c), k);
        assert(m.remove(c).dom().contains(k));
        assert(m.remove(k).dom().contains(c));
        msum_remove(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn msum_insert<K>(m: Map<K, u128>, k: K, v: u128)
    requires true
    ensures msum(m.insert(k, v)) == msum(m) - mget(m, k) + v
{
    msum_remove(m.insert(k, v), k);
    assert(m.insert(k, v).remove(k) =~= m.remove(k));
    if m.dom().contains(k) { msum_remove(m, k); } else { assert(m.remove(k) =~= m); }
}
pub proof fn msum_nonneg<K>(m: Map<K, u128>)
    requires true
    ensures msum(m) >= 0
    decreases m.dom().len()
{
    if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); msum_nonneg(m.remove(k)); }
}
pub proof fn msum_member<K>(m: Map<K, u128>, k: K)
    requires true
    ensures msum(m) >= mget(m, k)
{
    if m.dom().contains(k) { msum_remove(m, k); msum_nonneg(m.remove(k)); } else { msum_nonneg(m); }
}
pub proof fn msum_empty<K>(m: Map<K, u128>)
    requires m.dom().len() == 0
    ensures msum(m) == 0
{ }

// ---------------------------------------------------------------- weighted sums over finite maps
pub open spec fn fsum<K, V>(m: Map<K, V>, f: spec_fn(V) -> int) -> int
    decreases m.dom().len()
{
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); f(m[k]) + fsum(m.remove(k), f) }
}
pub proof fn fsum_remove<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, k: K)
    requires m.dom().contains(k)
    ensures fsum(m, f) == f(m[k]) + fsum(m.remove(k), f)
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(c)) by { assert(m.dom().len() > 0); }
    assert(m.dom().len() != 0);
    if c != k {
        fsum_remove(m.remove(c), f, k);
        assert(m.remove(c).dom().contains(k));
        assert(m.remove(k).dom().contains(c));
        fsum_remove(m.remove(k), f, c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub open spec fn fget<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, k: K) -> int { if m.dom().contains(k) { f(m[k]) } else { 0 } }
pub proof fn fsum_insert<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, k: K, v: V)
    requires true
    ensures fsum(m.insert(k, v), f) == fsum(m, f) - fget(m, f, k) + f(v)
{
    fsum_remove(m.insert(k, v), f, k);
    assert(m.insert(k, v).remove(k) =~= m.remove(k));
    if m.dom().contains(k) { fsum_remove(m, f, k); } else { assert(m.remove(k) =~= m); }
}
pub proof fn fsum_nonneg<K, V>(m: Map<K, V>, f: spec_fn(V) -> int)
    requires forall|k: K| m.dom().contains(k) ==> f(#[trigger] m[k]) >= 0
    ensures fsum(m, f) >= 0
    decreases m.dom().len()
{
    if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(f(m[k]) >= 0);
        assert forall|j: K| m.remove(k).dom().contains(j) implies f(#[trigger] m.remove(k)[j]) >= 0 by { assert(m.dom().contains(j) && m.remove(k)[j] == m[j]); }
        fsum_nonneg(m.remove(k), f); }
}
pub proof fn fsum_member<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, k: K)
    requires forall|k: K| m.dom().contains(k) ==> f(#[trigger] m[k]) >= 0
    ensures fsum(m, f) >= fget(m, f, k)
{
    if m.dom().contains(k) { fsum_remove(m, f, k);
        assert forall|j: K| m.remove(k).dom().contains(j) implies f(#[trigger] m.remove(k)[j]) >= 0 by { assert(m.dom().contains(j) && m.remove(k)[j] == m[j]); }
        fsum_nonneg(m.remove(k), f); } else { fsum_nonneg(m, f); }
}
/// f = g + d*h pointwise
pub proof fn fsum_lin<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, g: spec_fn(V) -> int, h: spec_fn(V) -> int, d: int)
    requires forall|k: K| m.dom().contains(k) ==> f(#[trigger] m[k]) == g(m[k]) + d * h(m[k])
    ensures fsum(m, f) == fsum(m, g) + d * fsum(m, h)
    decreases m.dom().len()
{
    if m.dom().len() != 0 {
        let k = m.dom().choose(); assert(m.dom().contains(k));
        assert(f(m[k]) == g(m[k]) + d * h(m[k]));
        assert forall|j: K| m.remove(k).dom().contains(j) implies f(#[trigger] m.remove(k)[j]) == g(m.remove(k)[j]) + d * h(m.remove(k)[j]) by { assert(m.dom().contains(j) && m.remove(k)[j] == m[j]); }
        fsum_lin(m.remove(k), f, g, h, d);
        let (a, b) = (h(m[k]), fsum(m.remove(k), h));
        assert(d * (a + b) == d * a + d * b) by(nonlinear_arith);
    } else { assert(d * 0 == 0); }
}
pub proof fn fsum_zero<K, V>(m: Map<K, V>, f: spec_fn(V) -> int)
    requires forall|k: K| m.dom().contains(k) ==> f(#[trigger] m[k]) == 0
    ensures fsum(m, f) == 0
    decreases m.dom().len()
{
    if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(f(m[k]) == 0);
        assert forall|j: K| m.remove(k).dom().contains(j) implies f(#[trigger] m.remove(k)[j]) == 0 by { assert(m.dom().contains(j) && m.remove(k)[j] == m[j]); }
        fsum_zero(m.remove(k), f); }
}
pub proof fn fsum_le<K, V>(m: Map<K, V>, f: spec_fn(V) -> int, g: spec_fn(V) -> int)
    requires forall|k: K| m.dom().contains(k) ==> f(#[trigger] m[k]) <= g(m[k])
    ensures fsum(m, f) <= fsum(m, g)
    decreases m.dom().len()
{
    if m.dom().len() != 0 { let k = m.dom().choose(); assert(m.dom().contains(k)); assert(f(m[k]) <= g(m[k]));
        assert forall|j: K| m.remove(k).dom().contains(j) implies f(#[trigger] m.remove(k)[j]) <= g(m.remove(k)[j]) by { assert(m.dom().contains(j) && m.remove(k)[j] == m[j]); }
        fsum_le(m.remove(k), f, g); }
}
// ---------------------------------------------------------------- integer square root
pub open spec fn is_sqrt(v: int, r: int) -> bool { 0 <= r && r * r <= v && v < (r + 1) * (r + 1) }
pub proof fn sqrt_unique(v: int, a: int, b: int)
    requires is_sqrt(v, a), is_sqrt(v, b)
    ensures a == b
{
    if a < b { assert((a + 1) * (a + 1) <= b * b) by(nonlinear_arith) requires 0 <= a, a + 1 <= b; }
    if b < a { assert((b + 1) * (b + 1) <= a * a) by(nonlinear_arith) requires 0 <= b, b + 1 <= a; }
}
pub open spec fn isqrt(v: int) -> int { choose|p: int| #[trigger] is_sqrt(v, p) }
pub proof fn isqrt_is(v: int, p: int)
    requires is_sqrt(v, p)
    ensures isqrt(v) == p, is_sqrt(v, isqrt(v))
{ sqrt_unique(v, p, isqrt(v)); }
pub proof fn sqrt_mono(v: int, w: int, a: int, b: int)
    requires is_sqrt(v, a), is_sqrt(w, b), v <= w
    ensures a <= b
{
    if b < a { assert((b + 1) * (b + 1) <= a * a) by(nonlinear_arith) requires 0 <= b, b + 1 <= a; }
}

// ---------------------------------------------------------------- floor division facts
pub proof fn div_floor(a: int, b: int)
    requires 0 <= a, 0 < b
    ensures (a / b) * b <= a, a < (a / b) * b + b, 0 <= a / b
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b);
    assert(0 <= a % b < b);
    assert((a / b) * b == b * (a / b)) by(nonlinear_arith);
}
/// a/b is the unique q with q*b <= a < (q+1)*b
pub proof fn div_unique(a: int, b: int, q: int)
    requires 0 <= a, 0 < b, q * b <= a, a < q * b + b
    ensures a / b == q
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, b, q, a - q * b);
}
pub proof fn div_le(a: int, b: int, q: int)
    requires 0 <= a, 0 < b, a <= q * b
    ensures a / b <= q
{
    div_floor(a, b);
    if a / b > q { assert((a / b) * b >= q * b + b) by(nonlinear_arith) requires a / b >= q + 1, b > 0; }
}
pub proof fn div_ge(a: int, b: int, q: int)
    requires 0 <= a, 0 < b, q * b <= a
    ensures q <= a / b
{
    div_floor(a, b);
    if a / b < q { assert((a / b) * b + b <= q * b) by(nonlinear_arith) requires a / b + 1 <= q, b > 0; }
}
@end
