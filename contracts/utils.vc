@include prelude.vc
@include lib.vc
@file ref-exchange/src/utils.rs
@const FEE_DIVISOR MAX_ADMIN_FEE_BPS INIT_SHARES_SUPPLY

@fn integer_sqrt(value) -> r props=P02
    ensures is_sqrt(value.v(), r.v()), r.v() == isqrt(value.v()),
@loop 0
    invariant
        value.v() < max_u256(),
        0 <= res.v() <= value.v(),
        value.v() > 0 ==> res.v() >= 1 && guess.v() >= 1,
        value.v() == 0 ==> guess.v() == 0,
        value.v() < (guess.v() + 1) * (guess.v() + 1),
        value.v() < (res.v() + 1) * (res.v() + 1),
        guess.v() == (if res.v() == value.v() { (value.v() + 1) / 2 } else { (value.v() / res.v() + res.v()) / 2 }),
@loop_end 0
    proof { newton_step(value.v(), res.v()); }
@entry
    proof { newton_init(value.v()); }
@exit
    proof { newton_final(value.v(), r.v()); isqrt_is(value.v(), r.v()); }
@verus shared
@end

@verus
pub proof fn newton_init(v: int)
    requires 0 <= v
    ensures v < ((v + 1) / 2 + 1) * ((v + 1) / 2 + 1), v < (v + 1) * (v + 1),
{
    let g = (v + 1) / 2;
    assert(2 * g >= v);
    assert((g + 1) * (g + 1) > v) by(nonlinear_arith) requires 2 * g >= v, g >= 0, v >= 0;
    assert((v + 1) * (v + 1) > v) by(nonlinear_arith) requires v >= 0;
}
/// every Newton iterate is at least floor(sqrt(v))
pub proof fn newton_step(v: int, x: int)
    requires 0 <= v, 0 < x
    ensures ({ let g = (v / x + x) / 2; v < (g + 1) * (g + 1) && (v >= 1 && x <= v ==> g >= 1) })
{
    let q = v / x;
    let g = (q + x) / 2;
    div_floor(v, x);
    // (q+1)*x > v ; 2g+1 >= q+x ; (g+1)^2 > v
    assert(v < (q + 1) * x) by(nonlinear_arith) requires v < q * x + x;
    assert(2 * (g + 1) >= q + x + 1);
    assert(4 * ((q + 1) * x) <= (q + 1 + x) * (q + 1 + x)) by(nonlinear_arith);
    let s = q + 1 + x;
    assert(s * s <= (2 * (g + 1)) * (2 * (g + 1))) by(nonlinear_arith) requires 0 <= s <= 2 * (g + 1);
    assert((2 * (g + 1)) * (2 * (g + 1)) == 4 * ((g + 1) * (g + 1))) by(nonlinear_arith);
    if v >= 1 && x <= v { div_ge(v, x, 1); }
}
pub proof fn newton_final(v: int, x: int)
    requires 0 <= v, 0 <= x <= v, v < (x + 1) * (x + 1), v > 0 ==> x >= 1,
        ({ let g = if x == v { (v + 1) / 2 } else { (v / x + x) / 2 }; g >= x }),
    ensures is_sqrt(v, x)
{
    if v == 0 { assert(x == 0); }
    else if x == v {
        // (v+1)/2 >= v  ==> v <= 1
        assert(v <= 1);
        assert(x * x <= v) by(nonlinear_arith) requires x == v, 0 <= v <= 1;
    } else {
        let q = v / x;
        div_floor(v, x);
        assert(q >= x);
        assert(x * x <= q * x) by(nonlinear_arith) requires x <= q, 0 <= x;
    }
}
@end
@fn u128_ratio(a, num, denom) -> r props=P02
    ensures denom != 0, r as int == (a as int * num as int) / (denom as int),
@fn add_to_collection(c, key, value) props=P06
    ensures final(c)@ == old(c)@.insert(*key, (mget(old(c)@, *key) + value) as u128), mget(old(c)@, *key) + value <= u128::MAX,
@end
