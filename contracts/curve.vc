@verus shared
// ---------------------------------------------------------------- the stable curve, as integer functions
pub open spec fn asum(s: Seq<u128>, k: int) -> int decreases k { if k <= 0 { 0 } else { asum(s, k - 1) + s[k - 1] } }
/// d^(k+1) / (n^k * x_0 .. x_(k-1)), each division rounded down
pub open spec fn dprod(xs: Seq<u128>, d: int, k: int) -> int decreases k { if k <= 0 { d } else { (dprod(xs, d, k - 1) * d) / (xs[k - 1] * xs.len()) } }
/// one Newton step for D
pub open spec fn d_next(ann: int, xs: Seq<u128>, d: int) -> int {
    let n = xs.len() as int; let p = dprod(xs, d, n);
    (d * (p * n + asum(xs, n) * ann)) / (d * (ann - 1) + p * (n + 1))
}
pub open spec fn near(a: int, b: int) -> bool { -1 <= a - b <= 1 }
pub open spec fn d_iter(ann: int, xs: Seq<u128>, d: int, fuel: int) -> int decreases fuel {
    if fuel <= 0 { d } else { let e = d_next(ann, xs, d); if near(e, d) { e } else { d_iter(ann, xs, e, fuel - 1) } }
}
/// the invariant D of the curve A * sum(x_i) * n^n + D = A * D * n^n + D^(n+1) / (n^n * prod(x_i))
pub open spec fn curve_d(amp: int, xs: Seq<u128>) -> int {
    let n = xs.len() as int; let s = asum(xs, n);
    if s == 0 { 0 } else { d_iter(amp * spow(n, n), xs, s, 256) }
}
pub open spec fn y_sum(xs: Seq<u128>, x: int, ix: int, iy: int, k: int) -> int decreases k {
    if k <= 0 { x } else { y_sum(xs, x, ix, iy, k - 1) + if k - 1 != ix && k - 1 != iy { xs[k - 1] as int } else { 0 } }
}
pub open spec fn y_prod(xs: Seq<u128>, d: int, x: int, ix: int, iy: int, k: int) -> int decreases k {
    if k <= 0 { (d * d) / x } else if k - 1 != ix && k - 1 != iy { (y_prod(xs, d, x, ix, iy, k - 1) * d) / (xs[k - 1] as int) } else { y_prod(xs, d, x, ix, iy, k - 1) }
}
pub open spec fn y_next(b: int, c: int, d: int, y: int) -> int { (y * y + c) / (y * 2 + b - d) }
pub open spec fn y_iter(b: int, c: int, d: int, y: int, fuel: int) -> int decreases fuel {
    if fuel <= 0 { y } else { let e = y_next(b, c, d, y); if near(e, y) { e } else { y_iter(b, c, d, e, fuel - 1) } }
}
/// the balance of token iy on the curve when token ix has balance x
pub open spec fn curve_y(amp: int, xs: Seq<u128>, x: int, ix: int, iy: int) -> int {
    let n = xs.len() as int; let ann = amp * spow(n, n); let d = curve_d(amp, xs);
    let c = (y_prod(xs, d, x, ix, iy, n) * d) / (ann * spow(n, n));
    let b = d / ann + y_sum(xs, x, ix, iy, n);
    y_iter(b, c, d, d, 256)
}
/// effective amplification: linear from init to target between start and stop
pub open spec fn amp_at(init: int, target: int, now: int, start: int, stop: int) -> int {
    if now < stop {
        if target >= init { init + ((target - init) * (now - start)) / (stop - start) } else { init - ((init - target) * (now - start)) / (stop - start) }
    } else { target }
}
/// imbalance fee: trading fee * n / (4 (n - 1)) of the distance from the ideal balance
pub open spec fn adj_fee(tf: int, n: int) -> int { (tf * n) / (4 * (n - 1)) }
pub open spec fn dist(a: int, b: int) -> int { if a > b { a - b } else { b - a } }
pub open spec fn after_fee(old: Seq<u128>, new: Seq<u128>, d0: int, d1: int, tf: int) -> Seq<u128> {
    Seq::new(new.len(), |i: int| (new[i] - (dist((d1 * old[i]) / d0, new[i] as int) * adj_fee(tf, new.len() as int)) / 10000) as u128)
}
pub open spec fn plus(o: Seq<u128>, a: Seq<u128>) -> Seq<u128> { Seq::new(o.len(), |i: int| (o[i] + a[i]) as u128) }
pub open spec fn minus(o: Seq<u128>, a: Seq<u128>) -> Seq<u128> { Seq::new(o.len(), |i: int| (o[i] - a[i]) as u128) }
@end
@verus shared
/// outcome of a curve swap in internal units: new input reserve, new output reserve before the admin part, amount out, admin part and whole fee
pub ghost struct SR { pub src: int, pub dst: int, pub out: int, pub adm: int, pub fee: int }
pub open spec fn onehot(n: nat, j: int, v: int) -> Seq<u128> { Seq::new(n, |i: int| if i == j { v as u128 } else { 0u128 }) }
pub proof fn d_unf(ann: int, xs: Seq<u128>, d: int, fuel: int)
    requires fuel > 0
    ensures ({ let e = d_next(ann, xs, d); d_iter(ann, xs, d, fuel) == if near(e, d) { e } else { d_iter(ann, xs, e, fuel - 1) } })
{ }
@verus shared
pub proof fn spow_pos(n: int) ensures spow(10, n) >= 1 decreases n { if n > 0 { spow_pos(n - 1); } }
pub proof fn spow_add(m: int, n: int) requires 0 <= m, 0 <= n ensures spow(10, m + n) == spow(10, m) * spow(10, n) decreases m
{
    if m > 0 {
        spow_add(m - 1, n); let x = spow(10, m - 1); let y = spow(10, n);
        assert(10 * (x * y) == (10 * x) * y) by(nonlinear_arith);
        assert(spow(10, m + n) == 10 * spow(10, m - 1 + n));
    }
}
pub proof fn e24() ensures spow(10, 24) == 1_000_000_000_000_000_000_000_000 { assert(spow(10, 24) == 1_000_000_000_000_000_000_000_000) by(compute); }
@verus
// ------------------------------------------------------------------ P11: the effective amplification
/// always between start and target, and equal to the target when the window ends
pub proof fn p11_amp_between(init: int, target: int, now: int, start: int, stop: int)
    requires 0 <= init, 0 <= target, start <= now
    ensures ({ let a = amp_at(init, target, now, start, stop); (if init <= target { init <= a <= target } else { target <= a <= init }) }) || now >= stop,
        now >= stop ==> amp_at(init, target, now, start, stop) == target
{
    if now < stop {
        let r = if target >= init { target - init } else { init - target };
        assert(0 <= r * (now - start) <= r * (stop - start)) by(nonlinear_arith) requires r >= 0, 0 <= now - start <= stop - start;
        div_floor(r * (now - start), stop - start); div_le(r * (now - start), stop - start, r);
    }
}
/// monotone over the window
pub proof fn p11_amp_monotone(init: int, target: int, a: int, b: int, start: int, stop: int)
    requires 0 <= init, 0 <= target, start <= a <= b
    ensures init <= target ==> amp_at(init, target, a, start, stop) <= amp_at(init, target, b, start, stop),
        init >= target ==> amp_at(init, target, a, start, stop) >= amp_at(init, target, b, start, stop),
{
    p11_amp_between(init, target, a, start, stop); p11_amp_between(init, target, b, start, stop);
    if b < stop {
        let r = if target >= init { target - init } else { init - target };
        let d = stop - start;
        assert(r * (a - start) <= r * (b - start)) by(nonlinear_arith) requires r >= 0, a <= b;
        assert(0 <= r * (a - start)) by(nonlinear_arith) requires r >= 0, a >= start;
        div_floor(r * (a - start), d); div_ge(r * (b - start), d, (r * (a - start)) / d);
    }
}
@end
