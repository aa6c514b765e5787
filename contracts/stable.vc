@include cspec.vc DIR=stable_swap P=StableSwapPool
@verus shared
impl StableSwapPool {
    pub open spec fn cd(amp: int, rt: Seq<u128>, xs: Seq<u128>) -> int { curve_d(amp, xs) }
    /// precision kept internally, and conversions between token precision and internal precision (rounding down)
    pub open spec fn to_c(a: int, dec: int) -> int { if dec <= 18 { a * spow(10, 18 - dec) } else { a / spow(10, dec - 18) } }
    pub open spec fn to_a(c: int, dec: int) -> int { if dec <= 18 { c / spow(10, 18 - dec) } else { c * spow(10, dec - 18) } }
    /// an amount to be taken out is charged as the next whole internal unit
    pub open spec fn up_c(a: int, dec: int) -> int { let c = Self::to_c(a, dec); if Self::to_a(c, dec) < a { c + 1 } else { c } }
    /// internal units in units of 10^-24 of the token's smallest unit
    pub open spec fn unit(dec: int) -> int { spow(10, dec + 6) }
    pub open spec fn rt(&self) -> Seq<u128> { Seq::empty() }
    pub open spec fn gate(&self) -> bool { true }
    pub open spec fn min_res() -> int { 1_000_000_000_000_000 }
    /// a swap of `a` internal units of i into j
    pub open spec fn swf(amp: int, rt: Seq<u128>, i: int, a: int, j: int, c: Seq<u128>, tf: int, af: int) -> SR {
        let y = curve_y(amp, c, c[i] + a, i, j);
        let dy = if c[j] - y >= 1 { c[j] - y - 1 } else { 0 };
        let fee = (dy * tf) / 10000; let adm = (fee * af) / 10000;
        SR { src: c[i] + a, dst: c[j] - (dy - fee) - adm, out: dy - fee, adm, fee }
    }
    pub open spec fn sw_pre(amp: int, rt: Seq<u128>, i: int, a: int, j: int, c: Seq<u128>, tf: int, af: int) -> bool {
        let y = curve_y(amp, c, c[i] + a, i, j); 0 <= i < c.len() && 0 <= j < c.len() && 0 <= y <= c[j] && a >= 0
    }
    /// a deposit is recorded at no more than its value (exactly when the precision allows), a payment is worth no more than the units it stands for, a charge no less than the amount
    pub proof fn conv(a: int, dec: int)
        requires 0 <= a, 1 <= dec <= 24
        ensures 0 <= Self::to_c(a, dec) * Self::unit(dec) <= a * spow(10, 24), 0 <= Self::to_a(a, dec) * spow(10, 24) <= a * Self::unit(dec), Self::up_c(a, dec) * Self::unit(dec) >= a * spow(10, 24), Self::up_c(a, dec) >= 0,
            dec <= 18 ==> Self::to_c(a, dec) * Self::unit(dec) == a * spow(10, 24),
    {
        let u = Self::unit(dec); spow_pos(dec + 6); let e = spow(10, 24);
        if dec <= 18 {
            let p = spow(10, 18 - dec); spow_pos(18 - dec); spow_add(18 - dec, dec + 6);
            assert((a * p) * u == a * (p * u)) by(nonlinear_arith);
            assert(a * e >= 0) by(nonlinear_arith) requires a >= 0, e == p * u, p >= 1, u >= 1;
            div_floor(a, p); let q = a / p;
            assert(q * e == (q * p) * u && (q * p) * u <= a * u && 0 <= q * e) by(nonlinear_arith) requires e == p * u, q * p <= a, p >= 1, u >= 1, q >= 0;
            // the exact amount comes back
            div_unique(a * p, p, a);
        } else {
            let p = spow(10, dec - 18); spow_pos(dec - 18); spow_add(24, dec - 18); e24();
            assert(u == e * p);
            div_floor(a, p); let q = a / p;
            assert(q * u == (q * p) * e && 0 <= q * u <= a * e) by(nonlinear_arith) requires u == e * p, q * p <= a, p >= 1, e >= 1, q >= 0;
            assert((a * p) * e == a * u && 0 <= a * u) by(nonlinear_arith) requires u == e * p, e >= 1, p >= 1, a >= 0;
            assert((q + 1) * u >= a * e) by(nonlinear_arith) requires u == e * p, a < q * p + p, e >= 1;
            if q * p >= a { assert(q * u >= a * e) by(nonlinear_arith) requires u == e * p, q * p >= a, e >= 1; }
        }
    }
    /// a swap records no more than was paid in, and takes out of the other reserve at least what is paid out
    pub proof fn swf_safe(amp: int, rt: Seq<u128>, i: int, a: int, j: int, c: Seq<u128>, tf: int, af: int)
        requires Self::sw_pre(amp, rt, i, a, j, c, tf, af), 0 <= tf < 10000, 0 <= af <= 10000
        ensures ({ let s = Self::swf(amp, rt, i, a, j, c, tf, af); s.src <= c[i] + a && 0 <= s.out && 0 <= s.adm <= s.fee && s.out <= c[j] - (s.dst + s.adm) && s.src == c[i] + a && c[j] - (s.dst + s.adm) == s.out })
    {
        let y = curve_y(amp, c, c[i] + a, i, j); let dy = if c[j] - y >= 1 { c[j] - y - 1 } else { 0 };
        let fee = (dy * tf) / 10000;
        assert(0 <= dy * tf <= dy * 10000) by(nonlinear_arith) requires dy >= 0, 0 <= tf < 10000;
        div_floor(dy * tf, 10000); div_le(dy * tf, 10000, dy);
        assert(0 <= fee * af <= fee * 10000) by(nonlinear_arith) requires fee >= 0, 0 <= af <= 10000;
        div_floor(fee * af, 10000); div_le(fee * af, 10000, fee);
    }
    pub proof fn unit_pos(dec: int) ensures Self::unit(dec) > 0 { spow_pos(dec); spow_pos(dec + 6); }
    pub proof fn swf_none(amp: int, rt: Seq<u128>, i: int, a: int, j: int, c: Seq<u128>, tf: int) ensures Self::swf(amp, rt, i, a, j, c, tf, 0).adm == 0 { }
}
@end
