@include cspec.vc DIR=${DIR} P=${P}
@verus shared
/// current rate (or price) of a token, and whether it may be used now: answers of the rate table (contracts of the ${R} unit)
pub uninterp spec fn s_${R}(t: AccountId) -> u128;
pub uninterp spec fn s_${R}_ok(t: AccountId) -> bool;
@verus shared
pub open spec fn mul_r(a: int, r: int) -> int { (a * r) / 1_000_000_000_000_000_000_000_000 }
pub open spec fn div_r(a: int, r: int) -> int { (a * 1_000_000_000_000_000_000_000_000) / r }
/// balances weighted with the rates, rounding down
pub open spec fn weigh(xs: Seq<u128>, rt: Seq<u128>) -> Seq<u128> { Seq::new(if xs.len() < rt.len() { xs.len() } else { rt.len() }, |i: int| mul_r(xs[i] as int, rt[i] as int) as u128) }
@verus shared
impl ${P} {
    pub open spec fn cd(amp: int, rt: Seq<u128>, xs: Seq<u128>) -> int { curve_d(amp, weigh(xs, rt)) }
    /// every token is kept with 24 decimals internally
    pub open spec fn to_c(a: int, dec: int) -> int { a * spow(10, 24 - dec) }
    pub open spec fn to_a(c: int, dec: int) -> int { c / spow(10, 24 - dec) }
    pub open spec fn up_c(a: int, dec: int) -> int { Self::to_c(a, dec) }
    pub open spec fn unit(dec: int) -> int { spow(10, dec) }
    pub open spec fn rt(&self) -> Seq<u128> { Seq::new(self.token_account_ids@.len(), |i: int| s_${R}(self.token_account_ids@[i])) }
    /// every token's rate may be used now
    pub open spec fn gate(&self) -> bool { forall|i: int| 0 <= i < self.token_account_ids@.len() ==> s_${R}_ok(#[trigger] self.token_account_ids@[i]) }
    pub open spec fn min_res() -> int { 1_000_000_000_000_000_000_000 }
    /// a swap of `a` internal units of i into j: the curve is applied to rated balances and its results are divided by the rates
    pub open spec fn swf(amp: int, rt: Seq<u128>, i: int, a: int, j: int, c: Seq<u128>, tf: int, af: int) -> SR {
        let w = weigh(c, rt); let ra = mul_r(a, rt[i] as int);
        let y = curve_y(amp, w, ra + w[i], i, j);
        let dy = if w[j] - y >= 1 { w[j] - y - 1 } else { 0 };
        let fee = (dy * tf) / 10000; let adm = (fee * af) / 10000; let ri = rt[i] as int; let rj = rt[j] as int;
        SR { src: div_r(w[i] + ra, ri), dst: div_r(w[j] - (dy - fee) - adm, rj), out: div_r(dy - fee, rj), adm: div_r(adm, rj), fee: div_r(fee, rj) }
    }
    pub open spec fn sw_pre(amp: int, rt: Seq<u128>, i: int, a: int, j: int, c: Seq<u128>, tf: int, af: int) -> bool {
        let w = weigh(c, rt); let y = curve_y(amp, w, mul_r(a, rt[i] as int) + w[i], i, j);
        let dy = if w[j] - y >= 1 { w[j] - y - 1 } else { 0 }; let fee = (dy * tf) / 10000;
        0 <= i < w.len() && 0 <= j < w.len() && w[i] == mul_r(c[i] as int, rt[i] as int) && w[j] == mul_r(c[j] as int, rt[j] as int) && 0 <= y <= w[j] && a >= 0 && rt[i] > 0 && rt[j] > 0 && w[j] - (dy - fee) - (fee * af) / 10000 >= 0
    }
    /// a deposit is recorded exactly, a payment is worth no more than the units it stands for, a charge no less than the amount
    pub proof fn conv(a: int, dec: int)
        requires 0 <= a, 1 <= dec <= 24
        ensures 0 <= Self::to_c(a, dec) * Self::unit(dec) <= a * spow(10, 24), 0 <= Self::to_a(a, dec) * spow(10, 24) <= a * Self::unit(dec), Self::up_c(a, dec) * Self::unit(dec) >= a * spow(10, 24), Self::up_c(a, dec) >= 0,
            Self::to_c(a, dec) * Self::unit(dec) == a * spow(10, 24),
    {
        let u = Self::unit(dec); spow_pos(dec); let e = spow(10, 24);
        let p = spow(10, 24 - dec); spow_pos(24 - dec); spow_add(24 - dec, dec);
        assert((a * p) * u == a * (p * u) && a * p >= 0) by(nonlinear_arith) requires a >= 0, p >= 1;
        assert(a * e >= 0) by(nonlinear_arith) requires a >= 0, e == p * u, p >= 1, u >= 1;
        div_floor(a, p); let q = a / p;
        assert(q * e == (q * p) * u && (q * p) * u <= a * u && 0 <= q * e) by(nonlinear_arith) requires e == p * u, q * p <= a, p >= 1, u >= 1, q >= 0;
    }
    /// a swap records no more than was paid in, and takes out of the other reserve at least what is paid out
    pub proof fn swf_safe(amp: int, rt: Seq<u128>, i: int, a: int, j: int, c: Seq<u128>, tf: int, af: int)
        requires Self::sw_pre(amp, rt, i, a, j, c, tf, af), 0 <= tf < 10000, 0 <= af <= 10000
        ensures ({ let s = Self::swf(amp, rt, i, a, j, c, tf, af); s.src <= c[i] + a && 0 <= s.out && 0 <= s.adm && s.out <= c[j] - (s.dst + s.adm) })
    {
        let k: int = 1_000_000_000_000_000_000_000_000;
        let w = weigh(c, rt); let ri = rt[i] as int; let rj = rt[j] as int; let ra = mul_r(a, ri);
        let y = curve_y(amp, w, ra + w[i], i, j); let dy = if w[j] - y >= 1 { w[j] - y - 1 } else { 0 };
        let fee = (dy * tf) / 10000; let adm = (fee * af) / 10000;
        assert(0 <= dy * tf <= dy * 10000) by(nonlinear_arith) requires dy >= 0, 0 <= tf < 10000;
        div_floor(dy * tf, 10000); div_le(dy * tf, 10000, dy);
        assert(0 <= fee * af <= fee * 10000) by(nonlinear_arith) requires fee >= 0, 0 <= af <= 10000;
        div_floor(fee * af, 10000); div_le(fee * af, 10000, fee);
        // input side
        let ci = c[i] as int; let wi = w[i] as int;
        assert(ci * ri >= 0 && a * ri >= 0) by(nonlinear_arith) requires ci >= 0, a >= 0, ri > 0;
        div_floor(ci * ri, k); div_floor(a * ri, k);
        assert((wi + ra) * k <= (ci + a) * ri) by(nonlinear_arith) requires wi * k <= ci * ri, ra * k <= a * ri;
        div_le((wi + ra) * k, ri, ci + a);
        // output side
        let cj = c[j] as int; let wj = w[j] as int; let out = dy - fee; let rest = wj - out - adm;
        assert(cj * rj >= 0) by(nonlinear_arith) requires cj >= 0, rj > 0;
        div_floor(cj * rj, k);
        div_floor(out * k, rj); div_floor(rest * k, rj); div_floor(adm * k, rj);
        let qo = div_r(out, rj); let qr = div_r(rest, rj); let qa = div_r(adm, rj);
        assert((qo + qr + qa) * rj <= cj * rj) by(nonlinear_arith) requires qo * rj <= out * k, qr * rj <= rest * k, qa * rj <= adm * k, out + rest + adm == wj, wj * k <= cj * rj;
        assert(qo + qr + qa <= cj) by(nonlinear_arith) requires (qo + qr + qa) * rj <= cj * rj, rj > 0;
    }
    pub proof fn unit_pos(dec: int) ensures Self::unit(dec) > 0 { spow_pos(dec); spow_pos(dec + 6); }
    pub proof fn swf_none(amp: int, rt: Seq<u128>, i: int, a: int, j: int, c: Seq<u128>, tf: int) requires rt[j] > 0 ensures Self::swf(amp, rt, i, a, j, c, tf, 0).adm == 0 { assert(0int / (rt[j] as int) == 0); }
}
@end
