@file ref-exchange/src/${DIR}/mod.rs
@const TARGET_DECIMAL PRECISION
@include cmath.vc DIR=${DIR} T=${T} P=${P}
@verus shared
impl ${T} { pub open spec fn rt(&self) -> Seq<u128> { self.${RS}@ } }
@end
@fn ${T}::new(initial_amp_factor, target_amp_factor, current_ts, start_ramp_ts, stop_ramp_ts, rates) -> r props=P11,P07
    ensures r.initial_amp_factor == initial_amp_factor, r.target_amp_factor == target_amp_factor, r.current_ts == current_ts, r.start_ramp_ts == start_ramp_ts, r.stop_ramp_ts == stop_ramp_ts, r.${RS}@ == rates@,
@fn ${T}::mul_${R}(self, amount, rate) -> r props=P07
    ensures r == mul_r(amount as int, rate as int),
@fn ${T}::div_${R}(self, amount, rate) -> r props=P07
    ensures rate > 0, r == div_r(amount as int, rate as int),
@fn ${T}::${R}_balances(self, amounts) -> r props=P07
    ensures r@ == weigh(amounts@, self.rt()), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == mul_r(amounts@[i] as int, self.rt()[i] as int),
@loop 0
    invariant 0 <= __i0 <= weigh(amounts@, self.rt()).len(), __s0@ == amounts@, __s500@ == self.rt(), __v0@.len() == __i0,
        forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == mul_r(amounts@[i] as int, self.rt()[i] as int),
@exit
    proof { assert(r@ =~= weigh(amounts@, self.rt())); }
@fn ${T}::compute_d_with_${RS}(self, c_amounts) -> r props=P07,P08,P10
    requires c_amounts@.len() <= u32::MAX,
    ensures r is Some ==> r->0.v() == ${P}::cd(self.amp(), self.rt(), c_amounts@),
@fn ${T}::swap_to(self, token_in_idx, token_in_amount, token_out_idx, current_c_amounts, fees) -> r props=P07
    requires current_c_amounts@.len() <= u32::MAX,
    ensures r is Some ==> ${P}::sw_pre(self.amp(), self.rt(), token_in_idx as int, token_in_amount as int, token_out_idx as int, current_c_amounts@, fees.trade_fee as int, fees.admin_fee as int)
        && sr(r->0) == ${P}::swf(self.amp(), self.rt(), token_in_idx as int, token_in_amount as int, token_out_idx as int, current_c_amounts@, fees.trade_fee as int, fees.admin_fee as int),
@fn SwapResult::new(new_source_amount, new_destination_amount, amount_swapped, admin_fee, fee) -> r props=P07
    ensures r == (SwapResult { new_source_amount, new_destination_amount, amount_swapped, admin_fee, fee }),
@end
