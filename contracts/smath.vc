@include utils.vc
@include chain.vc
@include feespec.vc
@include curve.vc
@include stable.vc
@include cmath.vc DIR=stable_swap T=StableSwap P=StableSwapPool
@verus shared
impl StableSwap { pub open spec fn rt(&self) -> Seq<u128> { Seq::empty() } }
@end
@fn StableSwap::new(initial_amp_factor, target_amp_factor, current_ts, start_ramp_ts, stop_ramp_ts) -> r props=P11
    ensures r == (StableSwap { initial_amp_factor, target_amp_factor, current_ts, start_ramp_ts, stop_ramp_ts }),
@fn StableSwap::swap_to(self, token_in_idx, token_in_amount, token_out_idx, current_c_amounts, fees) -> r props=P07
    requires current_c_amounts@.len() <= u32::MAX,
    ensures r is Some ==> StableSwapPool::sw_pre(self.amp(), self.rt(), token_in_idx as int, token_in_amount as int, token_out_idx as int, current_c_amounts@, fees.trade_fee as int, fees.admin_fee as int)
        && sr(r->0) == StableSwapPool::swf(self.amp(), self.rt(), token_in_idx as int, token_in_amount as int, token_out_idx as int, current_c_amounts@, fees.trade_fee as int, fees.admin_fee as int),
@end
