@file ref-exchange/src/${DIR}/mod.rs
@const PRECISION
@file ref-exchange/src/${DIR}/math.rs
@const MIN_RAMP_DURATION MIN_AMP MAX_AMP MAX_AMP_CHANGE
@type Fees
@type SwapResult
@type ${T}
@import ${M}.vc *
@import ${G}.vc ${P}::get_${RS} ${P}::assert_${RS}_valid
@include cpool.vc DIR=${DIR} P=${P}
@verus
pub enum StorageKey { Shares { pool_id: u32 } }
@fn ${P}::get_invariant_with_${RS}(self, rates) -> r props=P07,P08,P10,P11
    ensures r.amp() == self.amp_now(), r.rt() == rates@, r.start_ramp_ts == self.init_amp_time, r.initial_amp_factor == self.init_amp_factor, r.target_amp_factor == self.target_amp_factor, r.current_ts == s_now(),
@fn ${P}::calc_add_liquidity_with_${RS}(self, amounts, rates, fees) -> r props=P08
    requires self.shape(), amounts@.len() == self.c_amounts@.len(), rates@ == self.rt(),
    ensures self.add_pre(amounts@), r.0 == self.add_mint(amounts@), r.1 == self.add_fee(amounts@),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == c_amounts@, forall|i: int| 0 <= i < __i0 ==> #[trigger] c_amounts@[i] > 0,
@fn ${P}::internal_get_return_with_${RS}(self, token_in, amount_in, token_out, rates, fees) -> r props=P07
    requires self.shape(), rates@ == self.rt(),
    ensures ${P}::sw_pre(self.amp_now(), self.rt(), token_in as int, ${P}::to_c(amount_in as int, self.dec(token_in as int)), token_out as int, self.c_amounts@, self.total_fee as int, fees.admin_fee_bps as int),
        sr(r) == self.swr(token_in as int, amount_in as int, token_out as int, fees.admin_fee_bps as int),
@fn ${P}::internal_get_return(self, token_in, amount_in, token_out, fees) -> r props=P07,P21
    requires self.shape(),
    ensures ${P}::sw_pre(self.amp_now(), self.rt(), token_in as int, ${P}::to_c(amount_in as int, self.dec(token_in as int)), token_out as int, self.c_amounts@, self.total_fee as int, fees.admin_fee_bps as int),
        sr(r) == self.swr(token_in as int, amount_in as int, token_out as int, fees.admin_fee_bps as int), /*P21*/ self.gate(),
@end
