@include utils.vc
@include chain.vc
@include feespec.vc
@include curve.vc
@include stable.vc
@file ref-exchange/src/stable_swap/math.rs
@const MIN_RAMP_DURATION MIN_AMP MAX_AMP MAX_AMP_CHANGE
@type Fees
@type SwapResult
@type StableSwap
@import smath.vc *
@include cpool.vc DIR=stable_swap P=StableSwapPool
@verus
pub enum StorageKey { Shares { pool_id: u32 } }
@fn StableSwapPool::get_invariant(self) -> r props=P07,P08,P10,P11
    ensures r.amp() == self.amp_now(), r.rt() == self.rt(), r.start_ramp_ts == self.init_amp_time, r.initial_amp_factor == self.init_amp_factor, r.target_amp_factor == self.target_amp_factor, r.current_ts == s_now(),
@fn StableSwapPool::calc_add_liquidity(self, amounts, fees) -> r props=P08
    requires self.shape(), amounts@.len() == self.c_amounts@.len(),
    ensures self.add_pre(amounts@), r.0 == self.add_mint(amounts@), r.1 == self.add_fee(amounts@),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == c_amounts@, forall|i: int| 0 <= i < __i0 ==> #[trigger] c_amounts@[i] > 0,
@fn StableSwapPool::internal_get_return(self, token_in, amount_in, token_out, fees) -> r props=P07
    requires self.shape(),
    ensures StableSwapPool::sw_pre(self.amp_now(), self.rt(), token_in as int, StableSwapPool::to_c(amount_in as int, self.dec(token_in as int)), token_out as int, self.c_amounts@, self.total_fee as int, fees.admin_fee_bps as int),
        sr(r) == self.swr(token_in as int, amount_in as int, token_out as int, fees.admin_fee_bps as int),
@end
