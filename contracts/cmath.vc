@file ref-exchange/src/${DIR}/math.rs
@const MIN_RAMP_DURATION MIN_AMP MAX_AMP MAX_AMP_CHANGE
@type Fees
@type SwapResult
@type ${T}
@verus shared
pub open spec fn sr(r: SwapResult) -> SR { SR { src: r.new_source_amount as int, dst: r.new_destination_amount as int, out: r.amount_swapped as int, adm: r.admin_fee as int, fee: r.fee as int } }
impl ${T} {
    pub open spec fn amp(&self) -> int { amp_at(self.initial_amp_factor as int, self.target_amp_factor as int, self.current_ts as int, self.start_ramp_ts as int, self.stop_ramp_ts as int) }
}
@end
@fn Fees::new(total_fee, fees) -> r props=P07,P08,P10
    ensures r.trade_fee == total_fee, r.admin_fee == fees.admin_fee_bps,
@fn Fees::zero() -> r props=P07
    ensures r.trade_fee == 0, r.admin_fee == 0,
@fn Fees::trade_fee(self, amount) -> r props=P07
    ensures r == (amount * self.trade_fee) / 10000,
@fn Fees::admin_trade_fee(self, amount) -> r props=P07
    ensures r == (amount * self.admin_fee) / 10000,
@fn Fees::normalized_trade_fee(self, num_coins, amount) -> r props=P08,P10
    ensures num_coins > 1, r == (amount * adj_fee(self.trade_fee as int, num_coins as int)) / 10000,
@fn ${T}::compute_amp_factor(self) -> r props=P11
    ensures r is Some ==> r->0 == self.amp() && (self.current_ts < self.stop_ramp_ts ==> self.start_ramp_ts <= self.current_ts),
        // a pool's ramp is always computable
        self.start_ramp_ts <= self.current_ts && self.initial_amp_factor <= MAX_AMP && self.target_amp_factor <= MAX_AMP ==> r is Some,
@entry
    proof {
        let a = self.initial_amp_factor as int; let b = self.target_amp_factor as int; let r = if b >= a { b - a } else { a - b };
        let d = self.current_ts as int - self.start_ramp_ts as int; let w = self.stop_ramp_ts as int - self.start_ramp_ts as int;
        if 0 <= d < w { 
            assert(0 <= r * d <= r * w) by(nonlinear_arith) requires 0 <= d < w, r >= 0;
            div_floor(r * d, w); div_le(r * d, w, r);
            if r <= 1_000_000 { assert(r * d <= 1_000_000 * u64::MAX) by(nonlinear_arith) requires 0 <= r <= 1_000_000, 0 <= d <= u64::MAX; }
        }
    }
@fn ${T}::compute_d(self, c_amounts) -> r props=P07,P08,P10
    requires c_amounts@.len() <= u32::MAX,
    ensures r is Some ==> r->0.v() == curve_d(self.amp(), c_amounts@),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == c_amounts@, __v0 == asum(c_amounts@, __i0 as int),
@loop 1
    invariant_except_break
        d_iter(amp_factor * spow(n_coins as int, n_coins as int), c_amounts@, d.v(), 256 - __i1) == curve_d(self.amp(), c_amounts@),
    invariant 0 <= __i1 <= __n1 == 256, amp_factor == self.amp(), n_coins == c_amounts@.len() <= u32::MAX, sum_x == asum(c_amounts@, n_coins as int),
    ensures d.v() == curve_d(self.amp(), c_amounts@),
@at break 1
    proof {
        d_unf(amp_factor * spow(n_coins as int, n_coins as int), c_amounts@, d_prev.v(), 256 - __i1 + 1);
    }
@loop_end 1
    proof {
        d_unf(amp_factor * spow(n_coins as int, n_coins as int), c_amounts@, d_prev.v(), 256 - __i1 + 1);
    }
@loop 2
    invariant __i2 <= __s2@.len(), __s2@ == c_amounts@, n_coins == c_amounts@.len(), d_prod.v() == dprod(c_amounts@, d.v(), __i2 as int),
@fn ${T}::compute_y(self, x_c_amount, current_c_amounts, index_x, index_y) -> r props=P07
    requires current_c_amounts@.len() <= u32::MAX,
    ensures r is Some ==> r->0.v() == curve_y(self.amp(), current_c_amounts@, x_c_amount as int, index_x as int, index_y as int),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == current_c_amounts@, s_ == y_sum(current_c_amounts@, x_c_amount as int, index_x as int, index_y as int, __i0 as int),
        c.v() == y_prod(current_c_amounts@, d.v(), x_c_amount as int, index_x as int, index_y as int, __i0 as int),
@loop 1
    invariant_except_break
        y_iter(b.v(), c.v(), d.v(), y.v(), 256 - __i1) == y_iter(b.v(), c.v(), d.v(), d.v(), 256),
    invariant 0 <= __i1 <= __n1 == 256,
    ensures y.v() == y_iter(b.v(), c.v(), d.v(), d.v(), 256),
@at break 1
    proof { assert(spow(y_prev.v(), 2) == y_prev.v() * y_prev.v()) by { reveal_with_fuel(spow, 3); } }
@loop_end 1
    proof { assert(spow(y_prev.v(), 2) == y_prev.v() * y_prev.v()) by { reveal_with_fuel(spow, 3); } }
@fn ${T}::compute_lp_amount_for_deposit(self, deposit_c_amounts, old_c_amounts, pool_token_supply, fees) -> r props=P08,P07
    requires deposit_c_amounts@.len() == old_c_amounts@.len() <= u32::MAX,
    ensures r is Some ==> ${P}::dep_ok(self.amp(), self.rt(), deposit_c_amounts@, old_c_amounts@, pool_token_supply as int, fees.trade_fee as int, (r->0).0 as int, (r->0).1 as int),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == deposit_c_amounts@, new_balances@.len() == old_c_amounts@.len(), deposit_c_amounts@.len() == old_c_amounts@.len(),
        forall|k: int| 0 <= k < __i0 ==> #[trigger] new_balances@[k] == old_c_amounts@[k] + deposit_c_amounts@[k],
@loop 1
    invariant 0 <= __i1 <= __n1 == nb0.len() == old_c_amounts@.len() == n_coins <= u32::MAX, new_balances@.len() == n_coins, d_1.v() > d_0.v(),
        __i1 > 0 ==> d_0.v() > 0 && n_coins > 1,
        forall|k: int| 0 <= k < __i1 ==> #[trigger] new_balances@[k] == after_fee(old_c_amounts@, nb0, d_0.v(), d_1.v(), fees.trade_fee as int)[k],
        forall|k: int| __i1 <= k < n_coins ==> #[trigger] new_balances@[k] == nb0[k],
@before_loop 1
    let ghost nb0 = new_balances@;
    proof { assert(nb0 =~= plus(old_c_amounts@, deposit_c_amounts@)); assert forall|i: int| 0 <= i < n_coins implies (#[trigger] old_c_amounts@[i]) + deposit_c_amounts@[i] <= u128::MAX by { assert(nb0[i] == old_c_amounts@[i] + deposit_c_amounts@[i]); } }
@after_loop 1
    proof { assert(new_balances@ =~= after_fee(old_c_amounts@, nb0, d_0.v(), d_1.v(), fees.trade_fee as int)); assert(new_balances@ == after_fee(old_c_amounts@, nb0, d_0.v(), d_1.v(), fees.trade_fee as int)); }
@fn ${T}::compute_lp_amount_for_withdraw(self, withdraw_c_amounts, old_c_amounts, pool_token_supply, fees) -> r props=P10
    requires withdraw_c_amounts@.len() == old_c_amounts@.len() <= u32::MAX,
    ensures r is Some ==> ${P}::wd_ok(self.amp(), self.rt(), withdraw_c_amounts@, old_c_amounts@, pool_token_supply as int, fees.trade_fee as int, (r->0).0 as int, (r->0).1 as int),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == withdraw_c_amounts@, new_balances@.len() == old_c_amounts@.len(), withdraw_c_amounts@.len() == old_c_amounts@.len(),
        forall|k: int| 0 <= k < __i0 ==> #[trigger] new_balances@[k] == old_c_amounts@[k] - withdraw_c_amounts@[k],
@loop 1
    invariant 0 <= __i1 <= __n1 == nb0.len() == old_c_amounts@.len() == n_coins <= u32::MAX, new_balances@.len() == n_coins, d_1.v() < d_0.v(),
        __i1 > 0 ==> n_coins > 1,
        forall|k: int| 0 <= k < __i1 ==> #[trigger] new_balances@[k] == after_fee(old_c_amounts@, nb0, d_0.v(), d_1.v(), fees.trade_fee as int)[k],
        forall|k: int| __i1 <= k < n_coins ==> #[trigger] new_balances@[k] == nb0[k],
@before_loop 1
    let ghost nb0 = new_balances@;
    proof { assert(nb0 =~= minus(old_c_amounts@, withdraw_c_amounts@)); assert forall|i: int| 0 <= i < n_coins implies (#[trigger] old_c_amounts@[i]) >= withdraw_c_amounts@[i] by { assert(nb0[i] == old_c_amounts@[i] - withdraw_c_amounts@[i]); } }
@after_loop 1
    proof { assert(new_balances@ =~= after_fee(old_c_amounts@, nb0, d_0.v(), d_1.v(), fees.trade_fee as int)); assert(new_balances@ == after_fee(old_c_amounts@, nb0, d_0.v(), d_1.v(), fees.trade_fee as int)); }
