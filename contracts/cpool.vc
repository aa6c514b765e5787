@file ref-exchange/src/${DIR}/mod.rs
@const MIN_DECIMAL MAX_DECIMAL TARGET_DECIMAL MIN_RESERVE
@fn AdminFees::calc_referral_share(self, admin_share) -> r props=P08,P10
    ensures r.0 == (match self.referral_info { Some(ri) => (admin_share * ri.1 as int) / 10000, None => 0 }), r.1 == (match self.referral_info { Some(ri) => ri.0, None => self.exchange_id }),
@fn ${P}::modify_total_fee(self, total_fee) props=P11
    ensures *final(self) == (${P} { total_fee: total_fee, ..*old(self) }),
@fn ${P}::get_fee(self) -> r props=P11
    ensures r == self.total_fee,
@fn ${P}::tokens(self) -> r props=P06
    ensures r@ == self.token_account_ids@,
@fn ${P}::share_has_registered(self, account_id) -> r props=P06
    ensures r == self.shares@.dom().contains(*account_id),
@fn ${P}::share_register(self, account_id) props=P06
    ensures
        !old(self).shares@.dom().contains(*account_id),
        final(self).shares@ == old(self).shares@.insert(*account_id, 0u128),
        msum(final(self).shares@) == msum(old(self).shares@),
        *final(self) == (${P} { shares: final(self).shares, ..*old(self) }),
@entry
    proof { msum_insert(old(self).shares@, *account_id, 0u128); }
@fn ${P}::share_unregister(self, account_id) props=P06
    ensures
        old(self).shares@.dom().contains(*account_id), old(self).shares@[*account_id] == 0,
        final(self).shares@ == old(self).shares@.remove(*account_id),
        msum(final(self).shares@) == msum(old(self).shares@),
        *final(self) == (${P} { shares: final(self).shares, ..*old(self) }),
@entry
    proof { if old(self).shares@.dom().contains(*account_id) { msum_remove(old(self).shares@, *account_id); } }
@fn ${P}::share_transfer(self, sender_id, receiver_id, amount) props=P06,P16
    ensures
        mget(old(self).shares@, *sender_id) >= amount,
        old(self).shares@.dom().contains(*sender_id), old(self).shares@.dom().contains(*receiver_id),
        *sender_id != *receiver_id ==> final(self).shares@ == old(self).shares@
            .insert(*sender_id, (old(self).shares@[*sender_id] - amount) as u128)
            .insert(*receiver_id, (old(self).shares@[*receiver_id] + amount) as u128)
            && old(self).shares@[*receiver_id] + amount <= u128::MAX,
        *sender_id == *receiver_id ==> final(self).shares@ == old(self).shares@,
        msum(final(self).shares@) == msum(old(self).shares@),
        *final(self) == (${P} { shares: final(self).shares, ..*old(self) }),
@entry
    proof {
        let m = old(self).shares@;
        if m.dom().contains(*sender_id) && m.dom().contains(*receiver_id) {
            let a = (m[*sender_id] - amount) as u128;
            let m1 = m.insert(*sender_id, a);
            msum_insert(m, *sender_id, a);
            msum_insert(m1, *receiver_id, (m1[*receiver_id] + amount) as u128);
            if *sender_id == *receiver_id && m[*sender_id] >= amount { assert(m1.insert(*receiver_id, (m1[*receiver_id] + amount) as u128) =~= m); }
        }
    }
@fn ${P}::share_balance_of(self, account_id) -> r props=P06
    ensures r == mget(self.shares@, *account_id),
@fn ${P}::share_total_balance(self) -> r props=P06
    ensures r == self.shares_total_supply,
@fn ${P}::get_volumes(self) -> r props=P24
    ensures r@ == self.volumes@,
@fn ${P}::mint_shares(self, account_id, shares, is_view) props=P06,P07,P08,P10
    ensures
        final(self).shares_total_supply == old(self).shares_total_supply + shares,
        final(self).shares@ == (if is_view { old(self).shares@ } else { credit(old(self).shares@, *account_id, shares as int) }),
        !is_view ==> mget(old(self).shares@, *account_id) + shares <= u128::MAX,
        !is_view ==> msum(final(self).shares@) == msum(old(self).shares@) + shares,
        is_view ==> final(self).shares == old(self).shares,
        *final(self) == (${P} { shares: final(self).shares, shares_total_supply: final(self).shares_total_supply, ..*old(self) }),
@entry
    proof { msum_insert(old(self).shares@, *account_id, (mget(old(self).shares@, *account_id) + shares) as u128); msum_member(old(self).shares@, *account_id); }
@fn ${P}::burn_shares(self, account_id, prev_shares_amount, shares) props=P06,P09,P10
    requires old(self).shares@.dom().contains(*account_id), old(self).shares@[*account_id] == prev_shares_amount,
    ensures prev_shares_amount >= shares || shares == 0,
        final(self).shares@ == old(self).shares@.insert(*account_id, (prev_shares_amount - shares) as u128),
        msum(final(self).shares@) == msum(old(self).shares@) - shares,
        *final(self) == (${P} { shares: final(self).shares, ..*old(self) }),
@entry
    proof { msum_insert(old(self).shares@, *account_id, (prev_shares_amount - shares) as u128); assert(shares == 0 ==> old(self).shares@ =~= old(self).shares@.insert(*account_id, prev_shares_amount)); }
@fn ${P}::token_index(self, token_id) -> r props=P07
    ensures self.is_idx(*token_id, r as int), r as int == self.idx(*token_id),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == self.token_account_ids@,
        __v0 is None ==> forall|j: int| 0 <= j < __i0 ==> self.token_account_ids@[j] != *token_id,
        __v0 is Some ==> self.is_idx(*token_id, __v0->0 as int),
@fn ${P}::assert_min_reserve(self, balance) props=P07,P09,P10
    ensures balance >= ${P}::min_res(),
@fn ${P}::amount_to_c_amount(self, amount, index) -> r props=P07,P08
    requires self.shape(),
    ensures index < self.token_decimals@.len(), r == ${P}::to_c(amount as int, self.dec(index as int)),
@fn ${P}::c_amount_to_amount(self, c_amount, index) -> r props=P07,P09
    requires self.shape(),
    ensures index < self.token_decimals@.len(), r == ${P}::to_a(c_amount as int, self.dec(index as int)),
@fn ${P}::amounts_to_c_amounts(self, amounts) -> r props=P08,P10
    requires self.shape(), amounts@.len() == self.token_decimals@.len(),
    ensures r@ == self.cs(amounts@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == ${P}::to_c(amounts@[i] as int, self.dec(i)),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == self.token_decimals@, c_amounts@.len() == amounts@.len() == self.token_decimals@.len(), self.shape(),
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] c_amounts@[i]) == ${P}::to_c(amounts@[i] as int, self.dec(i)),
        forall|i: int| __i0 <= i < c_amounts@.len() ==> (#[trigger] c_amounts@[i]) == amounts@[i],
@exit
    proof { assert(r@ =~= self.cs(amounts@)); }
@fn ${P}::get_amounts(self) -> r props=P07
    requires self.shape(),
    ensures r@.len() == self.c_amounts@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == ${P}::to_a(self.c_amounts@[i] as int, self.dec(i)),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == self.token_decimals@, amounts@.len() == self.c_amounts@.len() == self.token_decimals@.len(), self.shape(),
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] amounts@[i]) == ${P}::to_a(self.c_amounts@[i] as int, self.dec(i)),
        forall|i: int| __i0 <= i < amounts@.len() ==> (#[trigger] amounts@[i]) == self.c_amounts@[i],
@fn ${P}::remove_liquidity_by_shares(self, sender_id, shares, min_amounts, is_view) -> r props=P09,P06,P23
    requires old(self).shape(),
    ensures
        final(self).same_config(old(self)), final(self).shape(), !is_view && old(self).wf() ==> final(self).wf(),
        r@.len() == old(self).c_amounts@.len() == min_amounts@.len(),
        !is_view ==> old(self).shares@.dom().contains(*sender_id) && old(self).shares@[*sender_id] >= shares
            && final(self).shares@ == old(self).shares@.insert(*sender_id, (old(self).shares@[*sender_id] - shares) as u128),
        is_view ==> final(self).shares@ == old(self).shares@,
        shares <= old(self).shares_total_supply, final(self).shares_total_supply == old(self).shares_total_supply - shares,
        forall|i: int| 0 <= i < r@.len() ==> old(self).shares_total_supply > 0
            && (#[trigger] r@[i]) == ${P}::to_a((old(self).c_amounts@[i] * shares) / (old(self).shares_total_supply as int), old(self).dec(i)) && r@[i] >= min_amounts@[i]
            && final(self).c_amounts@[i] == old(self).c_amounts@[i] - (old(self).c_amounts@[i] * shares) / (old(self).shares_total_supply as int)
            && final(self).c_amounts@[i] >= ${P}::min_res(),
@loop 0
    invariant 0 <= __i0 <= __n0 == old(self).c_amounts@.len(), result@.len() == __n0, min_amounts@.len() == __n0, self.shape(), old(self).shape(),
        *self == (${P} { c_amounts: self.c_amounts, shares: self.shares, ..*old(self) }), self.c_amounts@.len() == __n0, self.shares == sh0,
        __i0 > 0 ==> old(self).shares_total_supply > 0,
        forall|i: int| #![trigger result@[i]] #![trigger self.c_amounts@[i]] 0 <= i < __i0 ==>
            result@[i] == ${P}::to_a((old(self).c_amounts@[i] * shares) / (old(self).shares_total_supply as int), old(self).dec(i)) && result@[i] >= min_amounts@[i]
            && self.c_amounts@[i] == old(self).c_amounts@[i] - (old(self).c_amounts@[i] * shares) / (old(self).shares_total_supply as int)
            && self.c_amounts@[i] >= ${P}::min_res(),
        forall|i: int| __i0 <= i < __n0 ==> #[trigger] self.c_amounts@[i] == old(self).c_amounts@[i],
@before_loop 0
    let ghost sh0 = self.shares;
@entry
    proof { msum_member(self.shares@, *sender_id); }
@fn ${P}::add_liquidity(self, sender_id, amounts, min_shares, fees, is_view) -> r props=P08,P06,P23
    requires old(self).shape(), fees.admin_fee_bps <= 10000, fees.referral_info is Some ==> (fees.referral_info->0).1 <= 10000,
    ensures
        final(self).shape(), !is_view && old(self).wf() ==> final(self).wf(),
        r >= min_shares, r == old(self).add_mint(amounts@), amounts@.len() == old(self).c_amounts@.len(),
        old(self).added(final(self), *sender_id, amounts@, *fees, is_view),
        /*P21*/ old(self).gate(),
@loop 0
    invariant 0 <= __i0 <= __n0 == old(self).c_amounts@.len(), amounts@.len() == __n0, self.shape(), old(self).shape(),
        *self == (${P} { c_amounts: self.c_amounts, ..*old(self) }), self.c_amounts@.len() == __n0,
        forall|i: int| 0 <= i < __i0 ==> #[trigger] self.c_amounts@[i] == old(self).c_amounts@[i] + ${P}::to_c(amounts@[i] as int, old(self).dec(i)) && 0 <= ${P}::to_c(amounts@[i] as int, old(self).dec(i)) <= u128::MAX,
        forall|i: int| __i0 <= i < __n0 ==> #[trigger] self.c_amounts@[i] == old(self).c_amounts@[i],
@after_loop 0
    proof {
        assert(self.c_amounts@ =~= plus(old(self).c_amounts@, old(self).cs(amounts@)));
        assert forall|i: int| 0 <= i < amounts@.len() implies (#[trigger] old(self).c_amounts@[i]) + ${P}::to_c(amounts@[i] as int, old(self).dec(i)) <= u128::MAX by { assert(self.c_amounts@[i] == old(self).c_amounts@[i] + ${P}::to_c(amounts@[i] as int, old(self).dec(i))); }
    }
@exit
    proof {
        let o = *old(self); let f = o.add_fee(amounts@); let adm = (f * fees.admin_fee_bps) / 10000;
        assert(f == 0 ==> f * fees.admin_fee_bps == 0) by(nonlinear_arith);
        fee_ledger_zero(o.shares@, *fees); fee_ledger_zero(credit(o.shares@, *sender_id, r as int), *fees);
        assert(r == o.add_mint(amounts@) && f >= 0);
        assert(self.c_amounts@ == plus(o.c_amounts@, o.cs(amounts@)));
        assert(self.shares_total_supply == o.shares_total_supply + r + adm);
        assert(self.shares@ == if is_view { o.shares@ } else { fee_ledger(credit(o.shares@, *sender_id, r as int), *fees, adm) });
        assert(self.same_config(&o));
    }
@fn ${P}::remove_liquidity_by_tokens(self, sender_id, amounts, max_burn_shares, fees, is_view) -> r props=P10,P06,P23
    requires old(self).shape(), fees.admin_fee_bps <= 10000, fees.referral_info is Some ==> (fees.referral_info->0).1 <= 10000,
    ensures
        final(self).shape(), !is_view && old(self).wf() ==> final(self).wf(),
        !is_view ==> r <= max_burn_shares, r == old(self).rem_burn(amounts@), amounts@.len() == old(self).c_amounts@.len(),
        old(self).taken(final(self), *sender_id, amounts@, *fees, is_view),
        /*P21*/ old(self).gate(),
@loop 0
    invariant 0 <= __i0 <= __n0 == self.c_amounts@.len(), amounts@.len() == __n0, c_amounts@.len() == __n0, self.shape(),
        forall|i: int| 0 <= i < __i0 ==> #[trigger] c_amounts@[i] == ${P}::up_c(amounts@[i] as int, self.dec(i)),
        forall|i: int| __i0 <= i < __n0 ==> #[trigger] c_amounts@[i] == ${P}::to_c(amounts@[i] as int, self.dec(i)),
@after_loop 0
    proof { assert(c_amounts@ =~= self.ups(amounts@)); }
@loop 1
    invariant 0 <= __i1 <= __n1 == old(self).c_amounts@.len(), amounts@.len() == __n1, c_amounts@.len() == __n1, self.shape(), old(self).shape(),
        *self == (${P} { c_amounts: self.c_amounts, shares: self.shares, ..*old(self) }), self.c_amounts@.len() == __n1, self.shares == sh1,
        c_amounts@ == old(self).ups(amounts@), forall|i: int| 0 <= i < __n1 ==> #[trigger] c_amounts@[i] == ${P}::up_c(amounts@[i] as int, old(self).dec(i)),
        forall|i: int| 0 <= i < __i1 ==> #[trigger] self.c_amounts@[i] == old(self).c_amounts@[i] - c_amounts@[i] && self.c_amounts@[i] >= ${P}::min_res(),
        forall|i: int| __i1 <= i < __n1 ==> #[trigger] self.c_amounts@[i] == old(self).c_amounts@[i],
@before_loop 1
    let ghost sh1 = self.shares;
@after_loop 1
    proof {
        assert(self.c_amounts@ =~= minus(old(self).c_amounts@, old(self).ups(amounts@)));
        assert forall|i: int| 0 <= i < amounts@.len() implies (#[trigger] old(self).c_amounts@[i]) - ${P}::up_c(amounts@[i] as int, old(self).dec(i)) >= ${P}::min_res() && ${P}::up_c(amounts@[i] as int, old(self).dec(i)) >= 0 by {
            assert(self.c_amounts@[i] == old(self).c_amounts@[i] - c_amounts@[i]); assert(c_amounts@[i] == ${P}::up_c(amounts@[i] as int, old(self).dec(i)));
        }
    }
@exit
    proof {
        let o = *old(self); let b = o.rem_burn(amounts@); let f = o.rem_fee(amounts@); let adm = (f * fees.admin_fee_bps) / 10000;
        assert(f == 0 ==> f * fees.admin_fee_bps == 0) by(nonlinear_arith);
        assert(b == r && f >= 0);
        fee_ledger_zero(o.shares@, *fees); fee_ledger_zero(o.shares@.insert(*sender_id, (o.shares@[*sender_id] - b) as u128), *fees);
        assert(self.c_amounts@ == minus(o.c_amounts@, o.ups(amounts@)));
        assert(self.shares_total_supply == o.shares_total_supply - b + adm);
        assert(self.shares@ == if is_view { o.shares@ } else { fee_ledger(o.shares@.insert(*sender_id, (o.shares@[*sender_id] - b) as u128), *fees, adm) });
        assert(self.same_config(&o));
    }
@fn ${P}::distribute_admin_fee(self, exchange_id, referral_id, referral_fee_bps, token_id, c_amount, is_view) -> r props=P07,P06
    requires old(self).shape(), token_id < old(self).c_amounts@.len(),
    ensures final(self).same_config(old(self)), final(self).shape(), old(self).c_amounts@[token_id as int] + c_amount <= u128::MAX,
        !is_view ==> msum(final(self).shares@) - final(self).shares_total_supply == msum(old(self).shares@) - old(self).shares_total_supply,
        final(self).c_amounts@ == old(self).c_amounts@.update(token_id as int, (old(self).c_amounts@[token_id as int] + c_amount) as u128),
        ({ let ns = ${P}::dep_mint(old(self).amp_now(), old(self).rt(), onehot(old(self).c_amounts@.len(), token_id as int, c_amount as int), old(self).c_amounts@, old(self).shares_total_supply as int, 0);
           let rs = (ns * referral_fee_bps) / 10000;
           ns >= 0 && 0 <= rs <= ns && r.0 == ns - rs && r.1 == rs && final(self).shares_total_supply == old(self).shares_total_supply + ns
           && final(self).shares@ == if is_view { old(self).shares@ } else { credit(credit(old(self).shares@, *referral_id, rs), *exchange_id, ns - rs) } }),
@entry
    proof {
        let n = self.c_amounts@.len();
        assert forall|s: Seq<u128>| s.len() == n && (forall|i: int| 0 <= i < n ==> s[i] == 0) implies #[trigger] s.update(token_id as int, c_amount) == onehot(n, token_id as int, c_amount as int) by { assert(s.update(token_id as int, c_amount) =~= onehot(n, token_id as int, c_amount as int)); }
    }
@exit
    proof {
        let ns = ${P}::dep_mint(old(self).amp_now(), old(self).rt(), onehot(old(self).c_amounts@.len(), token_id as int, c_amount as int), old(self).c_amounts@, old(self).shares_total_supply as int, 0);
        assert(referral_fee_bps == 0 ==> ns * referral_fee_bps == 0) by(nonlinear_arith);
        assert((ns * referral_fee_bps) / 10000 == r.1);
        assert(ns == r.0 + r.1);
    }
@fn ${P}::swap(self, token_in, amount_in, token_out, min_amount_out, fees, is_view) -> r props=P07,P06,P23
    requires old(self).shape(), fees.admin_fee_bps <= 10000, fees.referral_info is Some ==> (fees.referral_info->0).1 <= 10000,
    ensures
        final(self).shape(), !is_view && old(self).wf() ==> final(self).wf(), *token_in != *token_out,
        r >= min_amount_out, old(self).swapped(final(self), *token_in, amount_in as int, *token_out, r as int, *fees, is_view),
        /*P21*/ old(self).gate(),
@entry
    proof { assert forall|s: Seq<u128>, j: int, a: u128, b: u128| 0 <= j < s.len() implies #[trigger] s.update(j, a).update(j, b) == s.update(j, b) by { assert(s.update(j, a).update(j, b) =~= s.update(j, b)); } }
@exit
    proof {
        let i = old(self).idx(*token_in); let j = old(self).idx(*token_out); let af = fees.admin_fee_bps as int; let s = old(self).swr(i, amount_in as int, j, af);
        let mid = old(self).c_amounts@.update(i, s.src as u128).update(j, s.dst as u128);
        assert(af == 0 ==> s.fee * af == 0) by(nonlinear_arith);
        ${P}::swf_none(old(self).amp_now(), old(self).rt(), i, ${P}::to_c(amount_in as int, old(self).dec(i)), j, old(self).c_amounts@, old(self).total_fee as int);
        assert(self.c_amounts@ =~= old(self).c_amounts@.update(i, s.src as u128).update(j, (s.dst + s.adm) as u128));
        let ns = old(self).fee_mint(mid, j, s.adm);
        fee_ledger_zero(old(self).shares@, *fees);
        assert(ns >= 0 && self.shares_total_supply == old(self).shares_total_supply + ns);
        assert(self.shares@ == if is_view { old(self).shares@ } else { fee_ledger(old(self).shares@, *fees, ns) });
        assert(self.same_config(old(self)));
        assert(r == ${P}::to_a(s.out, old(self).dec(j)) && ${P}::min_res() <= s.dst <= u128::MAX && 0 <= s.src <= u128::MAX && 0 <= s.adm && s.dst + s.adm <= u128::MAX);
    }
@fn ${P}::ramp_amplification(self, future_amp_factor, future_amp_time) props=P11
    requires old(self).shape(),
    ensures
        ({ let a = old(self).amp_now();
           &&& s_now() >= old(self).init_amp_time + 86_400_000_000_000 && future_amp_time >= s_now() + 86_400_000_000_000
           &&& 0 < future_amp_factor < 1_000_000 && future_amp_factor <= a * 10 && a <= future_amp_factor * 10
           &&& *final(self) == (${P} { init_amp_factor: a as u128, init_amp_time: s_now() as u64, target_amp_factor: future_amp_factor, stop_amp_time: future_amp_time, ..*old(self) })
           // the effective value does not jump
           &&& final(self).amp_now() == a }), final(self).shape(), old(self).wf() ==> final(self).wf(),
@entry
    proof { if old(self).init_amp_time as int <= s_now() { p11_amp_between(self.init_amp_factor as int, self.target_amp_factor as int, s_now(), self.init_amp_time as int, self.stop_amp_time as int); } }
@exit
    proof { assert(((future_amp_factor as int - self.init_amp_factor as int) * 0) == 0 && ((self.init_amp_factor as int - future_amp_factor as int) * 0) == 0); }
@fn ${P}::stop_ramp_amplification(self) props=P11
    requires old(self).shape(),
    ensures
        *final(self) == (${P} { init_amp_factor: old(self).amp_now() as u128, target_amp_factor: old(self).amp_now() as u128, init_amp_time: s_now() as u64, stop_amp_time: s_now() as u64, ..*old(self) }),
        // frozen at the current value from now on
        final(self).amp_now() == old(self).amp_now(), final(self).shape(), old(self).wf() ==> final(self).wf(),
@entry
    proof { if old(self).init_amp_time as int <= s_now() { p11_amp_between(self.init_amp_factor as int, self.target_amp_factor as int, s_now(), self.init_amp_time as int, self.stop_amp_time as int); } }
@fn ${P}::get_amp(self) -> r props=P11
    requires self.shape(),
    ensures self.init_amp_time as int <= s_now() ==> r == self.amp_now(),
@entry
    proof { if self.init_amp_time as int <= s_now() { p11_amp_between(self.init_amp_factor as int, self.target_amp_factor as int, s_now(), self.init_amp_time as int, self.stop_amp_time as int); } }
@fn ${P}::new(id, token_account_ids, token_decimals, amp_factor, total_fee) -> r props=P06,P11
    requires token_account_ids@.len() == token_decimals@.len() <= u32::MAX,
    ensures r.wf(), r.total_fee == total_fee, total_fee < 10000, 1 <= amp_factor <= 1_000_000, r.init_amp_factor == amp_factor, r.target_amp_factor == amp_factor,
        r.token_account_ids@ == token_account_ids@.map_values(|a: VAcc| a.0), r.token_decimals@ == token_decimals@,
        r.c_amounts@ == Seq::new(token_account_ids@.len(), |i: int| 0u128), r.shares_total_supply == 0, r.shares@ == Map::<AccountId, u128>::empty(),
        r.init_amp_time == 0, r.stop_amp_time == 0,
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == token_decimals@, forall|i: int| 0 <= i < __i0 ==> 1 <= #[trigger] token_decimals@[i] <= 24,
@loop 1
    invariant
        __i1 <= __s1@.len(), __s1@ == token_account_ids@, __v1@.len() == __i1,
        forall|j: int| 0 <= j < __i1 ==> __v1@[j] == token_account_ids@[j].0,
@exit
    proof {
        assert(r.token_account_ids@ =~= token_account_ids@.map_values(|a: VAcc| a.0));
        msum_empty(r.shares@);
    }
@verus shared
impl ${P} {
    /// P07: the pool never records more than it received, takes out at least the value paid, touches nothing else, keeps the minimum, and the fee bounds the exchange's part
    pub proof fn p07_swap(&self, n: &Self, tin: AccountId, a: int, tout: AccountId, out: int, fees: AdminFees, v: bool)
        requires self.shape(), self.swapped(n, tin, a, tout, out, fees, v), 0 <= a, fees.admin_fee_bps <= 10000,
        ensures ({ let i = self.idx(tin); let j = self.idx(tout); let o = self.c_amounts@; let m = n.c_amounts@;
            &&& (m[i] - o[i]) * Self::unit(self.dec(i)) <= a * spow(10, 24)
            &&& (o[j] - m[j]) * Self::unit(self.dec(j)) >= out * spow(10, 24) && out >= 0
            &&& m[j] >= Self::min_res()
            &&& m.len() == o.len() && forall|k: int| 0 <= k < o.len() && k != i && k != j ==> m[k] == o[k] })
    {
        let i = self.idx(tin); let j = self.idx(tout); let o = self.c_amounts@; let ac = Self::to_c(a, self.dec(i));
        let s = self.swr(i, a, j, fees.admin_fee_bps as int);
        assert(1 <= self.token_decimals@[i] <= 24 && 1 <= self.token_decimals@[j] <= 24);
        Self::swf_safe(self.amp_now(), self.rt(), i, ac, j, o, self.total_fee as int, fees.admin_fee_bps as int);
        Self::conv(a, self.dec(i)); Self::conv(s.out, self.dec(j));
        let ui = Self::unit(self.dec(i)); let uj = Self::unit(self.dec(j)); Self::unit_pos(self.dec(i)); Self::unit_pos(self.dec(j));
        let dsrc = s.src - o[i];
        assert(dsrc * ui <= ac * ui) by(nonlinear_arith) requires dsrc <= ac, ui > 0;
        let d = o[j] - (s.dst + s.adm);
        assert(d * uj >= s.out * uj) by(nonlinear_arith) requires d >= s.out, uj > 0;
        e24(); let e = spow(10, 24); assert(out >= 0) by(nonlinear_arith) requires out * e >= 0, e > 0;
    }
    /// P08: the reserves rise by the offered amounts, recorded at no more than their value; provider, exchange and referrer together get no more than the growth of the curve
    pub proof fn p08_add(&self, n: &Self, who: AccountId, a: Seq<u128>, fees: AdminFees, v: bool)
        requires self.shape(), self.added(n, who, a, fees, v), fees.admin_fee_bps <= 10000
        ensures forall|i: int| 0 <= i < a.len() ==> (#[trigger] n.c_amounts@[i]) >= self.c_amounts@[i] && (n.c_amounts@[i] - self.c_amounts@[i]) * Self::unit(self.dec(i)) <= a[i] * spow(10, 24),
            self.shares_total_supply > 0 ==> ({ let d0 = Self::cd(self.amp_now(), self.rt(), self.c_amounts@); let d1 = Self::cd(self.amp_now(), self.rt(), plus(self.c_amounts@, self.cs(a)));
                n.shares_total_supply - self.shares_total_supply <= (self.shares_total_supply * (d1 - d0)) / d0 }),
    {
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] n.c_amounts@[i]) >= self.c_amounts@[i] && (n.c_amounts@[i] - self.c_amounts@[i]) * Self::unit(self.dec(i)) <= a[i] * spow(10, 24) by {
            assert(1 <= self.token_decimals@[i] <= 24); Self::conv(a[i] as int, self.dec(i)); Self::unit_pos(self.dec(i));
            let x = Self::to_c(a[i] as int, self.dec(i)); let u = Self::unit(self.dec(i));
            assert(x >= 0) by(nonlinear_arith) requires x * u >= 0, u > 0;
            assert(self.c_amounts@[i] + x <= u128::MAX);
        }
        let f = self.add_fee(a); let b = fees.admin_fee_bps as int;
        assert(0 <= f * b <= f * 10000) by(nonlinear_arith) requires f >= 0, 0 <= b <= 10000;
        div_le(f * b, 10000, f);
    }
    /// P10: the reserves fall by at least the value paid out and stay above the minimum; the fee shares come out of the burned ones
    pub proof fn p10_take(&self, n: &Self, who: AccountId, a: Seq<u128>, fees: AdminFees, v: bool)
        requires self.shape(), self.taken(n, who, a, fees, v), fees.admin_fee_bps <= 10000
        ensures forall|i: int| 0 <= i < a.len() ==> (#[trigger] n.c_amounts@[i]) >= Self::min_res() && (self.c_amounts@[i] - n.c_amounts@[i]) * Self::unit(self.dec(i)) >= a[i] * spow(10, 24),
            ({ let d0 = Self::cd(self.amp_now(), self.rt(), self.c_amounts@); let d1 = Self::cd(self.amp_now(), self.rt(), minus(self.c_amounts@, self.ups(a)));
               self.shares_total_supply - n.shares_total_supply >= (self.shares_total_supply * (d0 - d1)) / d0 }),
    {
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] n.c_amounts@[i]) >= Self::min_res() && (self.c_amounts@[i] - n.c_amounts@[i]) * Self::unit(self.dec(i)) >= a[i] * spow(10, 24) by {
            assert(1 <= self.token_decimals@[i] <= 24); Self::conv(a[i] as int, self.dec(i));
            assert(self.c_amounts@[i] - Self::up_c(a[i] as int, self.dec(i)) >= Self::min_res());
        }
        let f = self.rem_fee(a); let b = fees.admin_fee_bps as int;
        assert(0 <= f * b <= f * 10000) by(nonlinear_arith) requires f >= 0, 0 <= b <= 10000;
        div_le(f * b, 10000, f);
    }
    /// P09: what is paid is worth no more than the proportional part of the reserve, nor than what the reserve lost
    pub proof fn p09_share(c: int, shares: int, supply: int, dec: int)
        requires 0 <= c, 0 <= shares <= supply, 0 < supply, 1 <= dec <= 24
        ensures ({ let t = (c * shares) / supply; let p = Self::to_a(t, dec);
            0 <= t <= c && p * spow(10, 24) <= t * Self::unit(dec) && (p * spow(10, 24)) * supply <= (c * Self::unit(dec)) * shares })
    {
        let t = (c * shares) / supply; assert(0 <= c * shares <= c * supply) by(nonlinear_arith) requires 0 <= c, 0 <= shares <= supply;
        div_floor(c * shares, supply); div_le(c * shares, supply, c); Self::conv(t, dec); Self::unit_pos(dec);
        let u = Self::unit(dec); let v = Self::to_a(t, dec) * spow(10, 24);
        assert(v * supply <= (c * u) * shares) by(nonlinear_arith) requires v <= t * u, t * supply <= c * shares, u > 0, supply > 0;
    }
}
@end
