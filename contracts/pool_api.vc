@verus shared
/// everything but the share ledger is as before
pub open spec fn same_pool(n: Pool, o: Pool) -> bool {
    n.toks() == o.toks() && n.res() == o.res() && n.supply() == o.supply() && n.fee() == o.fee() && n.sdec() == o.sdec()
}
pub open spec fn pool_kind_same(n: Pool, o: Pool) -> bool {
    &&& n is SimplePool <==> o is SimplePool
    &&& n is StableSwapPool <==> o is StableSwapPool
    &&& n is RatedSwapPool <==> o is RatedSwapPool
    &&& n is DegenSwapPool <==> o is DegenSwapPool
    &&& n.toks() == o.toks() && n.sdec() == o.sdec() && n.res().len() == o.res().len()
}
/// share owners of a well-formed pool only lose shares by their own removal or transfer
pub open spec fn no_one_loses(n: Pool, o: Pool) -> bool { forall|id: AccountId| #[trigger] mget(n.sh(), id) >= mget(o.sh(), id) }
/// the reserve of the input token grew by at most a, the reserve of the output token fell by at least b, nothing else moved
pub open spec fn swapped(o: Pool, n: Pool, i: int, j: int, tin: AccountId, tout: AccountId, a: int, b: int) -> bool {
    &&& 0 <= i < o.res().len() && 0 <= j < o.res().len() && i != j && o.toks()[i] == tin && o.toks()[j] == tout
    &&& n.res()[i] <= o.res()[i] + a * us() && n.res()[j] <= o.res()[j] - b * us()
    &&& o is SimplePool ==> n.res()[i] == o.res()[i] + a * us() && n.res()[j] == o.res()[j] - b * us()
    &&& forall|k: int| 0 <= k < o.res().len() && k != i && k != j ==> #[trigger] n.res()[k] == o.res()[k]
}
/// the reserves grew by at most a (exactly a in a simple pool)
pub open spec fn took(o: Pool, n: Pool, a: Seq<u128>) -> bool {
    n.res().len() == o.res().len() && a.len() == o.res().len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] n.res()[i] <= o.res()[i] + a[i] * us() && n.res()[i] >= o.res()[i]
        && (o is SimplePool ==> n.res()[i] == o.res()[i] + a[i] * us())
}
/// the reserves fell by at least a
pub open spec fn gave(o: Pool, n: Pool, a: Seq<u128>) -> bool {
    n.res().len() == o.res().len() && a.len() == o.res().len() && forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] n.res()[i] <= o.res()[i] - a[i] * us()
}
@end
@fn Pool::tokens(self) -> r props=P06
    ensures r@ == self.toks(),
@fn Pool::share_balances(self, account_id) -> r props=P06
    ensures r == mget(self.sh(), *account_id),
@fn Pool::share_total_balance(self) -> r props=P06
    ensures r == self.supply(),
@fn Pool::share_has_registered(self, account_id) -> r props=P06
    ensures r == self.sh().dom().contains(*account_id),
@fn Pool::get_share_decimal(self) -> r props=P20
    ensures r == self.sdec(), r <= 38,
@fn Pool::assert_tvl_not_exceed_limit(self, pool_id) props=P21
    requires self.pshape(),
    ensures self.tvl_ok(pool_id),
@fn Pool::share_register(self, account_id) props=P06
    requires old(self).pshape(),
    ensures final(self).pshape(), old(self).pwf() ==> final(self).pwf(), same_pool(*final(self), *old(self)), pool_kind_same(*final(self), *old(self)),
        !old(self).sh().dom().contains(*account_id), final(self).sh() == old(self).sh().insert(*account_id, 0u128),
@exit
    proof { assert(self.res() =~= old(self).res()); }
@fn Pool::share_unregister(self, account_id) props=P06
    requires old(self).pshape(),
    ensures final(self).pshape(), old(self).pwf() ==> final(self).pwf(), same_pool(*final(self), *old(self)), pool_kind_same(*final(self), *old(self)),
        old(self).sh().dom().contains(*account_id), old(self).sh()[*account_id] == 0, final(self).sh() == old(self).sh().remove(*account_id),
@exit
    proof { assert(self.res() =~= old(self).res()); }
@fn Pool::share_transfer(self, sender_id, receiver_id, amount) props=P06,P16
    requires old(self).pshape(),
    ensures final(self).pshape(), old(self).pwf() ==> final(self).pwf(), same_pool(*final(self), *old(self)), pool_kind_same(*final(self), *old(self)),
        mget(old(self).sh(), *sender_id) >= amount,
        old(self).sh().dom().contains(*sender_id), old(self).sh().dom().contains(*receiver_id),
        *sender_id != *receiver_id ==> final(self).sh() == old(self).sh()
            .insert(*sender_id, (old(self).sh()[*sender_id] - amount) as u128)
            .insert(*receiver_id, (old(self).sh()[*receiver_id] + amount) as u128)
            && old(self).sh()[*receiver_id] + amount <= u128::MAX,
        *sender_id == *receiver_id ==> final(self).sh() == old(self).sh(),
@exit
    proof { assert(self.res() =~= old(self).res()); }
@fn Pool::modify_total_fee(self, total_fee) props=P11
    requires old(self).pshape(), total_fee < 10000,
    ensures final(self).pshape(), old(self).pwf() ==> final(self).pwf(), final(self).fee() == total_fee, final(self).sh() == old(self).sh(), final(self).res() == old(self).res(),
        final(self).supply() == old(self).supply(), pool_kind_same(*final(self), *old(self)),
@exit
    proof { assert(self.res() =~= old(self).res()); }
@fn Pool::get_volumes(self) -> r props=P24
    ensures r@ == self.vols(),
@fn Pool::get_fee(self) -> r props=P11
    ensures r == self.fee(),
@fn Pool::remove_liquidity(self, sender_id, shares, min_amounts, is_view) -> r props=P05,P10
    requires old(self).pshape(),
    ensures
        final(self).pshape(), !is_view && old(self).pwf() ==> final(self).pwf(), pool_kind_same(*final(self), *old(self)), final(self).fee() == old(self).fee(),
        gave(*old(self), *final(self), r@), old(self).res().len() == old(self).toks().len(), r@ == old(self).redeem(shares as int),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] >= min_amounts@[i], min_amounts@.len() == r@.len(),
        final(self).supply() == old(self).supply() - shares,
        !is_view ==> mget(old(self).sh(), *sender_id) >= shares && old(self).sh().dom().contains(*sender_id) && final(self).sh() == old(self).sh().insert(*sender_id, (mget(old(self).sh(), *sender_id) - shares) as u128),
@exit
    proof {
        match *old(self) {
            Pool::SimplePool(o) => { simple_share(o, self->SimplePool_0, shares as int, r@); },
            Pool::StableSwapPool(o) => {
                let n = self->StableSwapPool_0; assert(n.same_config(&o));
                assert forall|i: int| 0 <= i < r@.len() implies #[trigger] StableSwapPool_paid(o, n, shares as int, r@, i) by { let x = r@[i]; }
                StableSwapPool_share(o, self->StableSwapPool_0, shares as int, r@); },
            Pool::RatedSwapPool(o) => {
                let n = self->RatedSwapPool_0; assert(n.same_config(&o));
                assert forall|i: int| 0 <= i < r@.len() implies #[trigger] RatedSwapPool_paid(o, n, shares as int, r@, i) by { let x = r@[i]; }
                RatedSwapPool_share(o, self->RatedSwapPool_0, shares as int, r@); },
            Pool::DegenSwapPool(o) => {
                let n = self->DegenSwapPool_0; assert(n.same_config(&o));
                assert forall|i: int| 0 <= i < r@.len() implies #[trigger] DegenSwapPool_paid(o, n, shares as int, r@, i) by { let x = r@[i]; }
                DegenSwapPool_share(o, self->DegenSwapPool_0, shares as int, r@); },
        }
    }
@fn Pool::remove_liquidity_by_tokens(self, sender_id, amounts, max_burn_shares, admin_fee, is_view) -> r props=P10
    requires old(self).pshape(), admin_fee.referral_info is None, admin_fee.admin_fee_bps <= 10000,
    ensures
        final(self).pshape(), !is_view && old(self).pwf() ==> final(self).pwf(), pool_kind_same(*final(self), *old(self)), !(*old(self) is SimplePool), final(self).fee() == old(self).fee(),
        gave(*old(self), *final(self), amounts@), old(self).res().len() == old(self).toks().len(),
        !is_view ==> r <= max_burn_shares,
        !is_view ==> mget(old(self).sh(), *sender_id) >= r,
        !is_view && *sender_id != admin_fee.exchange_id ==> mget(final(self).sh(), *sender_id) == mget(old(self).sh(), *sender_id) - r,
        !is_view && old(self).pwf() ==> forall|id: AccountId| id != *sender_id ==> #[trigger] mget(final(self).sh(), id) >= mget(old(self).sh(), id),
@exit
    proof {
        match *old(self) {
            Pool::SimplePool(o) => {},
            Pool::StableSwapPool(o) => { StableSwapPool_take(o, self->StableSwapPool_0, *sender_id, amounts@, admin_fee, is_view); },
            Pool::RatedSwapPool(o) => { RatedSwapPool_take(o, self->RatedSwapPool_0, *sender_id, amounts@, admin_fee, is_view); },
            Pool::DegenSwapPool(o) => { DegenSwapPool_take(o, self->DegenSwapPool_0, *sender_id, amounts@, admin_fee, is_view); },
        }
    }
@fn Pool::add_liquidity(self, sender_id, amounts, is_view) -> r props=P04
    requires old(self).pshape(),
    ensures
        final(self).pshape(), !is_view && old(self).pwf() ==> final(self).pwf(), pool_kind_same(*final(self), *old(self)), *old(self) is SimplePool, final(self).fee() == old(self).fee(),
        took(*old(self), *final(self), final(amounts)@), old(amounts)@.len() == final(amounts)@.len(), old(self).res().len() == old(self).toks().len(),
        forall|i: int| 0 <= i < final(amounts)@.len() ==> #[trigger] final(amounts)@[i] <= old(amounts)@[i],
        r > 0 && final(self).supply() == old(self).supply() + r,
        !is_view && old(self).pwf() ==> mget(old(self).sh(), *sender_id) + r <= u128::MAX && final(self).sh() == old(self).sh().insert(*sender_id, (mget(old(self).sh(), *sender_id) + r) as u128),
@exit
    proof {
        match *old(self) {
            Pool::SimplePool(o) => { simple_add(o, self->SimplePool_0, *sender_id, amounts@, r as int); },
            _ => {},
        }
    }
@fn Pool::add_stable_liquidity(self, sender_id, amounts, min_shares, admin_fee, is_view) -> r props=P07
    requires old(self).pshape(), admin_fee.referral_info is None, admin_fee.admin_fee_bps <= 10000,
    ensures
        final(self).pshape(), !is_view && old(self).pwf() ==> final(self).pwf(), pool_kind_same(*final(self), *old(self)), !(*old(self) is SimplePool), final(self).fee() == old(self).fee(),
        took(*old(self), *final(self), amounts@), old(self).res().len() == old(self).toks().len(),
        r >= min_shares,
        !is_view && old(self).pwf() ==> no_one_loses(*final(self), *old(self)) && mget(final(self).sh(), *sender_id) >= mget(old(self).sh(), *sender_id) + r,
@exit
    proof {
        match *old(self) {
            Pool::SimplePool(o) => {},
            Pool::StableSwapPool(o) => { StableSwapPool_add(o, self->StableSwapPool_0, *sender_id, amounts@, admin_fee, is_view); },
            Pool::RatedSwapPool(o) => { RatedSwapPool_add(o, self->RatedSwapPool_0, *sender_id, amounts@, admin_fee, is_view); },
            Pool::DegenSwapPool(o) => { DegenSwapPool_add(o, self->DegenSwapPool_0, *sender_id, amounts@, admin_fee, is_view); },
        }
    }
@fn Pool::swap(self, token_in, amount_in, token_out, min_amount_out, admin_fee, is_view) -> r props=P01,P08
    requires old(self).pshape(), admin_fee.admin_fee_bps <= 8000, admin_fee.referral_info is Some ==> (admin_fee.referral_info->0).1 <= 10000,
    ensures
        final(self).pshape(), !is_view && old(self).pwf() ==> final(self).pwf(), pool_kind_same(*final(self), *old(self)), final(self).fee() == old(self).fee(), old(self).res().len() == old(self).toks().len(),
        r >= min_amount_out, *token_in != *token_out,
        exists|i: int, j: int| #[trigger] swapped(*old(self), *final(self), i, j, *token_in, *token_out, amount_in as int, r as int),
        !is_view && old(self).pwf() ==> no_one_loses(*final(self), *old(self)),
@exit
    proof {
        match *old(self) {
            Pool::SimplePool(o) => { simple_swap(o, self->SimplePool_0, *token_in, amount_in as int, *token_out, r as int, admin_fee, is_view); },
            Pool::StableSwapPool(o) => { StableSwapPool_swap(o, self->StableSwapPool_0, *token_in, amount_in as int, *token_out, r as int, admin_fee, is_view); },
            Pool::RatedSwapPool(o) => { RatedSwapPool_swap(o, self->RatedSwapPool_0, *token_in, amount_in as int, *token_out, r as int, admin_fee, is_view); },
            Pool::DegenSwapPool(o) => { DegenSwapPool_swap(o, self->DegenSwapPool_0, *token_in, amount_in as int, *token_out, r as int, admin_fee, is_view); },
        }
    }
@fn Pool::swap_by_output(self, token_in, amount_out, token_out, max_amount_in, admin_fee, is_view) -> r props=P03
    requires old(self).pshape(), admin_fee.admin_fee_bps <= 8000, admin_fee.referral_info is Some ==> (admin_fee.referral_info->0).1 <= 10000,
    ensures
        final(self).pshape(), !is_view && old(self).pwf() ==> final(self).pwf(), pool_kind_same(*final(self), *old(self)), *old(self) is SimplePool, final(self).fee() == old(self).fee(), old(self).res().len() == old(self).toks().len(),
        max_amount_in is Some ==> r <= max_amount_in->0, *token_in != *token_out,
        exists|i: int, j: int| #[trigger] swapped(*old(self), *final(self), i, j, *token_in, *token_out, r as int, amount_out as int),
        !is_view && old(self).pwf() ==> no_one_loses(*final(self), *old(self)),
@exit
    proof {
        match *old(self) {
            Pool::SimplePool(o) => { simple_swap(o, self->SimplePool_0, *token_in, r as int, *token_out, amount_out as int, admin_fee, is_view); },
            _ => {},
        }
    }
@end
