@include xbase.vc
@import acct.vc *
@import ledger.vc Contract::assert_contract_running Contract::assert_no_frozen_tokens Contract::internal_get_account Contract::internal_unwrap_account Contract::internal_save_account Contract::internal_check_storage
@import pool_api.vc *
@file ref-exchange/src/shadow_actions.rs
@const GAS_FOR_ON_CAST_SHADOW GAS_FOR_ON_CAST_SHADOW_CALLBACK GAS_FOR_ON_BURROW_LIQUIDATION GAS_FOR_ON_BURROW_LIQUIDATION_CALLBACK
@verus
pub uninterp spec fn shadow_pool(s: Str) -> u64;
/// how many shares an action may concern
pub open spec fn avail(a: ShadowActions, r: ShadowRecord, total: int) -> int {
    match a {
        ShadowActions::ToFarming => total - r.shadow_in_farm,
        ShadowActions::ToBurrowland => total - r.shadow_in_burrow,
        ShadowActions::FromFarming => r.shadow_in_farm as int,
        ShadowActions::FromBurrowland => r.shadow_in_burrow as int,
    }
}
pub open spec fn is_to(a: ShadowActions) -> bool { a is ToFarming || a is ToBurrowland }
pub open spec fn undo(a: ShadowActions) -> ShadowActions {
    match a { ShadowActions::ToFarming => ShadowActions::FromFarming, ShadowActions::ToBurrowland => ShadowActions::FromBurrowland, _ => a }
}
impl Contract {
    pub open spec fn farm_or_lend(&self, a: ShadowActions) -> AccountId { if a is ToFarming || a is FromFarming { self.boost_farm_id } else { self.burrowland_id } }
    /// only the record of `id` in pool p differs: it is `r`
    pub open spec fn rec_set(&self, o: &Contract, p: u64, id: AccountId, r: ShadowRecord) -> bool {
        &&& self.same_but_accounts(o) && self.has(id) && o.has(id)
        &&& self.av(id).rec(p) == r
        &&& forall|q: u64, i: AccountId| (q != p || i != id) && o.has(i) ==> self.has(i) && #[trigger] self.av(i).rec(q) == o.av(i).rec(q)
        &&& forall|i: AccountId| self.has(i) == #[trigger] o.has(i)
        &&& forall|i: AccountId, t: AccountId| #[trigger] self.abal(i, t) == o.abal(i, t)
    }
}
@end
@fn pool_id_to_shadow_id(pool_id) -> r trusted
    ensures shadow_pool(r) == pool_id,
@fn shadow_id_to_pool_id(shadow_id) -> r trusted
    ensures r == shadow_pool(*shadow_id),
@fn Contract::shadow_action(self, action, pool_id, amount, msg) -> r props=P17,P19
    requires old(self).cwf(), old(self).shadow_ok(), s_pred() != s_me(), forall|a: int| 0 <= a <= s_deposit() ==> may_send(s_pred(), a),
    ensures final(self).cwf(), final(self).shadow_ok(), /*P19*/ old(self).running(), old(self).has(s_pred()), pool_id < old(self).npools(),
        ({ let p = pool_id as int; let r0 = old(self).rec(p, s_pred()); let mx = avail(action, r0, old(self).shares(p, s_pred()));
           let a = if amount is Some { (amount->0).0 as int } else { mx };
           &&& 0 < a <= mx
           &&& is_to(action) ==> rec_fits(r0, action, a) && final(self).rec_set(old(self), pool_id, s_pred(), rec_after(r0, action, a))
           &&& !is_to(action) ==> *final(self) == *old(self)
           &&& r is Promise && 0 <= fee_of(r->Promise_0@) <= (if is_to(action) { s_deposit() } else { 0 })
           &&& asks(r->Promise_0@, action, old(self).farm_or_lend(action), s_pred(), pool_id, a, fee_of(r->Promise_0@)) }),
@exit
    proof {
        let r0 = old(self).rec(pool_id as int, s_pred());
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(free_of(old(self).rec(p, id), old(self).shares(p, id)) >= 0);
            assert(self.shares(p, id) == old(self).shares(p, id));
            if id == s_pred() && p == pool_id { } else { assert(self.rec(p, id) == old(self).rec(p, id)); }
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, id) == self.rec(p, id)); }
    }
@fn Contract::callback_on_shadow(self, action, sender_id, pool_id, amount, storage_fee) -> r props=P17
    requires old(self).cwf(), old(self).shadow_ok(), sender_id != s_me(), may_send(sender_id, storage_fee.0 as int), pool_id < old(self).npools(),
    ensures /*P18*/ s_pred() == s_me(), final(self).cwf(), final(self).shadow_ok(), s_results() == 1, r == s_result(0) is Successful,
        ({ let r0 = old(self).rec(pool_id as int, sender_id);
           &&& r && is_to(action) ==> *final(self) == *old(self)
           &&& r && !is_to(action) ==> rec_fits(r0, action, amount.0 as int) && final(self).rec_set(old(self), pool_id, sender_id, rec_after(r0, action, amount.0 as int))
           &&& !r && is_to(action) ==> rec_fits(r0, undo(action), amount.0 as int) && final(self).rec_set(old(self), pool_id, sender_id, rec_after(r0, undo(action), amount.0 as int))
           &&& !r && !is_to(action) ==> final(self).rec_set(old(self), pool_id, sender_id, r0) }),
@exit
    proof {
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(free_of(old(self).rec(p, id), old(self).shares(p, id)) >= 0);
            assert(self.shares(p, id) == old(self).shares(p, id));
            if id == sender_id && p == pool_id { } else { assert(self.rec(p, id) == old(self).rec(p, id)); }
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, id) == self.rec(p, id)); }
        if self.has(sender_id) && old(self).has(sender_id) {
            let n = self.av(sender_id); let o = old(self).av(sender_id);
            assert(n.tok == o.tok && n.leg == o.leg);
            assert(self.same_but_accounts(old(self)));
            assert forall|q: u64, i: AccountId| (q != pool_id || i != sender_id) && old(self).has(i) implies self.has(i) && #[trigger] self.av(i).rec(q) == old(self).av(i).rec(q) by { }
            assert forall|i: AccountId, t: AccountId| #[trigger] self.abal(i, t) == old(self).abal(i, t) by { }
        }
    }
@fn Contract::callback_on_burrow_liquidation(self, sender_id, pool_id, amount) props=P17
    ensures /*P18*/ s_pred() == s_me(), *final(self) == *old(self),
@fn Contract::on_burrow_liquidation(self, liquidator_account_id, liquidation_account_id, shadow_id, liquidate_share_amount, min_token_amounts) props=P17,P12,P10,P19
    requires old(self).cwf(), old(self).shadow_ok(), liquidation_account_id != s_me(),
    ensures final(self).cwf(), final(self).shadow_ok(), s_pred() == old(self).burrowland_id, shadow_pool(shadow_id) < old(self).npools(),
        old(self).has(liquidation_account_id), old(self).has(liquidator_account_id),
        *final(self) == (Contract { pools: final(self).pools, accounts: final(self).accounts, ..*old(self) }),
        ({ let p = shadow_pool(shadow_id) as int; let o = old(self).pools@[p]; let n = final(self).pools@[p]; let l = liquidate_share_amount.0 as int;
           let r0 = old(self).rec(p, liquidation_account_id); let r1 = final(self).rec(p, liquidation_account_id);
           &&& final(self).pools@ == old(self).pools@.update(p, n)
           &&& /*P19*/ forall|i: int| 0 <= i < o.toks().len() ==> !old(self).frozen(#[trigger] o.toks()[i])
           // exactly the liquidated shares leave the lending pledge and the account; the farming pledge gives way only as far as it must
           &&& r1.shadow_in_burrow == r0.shadow_in_burrow - l && l <= r0.shadow_in_burrow
           &&& r1.shadow_in_farm <= r0.shadow_in_farm && (r1.shadow_in_farm == r0.shadow_in_farm || r1.shadow_in_farm == final(self).shares(p, liquidation_account_id))
           &&& final(self).shares(p, liquidation_account_id) == old(self).shares(p, liquidation_account_id) - l
           &&& forall|id: AccountId| id != liquidation_account_id ==> #[trigger] final(self).shares(p, id) == old(self).shares(p, id)
           &&& n.supply() == o.supply() - l
           // the liquidator receives what the pool gives up
           &&& /*P12,P10*/ exists|a: Seq<u128>| a.len() == o.toks().len() && #[trigger] gave(o, n, a) && (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] >= min_token_amounts@[i].0) && forall|t: AccountId| #[trigger] final(self).abal(liquidator_account_id, t) == old(self).abal(liquidator_account_id, t) + got(o.toks(), a, o.toks().len() as int, t)
           &&& /*P12*/ forall|id: AccountId, t: AccountId| id != liquidator_account_id ==> #[trigger] final(self).abal(id, t) == old(self).abal(id, t) }),
@entry
    let ghost c0 = *old(self);
    let ghost p0 = shadow_pool(shadow_id) as int;
    let ghost mut acc0 = c0.av(liquidator_account_id);
    let ghost mut ga: Seq<u128> = Seq::empty();
    let ghost w = liquidation_account_id;
    let ghost lr = liquidator_account_id;
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == min_token_amounts@, __v0@.len() == __i0,
        forall|k: int| 0 <= k < __v0@.len() ==> #[trigger] __v0@[k] == min_token_amounts@[k].0,
@before_loop 1
    proof {
        acc0 = liquidator_account.av(); ga = amounts@;
        assert(forall|t: AccountId| #[trigger] acc0.bal(t) == c0.abal(lr, t));
    }
@loop 1
    invariant
        __i1 <= __n1, __n1 == tokens@.len(), tokens@ == c0.pools@[p0].toks(), amounts@.len() == tokens@.len(),
        liquidator_account.av().wf(), liquidator_account.av().shadow == acc0.shadow, liquidator_account.av().near == acc0.near,
        forall|t: AccountId| #[trigger] liquidator_account.av().bal(t) == acc0.bal(t) + got(tokens@, amounts@, __i1 as int, t),
@loop_entry 1
    let ghost acc1 = liquidator_account.av();
@loop_end 1
    proof {
        assert forall|t: AccountId| #[trigger] liquidator_account.av().bal(t) == acc0.bal(t) + got(tokens@, amounts@, __i1 as int, t) by { assert(acc1.bal(t) == acc0.bal(t) + got(tokens@, amounts@, __i1 as int - 1, t)); }
    }
@exit
    proof {
        let o = c0.pools@[p0]; let n = self.pools@[p0];
        assert(self.pools@ =~= c0.pools@.update(p0, n));
        assert(gave(o, n, ga)); assert(forall|i: int| 0 <= i < ga.len() ==> #[trigger] ga[i] >= min_token_amounts@[i].0);
        assert forall|t: AccountId| #[trigger] self.abal(lr, t) == c0.abal(lr, t) + got(o.toks(), ga, o.toks().len() as int, t) by { assert(acc0.bal(t) == c0.abal(lr, t)); }
        assert(free_of(c0.rec(p0, w), c0.shares(p0, w)) >= 0);
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(free_of(c0.rec(p, id), c0.shares(p, id)) >= 0);
            if id != w || p != p0 { assert(self.rec(p, id) == c0.rec(p, id)); }
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, id) == self.rec(p, id)); }
        assert forall|id: AccountId, t: AccountId| id != lr implies #[trigger] self.abal(id, t) == c0.abal(id, t) by { }
        assert forall|id: AccountId| id != w implies #[trigger] self.shares(p0, id) == c0.shares(p0, id) by { }
    }
@end
@verus
pub open spec fn fee_of(p: PSpec) -> int { match p { PSpec::Then { a, b } => match *b { PSpec::Call { to: _, method: _, args: PArgs::Shadow { action, user, pool, amount, fee }, deposit: _ } => fee, _ => -1 }, _ => -1 } }
/// the other side is asked about exactly this action, and only this exchange's own continuation follows, for the same action, user, pool and amount
pub open spec fn asks(p: PSpec, a: ShadowActions, to: AccountId, user: AccountId, pool: u64, amount: int, fee: int) -> bool {
    &&& p is Then
    &&& match *p->a {
        PSpec::Call { to: t, method: m, args: PArgs::TokUserAmt { token, user: u, amount: n }, deposit } => t == to && m == (if is_to(a) { m_cast() } else { m_uncast() }) && shadow_pool(token) == pool && u == user && n == amount,
        _ => false }
    &&& *p->b == (PSpec::Call { to: s_me(), method: m_cb_shadow(), args: PArgs::Shadow { action: shadow_no(a), user, pool: pool as int, amount, fee }, deposit: 0 })
}
@end
