@include xbase.vc
@import acct.vc Account::new Account::get_balance Account::deposit Account::withdraw ShadowRecord::free_shares ShadowRecord::available_farming_shares ShadowRecord::available_burrowland_shares Account::get_shadow_record Account::update_shadow_record
@import ledger.vc Contract::assert_contract_running Contract::assert_no_frozen_tokens Contract::assert_owner Contract::is_owner_or_guardians Contract::internal_get_account Contract::internal_unwrap_account Contract::internal_unwrap_or_default_account Contract::internal_get_deposit Contract::internal_save_account Contract::internal_check_storage
@import pool_api.vc Pool::tokens Pool::share_balances Pool::share_total_balance Pool::share_has_registered Pool::share_register Pool::share_unregister Pool::share_transfer Pool::remove_liquidity
@file ref-exchange/src/multi_fungible_token.rs
@file ref-exchange/src/shadow_actions.rs
@file ref-exchange/src/donation.rs
@const NO_DEPOSIT GAS_FOR_MFT_TRANSFER_CALL GAS_FOR_MFT_RESOLVE_TRANSFER
@type TokenOrPool
@verus
/// what a multi-token id names: ":n" a pool's shares, anything else a token
pub uninterp spec fn tok_kind(t: Str) -> TokenOrPool;
/// number the other contract reported as unused, if it reported one
pub uninterp spec fn json_u128(v: Seq<u8>) -> Option<u128>;
/// serde_json::from_slice at the type it is used with here
#[verifier::external_body] pub fn from_slice<T>(v: &Vec<u8>) -> (r: Result<U128, ()>) ensures r is Ok <==> json_u128(v@) is Some, r is Ok ==> r->Ok_0.0 == json_u128(v@)->0 { unimplemented!() }
impl Contract {
    pub open spec fn set_pool(&self, o: &Contract, p: int, n: Pool) -> bool { 0 <= p < o.npools() && self.pools@ == o.pools@.update(p, n) }
    /// balance of `id` in the multi-token
    pub open spec fn mbal(&self, k: TokenOrPool, id: AccountId) -> int {
        match k { TokenOrPool::Token(t) => self.abal(id, t), TokenOrPool::Pool(p) => self.shares(p as int, id) }
    }
    pub open spec fn mfree(&self, k: TokenOrPool, id: AccountId) -> int {
        match k { TokenOrPool::Token(t) => self.abal(id, t), TokenOrPool::Pool(p) => free_of(self.rec(p as int, id), self.shares(p as int, id)) }
    }
    /// exactly `a` of the multi-token went from one account to another
    pub open spec fn mmoved(&self, n: &Contract, k: TokenOrPool, from: AccountId, to: AccountId, a: int) -> bool {
        &&& from != to && a <= self.mfree(k, from)
        &&& n.mbal(k, from) == self.mbal(k, from) - a
        &&& n.mbal(k, to) == self.mbal(k, to) + a
        &&& forall|id: AccountId| id != from && id != to ==> #[trigger] n.mbal(k, id) == self.mbal(k, id)
        &&& match k {
            TokenOrPool::Token(t) => n.same_but_accounts(self) && self.has(from) && self.has(to)
                && forall|id: AccountId, u: AccountId| u != t ==> #[trigger] n.abal(id, u) == self.abal(id, u),
            TokenOrPool::Pool(p) => p < self.npools() && *n == (Contract { pools: n.pools, ..*self }) && n.set_pool(self, p as int, n.pools@[p as int])
                && same_pool(n.pools@[p as int], self.pools@[p as int]),
        }
    }
}
@end
@fn parse_token_id(token_id) -> r trusted
    ensures r == tok_kind(token_id),
@fn Contract::internal_mft_balance(self, token_id, account_id) -> r props=P16
    ensures tok_kind(token_id) is Pool ==> tok_kind(token_id)->Pool_0 < self.npools(), r == self.mbal(tok_kind(token_id), *account_id),
@fn Contract::internal_mft_transfer(self, token_id, sender_id, receiver_id, amount, memo) -> r props=P16,P17,P12
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(),
        old(self).mmoved(final(self), tok_kind(token_id), *sender_id, *receiver_id, r as int),
        amount is Some ==> r == amount->0,
        amount is None ==> tok_kind(token_id) is Pool && r == old(self).mfree(tok_kind(token_id), *sender_id),
        tok_kind(token_id) is Pool ==> r > 0,
@exit
    proof {
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(self.rec(p, id) == old(self).rec(p, id)); assert(free_of(old(self).rec(p, id), old(self).shares(p, id)) >= 0);
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, id) == self.rec(p, id)); }
    }
@fn Contract::mft_balance_of(self, token_id, account_id) -> r props=P16,P23
    ensures r.0 == self.mbal(tok_kind(token_id), account_id.0),
@fn Contract::mft_total_supply(self, token_id) -> r props=P16,P23
    ensures tok_kind(token_id) is Pool, r.0 == self.pools@[tok_kind(token_id)->Pool_0 as int].supply(),
@fn Contract::mft_transfer(self, token_id, receiver_id, amount, memo) props=P16,P17,P19
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), s_deposit() == 1, /*P19*/ old(self).running(),
        old(self).mmoved(final(self), tok_kind(token_id), s_pred(), receiver_id.0, amount.0 as int),
@fn Contract::mft_transfer_call(self, token_id, receiver_id, amount, memo, msg) -> r props=P16,P17,P19
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), s_deposit() == 1, /*P19*/ old(self).running(),
        old(self).mmoved(final(self), tok_kind(token_id), s_pred(), receiver_id.0, amount.0 as int),
        r is Promise, notifies(r->Promise_0@, token_id, s_pred(), receiver_id.0, amount.0 as int),
@fn Contract::mft_transfer_all_call(self, token_id, receiver_id, memo, msg) -> r props=P16,P17,P19
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), s_deposit() == 1, /*P19*/ old(self).running(),
        ({ let a = old(self).mfree(tok_kind(token_id), s_pred());
           &&& old(self).mmoved(final(self), tok_kind(token_id), s_pred(), receiver_id.0, a)
           &&& r is Promise && notifies(r->Promise_0@, token_id, s_pred(), receiver_id.0, a) }),
@fn Contract::mft_resolve_transfer(self, token_id, sender_id, receiver_id, amount) -> r props=P16,P17
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures /*P18*/ s_pred() == s_me(), final(self).cwf(), /*P17*/ final(self).shadow_ok(), r.0 == unused_of(s_result(0), amount.0),
        ({ let k = tok_kind(token_id); let b = old(self).mbal(k, *receiver_id); let u = unused_of(s_result(0), amount.0) as int;
           &&& u == 0 || b == 0 ==> *final(self) == *old(self)
           &&& u > 0 && b > 0 ==> old(self).mmoved(final(self), k, *receiver_id, if old(self).has(sender_id) { sender_id } else { s_me() }, if b < u { b } else { u }) }),
@fn Contract::mft_register(self, token_id, account_id) props=P16,P19,P15
    requires old(self).cwf(), old(self).shadow_ok(), forall|a: int| 0 <= a <= s_deposit() ==> may_send(s_pred(), a),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), /*P19*/ old(self).running(), tok_kind(token_id) is Pool,
        *final(self) == (Contract { pools: final(self).pools, ..*old(self) }),
        forall|p: int, id: AccountId| 0 <= p < old(self).npools() ==> #[trigger] final(self).shares(p, id) == old(self).shares(p, id),
@exit
    proof {
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(self.rec(p, id) == old(self).rec(p, id)); assert(free_of(old(self).rec(p, id), old(self).shares(p, id)) >= 0);
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, id) == self.rec(p, id)); }
    }
@fn Contract::mft_unregister(self, token_id) props=P16,P19
    requires old(self).cwf(), old(self).shadow_ok(), forall|a: int| 0 <= a ==> may_send(s_pred(), a),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), /*P19*/ old(self).running(), tok_kind(token_id) is Pool,
        *final(self) == (Contract { pools: final(self).pools, ..*old(self) }),
        forall|p: int, id: AccountId| 0 <= p < old(self).npools() ==> #[trigger] final(self).shares(p, id) == old(self).shares(p, id),
@exit
    proof {
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(self.rec(p, id) == old(self).rec(p, id)); assert(free_of(old(self).rec(p, id), old(self).shares(p, id)) >= 0);
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, id) == self.rec(p, id)); }
    }
@fn Contract::donation_share(self, pool_id, amount, unregister) props=P17,P19,P06
    requires old(self).cwf(), old(self).shadow_ok(), forall|a: int| 0 <= a ==> may_send(s_pred(), a),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), s_deposit() == 1, /*P19*/ old(self).running(), pool_id < old(self).npools(),
        ({ let p = pool_id as int; let f = free_of(old(self).rec(p, s_pred()), old(self).shares(p, s_pred()));
           let a = if amount is Some { (amount->0).0 as int } else { f };
           &&& 0 < a <= f
           &&& s_pred() != s_me() ==> final(self).shares(p, s_pred()) == old(self).shares(p, s_pred()) - a && final(self).shares(p, s_me()) == old(self).shares(p, s_me()) + a
           &&& forall|id: AccountId| id != s_pred() && id != s_me() ==> #[trigger] final(self).shares(p, id) == old(self).shares(p, id) }),
        forall|id: AccountId, t: AccountId| #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
@exit
    proof {
        assert forall|id: AccountId| #[trigger] self.accounts@.dom().contains(id) implies self.accounts@[id].av().wf() by {
            assert(old(self).accounts@.dom().contains(id)); assert(self.av(id).tok == old(self).av(id).tok && self.av(id).leg == old(self).av(id).leg); assert(old(self).av(id).wf());
        }
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(self.rec(p, id) == old(self).rec(p, id)); assert(free_of(old(self).rec(p, id), old(self).shares(p, id)) >= 0);
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, id) == self.rec(p, id)); }
    }
@end
@verus
pub open spec fn unused_of(r: PromiseResult, amount: u128) -> u128 {
    match r { PromiseResult::Successful(v) => match json_u128(v@) { Some(u) => if u < amount { u } else { amount }, None => amount }, _ => amount }
}
/// the receiver is told, and only this contract's own resolution follows, for the same token, parties and amount
pub open spec fn notifies(p: PSpec, token: Str, from: AccountId, to: AccountId, a: int) -> bool {
    &&& p is Then
    &&& p->a == Box::new(PSpec::Call { to: to, method: m_mft_on_transfer(), args: PArgs::Mft { token, sender: from, receiver: to, amount: a }, deposit: 0 })
    &&& p->b == Box::new(PSpec::Call { to: s_me(), method: m_mft_resolve(), args: PArgs::Mft { token, sender: from, receiver: to, amount: a }, deposit: 0 })
}
@end
