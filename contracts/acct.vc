@include xbase.vc
@verus
impl VIsEmpty for ShadowRecord { open spec fn ves(&self) -> bool { self.shadow_in_farm == 0 && self.shadow_in_burrow == 0 } fn vis_empty(&self) -> (r: bool) { self.is_empty() } }
@end
@fn AccountV1::into_current(self, account_id) -> r props=P12
    ensures r.av() == VAccount::V1(*self).av(),
@fn AccountV2::into_current(self, account_id) -> r props=P12
    ensures r.av() == VAccount::V2(self).av(),
@fn VAccount::into_current(self, account_id) -> r props=P12
    ensures r.av() == self.av(),
@fn Account::new(account_id) -> r props=P12,P17
    ensures r.av() == (AV { near: 0, leg: Map::empty(), tok: Map::empty(), shadow: Map::empty() }),
@fn Account::get_balance(self, token_id) -> r props=P12
    ensures r is Some <==> self.av().reg(*token_id), r is Some ==> r->0 == self.av().bal(*token_id),
@fn Account::deposit(self, token, amount) props=P12,P14
    requires old(self).av().wf(),
    ensures final(self).av().wf(), amount == 0 ==> *final(self) == *old(self),
        final(self).av().moved(old(self).av(), *token, amount as int),
        final(self).av().reg(*token) || amount == 0,
        // a new token takes a new record
        old(self).av().noleg() ==> final(self).av().noleg(),
        amount > 0 && !old(self).av().reg(*token) ==> final(self)./*P15*/av().leg == old(self).av().leg && final(self).av().tok.dom() == old(self).av().tok.dom().insert(*token),
@exit
    proof {
        let n = self.av(); let o = old(self).av();
        assert(n.leg == o.leg || n.leg == o.leg.remove(*token));
        assert(n.tok == o.tok || n.tok.dom() == o.tok.dom().insert(*token));
        assert forall|t: AccountId| #![trigger n.tok.dom().contains(t)] #![trigger n.leg.dom().contains(t)] !(n.tok.dom().contains(t) && n.leg.dom().contains(t)) by {
            assert(!(o.tok.dom().contains(t) && o.leg.dom().contains(t)));
        }
    }
@fn Account::withdraw(self, token, amount) props=P12,P14
    requires old(self).av().wf(),
    ensures final(self).av().wf(), old(self).av().noleg() ==> final(self).av().noleg(), amount == 0 ==> *final(self) == *old(self),
        amount > 0 ==> old(self).av().reg(*token) && old(self).av().bal(*token) >= amount,
        final(self).av().moved(old(self).av(), *token, -(amount as int)),
        final(self).av().reg(*token) == old(self).av().reg(*token),
@exit
    proof {
        let n = self.av(); let o = old(self).av();
        assert(n.leg == o.leg || n.leg == o.leg.remove(*token));
        assert(n.tok == o.tok || n.tok.dom() == o.tok.dom().insert(*token));
        assert forall|t: AccountId| #![trigger n.tok.dom().contains(t)] #![trigger n.leg.dom().contains(t)] !(n.tok.dom().contains(t) && n.leg.dom().contains(t)) by {
            assert(!(o.tok.dom().contains(t) && o.leg.dom().contains(t)));
        }
    }
@fn Account::deposit_with_storage_check(self, token, amount) -> r props=P12,P13,P15
    requires old(self).av().wf(),
    ensures final(self).av().wf(),
        r ==> final(self).av().moved(old(self).av(), *token, amount as int),
        !r ==> final(self).av() == old(self).av(),
        // refused only for a token without a record, for want of room
        old(self).av().reg(*token) ==> r,
        r ==> final(self).av().reg(*token),
        r && !old(self).av().reg(*token) ==> /*P15*/ final(self).av().covered(),
        !r ==> (old(self).av().cost() + 148 * s_byte_cost() > old(self).av().near),
        old(self).av().covered() ==> /*P15*/ final(self).av().covered(),
@exit
    proof {
        let o = old(self).av(); let n = self.av();
        assert forall|t: AccountId| !(n.tok.dom().contains(t) && n.leg.dom().contains(t)) by {
            assert(!(o.tok.dom().contains(t) && o.leg.dom().contains(t)));
        }
        if !r {
            assert(self.tokens@ =~= old(self).tokens@);
            let a = old(self).av();
            assert((102 + 84 * a.leg.dom().len() + 148 * (a.tok.dom().len() + 1)) * s_byte_cost() == a.cost() + 148 * s_byte_cost()) by(nonlinear_arith);
        }
    }
@fn Account::storage_usage(self) -> r props=P15
    ensures r == self.av().cost(),
@entry
    proof {
        let l = self.legacy_tokens@.dom().len() as int; let t = self.tokens@.dom().len() as int;
        assert(l * 84 == 84 * l && t * 148 == 148 * t);
        assert(forall|s: int| s == 102 + 84 * l + 148 * t ==> #[trigger] (s * s_byte_cost()) == self.av().cost());
    }
@fn Account::storage_available(self) -> r props=P15
    ensures r == (if self.av().near > self.av().cost() { self.av().near - self.av().cost() } else { 0 }),
@fn Account::assert_storage_usage(self) props=P15
    ensures self.av().covered(),
@fn Account::min_storage_usage() -> r props=P15
    ensures r == 102 * s_byte_cost(),
@fn Account::register(self, token_ids) props=P12,P15
    requires old(self).av().wf(),
    ensures final(self).av().wf(), final(self).av().same_rest(old(self).av()), final(self).av().leg == old(self).av().leg,
        forall|t: AccountId| #[trigger] final(self).av().bal(t) == old(self).av().bal(t),
        forall|t: AccountId| old(self).av().reg(t) ==> #[trigger] final(self).av().reg(t),
        forall|i: int| 0 <= i < token_ids@.len() ==> final(self).av().reg((#[trigger] token_ids@[i]).0),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == token_ids@,
        self.av().wf(), self.av().same_rest(old(self).av()), self.av().leg == old(self).av().leg,
        forall|t: AccountId| #[trigger] self.av().bal(t) == old(self).av().bal(t),
        forall|t: AccountId| old(self).av().reg(t) ==> #[trigger] self.av().reg(t),
        forall|i: int| 0 <= i < __i0 ==> self.av().reg((#[trigger] token_ids@[i]).0),
@loop_entry 0
    let ghost pre = self.av();
@loop_end 0
    proof {
        let n = self.av();
        assert(n.tok == pre.tok || n.tok == pre.tok.insert(token_ids@[__i0 - 1].0, 0u128));
        assert forall|t: AccountId| pre.reg(t) implies #[trigger] n.reg(t) by { assert(pre.tok.dom().contains(t) || pre.leg.dom().contains(t)); }
        assert forall|t: AccountId| #[trigger] n.bal(t) == old(self).av().bal(t) by { assert(pre.bal(t) == old(self).av().bal(t)); assert(pre.reg(t) || !pre.reg(t)); }
    }
@fn Account::unregister(self, token_id) props=P12
    requires old(self).av().wf(),
    ensures final(self).av().wf(), final(self).av().same_rest(old(self).av()),
        old(self).av().bal(*token_id) == 0, !final(self).av().reg(*token_id),
        forall|t: AccountId| #[trigger] final(self).av().bal(t) == old(self).av().bal(t),
        forall|t: AccountId| t != *token_id ==> #[trigger] final(self).av().reg(t) == old(self).av().reg(t),
@exit
    proof {
        let o = old(self).av(); let n = self.av();
        assert(n.leg == o.leg.remove(*token_id) && n.tok == o.tok.remove(*token_id));
        assert forall|t: AccountId| !(n.tok.dom().contains(t) && n.leg.dom().contains(t)) by {
            if n.tok.dom().contains(t) { assert(o.tok.dom().contains(t)); }
        }
    }
@fn ShadowRecord::is_empty(self) -> r props=P17
    ensures r == (self.shadow_in_farm == 0 && self.shadow_in_burrow == 0),
@fn ShadowRecord::free_shares(self, total_shares) -> r props=P17
    ensures r == free_of(*self, total_shares as int),
@fn ShadowRecord::available_farming_shares(self, total_shares) -> r props=P17
    ensures r == total_shares - self.shadow_in_farm,
@fn ShadowRecord::available_burrowland_shares(self, total_shares) -> r props=P17
    ensures r == total_shares - self.shadow_in_burrow,
@fn Account::get_shadow_record(self, pool_id) -> r props=P17
    ensures r is Some <==> self.av().shadow.dom().contains(pool_id), r is Some ==> r->0 == self.av().rec(pool_id),
@fn Account::update_shadow_record(self, pool_id, action, amount) props=P17
    ensures
        rec_fits(old(self).av().rec(pool_id), *action, amount as int),
        final(self).av().rec(pool_id) == rec_after(old(self).av().rec(pool_id), *action, amount as int),
        forall|p: u64| p != pool_id ==> #[trigger] rec_in(final(self).av().shadow, p) == rec_in(old(self).av().shadow, p),
        final(self).av() == (AV { shadow: final(self).av().shadow, ..old(self).av() }),
@end
