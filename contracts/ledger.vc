@include xbase.vc
@import acct.vc AccountV1::into_current AccountV2::into_current VAccount::into_current Account::new Account::get_balance Account::deposit Account::withdraw Account::deposit_with_storage_check Account::storage_usage Account::storage_available Account::assert_storage_usage Account::min_storage_usage Account::register Account::unregister ShadowRecord::free_shares Account::get_shadow_record Account::update_shadow_record
@file ref-exchange/src/storage_impl.rs
@file ref-exchange/src/donation.rs
@verus shared
pub struct StorageBalance { pub total: U128, pub available: U128 }
pub struct StorageBalanceBounds { pub min: U128, pub max: Option<U128> }
@end
@fn Contract::assert_contract_running(self) props=P19
    ensures self.running(),
@fn Contract::assert_no_frozen_tokens(self, tokens) props=P19
    ensures forall|i: int| 0 <= i < tokens@.len() ==> !self.frozen(#[trigger] tokens@[i]),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == tokens@,
        __v0@.len() == 0 ==> forall|i: int| 0 <= i < __i0 ==> !self.frozen(#[trigger] tokens@[i]),
@fn Contract::assert_owner(self) props=P18
    ensures s_pred() == self.owner_id,
@fn Contract::is_owner_or_guardians(self) -> r props=P18
    ensures r == (s_pred() == self.owner_id || self.guardians@.contains(s_pred())),
@fn Contract::internal_get_account(self, account_id) -> r props=P12
    ensures r is Some <==> self.has(*account_id), r is Some ==> r->0.av() == self.av(*account_id),
@fn Contract::internal_unwrap_account(self, account_id) -> r props=P12
    ensures self.has(*account_id), r.av() == self.av(*account_id),
@fn Contract::internal_unwrap_or_default_account(self, account_id) -> r props=P12
    ensures self.has(*account_id) ==> r.av() == self.av(*account_id),
        !self.has(*account_id) ==> r.av() == (AV { near: 0, leg: Map::empty(), tok: Map::empty(), shadow: Map::empty() }),
@fn Contract::internal_get_deposit(self, sender_id, token_id) -> r props=P12
    ensures r == self.abal(*sender_id, *token_id),
@fn Contract::internal_save_account(self, account_id, account) props=P12,P15
    ensures account.av().covered(), final(self).acct_set(old(self), *account_id, account.av()),
@fn Contract::internal_check_storage(self, prev_storage) -> r props=P15
    requires forall|a: int| 0 <= a <= s_deposit() ==> may_send(s_pred(), a),
    ensures r <= s_deposit(),
@fn Contract::internal_lostfound(self, token_id, amount) props=P12,P13
    requires old(self).awf(),
    ensures final(self).awf(), final(self).same_but_accounts(old(self)),
        final(self).abal(old(self).owner_id, *token_id) == old(self).abal(old(self).owner_id, *token_id) + amount,
        forall|id: AccountId, t: AccountId| id != old(self).owner_id || t != *token_id ==> #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
@fn Contract::internal_register_account(self, account_id, amount) props=P12,P15
    requires old(self).awf(),
    ensures final(self).awf(), final(self).same_but_accounts(old(self)), final(self).av(*account_id).covered(),
        final(self).has(*account_id), final(self).av(*account_id).near == (if old(self).has(*account_id) { old(self).av(*account_id).near } else { 0 }) + amount,
        final(self).acct_set(old(self), *account_id, final(self).av(*account_id)),
        forall|id: AccountId, t: AccountId| #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
@exit
    proof {
        let n = self.av(*account_id);
        if old(self).has(*account_id) { assert(n.tok == old(self).av(*account_id).tok && n.leg == old(self).av(*account_id).leg); }
        assert(n.wf());
    }
@fn Contract::internal_storage_withdraw(self, account_id, amount) -> r props=P12,P15
    requires old(self).awf(),
    ensures final(self).awf(), old(self).has(*account_id),
        0 < r <= old(self).av(*account_id).near - old(self).av(*account_id).cost(),
        amount != 0 ==> r == amount, amount == 0 ==> r == old(self).av(*account_id).near - old(self).av(*account_id).cost(),
        final(self).acct_set(old(self), *account_id, AV { near: old(self).av(*account_id).near - r, ..old(self).av(*account_id) }),
        final(self).av(*account_id).covered(),
@fn Contract::internal_deposit(self, sender_id, token_id, amount) props=P12,P15
    requires old(self).awf(),
    ensures final(self).awf(), final(self).same_but_accounts(old(self)), old(self).has(*sender_id), final(self).av(*sender_id).covered(),
        final(self).acct_set(old(self), *sender_id, final(self).av(*sender_id)), final(self).av(*sender_id).moved(old(self).av(*sender_id), *token_id, amount as int),
@fn Contract::is_whitelisted_token(self, token_id) -> r props=P12 trusted
    ensures self.whitelisted_tokens@.contains(*token_id) ==> r,
@fn read_lostfound() -> r trusted
@fn Contract::insert_lostfound_token(self, account_id, token_id, amount) -> r props=P12,P13
    ensures final(self).lfbal(*account_id, *token_id) == old(self).lfbal(*account_id, *token_id) + amount,
        forall|id: AccountId, t: AccountId| id != *account_id || t != *token_id ==> #[trigger] final(self).lfbal(id, t) == old(self).lfbal(id, t),
        *final(self) == (Contract { lf: final(self).lf, ..*old(self) }),
@subst let mut lostfound = read_lostfound ()=>let lostfound = self . lf_mut ()
@fn Contract::remove_lostfound_token(self, account_id, token_id) -> r props=P12,P13
    ensures r == old(self).lfbal(*account_id, *token_id), final(self).lfbal(*account_id, *token_id) == 0,
        forall|id: AccountId, t: AccountId| id != *account_id || t != *token_id ==> #[trigger] final(self).lfbal(id, t) == old(self).lfbal(id, t),
        *final(self) == (Contract { lf: final(self).lf, ..*old(self) }),
@subst let mut lostfound = read_lostfound ()=>let lostfound = self . lf_mut ()
@fn Contract::internal_handle_fail_in_withdraw_callback(self, sender_id, token_id, amount) props=P12,P13,P15
    requires old(self).awf(),
    ensures final(self).awf(), restored(old(self), final(self), *sender_id, *token_id, amount as int),
        *final(self) == (Contract { lf: final(self).lf, accounts: final(self).accounts, ..*old(self) }),
@fn Contract::exchange_callback_post_withdraw(self, token_id, sender_id, amount) -> r props=P13,P12
    requires old(self).awf(),
    ensures /*P18*/ s_pred() == s_me(), s_results() == 1,
        s_result(0) is Successful ==> *final(self) == *old(self) && r.0 == amount.0,
        s_result(0) is Failed ==> restored(old(self), final(self), sender_id, token_id, amount.0 as int) && r.0 == 0,
        final(self).awf(),
@fn Contract::exchange_callback_post_withdraw_near(self, sender_id, amount) -> r props=P13,P12
    requires old(self).awf(), s_result(0) is Successful ==> may_send(sender_id, amount.0 as int),
    ensures /*P18*/ s_pred() == s_me(), s_results() == 1,
        s_result(0) is Successful ==> *final(self) == *old(self) && r.0 == amount.0,
        s_result(0) is Failed ==> old(self).wnear_id is Some && restored(old(self), final(self), sender_id, old(self).wnear_id->0, amount.0 as int) && r.0 == 0,
        final(self).awf(),
@fn Contract::internal_send_tokens(self, sender_id, token_id, amount, skip_unwrap_near) -> r props=P12,P13 selfmut
    ensures *final(self) == (Contract { sent: final(self).sent, ..*old(self) }), final(self).sent@ == old(self).sent@.push(r@),
        // only unwrapped on request, and only the wrapped NEAR token
        (old(self).wnear_id == Some(*token_id) && skip_unwrap_near == Some(false)) ==> unwraps(r@, *token_id, *sender_id, amount as int),
        !(old(self).wnear_id == Some(*token_id) && skip_unwrap_near == Some(false)) ==> sends(r@, *token_id, *sender_id, amount as int),
@exit
    self.sent.note(Ghost(r@));
@fn Contract::internal_send_token_with_msg(self, sender_id, token_id, amount, msg, extra_gas) -> r props=P12,P13 selfmut
    ensures *final(self) == (Contract { sent: final(self).sent, ..*old(self) }), final(self).sent@ == old(self).sent@.push(r@),
        sends_call(r@, *token_id, *sender_id, amount as int),
@exit
    self.sent.note(Ghost(r@));
@fn Contract::withdraw(self, token_id, amount, unregister, skip_unwrap_near) -> r props=P12,P13,P15,P19
    requires old(self).awf(),
    ensures final(self).awf(), final(self).sent@ == old(self).sent@.push(r@), s_deposit() == 1, /*P19*/ old(self).running(), /*P19*/ !old(self).frozen(token_id.0),
        taken(old(self), final(self), s_pred(), token_id.0, sent_amount(r@)),
        amount.0 != 0 ==> sent_amount(r@) == amount.0, amount.0 == 0 ==> sent_amount(r@) == old(self).abal(s_pred(), token_id.0),
        sent_amount(r@) > 0,
        sends(r@, token_id.0, s_pred(), sent_amount(r@)) || unwraps(r@, token_id.0, s_pred(), sent_amount(r@)),
        /*P15*/ final(self).av(s_pred()).covered(),
@fn Contract::withdraw_owner_token(self, token_id, amount, skip_unwrap_near) -> r props=P12,P13,P18,P19
    requires old(self).awf(),
    ensures final(self).awf(), final(self).sent@ == old(self).sent@.push(r@), s_deposit() == 1, /*P19*/ old(self).running(), /*P18*/ s_pred() == old(self).owner_id || old(self).guardians@.contains(s_pred()),
        taken(old(self), final(self), old(self).owner_id, token_id.0, amount.0 as int), amount.0 > 0,
        sends(r@, token_id.0, old(self).owner_id, amount.0 as int) || unwraps(r@, token_id.0, old(self).owner_id, amount.0 as int),
@fn Contract::claim_lostfound(self, token_id) -> r props=P12,P13,P19
    ensures s_deposit() == 1, /*P19*/ old(self).running(), /*P19*/ !old(self).frozen(token_id.0),
        old(self).lfbal(s_pred(), token_id.0) > 0, final(self).lfbal(s_pred(), token_id.0) == 0,
        forall|id: AccountId, t: AccountId| id != s_pred() || t != token_id.0 ==> #[trigger] final(self).lfbal(id, t) == old(self).lfbal(id, t),
        *final(self) == (Contract { lf: final(self).lf, sent: final(self).sent, ..*old(self) }), final(self).sent@ == old(self).sent@.push(r@),
        sends(r@, token_id.0, s_pred(), old(self).lfbal(s_pred(), token_id.0)),
@fn Contract::storage_balance_bounds(self) -> r props=P15
    ensures r.min.0 == 102 * s_byte_cost(), r.max is None,
@fn Contract::storage_balance_of(self, account_id) -> r props=P15,P23
    ensures r is Some <==> self.has(account_id.0),
        r is Some ==> (r->0).total.0 == self.av(account_id.0).near && (r->0).available.0 == (if self.av(account_id.0).near >= self.av(account_id.0).cost() { self.av(account_id.0).near - self.av(account_id.0).cost() } else { 0 }),
@fn Contract::storage_deposit(self, account_id, registration_only) -> r props=P15,P19,P12
    requires old(self).awf(),
        // what it may send back: the whole deposit of an account that exists already, or what a registration leaves over
        ({ let who = if account_id is Some { (account_id->0).0 } else { s_pred() };
           registration_only == Some(true) ==> may_send(s_pred(), if old(self).has(who) { s_deposit() } else { s_deposit() - 102 * s_byte_cost() }) }),
    ensures final(self).awf(), /*P19*/ old(self).running(), final(self).same_but_accounts(old(self)),
        ({ let who = if account_id is Some { (account_id->0).0 } else { s_pred() }; let only = registration_only == Some(true);
           &&& final(self).has(who) && final(self).acct_set(old(self), who, final(self).av(who)) || *final(self) == *old(self) && old(self).has(who)
           &&& !old(self).has(who) ==> s_deposit() >= 102 * s_byte_cost() && final(self).av(who).covered()
           &&& final(self).av(who).near == (if old(self).has(who) { old(self).av(who).near } else { 0 }) + (if !only { s_deposit() } else if old(self).has(who) { 0 } else { 102 * s_byte_cost() })
           &&& r.total.0 == final(self).av(who).near }),
        forall|id: AccountId, t: AccountId| #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
@fn Contract::storage_withdraw(self, amount) -> r props=P15,P19,P12
    requires old(self).awf(),
        // exactly what leaves the account's deposit, at most the unused part
        forall|a: int| a == storage_out(old(self), amount) ==> #[trigger] may_send(s_pred(), a),
    ensures final(self).awf(), s_deposit() == 1, /*P19*/ old(self).running(), old(self).has(s_pred()),
        ({ let a = storage_out(old(self), amount); let o = old(self).av(s_pred());
           &&& 0 < a <= o.near - o.cost()
           &&& final(self).acct_set(old(self), s_pred(), AV { near: o.near - a, ..o })
           &&& final(self).av(s_pred()).covered() }),
        forall|id: AccountId, t: AccountId| #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
@fn Contract::storage_unregister(self, force) -> r props=P15,P19,P12,P17
    requires old(self).awf(), old(self).has(s_pred()) ==> may_send(s_pred(), old(self).av(s_pred()).near),
    ensures final(self).awf(), s_deposit() == 1, /*P19*/ old(self).running(), r == old(self).has(s_pred()),
        // closed only when it holds no token and pledges nothing
        r ==> old(self).av(s_pred()).tok.dom().len() == 0 && old(self).av(s_pred()).leg.dom().len() == 0 && old(self).av(s_pred()).shadow.dom().len() == 0,
        final(self).same_but_accounts(old(self)), final(self).accounts@ == old(self).accounts@.remove(s_pred()),
@fn Contract::register_tokens(self, token_ids) props=P12,P15,P19
    requires old(self).awf(),
    ensures final(self).awf(), s_deposit() == 1, /*P19*/ old(self).running(), old(self).has(s_pred()),
        final(self).acct_set(old(self), s_pred(), final(self).av(s_pred())),
        forall|id: AccountId, t: AccountId| #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
        /*P15*/ final(self).av(s_pred()).covered(), final(self).av(s_pred()).near == old(self).av(s_pred()).near,
@fn Contract::unregister_tokens(self, token_ids) props=P12,P15,P19
    requires old(self).awf(),
    ensures final(self).awf(), s_deposit() == 1, /*P19*/ old(self).running(), old(self).has(s_pred()),
        final(self).acct_set(old(self), s_pred(), final(self).av(s_pred())),
        forall|id: AccountId, t: AccountId| #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
        final(self).av(s_pred()).near == old(self).av(s_pred()).near,
@loop 0
    invariant
        __i0 <= __s0@.len(), account.av().wf(), account.av().same_rest(old(self).av(sender_id)),
        forall|t: AccountId| #[trigger] account.av().bal(t) == old(self).av(sender_id).bal(t),
@fn Contract::donation_token(self, token_id, amount, unregister) props=P12,P15,P19
    requires old(self).awf(),
    ensures final(self).awf(), s_deposit() == 1, /*P19*/ old(self).running(), final(self).same_but_accounts(old(self)),
        old(self).has(old(self).owner_id),
        // exactly the donated amount goes from the caller to the owner
        ({ let a = if amount is Some { (amount->0).0 as int } else { old(self).abal(s_pred(), token_id.0) };
           &&& 0 < a <= old(self).abal(s_pred(), token_id.0)
           &&& s_pred() != old(self).owner_id ==> final(self).abal(s_pred(), token_id.0) == old(self).abal(s_pred(), token_id.0) - a
                && final(self).abal(old(self).owner_id, token_id.0) == old(self).abal(old(self).owner_id, token_id.0) + a
           &&& s_pred() == old(self).owner_id ==> final(self).abal(s_pred(), token_id.0) == old(self).abal(s_pred(), token_id.0) }),
        forall|id: AccountId, t: AccountId| (id != s_pred() && id != old(self).owner_id) || t != token_id.0 ==> #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
@end
@verus shared
/// what a storage withdrawal sends
pub open spec fn storage_out(c: &Contract, amount: Option<U128>) -> int {
    let o = c.av(s_pred());
    if amount is Some && (amount->0).0 != 0 { (amount->0).0 as int } else { o.near - o.cost() }
}
/// the amount is recorded again: for the user, in its lost-and-found, or for the owner
pub open spec fn restored(o: &Contract, n: &Contract, user: AccountId, token: AccountId, amount: int) -> bool {
    ||| n.lf == o.lf && moved1(o, n, user, token, amount) && o.has(user)
    ||| n.accounts == o.accounts && n.lfbal(user, token) == o.lfbal(user, token) + amount
        && forall|id: AccountId, t: AccountId| id != user || t != token ==> #[trigger] n.lfbal(id, t) == o.lfbal(id, t)
    ||| n.lf == o.lf && moved1(o, n, o.owner_id, token, amount)
}
/// one account's balance of one token moved by d
pub open spec fn moved1(o: &Contract, n: &Contract, id: AccountId, t: AccountId, d: int) -> bool {
    &&& n.abal(id, t) == o.abal(id, t) + d
    &&& forall|i: AccountId, u: AccountId| i != id || u != t ==> #[trigger] n.abal(i, u) == o.abal(i, u)
}
pub open spec fn taken(o: &Contract, n: &Contract, id: AccountId, t: AccountId, a: int) -> bool {
    &&& o.has(id) && o.abal(id, t) >= a && n.same_but_accounts_sent(o)
    &&& moved1(o, n, id, t, -a)
    &&& n.acct_put(o, id, n.av(id)) && n.av(id).same_rest(o.av(id))
}
pub open spec fn sent_amount(p: PSpec) -> int {
    match p { PSpec::Then { a, b } => match *a { PSpec::Call { to, method, args, deposit } => match args { PArgs::Ft { receiver, amount } => amount, _ => 0 }, _ => 0 }, _ => 0 }
}
@end
