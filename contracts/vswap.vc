@include xbase.vc
@import acct.vc *
@import ledger.vc *
@import twap.vc *
@import pool_api.vc *
@import swap.vc *
@import liq.vc AdminFees::new
@file ref-exchange/src/pool.rs
@file ref-exchange/src/action.rs
@file ref-exchange/src/token_receiver.rs
@file ref-exchange/src/client_echo_limit.rs
@type SwapAction
@type SwapByOutputAction
@type Action
@type ActionResult
@const DEFAULT_EXTRA_TGAS
@verus
#[verifier::external_body] pub fn v_virtual() -> (r: Str) { unimplemented!() }
pub open spec fn swaps_of(a: Seq<SwapAction>) -> Seq<Action> { Seq::new(a.len(), |i: int| Action::Swap(a[i])) }
pub open spec fn outswaps_of(a: Seq<SwapByOutputAction>) -> Seq<Action> { Seq::new(a.len(), |i: int| Action::SwapByOutput(a[i])) }
impl Contract {
    /// the caller's account went through the batch, nothing else of the accounts changed
    pub open spec fn ran_for(&self, o: &Contract, acts: Seq<Action>, r: Option<u128>) -> bool {
        &&& exists|c1: Contract| #[trigger] executed(acts, *o, o.av(s_pred()), None, c1, self.av(s_pred()), r) && c1.trade_frame(o) && self.acct_set(&c1, s_pred(), self.av(s_pred()))
        &&& *self == (Contract { pools: self.pools, unit_share_cumulative_infos: self.unit_share_cumulative_infos, vol: self.vol, accounts: self.accounts, ..*o })
        &&& no_gain(*o, o.av(s_pred()), *self, self.av(s_pred()))
        &&& forall|id: AccountId, t: AccountId| id != s_pred() ==> #[trigger] self.abal(id, t) == o.abal(id, t)
    }
    pub open spec fn all_thawed(&self, acts: Seq<Action>) -> bool { forall|i: int| 0 <= i < acts.len() ==> !self.frozen((#[trigger] acts[i]).tin()) && !self.frozen(acts[i].tout()) }
}
@end
@fn Contract::swap(self, actions, referral_id, skip_degen_price_sync) -> r props=P14,P12
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), /*P19*/ old(self).running(), /*P19*/ old(self).all_thawed(swaps_of(actions@)),
        old(self).has(s_pred()), final(self).has(s_pred()), final(self).av(s_pred()).covered(),
        final(self).ran_for(old(self), swaps_of(actions@), Some(r.0)),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == actions@, __v0@ =~= swaps_of(actions@).subrange(0, __i0 as int),
@after_loop 0
    proof { assert(__v0@ =~= swaps_of(actions@)); }
@fn Contract::swap_by_output(self, actions, referral_id, skip_degen_price_sync) -> r props=P14,P12
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), /*P19*/ old(self).running(), /*P19*/ old(self).all_thawed(outswaps_of(actions@)),
        old(self).has(s_pred()), final(self).has(s_pred()), final(self).av(s_pred()).covered(),
        final(self).ran_for(old(self), outswaps_of(actions@), Some(r.0)),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == actions@, __v0@ =~= outswaps_of(actions@).subrange(0, __i0 as int),
@after_loop 0
    proof { assert(__v0@ =~= outswaps_of(actions@)); }
@verus
/// r lists every token the account holds, once, with its balance
pub open spec fn lists(r: Seq<(AccountId, u128)>, a: AV) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 > 0 && r[i].1 == a.bal(r[i].0)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    &&& forall|t: AccountId| #[trigger] a.bal(t) > 0 ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == t
}
/// an account that holds a of t and nothing else
pub open spec fn only(v: AV, t: AccountId, a: int) -> bool { forall|u: AccountId| #[trigger] v.bal(u) == (if u == t { a } else { 0 }) }
pub open spec fn first_in(acts: Seq<Action>, a: u128) -> Option<u128> { if by_out(acts) { None } else { Some(a) } }
/// the batch ran on exactly a of t, and left exactly outs
pub open spec fn ran(acts: Seq<Action>, c0: Contract, t: AccountId, a: u128, c1: Contract, outs: Seq<(AccountId, u128)>) -> bool {
    exists|av0: AV, av1: AV, r1: Option<u128>| only(av0, t, a as int) && #[trigger] executed(acts, c0, av0, first_in(acts, a), c1, av1, r1) && lists(outs, av1)
}
pub open spec fn out(r: Seq<(AccountId, u128)>, n: int, t: AccountId) -> int decreases n { if n <= 0 { 0 } else { out(r, n - 1, t) + (if r[n - 1].0 == t { r[n - 1].1 as int } else { 0 }) } }
/// what is paid out and what the pools hold came out of a of t and what the pools held
pub open spec fn no_more(c0: Contract, c1: Contract, t: AccountId, a: int, outs: Seq<(AccountId, u128)>) -> bool {
    forall|u: AccountId| c1.pooled(u) + #[trigger] out(outs, outs.len() as int, u) * us() <= c0.pooled(u) + (if u == t { a * us() } else { 0 })
}
proof fn out_none(r: Seq<(AccountId, u128)>, n: int, t: AccountId)
    requires 0 <= n <= r.len(), forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).0 != t
    ensures out(r, n, t) == 0
    decreases n
{ if n > 0 { out_none(r, n - 1, t); let x = r[n - 1]; } }
proof fn out_one(r: Seq<(AccountId, u128)>, n: int, i: int)
    requires 0 <= i < n <= r.len(), forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0 != (#[trigger] r[j]).0
    ensures out(r, n, r[i].0) == r[i].1
    decreases n
{
    if n - 1 == i { assert forall|k: int| 0 <= k < n - 1 implies (#[trigger] r[k]).0 != r[i].0 by { let a = r[k]; let b = r[i]; } out_none(r, n - 1, r[i].0); }
    else { out_one(r, n - 1, i); let a = r[i]; let b = r[n - 1]; assert(r[i].0 != r[n - 1].0); }
}
pub proof fn out_lists(r: Seq<(AccountId, u128)>, a: AV, t: AccountId)
    requires lists(r, a), a.bal(t) >= 0
    ensures out(r, r.len() as int, t) == a.bal(t)
{
    if a.bal(t) > 0 { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == t; out_one(r, r.len() as int, i); }
    else { assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).0 != t by { let x = r[k]; } out_none(r, r.len() as int, t); }
}
pub proof fn p22_nothing_created(acts: Seq<Action>, c0: Contract, t: AccountId, a: u128, c1: Contract, outs: Seq<(AccountId, u128)>)
    requires ran(acts, c0, t, a, c1, outs), same_kind(acts)
    ensures no_more(c0, c1, t, a as int, outs)
{
    let (av0, av1, r1) = choose|av0: AV, av1: AV, r1: Option<u128>| only(av0, t, a as int) && #[trigger] executed(acts, c0, av0, first_in(acts, a), c1, av1, r1) && lists(outs, av1);
    p12_executed_no_gain(acts, c0, av0, first_in(acts, a), c1, av1, r1);
    assert forall|u: AccountId| c1.pooled(u) + #[trigger] out(outs, outs.len() as int, u) * us() <= c0.pooled(u) + (if u == t { a * us() } else { 0 }) by {
        assert(c1.pooled(u) + av1.bal(u) * us() <= c0.pooled(u) + av0.bal(u) * us());
        out_lists(outs, av1, u);
    }
}
@end
@fn Contract::internal_direct_actions(self, token_in, amount_in, referral_id, actions, skip_degen_price_sync) -> r props=P22,P14
    requires old(self).cwf(),
    ensures final(self).cwf(), actions@.len() > 0, same_kind(actions@), /*P19*/ old(self).all_thawed(actions@),
        ran(actions@, *old(self), token_in, amount_in, *final(self), r@),
        final(self).trade_frame(old(self)),
        no_more(*old(self), *final(self), token_in, amount_in as int, r@),
@subst (VIRTUAL_ACC) . vto_string ()=>v_virtual ()
@entry
    let ghost c0 = *old(self);
    let ghost mut av0 = AV { near: 0, leg: Map::empty(), tok: Map::empty(), shadow: Map::empty() };
    let ghost mut av1 = av0;
    let ghost mut r1: Option<u128> = None;
@before_loop 0
    proof { av1 = account.av(); }
@loop 0
    invariant
        __i0 <= __s0@.len(), is_order(account.tokens.kord(), account.tokens@.dom()),
        __s0@ == Seq::new(account.tokens.kord().len(), |i: int| (account.tokens.kord()[i], account.tokens@[account.tokens.kord()[i]])),
        account.av() == av1, av1.noleg(),
        forall|j: int| 0 <= j < result@.len() ==> (#[trigger] result@[j]).1 > 0 && result@[j].1 == av1.bal(result@[j].0) && exists|k: int| 0 <= k < __i0 && account.tokens.kord()[k] == result@[j].0,
        forall|i: int, j: int| 0 <= i < j < result@.len() ==> (#[trigger] result@[i]).0 != (#[trigger] result@[j]).0,
        forall|k: int| 0 <= k < __i0 && av1.bal(#[trigger] account.tokens.kord()[k]) > 0 ==> exists|j: int| 0 <= j < result@.len() && (#[trigger] result@[j]).0 == account.tokens.kord()[k],
@loop_entry 0
    let ghost pr = result@;
@loop_end 0
    proof {
        assert forall|k: int| 0 <= k < __i0 && av1.bal(#[trigger] account.tokens.kord()[k]) > 0 implies exists|j: int| 0 <= j < result@.len() && (#[trigger] result@[j]).0 == account.tokens.kord()[k] by {
            if k < __i0 - 1 { let j = choose|j: int| 0 <= j < pr.len() && (#[trigger] pr[j]).0 == account.tokens.kord()[k]; assert(result@[j] == pr[j]); }
            else { assert(result@[result@.len() - 1].0 == account.tokens.kord()[k]); }
        }
    }
@exit
    proof { p22_nothing_created(actions@, c0, token_in, amount_in, *self, r@); }
@end
@verus
pub open spec fn seen(s: Seq<AccountId>, n: int, t: AccountId) -> bool { exists|k: int| 0 <= k < n && #[trigger] s[k] == t }
proof fn seen_step(s: Seq<AccountId>, n: int, t: AccountId)
    requires 0 < n <= s.len()
    ensures seen(s, n, t) == (seen(s, n - 1, t) || s[n - 1] == t)
{ if seen(s, n, t) && s[n - 1] != t { let k = choose|k: int| 0 <= k < n && #[trigger] s[k] == t; assert(s[k] == t && k < n - 1); } if s[n - 1] == t { assert(seen(s, n, t)); } }
proof fn seen_all(s: Seq<AccountId>, d: Set<AccountId>, t: AccountId)
    requires is_order(s, d)
    ensures seen(s, s.len() as int, t) == d.contains(t)
{ if d.contains(t) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == t; } }
pub open spec fn uses(m: Map<AccountId, U128>, t: AccountId) -> int { if m.dom().contains(t) { m[t].0 as int } else { 0 } }
/// an account that holds exactly what is named
pub open spec fn holds(v: AV, m: Map<AccountId, U128>) -> bool { forall|t: AccountId| #[trigger] v.bal(t) == uses(m, t) }
/// m names every token the account holds, with its balance
pub open spec fn names(m: Map<AccountId, U128>, v: AV) -> bool { forall|t: AccountId| #![trigger m.dom().contains(t)] (m.dom().contains(t) <==> v.bal(t) > 0) && (m.dom().contains(t) ==> m[t].0 == v.bal(t)) }
impl Contract {
    /// a batch on the tokens set aside, whose results come back to the caller's account
    pub open spec fn ran_aside(&self, o: &Contract, acts: Seq<Action>, m: Map<AccountId, U128>, r: Map<AccountId, U128>) -> bool {
        &&& exists|c1: Contract, av0: AV, av1: AV, r1: Option<u128>| holds(av0, m) && #[trigger] executed(acts, *o, av0, None, c1, av1, r1) && c1.trade_frame(o) && names(r, av1) && self.acct_set(&c1, s_pred(), self.av(s_pred()))
        &&& forall|t: AccountId| #[trigger] o.abal(s_pred(), t) >= uses(m, t) && self.abal(s_pred(), t) == o.abal(s_pred(), t) - uses(m, t) + uses(r, t)
        &&& forall|id: AccountId, t: AccountId| id != s_pred() ==> #[trigger] self.abal(id, t) == o.abal(id, t)
        &&& *self == (Contract { pools: self.pools, unit_share_cumulative_infos: self.unit_share_cumulative_infos, vol: self.vol, accounts: self.accounts, ..*o })
    }
}
@end
@fn Contract::execute_actions_in_va(self, use_tokens, actions, referral_id, skip_degen_price_sync) -> r props=P14,P12,P22
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), /*P19*/ old(self).running(), /*P19*/ old(self).all_thawed(actions@), same_kind(actions@),
        old(self).has(s_pred()), final(self).has(s_pred()), final(self).av(s_pred()).covered(),
        final(self).ran_aside(old(self), actions@, use_tokens@, r@),
        no_gain(*old(self), old(self).av(s_pred()), *final(self), final(self).av(s_pred())),
@subst let mut result = HashMap :: new ()=>let mut result : HashMap < AccountId , U128 > = HashMap :: new ()
@subst (VIRTUAL_ACC) . vto_string ()=>v_virtual ()
@entry
    let ghost c0 = *old(self);
    let ghost a0 = c0.av(s_pred());
    let ghost mut a1 = a0;
    let ghost mut a2 = a0;
    let ghost mut c1 = c0;
    let ghost mut av0 = AV { near: 0, leg: Map::empty(), tok: Map::empty(), shadow: Map::empty() };
    let ghost mut av1 = av0;
    let ghost mut r1: Option<u128> = None;
@loop 2
    invariant
        account.av().wf(), virtual_account.av().wf(), virtual_account.av().noleg(), account.av().same_rest(a0), *__s2 == use_tokens, __i2 == 0 || (__i2 <= use_tokens.kord().len() && is_order(use_tokens.kord(), use_tokens@.dom())),
        forall|t: AccountId| #[trigger] virtual_account.av().bal(t) == (if seen(use_tokens.kord(), __i2 as int, t) { use_tokens@[t].0 as int } else { 0 }),
        forall|t: AccountId| #[trigger] account.av().bal(t) == a0.bal(t) - (if seen(use_tokens.kord(), __i2 as int, t) { use_tokens@[t].0 as int } else { 0 }),
@loop_entry 2
    let ghost pa = account.av();
    let ghost pv = virtual_account.av();
@loop_end 2
    proof {
        let s = use_tokens.kord(); let n = __i2 as int;
        assert(!seen(s, n - 1, s[n - 1]));
        assert forall|t: AccountId| #[trigger] virtual_account.av().bal(t) == (if seen(s, n, t) { use_tokens@[t].0 as int } else { 0 }) by { seen_step(s, n, t); assert(pv.bal(t) == (if seen(s, n - 1, t) { use_tokens@[t].0 as int } else { 0 })); }
        assert forall|t: AccountId| #[trigger] account.av().bal(t) == a0.bal(t) - (if seen(s, n, t) { use_tokens@[t].0 as int } else { 0 }) by { seen_step(s, n, t); assert(pa.bal(t) == a0.bal(t) - (if seen(s, n - 1, t) { use_tokens@[t].0 as int } else { 0 })); }
    }
@after_loop 2
    proof {
        a1 = account.av(); av0 = virtual_account.av();
        assert forall|t: AccountId| #![trigger av0.bal(t)] #![trigger a1.bal(t)] av0.bal(t) == uses(use_tokens@, t) && a1.bal(t) == a0.bal(t) - uses(use_tokens@, t) by { seen_all(use_tokens.kord(), use_tokens@.dom(), t); assert(virtual_account.av().bal(t) == av0.bal(t)); assert(account.av().bal(t) == a1.bal(t)); }
        assert(holds(av0, use_tokens@));
    }
@before_loop 3
    proof { av1 = virtual_account.av(); c1 = *self; r1 = choose|x: Option<u128>| executed(actions@, c0, av0, None, c1, av1, x); p12_executed_no_gain(actions@, c0, av0, None, c1, av1, r1); }
@loop 3
    invariant
        __i3 <= __s3@.len(), is_order(virtual_account.tokens.kord(), virtual_account.tokens@.dom()),
        __s3@ == Seq::new(virtual_account.tokens.kord().len(), |i: int| (virtual_account.tokens.kord()[i], virtual_account.tokens@[virtual_account.tokens.kord()[i]])),
        virtual_account.av() == av1, av1.noleg(), *self == c1,
        account.av().wf(), account.av().same_rest(a1), 
        forall|t: AccountId| #[trigger] account.av().bal(t) == a1.bal(t) + (if seen(virtual_account.tokens.kord(), __i3 as int, t) { av1.bal(t) } else { 0 }),
        forall|t: AccountId| #![trigger result@.dom().contains(t)] (result@.dom().contains(t) <==> seen(virtual_account.tokens.kord(), __i3 as int, t) && av1.bal(t) > 0) && (result@.dom().contains(t) ==> result@[t].0 == av1.bal(t)),
@loop_entry 3
    let ghost pa = account.av();
    let ghost pr = result@;
@loop_end 3
    proof {
        let s = virtual_account.tokens.kord(); let n = __i3 as int;
        assert(!seen(s, n - 1, s[n - 1]));
        assert forall|t: AccountId| #[trigger] account.av().bal(t) == a1.bal(t) + (if seen(s, n, t) { av1.bal(t) } else { 0 }) by { seen_step(s, n, t); assert(pa.bal(t) == a1.bal(t) + (if seen(s, n - 1, t) { av1.bal(t) } else { 0 })); }
        assert forall|t: AccountId| #![trigger result@.dom().contains(t)] (result@.dom().contains(t) <==> seen(s, n, t) && av1.bal(t) > 0) && (result@.dom().contains(t) ==> result@[t].0 == av1.bal(t)) by { seen_step(s, n, t); assert(pr.dom().contains(t) <==> seen(s, n - 1, t) && av1.bal(t) > 0); }
    }
@after_loop 3
    proof {
        assert forall|t: AccountId| #[trigger] account.av().bal(t) == a1.bal(t) + av1.bal(t) by { seen_all(virtual_account.tokens.kord(), virtual_account.tokens@.dom(), t); }
        assert forall|t: AccountId| #![trigger result@.dom().contains(t)] (result@.dom().contains(t) <==> av1.bal(t) > 0) && (result@.dom().contains(t) ==> result@[t].0 == av1.bal(t)) by { seen_all(virtual_account.tokens.kord(), virtual_account.tokens@.dom(), t); }
        assert(names(result@, av1));
        assert forall|t: AccountId| #[trigger] account.av().bal(t) == a0.bal(t) - uses(use_tokens@, t) + uses(result@, t) by { assert(account.av().bal(t) == a1.bal(t) + av1.bal(t)); assert(result@.dom().contains(t) <==> av1.bal(t) > 0); assert(av0.bal(t) >= 0 && a1.bal(t) == a0.bal(t) - uses(use_tokens@, t)); }
        a2 = account.av();
    }
@exit
    proof {
        kept_shadow(c0, c1, *self, s_pred());
        assert(self.av(s_pred()) == a2);
        assert forall|t: AccountId| #[trigger] c0.abal(s_pred(), t) >= uses(use_tokens@, t) && self.abal(s_pred(), t) == c0.abal(s_pred(), t) - uses(use_tokens@, t) + uses(r@, t) by {
            assert(a1.bal(t) == a0.bal(t) - uses(use_tokens@, t) && a1.bal(t) >= 0); assert(a2.bal(t) == a0.bal(t) - uses(use_tokens@, t) + uses(r@, t));
        }
        assert(holds(av0, use_tokens@) && executed(actions@, c0, av0, None, c1, av1, r1) && c1.trade_frame(&c0) && names(r@, av1) && self.acct_set(&c1, s_pred(), self.av(s_pred())));
        assert forall|t: AccountId| #[trigger] self.pooled(t) + self.av(s_pred()).bal(t) * us() <= c0.pooled(t) + a0.bal(t) * us() by {
            assert(c1.pooled(t) == self.pooled(t)); assert(a2.bal(t) == a1.bal(t) + av1.bal(t)); assert(av0.bal(t) == uses(use_tokens@, t)); assert(a1.bal(t) == a0.bal(t) - uses(use_tokens@, t));
            assert(c1.pooled(t) + av1.bal(t) * us() <= c0.pooled(t) + av0.bal(t) * us());
            let x = a1.bal(t); let y = av1.bal(t); let z = av0.bal(t);
            assert((x + y) * us() == x * us() + y * us() && (x + z) * us() == x * us() + z * us()) by(nonlinear_arith);
        }
    }
@end
@type TokenReceiverMessage
@type AddLiquidityInfo
@type TokenCache
@verus
// what the opaque pools list as their tokens (field token_account_ids)
impl SimplePool { #[verifier::external_body] pub fn vtoks(&self) -> (r: Vec<AccountId>) ensures r@ == Pool::SimplePool(*self).toks() { unimplemented!() } }
impl StableSwapPool { #[verifier::external_body] pub fn vtoks(&self) -> (r: Vec<AccountId>) ensures r@ == Pool::StableSwapPool(*self).toks() { unimplemented!() } }
impl RatedSwapPool { #[verifier::external_body] pub fn vtoks(&self) -> (r: Vec<AccountId>) ensures r@ == Pool::RatedSwapPool(*self).toks() { unimplemented!() } }
impl DegenSwapPool { #[verifier::external_body] pub fn vtoks(&self) -> (r: Vec<AccountId>) ensures r@ == Pool::DegenSwapPool(*self).toks() { unimplemented!() } }
// ---------------------------------------------------------------- who may ask for ft_transfer_call on the way out
/// the lists kept in contract storage
pub uninterp spec fn s_secure() -> Set<Str>;
pub uninterp spec fn s_echo_tokens() -> Set<Str>;
pub uninterp spec fn s_echo_senders() -> Set<Str>;
pub open spec fn fits(pattern: Str, id: Str) -> bool { s_starts(pattern, '*') && s_ends::<&Str>(id, &s_tail(pattern, 1)) }
/// named in the list, or by a wildcard of it
pub open spec fn listed(l: Set<Str>, id: Str) -> bool { l.contains(id) || exists|p: Str| #[trigger] l.contains(p) && fits(p, id) }
pub open spec fn echo_ok(token: Str, sender: Str) -> bool { listed(s_secure(), sender) || (listed(s_echo_tokens(), token) && listed(s_echo_senders(), sender)) }
/// what a message text stands for
pub uninterp spec fn msg_of(s: Str) -> Option<TokenReceiverMessage>;
#[verifier::external_body] pub fn v_parse_msg(s: &Str) -> (r: Result<TokenReceiverMessage, ()>) ensures r is Ok ==> msg_of(*s) == Some(r->Ok_0) { unimplemented!() }
pub open spec fn tcb(m: Map<AccountId, u128>, t: AccountId) -> int { if m.dom().contains(t) { m[t] as int } else { 0 } }
impl VClone for AddLiquidityInfo { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub fn vto_vec<T>(v: &[T]) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
@end
@fn read_ssw_from_storage() -> r trusted
    ensures r@ == s_secure(),
@fn read_ce_tw_from_storage() -> r trusted
    ensures r@ == s_echo_tokens(),
@fn read_ce_sw_from_storage() -> r trusted
    ensures r@ == s_echo_senders(),
@fn matches_wildcard_pattern(whitelist, account_id) -> r props=P22
    ensures r == listed(whitelist@, *account_id),
@subst let __s0 = (whitelist) . vref ()=>let __s0 = whitelist . vset ()
@loop 0
    invariant
        __i0 <= __s0@.len(), is_order(__s0@, whitelist@), forall|k: int| 0 <= k < __i0 ==> !fits(#[trigger] __s0@[k], *account_id), !whitelist@.contains(*account_id),
@loop_entry 0
    let ghost n0 = __i0 as int;
    proof { assert(whitelist@.contains(__s0@[n0])); }
@fn assert_client_echo_valid(token_id, sender_id) props=P22
    ensures echo_ok(*token_id, *sender_id),
@fn TokenCache::new() -> r props=P22
    ensures forall|t: AccountId| #[trigger] tcb(r.0@, t) == 0,
@fn TokenCache::add(self, token_id, amount) props=P22
    ensures forall|t: AccountId| #[trigger] tcb(final(self).0@, t) == tcb(old(self).0@, t) + (if t == *token_id { amount as int } else { 0 }),
@fn TokenCache::sub(self, token_id, amount) props=P22,P14
    ensures tcb(old(self).0@, *token_id) >= amount,
        forall|t: AccountId| #[trigger] tcb(final(self).0@, t) == tcb(old(self).0@, t) - (if t == *token_id { amount as int } else { 0 }),
@fn Contract::get_hot_zap_tokens(self, hot_zap_actions, add_liquidity_infos) -> r props=P19
    ensures forall|i: int| 0 <= i < hot_zap_actions@.len() ==> r@.contains((#[trigger] hot_zap_actions@[i]).tin()) && r@.contains(hot_zap_actions@[i].tout()),
        forall|i: int| 0 <= i < add_liquidity_infos@.len() ==> self.lists_all(r@, (#[trigger] add_liquidity_infos@[i]).pool_id),
@subst pool . tokens () . to_vec ()=>vto_vec (pool . tokens ())
@entry
    let ghost mut fs: Set<AccountId> = Set::empty();
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == hot_zap_actions@,
        forall|i: int| 0 <= i < __i0 ==> all_tokens@.contains((#[trigger] hot_zap_actions@[i]).tin()) && all_tokens@.contains(hot_zap_actions@[i].tout()),
@loop_end 0
    proof { let a = hot_zap_actions@[__i0 - 1]; assert(all_tokens@.contains(a.tin()) && all_tokens@.contains(a.tout())); }
@loop 1
    invariant
        __i1 <= __s1@.len(), __s1@ == add_liquidity_infos@,
        forall|i: int| 0 <= i < hot_zap_actions@.len() ==> all_tokens@.contains((#[trigger] hot_zap_actions@[i]).tin()) && all_tokens@.contains(hot_zap_actions@[i].tout()),
        forall|i: int| 0 <= i < __i1 ==> self.in_set(all_tokens@, (#[trigger] add_liquidity_infos@[i]).pool_id),
@loop_entry 1
    let ghost pt = all_tokens@;
@loop_end 1
    proof {
        assert forall|i: int| 0 <= i < __i1 implies self.in_set(all_tokens@, (#[trigger] add_liquidity_infos@[i]).pool_id) by {
            let q = add_liquidity_infos@[i].pool_id;
            if i < __i1 - 1 { assert(self.in_set(pt, q)); assert forall|j: int| 0 <= j < self.pools@[q as int].toks().len() implies all_tokens@.contains(#[trigger] self.pools@[q as int].toks()[j]) by { assert(pt.contains(self.pools@[q as int].toks()[j])); } }
        }
    }
@loop 2
    invariant
        __v2@.len() == __i2, __i2 == 0 || (__i2 <= __s2.ord().len() && is_order(__s2.ord(), __s2@) && __v2@ =~= __s2.ord().subrange(0, __i2 as int)),
@before_loop 2
    proof { fs = __s2@; }
@after_loop 2
    proof {
        assert forall|t: AccountId| fs.contains(t) implies #[trigger] __v2@.contains(t) by { let i = choose|i: int| 0 <= i < __s2.ord().len() && __s2.ord()[i] == t; assert(__v2@[i] == t); }
        assert forall|i: int| 0 <= i < add_liquidity_infos@.len() implies self.lists_all(__v2@, (#[trigger] add_liquidity_infos@[i]).pool_id) by {
            let q = add_liquidity_infos@[i].pool_id;
            assert(self.in_set(fs, q));
            assert forall|j: int| 0 <= j < self.pools@[q as int].toks().len() implies __v2@.contains(#[trigger] self.pools@[q as int].toks()[j]) by { assert(fs.contains(self.pools@[q as int].toks()[j])); }
        }
        assert forall|i: int| 0 <= i < hot_zap_actions@.len() implies __v2@.contains((#[trigger] hot_zap_actions@[i]).tin()) && __v2@.contains(hot_zap_actions@[i].tout()) by { assert(fs.contains(hot_zap_actions@[i].tin()) && fs.contains(hot_zap_actions@[i].tout())); }
    }
@verus
impl Contract {
    pub open spec fn lists_all(&self, r: Seq<AccountId>, p: u64) -> bool { forall|j: int| 0 <= j < self.pools@[p as int].toks().len() ==> r.contains(#[trigger] self.pools@[p as int].toks()[j]) }
    pub open spec fn in_set(&self, r: Set<AccountId>, p: u64) -> bool { forall|j: int| 0 <= j < self.pools@[p as int].toks().len() ==> r.contains(#[trigger] self.pools@[p as int].toks()[j]) }
    pub open spec fn pool_thawed(&self, p: u64) -> bool { forall|j: int| 0 <= j < self.pools@[p as int].toks().len() ==> !self.frozen(#[trigger] self.pools@[p as int].toks()[j]) }
}
/// one payment leaves, for the result (token, amount), to this receiver
pub open spec fn out_sent(p: PSpec, o: (AccountId, u128), to: AccountId, wnear: Option<AccountId>, echo: bool, skip: Option<bool>) -> bool {
    if echo { sends_call(p, o.0, to, o.1 as int) }
    else if wnear == Some(o.0) && skip == Some(false) { unwraps(p, o.0, to, o.1 as int) }
    else { sends(p, o.0, to, o.1 as int) }
}
/// exactly one payment for each of the first n results, nothing else
pub open spec fn paid_out(s0: Seq<PSpec>, s1: Seq<PSpec>, outs: Seq<(AccountId, u128)>, n: int, to: AccountId, wnear: Option<AccountId>, echo: bool, skip: Option<bool>) -> bool {
    &&& s1.len() == s0.len() + n && s1.subrange(0, s0.len() as int) == s0 && n <= outs.len()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] out_sent(s1[s0.len() + k], outs[k], to, wnear, echo, skip)
}
pub open spec fn shares_kept(c: Contract, o: Contract) -> bool {
    &&& c.npools() == o.npools()
    &&& forall|p: int, id: AccountId| 0 <= p < o.npools() ==> #[trigger] c.shares(p, id) >= o.shares(p, id)
    &&& forall|p: int, id: AccountId| 0 <= p <= u64::MAX ==> #[trigger] c.rec(p, id) == o.rec(p, id)
}
proof fn shadow_kept(c: Contract, o: Contract)
    requires shares_kept(c, o), o.shadow_ok()
    ensures c.shadow_ok()
{
    assert forall|p: int, id: AccountId| 0 <= p < c.npools() implies free_of(#[trigger] c.rec(p, id), c.shares(p, id)) >= 0 by { assert(free_of(o.rec(p, id), o.shares(p, id)) >= 0); assert(c.shares(p, id) >= o.shares(p, id)); assert(c.rec(p, id) == o.rec(p, id)); }
    assert forall|p: int| 0 <= p < c.npools() implies #[trigger] c.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(o.rec(p, s_me()) == c.rec(p, s_me())); }
    assert forall|p: int, id: AccountId| c.npools() <= p <= u64::MAX implies #[trigger] c.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(o.rec(p, id) == c.rec(p, id)); }
}
proof fn trade_shares(c: Contract, o: Contract)
    requires c.trade_frame(&o)
    ensures shares_kept(c, o)
{
    assert forall|p: int, id: AccountId| 0 <= p < o.npools() implies #[trigger] c.shares(p, id) >= o.shares(p, id) by { assert(pool_kind_same(c.pools@[p], o.pools@[p])); assert(mget(c.pools@[p].sh(), id) >= mget(o.pools@[p].sh(), id)); }
}
/// min amounts hold pairwise
pub open spec fn at_least(a: Seq<u128>, m: Seq<U128>) -> bool { forall|i: int| 0 <= i < a.len() && i < m.len() ==> #[trigger] a[i] >= m[i].0 }
/// one addition of liquidity took `used` into its pool, within what was asked
pub open spec fn zap_step(ps: Seq<Pool>, qs: Seq<Pool>, x: AddLiquidityInfo, used: Seq<u128>, who: AccountId) -> bool {
    let p = x.pool_id as int; let o = ps[p]; let n = qs[p];
    &&& p < ps.len() && qs == ps.update(p, n) && pool_kind_same(n, o) && n.fee() == o.fee() && took(o, n, used) && used.len() == o.toks().len() && used.len() == x.amounts@.len() && no_one_loses(n, o)
    &&& /*P21*/ n.tvl_ok(x.pool_id)
    &&& o is SimplePool ==> x.min_amounts is Some && at_least(used, (x.min_amounts->0)@) && forall|i: int| 0 <= i < used.len() ==> #[trigger] used[i] <= x.amounts@[i].0
    &&& !(o is SimplePool) ==> x.min_shares is Some && mget(n.sh(), who) >= mget(o.sh(), who) + (x.min_shares->0).0 && all128(x.amounts@, used, used.len() as int)
}
pub open spec fn zpath(st: Seq<Seq<Pool>>, xs: Seq<AddLiquidityInfo>, used: Seq<Seq<u128>>, n: int, who: AccountId) -> bool {
    st.len() == n + 1 && used.len() == n && n <= xs.len() && forall|k: int| 0 <= k < n ==> #[trigger] zap_step(st[k], st[k + 1], xs[k], used[k], who)
}
/// what the first n additions took of t
pub open spec fn spent(ps: Seq<Pool>, xs: Seq<AddLiquidityInfo>, used: Seq<Seq<u128>>, n: int, t: AccountId) -> int decreases n {
    if n <= 0 { 0 } else { spent(ps, xs, used, n - 1, t) + got(ps[xs[n - 1].pool_id as int].toks(), used[n - 1], used[n - 1].len() as int, t) }
}
proof fn spent_same(ps: Seq<Pool>, xs: Seq<AddLiquidityInfo>, u: Seq<Seq<u128>>, v: Seq<Seq<u128>>, n: int, t: AccountId)
    requires 0 <= n <= u.len(), n <= v.len(), forall|k: int| 0 <= k < n ==> u[k] == v[k]
    ensures spent(ps, xs, u, n, t) == spent(ps, xs, v, n, t)
    decreases n
{ if n > 0 { spent_same(ps, xs, u, v, n - 1, t); } }
proof fn holds_took(o: Pool, n: Pool, a: Seq<u128>, t: AccountId, m: int)
    requires took(o, n, a), n.toks() == o.toks(), 0 <= m <= a.len()
    ensures pool_holds(n, t, m) <= pool_holds(o, t, m) + got(o.toks(), a, m, t) * us()
    decreases m
{
    if m > 0 {
        holds_took(o, n, a, t, m - 1);
        assert(n.res()[m - 1] <= o.res()[m - 1] + a[m - 1] * us());
        let x = got(o.toks(), a, m - 1, t); let y = a[m - 1] as int;
        assert((x + y) * us() == x * us() + y * us()) by(nonlinear_arith);
    }
}
/// liquidity additions put no more into the pools than they took
pub proof fn p22_zap_conserves(st: Seq<Seq<Pool>>, xs: Seq<AddLiquidityInfo>, used: Seq<Seq<u128>>, n: int, who: AccountId, t: AccountId)
    requires zpath(st, xs, used, n, who), n >= 0
    ensures in_pools(st[n], t, st[n].len() as int) <= in_pools(st[0], t, st[0].len() as int) + spent(st[0], xs, used, n, t) * us(),
        st[n].len() == st[0].len(), forall|p: int| 0 <= p < st[0].len() ==> pool_kind_same(#[trigger] st[n][p], st[0][p])
    decreases n
{
    if n > 0 {
        let st2 = st.subrange(0, n); let u2 = used.subrange(0, n - 1);
        assert(zpath(st2, xs, u2, n - 1, who)) by { assert forall|k: int| 0 <= k < n - 1 implies #[trigger] zap_step(st2[k], st2[k + 1], xs[k], u2[k], who) by { assert(zap_step(st[k], st[k + 1], xs[k], used[k], who)); } }
        p22_zap_conserves(st2, xs, u2, n - 1, who, t);
        spent_same(st[0], xs, used, u2, n - 1, t);
        let a = st[n - 1]; let b = st[n]; let p = xs[n - 1].pool_id as int; let g = used[n - 1];
        assert(zap_step(a, st[n - 1 + 1], xs[n - 1], g, who));
        assert(st2[n - 1] == a && st2[0] == st[0]);
        assert(pool_kind_same(a[p], st[0][p])) by { assert(st2[n - 1][p] == a[p]); }
        in_pools_step(a, b, p, t, a.len() as int);
        holds_took(a[p], b[p], g, t, g.len() as int);
        let x = spent(st[0], xs, used, n - 1, t); let y = got(st[0][p].toks(), g, g.len() as int, t);
        assert((x + y) * us() == x * us() + y * us()) by(nonlinear_arith);
        assert forall|q: int| 0 <= q < st[0].len() implies pool_kind_same(#[trigger] st[n][q], st[0][q]) by { assert(pool_kind_same(st2[n - 1][q], st[0][q])); if q != p { assert(b[q] == a[q]); } }
    }
}
impl Contract {
    /// the pool's price history took in what a share was worth up to now, in state o
    pub open spec fn tw_now(&self, o: &Contract, p: u64) -> bool {
        o.has_twap(p) ==> self.twap(p) == (if o.priced(p as int) { twap_step(o.twap(p), now_sec(), o.unit(p as int), o.cumulative_info_record_interval_sec as int) } else { o.twap(p) })
    }
    /// Execute: the batch ran on exactly the tokens that arrived and every result was sent out
    pub open spec fn executed_msg(&self, o: &Contract, sender: AccountId, a: u128, acts: Seq<Action>, echo: bool, skip: Option<bool>, to: Option<ValidAccountId>) -> bool {
        &&& acts.len() > 0 && same_kind(acts)
        &&& /*P19*/ o.all_thawed(acts)
        &&& echo ==> to is None && echo_ok(s_pred(), sender)
        &&& exists|c1: Contract, outs: Seq<(AccountId, u128)>| #[trigger] ran(acts, *o, s_pred(), a, c1, outs) && c1.trade_frame(o) && *self == (Contract { sent: self.sent, ..c1 }) && no_more(*o, *self, s_pred(), a as int, outs)
            && paid_out(o.sent@, self.sent@, outs, outs.len() as int, if to is Some { (to->0).0 } else { sender }, o.wnear_id, echo, skip)
            && (echo && sender == o.burrowland_id ==> outs.len() == 1)
    }
    /// HotZap: the batch ran on exactly the tokens that arrived, its results paid for the liquidity, the rest is in the sender's account
    pub open spec fn zapped_msg(&self, o: &Contract, who: AccountId, a: u128, acts: Seq<Action>, xs: Seq<AddLiquidityInfo>) -> bool {
        &&& acts.len() > 0 && same_kind(acts) && xs.len() > 0 && o.has(who) && self.has(who)
        &&& /*P19*/ o.all_thawed(acts) && forall|k: int| 0 <= k < xs.len() ==> o.pool_thawed((#[trigger] xs[k]).pool_id)
        &&& exists|c1: Contract, outs: Seq<(AccountId, u128)>, st: Seq<Seq<Pool>>, used: Seq<Seq<u128>>| #[trigger] ran(acts, *o, s_pred(), a, c1, outs) && c1.trade_frame(o)
            && #[trigger] zpath(st, xs, used, xs.len() as int, who) && st[0] == c1.pools@ && st.last() == self.pools@ && no_more(*o, c1, s_pred(), a as int, outs)
            && (forall|t: AccountId| out(outs, outs.len() as int, t) >= #[trigger] spent(c1.pools@, xs, used, xs.len() as int, t) && self.abal(who, t) == o.abal(who, t) + out(outs, outs.len() as int, t) - spent(c1.pools@, xs, used, xs.len() as int, t))
            && /*P20*/ forall|k: int| 0 <= k < xs.len() ==> self.tw_now(&c1, (#[trigger] xs[k]).pool_id)
        &&& forall|id: AccountId, t: AccountId| id != who ==> #[trigger] self.abal(id, t) == o.abal(id, t)
        &&& *self == (Contract { pools: self.pools, accounts: self.accounts, unit_share_cumulative_infos: self.unit_share_cumulative_infos, vol: self.vol, ..*o })
        &&& self.av(who).near <= o.av(who).near
        &&& /*P15*/ self.av(who).covered()
        // what the sender and the pools hold together came from what they held and what arrived
        &&& forall|t: AccountId| #[trigger] self.pooled(t) + self.abal(who, t) * us() <= o.pooled(t) + o.abal(who, t) * us() + (if t == s_pred() { a * us() } else { 0 })
    }
}
@end
@fn Contract::ft_on_transfer(self, sender_id, amount, msg) -> r props=P22,P14 rlimit=60
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), /*P19*/ old(self).running(), r == PromiseOrValue::<U128>::Value(U128(0)),
        msg.ves() ==> /*P19*/ !old(self).frozen(s_pred()),
        msg.ves() ==> old(self).has(sender_id.0) && final(self).acct_set(old(self), sender_id.0, final(self).av(sender_id.0)) && final(self).av(sender_id.0).moved(old(self).av(sender_id.0), s_pred(), amount.0 as int) && final(self).av(sender_id.0).covered(),
        !msg.ves() ==> msg_of(msg) is Some && match msg_of(msg)->0 {
            TokenReceiverMessage::Execute { referral_id, actions, client_echo, skip_unwrap_near, swap_out_recipient, skip_degen_price_sync, extra_tgas_for_client_echo } =>
                final(self).executed_msg(old(self), sender_id.0, amount.0, actions@, client_echo is Some, skip_unwrap_near, swap_out_recipient),
            TokenReceiverMessage::HotZap { referral_id, hot_zap_actions, add_liquidity_infos, skip_degen_price_sync } =>
                final(self).zapped_msg(old(self), sender_id.0, amount.0, hot_zap_actions@, add_liquidity_infos@),
        },
@subst (p . token_account_ids) . vclone ()=>p . vtoks ()
@subst serde_json :: from_str :: < TokenReceiverMessage > (=>v_parse_msg (
@entry
    let ghost c0 = *old(self);
    let ghost who = sender_id.0;
    let ghost mut c1 = c0;
    let ghost mut outs: Seq<(AccountId, u128)> = Seq::empty();
    let ghost mut av = AV { near: 0, leg: Map::empty(), tok: Map::empty(), shadow: Map::empty() };
    let ghost av0 = c0.av(who);
    let ghost mut xs: Seq<AddLiquidityInfo> = Seq::empty();
    let ghost mut st: Seq<Seq<Pool>> = Seq::empty();
    let ghost mut used: Seq<Seq<u128>> = Seq::empty();
    let ghost mut tc: Map<AccountId, u128> = Map::empty();
    let ghost mut c2 = c0;
    let ghost mut c8 = c0;
    let ghost mut hz = false;
    let ghost mut ex = false;
    let ghost mut acts: Seq<Action> = Seq::empty();
    let ghost simple = msg.ves();
    proof { assert(c0.accounts@.dom().contains(who) ==> c0.av(who).wf()); }
@before_loop 0
    proof { ex = true; acts = actions@; c1 = *self; outs = __s0@; trade_shares(c1, c0); shadow_kept(c1, c0); assert(c0.sent@.subrange(0, c0.sent@.len() as int) =~= c0.sent@); }
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == outs, *self == (Contract { sent: self.sent, ..c1 }), c1.sent == c0.sent, c1.wnear_id == c0.wnear_id, who == sender_id.0,
        paid_out(c0.sent@, self.sent@, outs, __i0 as int, if swap_out_recipient is Some { (swap_out_recipient->0).0 } else { who }, c0.wnear_id, client_echo is Some, skip_unwrap_near), client_echo is Some ==> swap_out_recipient is None,
@loop_entry 0
    let ghost ps = self.sent@;
@loop_end 0
    proof {
        let to = if swap_out_recipient is Some { (swap_out_recipient->0).0 } else { who };
        assert(self.sent@.subrange(0, c0.sent@.len() as int) =~= c0.sent@) by { assert(ps.subrange(0, c0.sent@.len() as int) =~= c0.sent@); assert forall|k: int| 0 <= k < c0.sent@.len() implies self.sent@[k] == c0.sent@[k] by { assert(ps.subrange(0, c0.sent@.len() as int)[k] == ps[k]); } }
        assert forall|k: int| 0 <= k < __i0 implies #[trigger] out_sent(self.sent@[c0.sent@.len() + k], outs[k], to, c0.wnear_id, client_echo is Some, skip_unwrap_near) by {
            if k < __i0 - 1 { assert(out_sent(ps[c0.sent@.len() + k], outs[k], to, c0.wnear_id, client_echo is Some, skip_unwrap_near)); }
        }
    }
@loop 1
@before_loop 2
    proof { acts = hot_zap_actions@; c1 = *self; outs = __s2@; xs = add_liquidity_infos@; av = account.av(); }
@loop 2
    invariant
        __i2 <= __s2@.len(), __s2@ == outs, forall|t: AccountId| #[trigger] tcb(token_cache.0@, t) == out(outs, __i2 as int, t),
@loop_entry 2
    let ghost pc = token_cache.0@;
@loop_end 2
    proof { assert forall|t: AccountId| #[trigger] tcb(token_cache.0@, t) == out(outs, __i2 as int, t) by { assert(tcb(pc, t) == out(outs, __i2 - 1, t)); } }
@loop 3
    invariant
        __i3 <= __s3@.len(), __s3@ == xs, self.cwf(), c1.cwf(), *self == (Contract { unit_share_cumulative_infos: self.unit_share_cumulative_infos, ..c1 }),
        forall|q: u64| #[trigger] self.has_twap(q) == c1.has_twap(q),
        forall|q: u64| #![trigger self.twap(q)] !named(xs, __i3 as int, q) && c1.has_twap(q) ==> self.twap(q) == c1.twap(q),
        forall|q: u64| #![trigger self.twap(q)] named(xs, __i3 as int, q) ==> self.tw_now(&c1, q),
@loop_entry 3
    let ghost p3 = *self;
@loop_end 3
    proof {
        assert forall|q: u64| #[trigger] self.has_twap(q) == c1.has_twap(q) by { assert(p3.has_twap(q) == c1.has_twap(q)); }
        let q0 = xs[__i3 - 1].pool_id;
        assert forall|q: u64| #![trigger self.twap(q)] !named(xs, __i3 as int, q) && c1.has_twap(q) implies self.twap(q) == c1.twap(q) by { named_step(xs, __i3 as int, q); assert(p3.twap(q) == c1.twap(q)); assert(p3.has_twap(q)); }
        assert forall|q: u64| #![trigger self.twap(q)] named(xs, __i3 as int, q) implies self.tw_now(&c1, q) by {
            named_step(xs, __i3 as int, q); let z = p3.twap(q); assert(p3.has_twap(q) == c1.has_twap(q)); assert(p3.priced(q as int) == c1.priced(q as int) && p3.unit(q as int) == c1.unit(q as int));
        }
    }
@after_loop 3
    proof { c2 = *self; st = seq![c1.pools@]; 
        assert forall|k: int| 0 <= k < xs.len() implies self.tw_now(&c1, (#[trigger] xs[k]).pool_id) by { let z = self.twap(xs[k].pool_id); assert(named(xs, xs.len() as int, xs[k].pool_id)); } }
@loop 4
    invariant
        __i4 <= __s4@.len(), __s4@ == xs, self.cwf(), c1.cwf(), *self == (Contract { pools: self.pools, ..c2 }), c2.pools == c1.pools, sender_id == who,
        zpath(st, xs, used, __i4 as int, who), st[0] == c1.pools@, st.last() == self.pools@,
        forall|t: AccountId| #[trigger] tcb(token_cache.0@, t) == out(outs, outs.len() as int, t) - spent(c1.pools@, xs, used, __i4 as int, t),
        self.npools() == c1.npools(), forall|p: int| 0 <= p < c1.npools() ==> pool_kind_same(#[trigger] self.pools@[p], c1.pools@[p]) && no_one_loses(self.pools@[p], c1.pools@[p]),
@loop_entry 4
    let ghost p4 = *self;
    let ghost x4 = xs[__i4 as int];
    let ghost pc4 = token_cache.0@;
    let ghost mut g4: Seq<u128> = Seq::empty();
@loop 5
    invariant
        __i5 <= __s5@.len(), __s5@ == x4.amounts@, __v5@.len() == __i5, all128(__s5@, __v5@, __i5 as int),
@loop 6
    invariant
        __i6 <= __s6@.len(), __i6 <= __s506@.len(), __s6@ == add_liquidity_amounts@, __s506@ == min_amounts@, forall|k: int| 0 <= k < __i6 ==> #[trigger] __s6@[k] >= __s506@[k].0,
@before_loop 7
    proof { g4 = __s507@; }
@loop 7
    invariant
        __i7 <= __s7@.len(), __i7 <= __s507@.len(), __s507@ == g4, __s7@ == p4.pools@[x4.pool_id as int].toks(), g4.len() == __s7@.len(),
        forall|t: AccountId| #[trigger] tcb(token_cache.0@, t) == tcb(pc4, t) - got(__s7@, g4, __i7 as int, t),
@loop_entry 7
    let ghost pc7 = token_cache.0@;
@loop_end 7
    proof { assert forall|t: AccountId| #[trigger] tcb(token_cache.0@, t) == tcb(pc4, t) - got(__s7@, g4, __i7 as int, t) by { assert(tcb(pc7, t) == tcb(pc4, t) - got(__s7@, g4, __i7 - 1, t)); } }
@loop_end 4
    proof {
        let p = x4.pool_id as int; let o = p4.pools@[p]; let n = self.pools@[p];
        assert(self.pools@ =~= p4.pools@.update(p, n));
        assert(no_one_loses(n, o));
        assert(zap_step(p4.pools@, self.pools@, x4, g4, who));
        let s2 = st.push(self.pools@); let u2 = used.push(g4);
        assert(zpath(s2, xs, u2, __i4 as int, who)) by { assert forall|k: int| 0 <= k < __i4 implies #[trigger] zap_step(s2[k], s2[k + 1], xs[k], u2[k], who) by { if k < __i4 - 1 { assert(zap_step(st[k], st[k + 1], xs[k], used[k], who)); } } }
        assert(pool_kind_same(p4.pools@[p], c1.pools@[p]));
        assert forall|t: AccountId| #[trigger] tcb(token_cache.0@, t) == out(outs, outs.len() as int, t) - spent(c1.pools@, xs, u2, __i4 as int, t) by {
            spent_same(c1.pools@, xs, used, u2, __i4 - 1, t); assert(tcb(pc4, t) == out(outs, outs.len() as int, t) - spent(c1.pools@, xs, used, __i4 - 1, t));
        }
        assert forall|q: int| 0 <= q < c1.npools() implies pool_kind_same(#[trigger] self.pools@[q], c1.pools@[q]) && no_one_loses(self.pools@[q], c1.pools@[q]) by {
            assert(pool_kind_same(p4.pools@[q], c1.pools@[q]) && no_one_loses(p4.pools@[q], c1.pools@[q]));
            if q == p { assert forall|id: AccountId| #[trigger] mget(n.sh(), id) >= mget(c1.pools@[q].sh(), id) by { assert(mget(n.sh(), id) >= mget(o.sh(), id)); assert(mget(o.sh(), id) >= mget(c1.pools@[q].sh(), id)); } }
        }
        st = s2; used = u2;
    }
@before_loop 8
    proof {
        tc = token_cache.0@; av = account.av(); c8 = *self; hz = true;
        assert(av.tok == av0.tok && av.leg == av0.leg && av.shadow == av0.shadow);
        assert(shares_kept(c8, c1)) by {
            assert forall|p: int, id: AccountId| 0 <= p < c1.npools() implies #[trigger] c8.shares(p, id) >= c1.shares(p, id) by { assert(no_one_loses(c8.pools@[p], c1.pools@[p])); assert(mget(c8.pools@[p].sh(), id) >= mget(c1.pools@[p].sh(), id)); }
        }
        trade_shares(c1, c0); shadow_kept(c1, c0); shadow_kept(c8, c1);
    }
@loop 8
    invariant
        *__s8 == token_cache.0, tc == token_cache.0@, account.av().wf(), account.av().same_rest(av), __i8 == 0 || (__i8 <= __s8.kord().len() && is_order(__s8.kord(), __s8@.dom())),
        forall|t: AccountId| #[trigger] account.av().bal(t) == av.bal(t) + (if seen(__s8.kord(), __i8 as int, t) { tc[t] as int } else { 0 }),
@loop_entry 8
    let ghost pa = account.av();
@loop_end 8
    proof {
        let s = __s8.kord(); let n = __i8 as int;
        assert(!seen(s, n - 1, s[n - 1]));
        assert forall|t: AccountId| #[trigger] account.av().bal(t) == av.bal(t) + (if seen(s, n, t) { tc[t] as int } else { 0 }) by { seen_step(s, n, t); assert(pa.bal(t) == av.bal(t) + (if seen(s, n - 1, t) { tc[t] as int } else { 0 })); }
    }
@after_loop 8
    proof {
        assert forall|t: AccountId| #[trigger] account.av().bal(t) == av.bal(t) + tcb(tc, t) by { seen_all(__s8.kord(), tc.dom(), t); }
    }
@exit
    proof {
        if simple { acct_kept(*self, c0, who); shadow_kept(*self, c0); }
        if ex {
            shadow_kept(*self, c1);
            assert(ran(acts, c0, s_pred(), amount.0, c1, outs) && no_more(c0, c1, s_pred(), amount.0 as int, outs));
            assert(no_more(c0, *self, s_pred(), amount.0 as int, outs)) by { assert forall|u: AccountId| self.pooled(u) + #[trigger] out(outs, outs.len() as int, u) * us() <= c0.pooled(u) + (if u == s_pred() { amount.0 as int * us() } else { 0 }) by { } }
        }
        if hz {
            acct_kept(*self, c8, who); shadow_kept(*self, c8);
            assert(ran(acts, c0, s_pred(), amount.0, c1, outs) && no_more(c0, c1, s_pred(), amount.0 as int, outs));
            assert(zpath(st, xs, used, xs.len() as int, who));
            assert(st[0] == c1.pools@ && st.last() == self.pools@);
            assert forall|t: AccountId| out(outs, outs.len() as int, t) >= #[trigger] spent(c1.pools@, xs, used, xs.len() as int, t) && self.abal(who, t) == c0.abal(who, t) + out(outs, outs.len() as int, t) - spent(c1.pools@, xs, used, xs.len() as int, t) by {
                assert(tcb(tc, t) == out(outs, outs.len() as int, t) - spent(c1.pools@, xs, used, xs.len() as int, t));
                assert(tcb(tc, t) >= 0);
                assert(self.av(who).bal(t) == av.bal(t) + tcb(tc, t));
                assert(av.bal(t) == c0.av(who).bal(t));
            }
            assert forall|k: int| 0 <= k < xs.len() implies self.tw_now(&c1, (#[trigger] xs[k]).pool_id) by { assert(c2.tw_now(&c1, xs[k].pool_id)); assert(self.twap(xs[k].pool_id) == c2.twap(xs[k].pool_id)); }
            assert forall|id: AccountId, t: AccountId| id != who implies #[trigger] self.abal(id, t) == c0.abal(id, t) by { assert(self.has(id) == c0.has(id)); assert(c8.accounts@ == c0.accounts@); }
            assert(*self == (Contract { pools: self.pools, accounts: self.accounts, unit_share_cumulative_infos: self.unit_share_cumulative_infos, vol: self.vol, ..c0 }));
            assert(self.av(who).near <= c0.av(who).near);
            assert forall|t: AccountId| #[trigger] self.pooled(t) + self.abal(who, t) * us() <= c0.pooled(t) + c0.abal(who, t) * us() + (if t == s_pred() { amount.0 * us() } else { 0 }) by {
                p22_zap_conserves(st, xs, used, xs.len() as int, who, t);
                assert(self.pooled(t) == in_pools(st[xs.len() as int], t, st[xs.len() as int].len() as int));
                let o = out(outs, outs.len() as int, t); let sp = spent(c1.pools@, xs, used, xs.len() as int, t); let x = c0.abal(who, t);
                assert(self.abal(who, t) == x + o - sp);
                assert((x + o - sp) * us() == x * us() + o * us() - sp * us()) by(nonlinear_arith);
                assert(c1.pooled(t) + o * us() <= c0.pooled(t) + (if t == s_pred() { amount.0 as int * us() } else { 0 }));
            }
        }
    }
@verus
proof fn acct_kept(c: Contract, o: Contract, id: AccountId)
    requires c.acct_set(&o, id, c.av(id)), c.av(id).shadow == o.av(id).shadow, o.has(id)
    ensures shares_kept(c, o)
{
    assert forall|p: int, i: AccountId| 0 <= p <= u64::MAX implies #[trigger] c.rec(p, i) == o.rec(p, i) by { assert(c.has(i) == o.has(i)); }
    assert forall|p: int, i: AccountId| 0 <= p < o.npools() implies #[trigger] c.shares(p, i) >= o.shares(p, i) by { }
}
pub open spec fn named(xs: Seq<AddLiquidityInfo>, n: int, q: u64) -> bool { exists|k: int| 0 <= k < n && (#[trigger] xs[k]).pool_id == q }
proof fn named_step(xs: Seq<AddLiquidityInfo>, n: int, q: u64)
    requires 0 < n <= xs.len()
    ensures named(xs, n, q) == (named(xs, n - 1, q) || xs[n - 1].pool_id == q)
{ if named(xs, n, q) && xs[n - 1].pool_id != q { let k = choose|k: int| 0 <= k < n && (#[trigger] xs[k]).pool_id == q; assert(xs[k].pool_id == q && k < n - 1); } if xs[n - 1].pool_id == q { assert(named(xs, n, q)); } }
@end
