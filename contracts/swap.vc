@include xbase.vc
@import acct.vc *
@import ledger.vc *
@import twap.vc *
@import pool_api.vc *
@file ref-exchange/src/pool.rs
@file ref-exchange/src/action.rs
@file ref-exchange/src/degen_swap/degen.rs
@type SwapAction
@type SwapByOutputAction
@type Action
@type ActionResult
@verus shared
impl SwapVolumeU256 { pub open spec fn vv(&self) -> (int, int) { (self.input.v(), self.output.v()) } }
pub open spec fn volv(s: Seq<SwapVolumeU256>) -> Seq<(int, int)> { Seq::new(s.len(), |i: int| s[i].vv()) }
pub open spec fn svs128(s: Seq<SwapVolume>) -> Seq<(int, int)> { Seq::new(s.len(), |i: int| (s[i].input.0 as int, s[i].output.0 as int)) }
pub open spec fn vol_from(v: Seq<SwapVolumeU256>, s: Seq<SwapVolume>, n: int) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] v[k]).vv() == (s[k].input.0 as int, s[k].output.0 as int) }
/// a more counted in at i, b more counted out at j
pub open spec fn counted(v: Seq<(int, int)>, i: int, j: int, a: int, b: int) -> Seq<(int, int)> {
    let w = v.update(i, (v[i].0 + a, v[i].1)); w.update(j, (w[j].0, w[j].1 + b))
}
impl Action {
    pub open spec fn pid(&self) -> u64 { match self { Action::Swap(s) => s.pool_id, Action::SwapByOutput(s) => s.pool_id } }
    pub open spec fn tin(&self) -> AccountId { match self { Action::Swap(s) => s.token_in, Action::SwapByOutput(s) => s.token_in } }
    pub open spec fn tout(&self) -> AccountId { match self { Action::Swap(s) => s.token_out, Action::SwapByOutput(s) => s.token_out } }
}
impl ActionResult { pub open spec fn amt(&self) -> Option<u128> { match self { ActionResult::None => None, ActionResult::Amount(a) => Some(a.0) } } }
/// what pool p records of token t
pub open spec fn pool_holds(p: Pool, t: AccountId, n: int) -> int decreases n {
    if n <= 0 { 0 } else { pool_holds(p, t, n - 1) + (if p.toks()[n - 1] == t { p.res()[n - 1] } else { 0 }) }
}
pub open spec fn in_pool(p: Pool, t: AccountId) -> int { pool_holds(p, t, p.res().len() as int) }
pub open spec fn in_pools(ps: Seq<Pool>, t: AccountId, n: int) -> int decreases n { if n <= 0 { 0 } else { in_pools(ps, t, n - 1) + in_pool(ps[n - 1], t) } }
impl Contract {
    /// what all pools record of token t, in units of 1/us() of the token
    pub open spec fn pooled(&self, t: AccountId) -> int { in_pools(self.pools@, t, self.pools@.len() as int) }
    pub open spec fn volume(&self, p: u64) -> Seq<(int, int)> { if self.vol@.dom().contains(p as u32) { volv(self.vol@[p as u32]@) } else { svs128(self.pools@[p as int].vols()) } }
    pub open spec fn volume_in(&self, v: Map<u32, Vec<SwapVolumeU256>>, p: u64) -> bool { self.vol@.dom().contains(p as u32) }
    /// everything but pools, price records and volumes is as in o
    pub open spec fn trade_frame(&self, o: &Contract) -> bool {
        &&& *self == (Contract { pools: self.pools, unit_share_cumulative_infos: self.unit_share_cumulative_infos, vol: self.vol, ..*o })
        &&& self.npools() == o.npools()
        &&& forall|p: int| 0 <= p < o.npools() ==> #[trigger] pool_kind_same(self.pools@[p], o.pools@[p]) && no_one_loses(self.pools@[p], o.pools@[p]) && self.pools@[p].fee() == o.pools@[p].fee()
    }
    /// one swap in pool p took a of tin and gave b of tout
    pub open spec fn traded(&self, o: &Contract, p: u64, tin: AccountId, tout: AccountId, a: int, b: int) -> bool {
        &&& p < o.npools() && self.trade_frame(o)
        &&& self.pools@ == o.pools@.update(p as int, self.pools@[p as int])
        &&& exists|i: int, j: int| #[trigger] swapped(o.pools@[p as int], self.pools@[p as int], i, j, tin, tout, a, b)
        &&& self.twap_seen(o, p)
        &&& self.vol_right(o, p, tin, tout, a, b)
    }
    pub open spec fn vol_right(&self, o: &Contract, p: u64, tin: AccountId, tout: AccountId, a: int, b: int) -> bool {
        exists|i: int, j: int| 0 <= i < o.pools@[p as int].toks().len() && 0 <= j < o.pools@[p as int].toks().len() && o.pools@[p as int].toks()[i] == tin && (if o.pools@[p as int] is SimplePool { j == i } else { o.pools@[p as int].toks()[j] == tout })
            && #[trigger] self.vol_counted(o, p, i, j, a, b)
    }
    pub open spec fn vol_counted(&self, o: &Contract, p: u64, i: int, j: int, a: int, b: int) -> bool {
        &&& self.vol@.dom() == o.vol@.dom().insert(p as u32)
        &&& self.volume(p) == counted(o.volume(p), i, j, a, b)
        &&& forall|k: u32| k != p as u32 && o.vol@.dom().contains(k) ==> #[trigger] self.vol@[k] == o.vol@[k]
    }
}
/// the state between two actions
pub ghost struct XS { pub c: Contract, pub av: AV, pub res: Option<u128> }
pub open spec fn step_in(a: XS, b: XS, s: SwapAction) -> bool {
    let amt = match s.amount_in { Some(x) => x.0 as int, None => a.res->0 as int };
    &&& s.amount_in is None ==> a.res is Some
    &&& a.av.bal(s.token_in) >= amt
    &&& b.res is Some && b.res->0 >= s.min_amount_out.0
    &&& b.c.traded(&a.c, s.pool_id, s.token_in, s.token_out, amt, b.res->0 as int)
    &&& b.av.same_rest(a.av)
    &&& forall|t: AccountId| #[trigger] b.av.bal(t) == a.av.bal(t) - (if t == s.token_in { amt } else { 0 }) + (if t == s.token_out { b.res->0 as int } else { 0 })
}
/// what is still to be paid for the chain of swaps being computed backwards
pub open spec fn pending(acts: Seq<Action>, k: int, s: XS, t: AccountId) -> int { if k > 0 && acts[k - 1].tin() == t { s.res->0 as int } else { 0 } }
pub open spec fn step_out(acts: Seq<Action>, k: int, a: XS, b: XS, s: SwapByOutputAction) -> bool {
    let amt = match s.amount_out { Some(x) => x.0 as int, None => a.res->0 as int };
    &&& s.amount_out is None ==> a.res is Some && k > 0 && acts[k - 1].tin() == s.token_out
    &&& b.res is Some && (s.max_amount_in is Some ==> b.res->0 <= (s.max_amount_in->0).0)
    &&& b.c.traded(&a.c, s.pool_id, s.token_in, s.token_out, b.res->0 as int, amt)
    &&& b.av.same_rest(a.av)
    &&& s.amount_out is None ==> b.av == a.av
    // the previous chain is settled in full before the next one starts
    &&& s.amount_out is Some ==> forall|t: AccountId| #[trigger] b.av.bal(t) == a.av.bal(t) - pending(acts, k, a, t) + (if t == s.token_out { amt } else { 0 })
}
pub open spec fn xstep(acts: Seq<Action>, k: int, a: XS, b: XS) -> bool { match acts[k] { Action::Swap(s) => step_in(a, b, s), Action::SwapByOutput(s) => step_out(acts, k, a, b, s) } }
/// st[0] .. st[n]: the states before and after each of the first n actions
pub open spec fn xpath(acts: Seq<Action>, st: Seq<XS>, n: int) -> bool { st.len() == n + 1 && n <= acts.len() && forall|k: int| 0 <= k < n ==> #[trigger] xstep(acts, k, st[k], st[k + 1]) }
pub open spec fn same_kind(acts: Seq<Action>) -> bool { forall|i: int| 0 <= i < acts.len() ==> ((#[trigger] acts[i]) is Swap <==> acts[0] is Swap) }
pub open spec fn by_out(acts: Seq<Action>) -> bool { acts[0] is SwapByOutput }
/// acts turned (c0, av0, r0) into (c1, av1, r1), one action after the other, chains settled in full
pub open spec fn executed(acts: Seq<Action>, c0: Contract, av0: AV, r0: Option<u128>, c1: Contract, av1: AV, r1: Option<u128>) -> bool {
    exists|st: Seq<XS>| #[trigger] xpath(acts, st, acts.len() as int) && st[0] == (XS { c: c0, av: av0, res: r0 }) && st.last().c == c1 && st.last().res == r1
        && av1.same_rest(st.last().av) && forall|t: AccountId| #[trigger] av1.bal(t) == st.last().av.bal(t) - (if by_out(acts) { pending(acts, acts.len() as int, st.last(), t) } else { 0 })
}
/// trading creates nothing: what the user and the pools record of t together does not grow
pub open spec fn no_gain(c0: Contract, av0: AV, c1: Contract, av1: AV) -> bool { forall|t: AccountId| #[trigger] c1.pooled(t) + av1.bal(t) * us() <= c0.pooled(t) + av0.bal(t) * us() }
@end
@fn SwapVolumeU256::default() -> r props=P24
    ensures r.vv() == (0int, 0int),
@fn SwapVolumeU256::from<&SwapVolume>(sv) -> r as=vfrom_sv props=P24
    ensures r.vv() == (sv.input.0 as int, sv.output.0 as int),
@verus shared
impl VFrom<&SwapVolume> for SwapVolumeU256 { open spec fn vfs(a: &SwapVolume, r: SwapVolumeU256) -> bool { r.vv() == (a.input.0 as int, a.output.0 as int) } fn vfromx(a: &SwapVolume) -> (r: SwapVolumeU256) { SwapVolumeU256::vfrom_sv(a) } }
@end
@fn internal_get_swap_volume_u256_vec_or_default(pool_id, svs) -> r props=P24 arg:vol=&LookupMap<u32,Vec<SwapVolumeU256>>
    ensures volv(r@) == if vol@.dom().contains(pool_id as u32) { volv(vol@[pool_id as u32]@) } else { svs128(svs@) },
@subst LookupMap :: new (SWAP_VOLUME_KEY . as_bytes ())=>vol
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == svs@, __v0@.len() == __i0, vol_from(__v0@, __s0@, __i0 as int),
@exit
    proof { assert(!vol@.dom().contains(pool_id as u32) ==> volv(r@) =~= svs128(svs@)); }
@fn internal_set_swap_volume_u256_vec(pool_id, sv_u256s) props=P24 arg:vol=&mut~LookupMap<u32,Vec<SwapVolumeU256>>
    ensures final(vol)@ == old(vol)@.insert(pool_id as u32, sv_u256s),
@subst LookupMap :: new (SWAP_VOLUME_KEY . as_bytes ())=>vol
@end
@fn internal_update_swap_volume_u256_vec(pool_id, update_input_idx, update_output_idx, amount_in, amount_out, sv_u256s) props=P24 arg:vol=&mut~LookupMap<u32,Vec<SwapVolumeU256>>
    ensures update_input_idx < sv_u256s@.len(), update_output_idx < sv_u256s@.len(), final(vol)@.dom() == old(vol)@.dom().insert(pool_id as u32),
        volv(final(vol)@[pool_id as u32]@) == counted(volv(sv_u256s@), update_input_idx as int, update_output_idx as int, amount_in as int, amount_out as int),
        forall|k: u32| k != pool_id as u32 && old(vol)@.dom().contains(k) ==> #[trigger] final(vol)@[k] == old(vol)@[k],
@subst internal_set_swap_volume_u256_vec (=>internal_set_swap_volume_u256_vec (vol , 
@entry
    let ghost v0 = sv_u256s@;
@exit
    proof { assert(volv(vol@[pool_id as u32]@) =~= counted(volv(v0), update_input_idx as int, update_output_idx as int, amount_in as int, amount_out as int)); }
@end
@fn Action::tokens(self) -> r props=P12
    ensures r@.len() == 2, r@[0] == self.tin(), r@[1] == self.tout(),
@fn Action::get_pool_id(self) -> r props=P14
    ensures r == self.pid(),
@fn Action::get_token_in(self) -> r props=P14
    ensures *r == self.tin(),
@fn Action::get_token_out(self) -> r props=P14
    ensures *r == self.tout(),
@fn Action::get_amount_out(self) -> r props=P14
    ensures *self is SwapByOutput && r == (self->SwapByOutput_0).amount_out,
@fn ActionResult::to_amount(self) -> r props=P14
    ensures self.amt() == Some(r),
@fn assert_all_same_action_type(actions) props=P14
    ensures same_kind(actions@),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == actions@, actions@.len() > 0, actions@[0] is Swap, __v0 ==> forall|i: int| 0 <= i < __i0 ==> (#[trigger] actions@[i]) is Swap,
@loop 1
    invariant
        __i1 <= __s1@.len(), __s1@ == actions@, actions@.len() > 0, actions@[0] is SwapByOutput, __v1 ==> forall|i: int| 0 <= i < __i1 ==> (#[trigger] actions@[i]) is SwapByOutput,
@fn get_tokens_in_actions(actions) -> r props=P19
    ensures forall|i: int| 0 <= i < actions@.len() ==> r@.contains((#[trigger] actions@[i]).tin()) && r@.contains(actions@[i].tout()),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == actions@, forall|i: int| 0 <= i < __i0 ==> tokens@.contains((#[trigger] actions@[i]).tin()) && tokens@.contains(actions@[i].tout()),
@fn internal_batch_update_degen_token_price(token_ids) trusted
@fn Contract::get_degen_tokens_in_actions(self, actions) -> r trusted
@fn Contract::internal_pool_swap(self, pool_id, token_in, amount_in, token_out, min_amount_out, referral_info) -> r props=P14,P12,P24
    requires old(self).cwf(), *referral_info is Some ==> ((*referral_info)->0).1 <= 10000,
    ensures /*P20*/ final(self).twap_seen(old(self), pool_id),
        /*P24*/ final(self).vol_right(old(self), pool_id, *token_in, *token_out, amount_in as int, r as int),
        final(self).cwf(), final(self).traded(old(self), pool_id, *token_in, *token_out, amount_in as int, r as int), r >= min_amount_out,
        old(self).frozen_tokens@ == final(self).frozen_tokens@,
@subst internal_get_swap_volume_u256_vec_or_default (=>internal_get_swap_volume_u256_vec_or_default (& self . vol , 
@subst internal_update_swap_volume_u256_vec (=>internal_update_swap_volume_u256_vec (& mut self . vol , 
@entry
    let ghost c0 = *old(self);
    let ghost mut gi: int = 0;
    let ghost mut gj: int = 0;
@after_loop 0
    proof { gi = __v0->0 as int; gj = gi; }
@after_loop 1
    proof { gj = __v1->0 as int; }
@loop 0
    invariant
        __i0 <= __s0@.len(), __v0 is Some ==> __v0->0 < __i0 && __s0@[__v0->0 as int] == *token_in,
@loop 1
    invariant
        __i1 <= __s1@.len(), __v1 is Some ==> __v1->0 < __i1 && __s1@[__v1->0 as int] == *token_out,
@exit
    proof {
        let p = pool_id as int; let o = c0.pools@[p]; let n = self.pools@[p];
        assert(self.pools@ =~= c0.pools@.update(p, n));
        assert(exists|i: int, j: int| #[trigger] swapped(o, n, i, j, *token_in, *token_out, amount_in as int, r as int));
        assert(self.trade_frame(&c0));
        /*P24*/ assert(self.volume(pool_id) == counted(c0.volume(pool_id), gi, gj, amount_in as int, r as int));
        /*P24*/ assert(self.vol_counted(&c0, pool_id, gi, gj, amount_in as int, r as int));
        /*P20*/ assert(self.twap_seen(&c0, pool_id));
        assert(self.traded(&c0, pool_id, *token_in, *token_out, amount_in as int, r as int));
    }
@fn Contract::internal_pool_swap_by_output(self, pool_id, token_in, amount_out, token_out, max_amount_in, referral_info) -> r props=P14,P12,P24
    requires old(self).cwf(), *referral_info is Some ==> ((*referral_info)->0).1 <= 10000,
    ensures /*P20*/ final(self).twap_seen(old(self), pool_id),
        /*P24*/ final(self).vol_right(old(self), pool_id, *token_in, *token_out, r as int, amount_out as int),
        final(self).cwf(), final(self).traded(old(self), pool_id, *token_in, *token_out, r as int, amount_out as int), max_amount_in is Some ==> r <= max_amount_in->0,
        old(self).frozen_tokens@ == final(self).frozen_tokens@,
@subst internal_get_swap_volume_u256_vec_or_default (=>internal_get_swap_volume_u256_vec_or_default (& self . vol , 
@subst internal_update_swap_volume_u256_vec (=>internal_update_swap_volume_u256_vec (& mut self . vol , 
@entry
    let ghost c0 = *old(self);
    let ghost mut gi: int = 0;
    let ghost mut gj: int = 0;
@after_loop 0
    proof { gi = __v0->0 as int; gj = gi; }
@after_loop 1
    proof { gj = __v1->0 as int; }
@loop 0
    invariant
        __i0 <= __s0@.len(), __v0 is Some ==> __v0->0 < __i0 && __s0@[__v0->0 as int] == *token_in,
@loop 1
    invariant
        __i1 <= __s1@.len(), __v1 is Some ==> __v1->0 < __i1 && __s1@[__v1->0 as int] == *token_out,
@exit
    proof {
        let p = pool_id as int; let o = c0.pools@[p]; let n = self.pools@[p];
        assert(self.pools@ =~= c0.pools@.update(p, n));
        assert(exists|i: int, j: int| #[trigger] swapped(o, n, i, j, *token_in, *token_out, r as int, amount_out as int));
        assert(self.trade_frame(&c0));
        /*P24*/ assert(self.volume(pool_id) == counted(c0.volume(pool_id), gi, gj, r as int, amount_out as int));
        /*P24*/ assert(self.vol_counted(&c0, pool_id, gi, gj, r as int, amount_out as int));
        /*P20*/ assert(self.twap_seen(&c0, pool_id));
        assert(self.traded(&c0, pool_id, *token_in, *token_out, r as int, amount_out as int));
    }
@fn Contract::finalize_prev_swap_chain(self, account, prev_action, prev_result) props=P14,P12
    requires old(account).av().wf(),
    ensures *final(self) == *old(self), final(account).av().wf(), old(account).av().noleg() ==> final(account).av().noleg(), final(account).av().same_rest(old(account).av()),
        prev_action is Some ==> prev_result.amt() is Some && (prev_result.amt()->0 > 0 ==> old(account).av().bal((*(prev_action->0)).tin()) >= prev_result.amt()->0),
        forall|t: AccountId| #[trigger] final(account).av().bal(t) == old(account).av().bal(t) - (if prev_action is Some && (*(prev_action->0)).tin() == t { prev_result.amt()->0 as int } else { 0 }),
@fn Contract::internal_execute_action(self, account, referral_info, action, prev_result) -> r props=P14,P12
    requires old(self).cwf(), old(account).av().wf(), *referral_info is Some ==> ((*referral_info)->0).1 <= 10000,
    ensures final(self).cwf(), final(account).av().wf(), r.amt() is Some, old(account).av().noleg() ==> final(account).av().noleg(),
        *action is Swap ==> step_in(XS { c: *old(self), av: old(account).av(), res: prev_result.amt() }, XS { c: *final(self), av: final(account).av(), res: r.amt() }, action->Swap_0),
        *action is SwapByOutput ==> ({ let s = action->SwapByOutput_0; let amt = match s.amount_out { Some(x) => x.0 as int, None => prev_result.amt()->0 as int };
            &&& *final(account) == *old(account)
            &&& s.amount_out is None ==> prev_result.amt() is Some
            &&& s.max_amount_in is Some ==> r.amt()->0 <= (s.max_amount_in->0).0
            &&& final(self).traded(old(self), s.pool_id, s.token_in, s.token_out, r.amt()->0 as int, amt) }),
@fn Contract::internal_execute_actions(self, account, referral_info, actions, prev_result, skip_degen_price_sync) -> r props=P14,P12
    requires old(self).cwf(), old(account).av().wf(), *referral_info is Some ==> ((*referral_info)->0).1 <= 10000,
    ensures final(self).cwf(), final(account).av().wf(), actions@.len() > 0, same_kind(actions@), final(account).av().same_rest(old(account).av()), old(account).av().noleg() ==> final(account).av().noleg(),
        /*P19*/ forall|i: int| 0 <= i < actions@.len() ==> !old(self).frozen((#[trigger] actions@[i]).tin()) && !old(self).frozen(actions@[i].tout()),
        executed(actions@, *old(self), old(account).av(), prev_result.amt(), *final(self), final(account).av(), r.amt()),
        final(self).trade_frame(old(self)),
@entry
    let ghost c0 = *old(self);
    let ghost a0 = old(account).av();
    let ghost r0 = prev_result.amt();
    let ghost mut fs: Set<AccountId> = Set::empty();
    let ghost mut fv: Seq<AccountId> = Seq::empty();
    let ghost mut st: Seq<XS> = seq![XS { c: c0, av: a0, res: r0 }];
@loop 0
    invariant
        __v0@.len() == __i0, __i0 == 0 || (__i0 <= __s0.ord().len() && is_order(__s0.ord(), __s0@) && __v0@ =~= __s0.ord().subrange(0, __i0 as int)),
@after_loop 0
    proof {
        fs = __s0@; fv = __v0@;
        assert forall|t: AccountId| fs.contains(t) implies exists|i: int| 0 <= i < fv.len() && #[trigger] fv[i] == t by { let i = choose|i: int| 0 <= i < __s0.ord().len() && __s0.ord()[i] == t; assert(fv[i] == t); }
    }
@loop 1
    invariant
        self.cwf(), account.av().wf(), account.av().same_rest(a0), a0.noleg() ==> account.av().noleg(), *referral_info is Some ==> ((*referral_info)->0).1 <= 10000, __i1 <= __s1@.len(), __s1@ == actions@, same_kind(actions@), actions@[0] is Swap,
        xpath(actions@, st, __i1 as int), st[0] == (XS { c: c0, av: a0, res: r0 }), st.last() == (XS { c: *self, av: account.av(), res: result.amt() }),
        self.trade_frame(&c0),
@loop_end 1
    proof {
        let n = XS { c: *self, av: account.av(), res: result.amt() };
        assert(xstep(actions@, __i1 - 1, st.last(), n));
        let s2 = st.push(n);
        assert forall|k: int| 0 <= k < __i1 implies #[trigger] xstep(actions@, k, s2[k], s2[k + 1]) by { if k < __i1 - 1 { assert(xstep(actions@, k, st[k], st[k + 1])); } }
        frame_trans(n.c, st.last().c, c0);
        st = s2;
    }
@loop 2
    invariant
        self.cwf(), account.av().wf(), account.av().same_rest(a0), a0.noleg() ==> account.av().noleg(), *referral_info is Some ==> ((*referral_info)->0).1 <= 10000, __i2 <= __s2@.len(), __s2@ == actions@, same_kind(actions@), actions@[0] is SwapByOutput,
        xpath(actions@, st, __i2 as int), st[0] == (XS { c: c0, av: a0, res: r0 }), st.last() == (XS { c: *self, av: account.av(), res: result.amt() }),
        prev_action is Some <==> __i2 > 0, prev_action is Some ==> *(prev_action->0) == actions@[__i2 - 1] && result.amt() is Some,
        self.trade_frame(&c0),
@loop_end 2
    proof {
        let n = XS { c: *self, av: account.av(), res: result.amt() };
        assert(xstep(actions@, __i2 - 1, st.last(), n));
        let s2 = st.push(n);
        assert forall|k: int| 0 <= k < __i2 implies #[trigger] xstep(actions@, k, s2[k], s2[k + 1]) by { if k < __i2 - 1 { assert(xstep(actions@, k, st[k], st[k + 1])); } }
        frame_trans(n.c, st.last().c, c0);
        st = s2;
    }
@exit
    proof {
        assert(xpath(actions@, st, actions@.len() as int));
        assert forall|i: int| 0 <= i < actions@.len() implies !c0.frozen((#[trigger] actions@[i]).tin()) && !c0.frozen(actions@[i].tout()) by {
            assert(fs.contains(actions@[i].tin()) && fs.contains(actions@[i].tout()));
            let k = choose|k: int| 0 <= k < fv.len() && #[trigger] fv[k] == actions@[i].tin(); assert(!c0.frozen(fv[k]));
            let k2 = choose|k: int| 0 <= k < fv.len() && #[trigger] fv[k] == actions@[i].tout(); assert(!c0.frozen(fv[k2]));
        }
    }
@verus shared
pub proof fn frame_trans(a: Contract, b: Contract, c: Contract)
    requires a.trade_frame(&b), b.trade_frame(&c)
    ensures a.trade_frame(&c)
{
    assert forall|p: int| 0 <= p < c.npools() implies #[trigger] pool_kind_same(a.pools@[p], c.pools@[p]) && no_one_loses(a.pools@[p], c.pools@[p]) && a.pools@[p].fee() == c.pools@[p].fee() by {
        assert(pool_kind_same(a.pools@[p], b.pools@[p])); assert(pool_kind_same(b.pools@[p], c.pools@[p]));
        assert forall|id: AccountId| #[trigger] mget(a.pools@[p].sh(), id) >= mget(c.pools@[p].sh(), id) by { assert(mget(a.pools@[p].sh(), id) >= mget(b.pools@[p].sh(), id)); assert(mget(b.pools@[p].sh(), id) >= mget(c.pools@[p].sh(), id)); }
    }
}
// ---------------------------------------------------------------- trading creates nothing
proof fn holds_swapped(o: Pool, n: Pool, i: int, j: int, tin: AccountId, tout: AccountId, a: int, b: int, t: AccountId, m: int)
    requires swapped(o, n, i, j, tin, tout, a, b), pool_kind_same(n, o), 0 <= m <= o.res().len(), a >= 0, b >= 0
    ensures pool_holds(n, t, m) <= pool_holds(o, t, m) + (if i < m && t == tin { a * us() } else { 0 }) - (if j < m && t == tout { b * us() } else { 0 })
    decreases m
{
    if m > 0 {
        holds_swapped(o, n, i, j, tin, tout, a, b, t, m - 1);
        assert(m - 1 != i && m - 1 != j ==> n.res()[m - 1] == o.res()[m - 1]);
    }
}
proof fn in_pools_step(o: Seq<Pool>, n: Seq<Pool>, p: int, t: AccountId, m: int)
    requires o.len() == n.len(), 0 <= p < o.len(), n == o.update(p, n[p]), 0 <= m <= o.len()
    ensures in_pools(n, t, m) == in_pools(o, t, m) + (if p < m { in_pool(n[p], t) - in_pool(o[p], t) } else { 0 })
    decreases m
{
    if m > 0 { in_pools_step(o, n, p, t, m - 1); if m - 1 != p { assert(n[m - 1] == o[m - 1]); } }
}
proof fn pooled_traded(c: Contract, o: Contract, p: u64, tin: AccountId, tout: AccountId, a: int, b: int, t: AccountId)
    requires c.traded(&o, p, tin, tout, a, b), a >= 0, b >= 0
    ensures c.pooled(t) <= o.pooled(t) + (if t == tin { a * us() } else { 0 }) - (if t == tout { b * us() } else { 0 })
{
    let q = p as int;
    let (i, j) = choose|i: int, j: int| #[trigger] swapped(o.pools@[q], c.pools@[q], i, j, tin, tout, a, b);
    assert(pool_kind_same(c.pools@[q], o.pools@[q]));
    holds_swapped(o.pools@[q], c.pools@[q], i, j, tin, tout, a, b, t, o.pools@[q].res().len() as int);
    in_pools_step(o.pools@, c.pools@, q, t, o.pools@.len() as int);
}
/// for an arbitrary sequence of actions: nothing is created, whatever the pools
pub proof fn p12_trading_creates_nothing(acts: Seq<Action>, st: Seq<XS>, n: int, t: AccountId)
    requires xpath(acts, st, n), same_kind(acts), n >= 0
    ensures st[n].c.pooled(t) + st[n].av.bal(t) * us() - (if by_out(acts) { pending(acts, n, st[n], t) * us() } else { 0 }) <= st[0].c.pooled(t) + st[0].av.bal(t) * us()
    decreases n
{
    if n > 0 {
        let pre = st.subrange(0, n);
        assert(xpath(acts, pre, n - 1)) by { assert forall|k: int| 0 <= k < n - 1 implies #[trigger] xstep(acts, k, pre[k], pre[k + 1]) by { assert(xstep(acts, k, st[k], st[k + 1])); } }
        p12_trading_creates_nothing(acts, pre, n - 1, t);
        let a = st[n - 1]; let b = st[n];
        assert(pre[n - 1] == a && pre[0] == st[0]);
        assert(xstep(acts, n - 1, a, st[n - 1 + 1]));
        assert(acts[n - 1] is Swap <==> acts[0] is Swap);
        match acts[n - 1] {
            Action::Swap(s) => {
                let amt = match s.amount_in { Some(x) => x.0 as int, None => a.res->0 as int };
                pooled_traded(b.c, a.c, s.pool_id, s.token_in, s.token_out, amt, b.res->0 as int, t);
                assert(b.av.bal(t) == a.av.bal(t) - (if t == s.token_in { amt } else { 0 }) + (if t == s.token_out { b.res->0 as int } else { 0 }));
                let r = b.res->0 as int; let ab = a.av.bal(t);
                assert((ab - amt) * us() == ab * us() - amt * us() && (ab + r) * us() == ab * us() + r * us() && (ab - amt + r) * us() == ab * us() - amt * us() + r * us()) by(nonlinear_arith);
            }
            Action::SwapByOutput(s) => {
                let amt = match s.amount_out { Some(x) => x.0 as int, None => a.res->0 as int };
                let r = b.res->0 as int; let ab = a.av.bal(t); let pd = pending(acts, n - 1, a, t);
                pooled_traded(b.c, a.c, s.pool_id, s.token_in, s.token_out, r, amt, t);
                assert(s.amount_out is Some ==> b.av.bal(t) == ab - pd + (if t == s.token_out { amt } else { 0 }));
                assert((ab - pd) * us() == ab * us() - pd * us() && (ab - pd + amt) * us() == ab * us() - pd * us() + amt * us()) by(nonlinear_arith);
            }
        }
    }
}
pub proof fn p12_executed_no_gain(acts: Seq<Action>, c0: Contract, av0: AV, r0: Option<u128>, c1: Contract, av1: AV, r1: Option<u128>)
    requires executed(acts, c0, av0, r0, c1, av1, r1), same_kind(acts)
    ensures no_gain(c0, av0, c1, av1)
{
    let st = choose|st: Seq<XS>| #[trigger] xpath(acts, st, acts.len() as int) && st[0] == (XS { c: c0, av: av0, res: r0 }) && st.last().c == c1 && st.last().res == r1
        && av1.same_rest(st.last().av) && forall|t: AccountId| #[trigger] av1.bal(t) == st.last().av.bal(t) - (if by_out(acts) { pending(acts, acts.len() as int, st.last(), t) } else { 0 });
    assert forall|t: AccountId| #[trigger] c1.pooled(t) + av1.bal(t) * us() <= c0.pooled(t) + av0.bal(t) * us() by {
        p12_trading_creates_nothing(acts, st, acts.len() as int, t);
        let x = st.last().av.bal(t); let y = pending(acts, acts.len() as int, st.last(), t);
        assert((x - y) * us() == x * us() - y * us()) by(nonlinear_arith);
        assert(av1.bal(t) == x - (if by_out(acts) { y } else { 0 }));
    }
}
@end
@fn Contract::execute_actions(self, actions, referral_id, skip_degen_price_sync) -> r props=P14,P12
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), /*P19*/ old(self).running(), old(self).has(s_pred()), final(self).has(s_pred()), final(self).av(s_pred()).covered(),
        /*P19*/ forall|i: int| 0 <= i < actions@.len() ==> !old(self).frozen((#[trigger] actions@[i]).tin()) && !old(self).frozen(actions@[i].tout()),
        exists|c1: Contract| #[trigger] executed(actions@, *old(self), old(self).av(s_pred()), None, c1, final(self).av(s_pred()), r.amt()) && c1.trade_frame(old(self)) && final(self).acct_set(&c1, s_pred(), final(self).av(s_pred())),
        *final(self) == (Contract { pools: final(self).pools, unit_share_cumulative_infos: final(self).unit_share_cumulative_infos, vol: final(self).vol, accounts: final(self).accounts, ..*old(self) }),
        no_gain(*old(self), old(self).av(s_pred()), *final(self), final(self).av(s_pred())),
        forall|id: AccountId, t: AccountId| id != s_pred() ==> #[trigger] final(self).abal(id, t) == old(self).abal(id, t),
@entry
    let ghost c0 = *old(self);
    let ghost a0 = c0.av(s_pred());
@exit
    proof {
        let c1 = choose|c1: Contract| #[trigger] executed(actions@, c0, a0, None, c1, self.av(s_pred()), r.amt()) && c1.trade_frame(&c0) && self.acct_set(&c1, s_pred(), self.av(s_pred()));
        p12_executed_no_gain(actions@, c0, a0, None, c1, self.av(s_pred()), r.amt());
        assert forall|t: AccountId| #[trigger] self.pooled(t) + self.av(s_pred()).bal(t) * us() <= c0.pooled(t) + a0.bal(t) * us() by { assert(c1.pooled(t) == self.pooled(t)); }
        kept_shadow(c0, c1, *self, s_pred());
    }
@verus shared
/// trading takes no one's shares and leaves the shadow records alone
pub proof fn kept_shadow(c0: Contract, c1: Contract, c2: Contract, id0: AccountId)
    requires c0.shadow_ok(), c1.trade_frame(&c0), c2.acct_set(&c1, id0, c2.av(id0)), c0.has(id0), c2.av(id0).shadow == c0.av(id0).shadow
    ensures c2.shadow_ok()
{
    assert forall|p: int, id: AccountId| 0 <= p < c2.npools() implies free_of(#[trigger] c2.rec(p, id), c2.shares(p, id)) >= 0 by {
        assert(free_of(c0.rec(p, id), c0.shares(p, id)) >= 0);
        assert(c2.rec(p, id) == c0.rec(p, id));
        assert(pool_kind_same(c1.pools@[p], c0.pools@[p]));
        assert(mget(c1.pools@[p].sh(), id) >= mget(c0.pools@[p].sh(), id));
    }
    assert forall|p: int| 0 <= p < c2.npools() implies #[trigger] c2.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, s_me()) == c2.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| c2.npools() <= p <= u64::MAX implies #[trigger] c2.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, id) == c2.rec(p, id)); }
}
@end
