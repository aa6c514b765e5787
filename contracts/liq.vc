@include xbase.vc
@import acct.vc *
@import ledger.vc *
@import twap.vc *
@import pool_api.vc *
@file ref-exchange/src/pool.rs
@verus
/// min amounts hold pairwise
pub open spec fn at_least(a: Seq<u128>, m: Seq<U128>) -> bool { forall|i: int| 0 <= i < a.len() && i < m.len() ==> #[trigger] a[i] >= m[i].0 }
impl Contract {
    /// what every liquidity operation on pool p leaves alone
    pub open spec fn liq_frame(&self, o: &Contract, p: u64, who: AccountId) -> bool {
        &&& p < o.npools() && o.has(who) && self.has(who)
        &&& *self == (Contract { pools: self.pools, accounts: self.accounts, unit_share_cumulative_infos: self.unit_share_cumulative_infos, ..*o })
        &&& self.pools@ == o.pools@.update(p as int, self.pools@[p as int]) && pool_kind_same(self.pools@[p as int], o.pools@[p as int])
        &&& forall|id: AccountId, t: AccountId| id != who ==> #[trigger] self.abal(id, t) == o.abal(id, t)
        &&& self.av(who).covered()
    }
    pub open spec fn thawed(&self, p: u64) -> bool { forall|i: int| 0 <= i < self.pools@[p as int].toks().len() ==> !self.frozen(#[trigger] self.pools@[p as int].toks()[i]) }
    /// user paid a into pool p, which took at most that
    pub open spec fn paid(&self, o: &Contract, p: u64, who: AccountId, a: Seq<u128>) -> bool {
        &&& took(o.pools@[p as int], self.pools@[p as int], a)
        &&& forall|t: AccountId| #[trigger] self.abal(who, t) == o.abal(who, t) - got(o.pools@[p as int].toks(), a, a.len() as int, t)
    }
    /// user got a out of pool p, which gave at least that
    pub open spec fn drew(&self, o: &Contract, p: u64, who: AccountId, a: Seq<u128>) -> bool {
        &&& gave(o.pools@[p as int], self.pools@[p as int], a)
        &&& forall|t: AccountId| #[trigger] self.abal(who, t) == o.abal(who, t) + got(o.pools@[p as int].toks(), a, a.len() as int, t)
    }
}
@end
@fn AdminFees::new(admin_fee_bps) -> r props=P11
    ensures r.admin_fee_bps == admin_fee_bps, r.exchange_id == s_me(), r.referral_info is None,
@fn Contract::add_liquidity(self, pool_id, amounts, min_amounts) -> r props=P12,P04,P14
    requires old(self).cwf(), old(self).shadow_ok(), s_pred() != s_me(), forall|a: int| 0 <= a <= s_deposit() ==> may_send(s_pred(), a),
    ensures s_deposit() > 0, final(self).cwf(), /*P17*/ final(self).shadow_ok(),
        /*P19*/ old(self).running(),
        final(self).liq_frame(old(self), pool_id, s_pred()),
        /*P19*/ old(self).thawed(pool_id),
        /*P20*/ final(self).twap_seen(old(self), pool_id),
        ({ let o = old(self).pools@[pool_id as int]; let n = final(self).pools@[pool_id as int];
           &&& exists|a: Seq<u128>| #[trigger] final(self).paid(old(self), pool_id, s_pred(), a) && (min_amounts is Some ==> at_least(a, (min_amounts->0)@)) && a.len() == amounts@.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] <= amounts@[i].0)
           &&& r.0 > 0 && n.supply() == o.supply() + r.0 && n.sh() == o.sh().insert(s_pred(), (mget(o.sh(), s_pred()) + r.0) as u128) && mget(o.sh(), s_pred()) + r.0 <= u128::MAX }),
@entry
    let ghost c0 = *old(self);
    let ghost p0 = pool_id as int;
    let ghost mut acc0 = c0.av(s_pred());
    let ghost mut ga: Seq<u128> = Seq::empty();
    let ghost am0 = amounts@;
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == am0, __v0@.len() == __i0, all128(__s0@, __v0@, __i0 as int),
@loop 1
    invariant
        __i1 <= __s1@.len(), __i1 <= __s501@.len(), __s1@ == amounts@, __s501@ == min_amounts@, forall|k: int| 0 <= k < __i1 ==> #[trigger] __s1@[k] >= __s501@[k].0,
@before_loop 2
    proof { acc0 = deposits.av(); ga = amounts@; assert(forall|t: AccountId| #[trigger] acc0.bal(t) == c0.abal(s_pred(), t)); }
@loop 2
    invariant
        __i2 <= __n2, __n2 == tokens@.len(), tokens@ == c0.pools@[p0].toks(), amounts@.len() == tokens@.len(), ga == amounts@,
        deposits.av().wf(), deposits.av().shadow == acc0.shadow, deposits.av().near == acc0.near,
        forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) - got(tokens@, ga, __i2 as int, t),
@loop_entry 2
    let ghost acc1 = deposits.av();
@loop_end 2
    proof { assert forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) - got(tokens@, ga, __i2 as int, t) by { assert(acc1.bal(t) == acc0.bal(t) - got(tokens@, ga, __i2 as int - 1, t)); } }
@exit
    proof {
        let o = c0.pools@[p0]; let n = self.pools@[p0];
        assert(self.pools@ =~= c0.pools@.update(p0, n));
        assert(took(o, n, ga));
        assert forall|t: AccountId| #[trigger] self.abal(s_pred(), t) == c0.abal(s_pred(), t) - got(o.toks(), ga, o.toks().len() as int, t) by { assert(acc0.bal(t) == c0.abal(s_pred(), t)); }
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(free_of(c0.rec(p, id), c0.shares(p, id)) >= 0);
            assert(self.rec(p, id) == c0.rec(p, id));
            assert(p == p0 ==> mget(n.sh(), id) >= mget(o.sh(), id) || id == s_pred());
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, id) == self.rec(p, id)); }
        assert(ga.len() == o.toks().len());
        assert(self.paid(&c0, pool_id, s_pred(), ga));
        assert forall|id: AccountId, t: AccountId| id != s_pred() implies #[trigger] self.abal(id, t) == c0.abal(id, t) by { }
    }
@fn Contract::add_stable_liquidity(self, pool_id, amounts, min_shares) -> r props=P12,P07,P14
    requires old(self).cwf(), old(self).shadow_ok(), s_pred() != s_me(), forall|a: int| 0 <= a <= s_deposit() ==> may_send(s_pred(), a),
    ensures s_deposit() > 0, final(self).cwf(), /*P17*/ final(self).shadow_ok(),
        /*P19*/ old(self).running(),
        final(self).liq_frame(old(self), pool_id, s_pred()),
        /*P19*/ old(self).thawed(pool_id),
        /*P20*/ final(self).twap_seen(old(self), pool_id),
        /*P21*/ final(self).pools@[pool_id as int].tvl_ok(pool_id),
        ({ let o = old(self).pools@[pool_id as int]; let n = final(self).pools@[pool_id as int];
           &&& exists|a: Seq<u128>| #[trigger] final(self).paid(old(self), pool_id, s_pred(), a) && all128(amounts@, a, a.len() as int) && a.len() == amounts@.len()
           &&& r.0 >= min_shares.0 && mget(n.sh(), s_pred()) >= mget(o.sh(), s_pred()) + r.0 && no_one_loses(n, o) }),
@entry
    let ghost c0 = *old(self);
    let ghost p0 = pool_id as int;
    let ghost mut acc0 = c0.av(s_pred());
    let ghost mut ga: Seq<u128> = Seq::empty();
    let ghost am0 = amounts@;
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == am0, __v0@.len() == __i0, all128(__s0@, __v0@, __i0 as int),
@before_loop 1
    proof { acc0 = deposits.av(); ga = amounts@; assert(forall|t: AccountId| #[trigger] acc0.bal(t) == c0.abal(s_pred(), t)); }
@loop 1
    invariant
        __i1 <= __n1, __n1 == tokens@.len(), tokens@ == c0.pools@[p0].toks(), amounts@.len() == tokens@.len(), ga == amounts@,
        deposits.av().wf(), deposits.av().shadow == acc0.shadow, deposits.av().near == acc0.near,
        forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) - got(tokens@, ga, __i1 as int, t),
@loop_entry 1
    let ghost acc1 = deposits.av();
@loop_end 1
    proof { assert forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) - got(tokens@, ga, __i1 as int, t) by { assert(acc1.bal(t) == acc0.bal(t) - got(tokens@, ga, __i1 as int - 1, t)); } }
@exit
    proof {
        let o = c0.pools@[p0]; let n = self.pools@[p0];
        assert(self.pools@ =~= c0.pools@.update(p0, n));
        assert(took(o, n, ga));
        assert(all128(amounts@, ga, ga.len() as int));
        assert forall|t: AccountId| #[trigger] self.abal(s_pred(), t) == c0.abal(s_pred(), t) - got(o.toks(), ga, o.toks().len() as int, t) by { assert(acc0.bal(t) == c0.abal(s_pred(), t)); }
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(free_of(c0.rec(p, id), c0.shares(p, id)) >= 0);
            assert(self.rec(p, id) == c0.rec(p, id));
            assert(p == p0 ==> mget(n.sh(), id) >= mget(o.sh(), id) || id == s_pred());
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, id) == self.rec(p, id)); }
        assert(ga.len() == o.toks().len());
        assert(self.paid(&c0, pool_id, s_pred(), ga));
        assert forall|id: AccountId, t: AccountId| id != s_pred() implies #[trigger] self.abal(id, t) == c0.abal(id, t) by { }
    }
@fn Contract::remove_liquidity(self, pool_id, shares, min_amounts) -> r props=P12,P05,P10,P14
    requires old(self).cwf(), old(self).shadow_ok(), s_pred() != s_me(),
    ensures s_deposit() == 1, final(self).cwf(), /*P17*/ final(self).shadow_ok(),
        /*P19*/ old(self).running(),
        final(self).liq_frame(old(self), pool_id, s_pred()),
        /*P19*/ old(self).thawed(pool_id),
        /*P20*/ final(self).twap_seen(old(self), pool_id),
        ({ let o = old(self).pools@[pool_id as int]; let n = final(self).pools@[pool_id as int];
           &&& exists|a: Seq<u128>| #[trigger] final(self).drew(old(self), pool_id, s_pred(), a) && at_least(a, min_amounts@) && all128(r@, a, a.len() as int) && a.len() == r@.len() && a == o.redeem(shares.0 as int) && a.len() == min_amounts@.len()
           &&& n.supply() == o.supply() - shares.0 && n.sh() == o.sh().insert(s_pred(), (mget(o.sh(), s_pred()) - shares.0) as u128)
           &&& /*P17*/ shares.0 <= free_of(old(self).rec(pool_id as int, s_pred()), old(self).shares(pool_id as int, s_pred())) }),
@entry
    let ghost c0 = *old(self);
    let ghost p0 = pool_id as int;
    let ghost mut acc0 = c0.av(s_pred());
    let ghost mut ga: Seq<u128> = Seq::empty();
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == min_amounts@, __v0@.len() == __i0, all128(__s0@, __v0@, __i0 as int),
@before_loop 1
    proof { acc0 = deposits.av(); ga = amounts@; assert(forall|t: AccountId| #[trigger] acc0.bal(t) == c0.abal(s_pred(), t)); }
@loop 1
    invariant
        __i1 <= __n1, __n1 == tokens@.len(), tokens@ == c0.pools@[p0].toks(), amounts@.len() == tokens@.len(), ga == amounts@,
        deposits.av().wf(), deposits.av().shadow == acc0.shadow, deposits.av().near == acc0.near,
        forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int, t),
@loop_entry 1
    let ghost acc1 = deposits.av();
@loop_end 1
    proof { assert forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int, t) by { assert(acc1.bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int - 1, t)); } }
@loop 2
    invariant
        __i2 <= __s2@.len(), __s2@ == ga, __v2@.len() == __i2, all128(__v2@, __s2@, __i2 as int),
@exit
    proof {
        let o = c0.pools@[p0]; let n = self.pools@[p0];
        assert(self.pools@ =~= c0.pools@.update(p0, n));
        assert(gave(o, n, ga));
        assert(at_least(ga, min_amounts@)); assert(free_of(c0.rec(p0, s_pred()), c0.shares(p0, s_pred())) >= 0);
        assert forall|t: AccountId| #[trigger] self.abal(s_pred(), t) == c0.abal(s_pred(), t) + got(o.toks(), ga, o.toks().len() as int, t) by { assert(acc0.bal(t) == c0.abal(s_pred(), t)); }
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(free_of(c0.rec(p, id), c0.shares(p, id)) >= 0);
            assert(self.rec(p, id) == c0.rec(p, id));
            assert(p == p0 ==> mget(n.sh(), id) >= mget(o.sh(), id) || id == s_pred());
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, id) == self.rec(p, id)); }
        assert(ga.len() == o.toks().len());
        assert(self.drew(&c0, pool_id, s_pred(), ga));
        assert forall|id: AccountId, t: AccountId| id != s_pred() implies #[trigger] self.abal(id, t) == c0.abal(id, t) by { }
    }
@fn Contract::remove_liquidity_by_tokens(self, pool_id, amounts, max_burn_shares) -> r props=P12,P10,P14
    requires old(self).cwf(), old(self).shadow_ok(), s_pred() != s_me(),
    ensures s_deposit() == 1, final(self).cwf(), /*P17*/ final(self).shadow_ok(),
        /*P19*/ old(self).running(),
        final(self).liq_frame(old(self), pool_id, s_pred()),
        /*P19*/ old(self).thawed(pool_id),
        /*P20*/ final(self).twap_seen(old(self), pool_id),
        ({ let o = old(self).pools@[pool_id as int]; let n = final(self).pools@[pool_id as int];
           &&& exists|a: Seq<u128>| #[trigger] final(self).drew(old(self), pool_id, s_pred(), a) && all128(amounts@, a, a.len() as int) && a.len() == amounts@.len()
           &&& r.0 <= max_burn_shares.0 && mget(n.sh(), s_pred()) == mget(o.sh(), s_pred()) - r.0
           &&& /*P17*/ r.0 <= free_of(old(self).rec(pool_id as int, s_pred()), old(self).shares(pool_id as int, s_pred())) }),
@entry
    let ghost c0 = *old(self);
    let ghost p0 = pool_id as int;
    let ghost mut acc0 = c0.av(s_pred());
    let ghost mut ga: Seq<u128> = Seq::empty();
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == amounts@, __v0@.len() == __i0, all128(__s0@, __v0@, __i0 as int),
@after_loop 0
    proof { ga = __v0@; }
@before_loop 1
    proof { acc0 = deposits.av(); assert(forall|t: AccountId| #[trigger] acc0.bal(t) == c0.abal(s_pred(), t)); }
@loop 1
    invariant
        __i1 <= __n1, __n1 == tokens@.len(), tokens@ == c0.pools@[p0].toks(), amounts@.len() == tokens@.len(), ga.len() == tokens@.len(), all128(amounts@, ga, ga.len() as int),
        deposits.av().wf(), deposits.av().shadow == acc0.shadow, deposits.av().near == acc0.near,
        forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int, t),
@loop_entry 1
    let ghost acc1 = deposits.av();
@loop_end 1
    proof { assert forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int, t) by { assert(acc1.bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int - 1, t)); } }
@exit
    proof {
        let o = c0.pools@[p0]; let n = self.pools@[p0];
        assert(self.pools@ =~= c0.pools@.update(p0, n));
        assert(gave(o, n, ga));
        assert(free_of(c0.rec(p0, s_pred()), c0.shares(p0, s_pred())) >= 0);
        assert forall|t: AccountId| #[trigger] self.abal(s_pred(), t) == c0.abal(s_pred(), t) + got(o.toks(), ga, o.toks().len() as int, t) by { assert(acc0.bal(t) == c0.abal(s_pred(), t)); }
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(free_of(c0.rec(p, id), c0.shares(p, id)) >= 0);
            assert(self.rec(p, id) == c0.rec(p, id));
            assert(p == p0 ==> mget(n.sh(), id) >= mget(o.sh(), id) || id == s_pred());
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, id) == self.rec(p, id)); }
        assert(ga.len() == o.toks().len());
        assert(self.drew(&c0, pool_id, s_pred(), ga));
        assert forall|id: AccountId, t: AccountId| id != s_pred() implies #[trigger] self.abal(id, t) == c0.abal(id, t) by { }
    }
@fn Contract::remove_exchange_fee_liquidity(self, pool_id, shares, min_amounts) props=P12,P18,P05,P10
    requires old(self).cwf(), old(self).shadow_ok(),
    ensures final(self).cwf(), /*P17*/ final(self).shadow_ok(), s_deposit() == 1, /*P18*/ old(self).by_admin(), /*P19*/ old(self).running(),
        final(self).liq_frame(old(self), pool_id, old(self).owner_id), final(self).unit_share_cumulative_infos == old(self).unit_share_cumulative_infos,
        ({ let o = old(self).pools@[pool_id as int]; let n = final(self).pools@[pool_id as int];
           &&& exists|a: Seq<u128>| #[trigger] final(self).drew(old(self), pool_id, old(self).owner_id, a) && at_least(a, min_amounts@)
           // only the exchange's own shares
           &&& n.supply() == o.supply() - shares.0 && shares.0 <= mget(o.sh(), s_me()) && n.sh() == o.sh().insert(s_me(), (mget(o.sh(), s_me()) - shares.0) as u128) }),
@entry
    let ghost c0 = *old(self);
    let ghost p0 = pool_id as int;
    let ghost mut acc0 = c0.av(c0.owner_id);
    let ghost mut ga: Seq<u128> = Seq::empty();
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == min_amounts@, __v0@.len() == __i0, all128(__s0@, __v0@, __i0 as int),
@before_loop 1
    proof { acc0 = deposits.av(); ga = amounts@; assert(forall|t: AccountId| #[trigger] acc0.bal(t) == c0.abal(c0.owner_id, t)); }
@loop 1
    invariant
        __i1 <= __n1, __n1 == tokens@.len(), tokens@ == c0.pools@[p0].toks(), amounts@.len() == tokens@.len(), ga == amounts@,
        deposits.av().wf(), deposits.av().shadow == acc0.shadow, deposits.av().near == acc0.near,
        forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int, t),
@loop_entry 1
    let ghost acc1 = deposits.av();
@loop_end 1
    proof { assert forall|t: AccountId| #[trigger] deposits.av().bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int, t) by { assert(acc1.bal(t) == acc0.bal(t) + got(tokens@, ga, __i1 as int - 1, t)); } }
@exit
    proof {
        let o = c0.pools@[p0]; let n = self.pools@[p0];
        assert(self.pools@ =~= c0.pools@.update(p0, n));
        assert(gave(o, n, ga));
        assert(at_least(ga, min_amounts@)); assert(free_of(c0.rec(p0, s_me()), c0.shares(p0, s_me())) >= 0);
        assert forall|t: AccountId| #[trigger] self.abal(c0.owner_id, t) == c0.abal(c0.owner_id, t) + got(o.toks(), ga, o.toks().len() as int, t) by { assert(acc0.bal(t) == c0.abal(c0.owner_id, t)); }
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by {
            assert(free_of(c0.rec(p, id), c0.shares(p, id)) >= 0);
            assert(self.rec(p, id) == c0.rec(p, id));
            assert(p == p0 ==> mget(n.sh(), id) >= mget(o.sh(), id) || id == s_me());
        }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(c0.rec(p, id) == self.rec(p, id)); }
        assert(ga.len() == o.toks().len());
        assert(self.drew(&c0, pool_id, c0.owner_id, ga));
        assert forall|id: AccountId, t: AccountId| id != c0.owner_id implies #[trigger] self.abal(id, t) == c0.abal(id, t) by { }
    }
@end
