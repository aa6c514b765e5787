@include xbase.vc
@import ledger.vc Contract::is_owner_or_guardians
@import pool_api.vc Pool::tokens Pool::share_total_balance Pool::get_share_decimal Pool::remove_liquidity
@const RECORD_COUNT_LIMIT
@verus shared
pub open spec fn all128(v: Seq<U128>, s: Seq<u128>, n: int) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] v[k]).0 == s[k] }
pub open spec fn p256() -> int { max_u256() + 1 }
/// the recorded history of a pool: last update, cumulative amounts, records
pub ghost struct TI { pub last: int, pub cum: Seq<int>, pub recs: Seq<(int, Seq<int>)> }
pub open spec fn vals(c: Seq<U256>) -> Seq<int> { Seq::new(c.len(), |i: int| c[i].v()) }
pub open spec fn recv(r: CumulativeRecord) -> (int, Seq<int>) { (r.time_sec as int, vals(r.cumulative_token_amounts@)) }
impl UnitShareCumulativeInfo {
    pub open spec fn ti(&self) -> TI { TI { last: self.last_update_sec as int, cum: vals(self.cumulative_token_amounts@), recs: Seq::new(self.records@.len(), |i: int| recv(self.records@[i])) } }
}
pub open spec fn cum_add(c: Seq<int>, a: Seq<u128>, dt: int) -> Seq<int> { Seq::new(c.len(), |i: int| (c[i] + a[i] * dt) % p256()) }
/// what one observation of amounts a at time `now` does
pub open spec fn twap_step(o: TI, now: int, a: Seq<u128>, interval: int) -> TI {
    if now <= o.last { o } else {
        let cum = cum_add(o.cum, a, now - o.last);
        let recs = if now - o.recs.last().0 >= interval { let p = o.recs.push((now, cum)); if p.len() > 60 { p.subrange(1, p.len() as int) } else { p } } else { o.recs };
        TI { last: now, cum, recs }
    }
}
/// the average since the first record
pub open spec fn twap_avg(o: TI) -> Seq<int> { Seq::new(o.cum.len(), |i: int| ((o.cum[i] - o.recs[0].1[i]) % p256()) / (o.last - o.recs[0].0)) }
pub open spec fn now_sec() -> int { (s_now() / 1_000_000_000) % 0x1_0000_0000 }
impl Contract {
    pub open spec fn has_twap(&self, p: u64) -> bool { self.unit_share_cumulative_infos@.dom().contains(p) }
    pub open spec fn twap(&self, p: u64) -> TI { self.unit_share_cumulative_infos@[p]->Current_0.ti() }
    /// a share is priced only when more than one whole share exists
    pub open spec fn priced(&self, p: int) -> bool { self.pools@[p].supply() > spow(10, self.pools@[p].sdec()) }
    pub open spec fn unit(&self, p: int) -> Seq<u128> { self.pools@[p].redeem(spow(10, self.pools@[p].sdec())) }
    pub open spec fn twap_rest(&self, o: &Contract, p: u64) -> bool { forall|q: u64| q != p ==> self.has_twap(q) == #[trigger] o.has_twap(q) && (o.has_twap(q) ==> self.twap(q) == o.twap(q)) }
    /// only the history of pool p differs
    pub open spec fn twap_only(&self, o: &Contract, p: u64) -> bool {
        *self == (Contract { unit_share_cumulative_infos: self.unit_share_cumulative_infos, ..*o }) && self.twap_rest(o, p)
    }
    /// the amounts a share was worth up to this moment have entered the pool's history, if it keeps one
    pub open spec fn twap_seen(&self, o: &Contract, p: u64) -> bool {
        &&& self.twap_rest(o, p) && self.has_twap(p) == o.has_twap(p)
        &&& o.has_twap(p) ==> self.twap(p) == if o.priced(p as int) { twap_step(o.twap(p), now_sec(), o.unit(p as int), o.cumulative_info_record_interval_sec as int) } else { o.twap(p) }
    }
    pub open spec fn observed(&self, o: &Contract, p: u64) -> bool { self.twap_only(o, p) && self.twap_seen(o, p) }
}
impl VFrom<VUnitShareCumulativeInfo> for UnitShareCumulativeInfo { open spec fn vfs(a: VUnitShareCumulativeInfo, r: UnitShareCumulativeInfo) -> bool { a == VUnitShareCumulativeInfo::Current(r) } fn vfromx(a: VUnitShareCumulativeInfo) -> (r: UnitShareCumulativeInfo) { UnitShareCumulativeInfo::vfrom_v(a) } }
impl VFrom<UnitShareCumulativeInfo> for VUnitShareCumulativeInfo { open spec fn vfs(a: UnitShareCumulativeInfo, r: VUnitShareCumulativeInfo) -> bool { r == VUnitShareCumulativeInfo::Current(a) } fn vfromx(a: UnitShareCumulativeInfo) -> (r: VUnitShareCumulativeInfo) { VUnitShareCumulativeInfo::vfrom_r(a) } }
@end
@fn UnitShareCumulativeInfo::from<VUnitShareCumulativeInfo>(v) -> r as=vfrom_v props=P20
    ensures v == VUnitShareCumulativeInfo::Current(r),
@fn VUnitShareCumulativeInfo::from<UnitShareCumulativeInfo>(shadow_record) -> r as=vfrom_r props=P20
    ensures r == VUnitShareCumulativeInfo::Current(shadow_record),
@fn nano_to_sec(nano) -> r props=P20
    ensures r == ((nano / 1_000_000_000) as int) % 0x1_0000_0000,
@entry
    proof { pow10_9(); let q = (nano as int / 1_000_000_000) as u64; assert((q as u32) as u64 == q % 0x1_0000_0000u64) by(bit_vector); }
@fn UnitShareCumulativeInfo::new(current_time_sec, amounts) -> r props=P20
    ensures r.ti() == (TI { last: current_time_sec as int, cum: Seq::new(amounts@.len(), |i: int| amounts@[i] as int), recs: seq![(current_time_sec as int, Seq::new(amounts@.len(), |i: int| amounts@[i] as int))] }),
@entry
    let ghost am = amounts@;
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == am, vals(__v0@) =~= Seq::new(__i0 as nat, |k: int| am[k] as int), __v0@.len() == __i0,
@loop_entry 0
    let ghost pv = vals(__v0@);
@loop_end 0
    proof {
        let w = Seq::new(__i0 as nat, |k: int| am[k] as int);
        assert forall|k: int| 0 <= k < __i0 implies vals(__v0@)[k] == w[k] by { if k < __i0 - 1 { assert(pv[k] == vals(__v0@)[k]); assert(pv[k] == Seq::new((__i0 - 1) as nat, |k: int| am[k] as int)[k]); } }
        assert(vals(__v0@) =~= w);
    }
@exit
    proof {
        let c = Seq::new(am.len(), |i: int| am[i] as int);
        assert(vals(r.cumulative_token_amounts@) =~= c);
        assert(r.ti().recs.len() == 1); assert(recv(r.records@[0]) == (current_time_sec as int, vals(r.records@[0].cumulative_token_amounts@)));
        assert(vals(r.records@[0].cumulative_token_amounts@) =~= c);
        assert(r.ti().recs =~= seq![(current_time_sec as int, c)]);
    }
@fn UnitShareCumulativeInfo::update(self, current_time_sec, amounts, record_interval_sec) props=P20
    ensures old(self).last_update_sec <= current_time_sec, final(self).ti() == twap_step(old(self).ti(), current_time_sec as int, amounts@, record_interval_sec as int),
        final(self).ti().recs.len() >= 1, amounts@.len() >= old(self).cumulative_token_amounts@.len() || current_time_sec == old(self).last_update_sec,
@entry
    let ghost am = amounts@;
    let ghost o = *old(self);
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == am, vals(__v0@) =~= Seq::new(__i0 as nat, |k: int| am[k] as int), __v0@.len() == __i0,
@loop_entry 0
    let ghost pv = vals(__v0@);
@loop_end 0
    proof {
        let w = Seq::new(__i0 as nat, |k: int| am[k] as int);
        assert forall|k: int| 0 <= k < __i0 implies vals(__v0@)[k] == w[k] by { if k < __i0 - 1 { assert(pv[k] == vals(__v0@)[k]); assert(pv[k] == Seq::new((__i0 - 1) as nat, |k: int| am[k] as int)[k]); } }
        assert(vals(__v0@) =~= w);
    }
@loop 1
    invariant
        *self == o, __i1 <= __s1@.len(), __s1@ == o.cumulative_token_amounts@, new_cumulative_token_amounts@.len() == __i1,
        vals(amounts@) =~= Seq::new(am.len(), |k: int| am[k] as int), amounts@.len() == am.len(), __i1 <= am.len(), time_elapsed == current_time_sec - o.last_update_sec,
        vals(new_cumulative_token_amounts@) =~= Seq::new(__i1 as nat, |k: int| (o.cumulative_token_amounts@[k].v() + am[k] * time_elapsed) % p256()),
@loop_entry 1
    let ghost pv = vals(new_cumulative_token_amounts@);
    proof { assert(__i1 < amounts@.len() ==> vals(amounts@)[__i1 as int] == amounts@[__i1 as int].v()); }
@loop_end 1
    proof {
        let w = Seq::new(__i1 as nat, |k: int| (o.cumulative_token_amounts@[k].v() + am[k] * time_elapsed) % p256());
        assert forall|k: int| 0 <= k < __i1 implies vals(new_cumulative_token_amounts@)[k] == w[k] by { if k < __i1 - 1 { assert(pv[k] == vals(new_cumulative_token_amounts@)[k]); assert(pv[k] == Seq::new((__i1 - 1) as nat, |k: int| (o.cumulative_token_amounts@[k].v() + am[k] * time_elapsed) % p256())[k]); } }
        assert(vals(new_cumulative_token_amounts@) =~= w);
    }
@exit
    proof {
        if current_time_sec > o.last_update_sec {
            let dt = current_time_sec as int - o.last_update_sec as int;
            let cum = cum_add(o.ti().cum, am, dt);
            assert(vals(self.cumulative_token_amounts@) =~= cum);
            let want = twap_step(o.ti(), current_time_sec as int, am, record_interval_sec as int);
            assert(o.ti().recs.last() == recv(o.records@[o.records@.len() - 1]));
            assert(self.ti().recs =~= want.recs);
        } else { assert(self.ti().recs =~= o.ti().recs); assert(self.ti().cum =~= o.ti().cum); }
    }
@fn UnitShareCumulativeInfo::twap_token_amounts(self) -> r props=P20
    ensures self.ti().last > self.ti().recs[0].0, r@.len() <= self.ti().cum.len(),
        forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == twap_avg(self.ti())[i],
@loop 0
    invariant
        __i0 <= __s0@.len(), __i0 <= __s500@.len(), __s0@ == self.cumulative_token_amounts@, self.records@.len() > 0, __s500@ == self.records@[0].cumulative_token_amounts@, __v0@.len() == __i0,
        vals(__v0@) =~= Seq::new(__i0 as nat, |k: int| (self.ti().cum[k] - self.ti().recs[0].1[k]) % p256()),
@loop_entry 0
    let ghost pv = vals(__v0@);
@loop_end 0
    proof {
        let w = Seq::new(__i0 as nat, |k: int| (self.ti().cum[k] - self.ti().recs[0].1[k]) % p256());
        assert forall|k: int| 0 <= k < __i0 implies vals(__v0@)[k] == w[k] by { if k < __i0 - 1 { assert(pv[k] == vals(__v0@)[k]); assert(pv[k] == Seq::new((__i0 - 1) as nat, |k: int| (self.ti().cum[k] - self.ti().recs[0].1[k]) % p256())[k]); } }
        assert(vals(__v0@) =~= w);
    }
@loop 1
    invariant
        __i1 <= __s1@.len(), __v1@.len() == __i1, __s1@.len() <= self.cumulative_token_amounts@.len(), denominator > 0, self.records@.len() > 0, denominator == self.ti().last - self.ti().recs[0].0,
        vals(__s1@) =~= Seq::new(__s1@.len(), |k: int| (self.ti().cum[k] - self.ti().recs[0].1[k]) % p256()),
        forall|k: int| 0 <= k < __i1 ==> #[trigger] __v1@[k] == twap_avg(self.ti())[k],
@loop_entry 1
    proof { assert(vals(__s1@)[__i1 as int] == __s1@[__i1 as int].v()); }
@fn Contract::internal_get_unit_share_cumulative_infos(self, pool_id) -> r props=P20
    ensures r is Some <==> self.has_twap(pool_id), r is Some ==> r->0.ti() == self.twap(pool_id),
@fn Contract::internal_unwrap_unit_share_cumulative_infos(self, pool_id) -> r props=P20
    ensures self.has_twap(pool_id), r.ti() == self.twap(pool_id),
@fn Contract::internal_set_unit_share_cumulative_infos(self, pool_id, unit_share_cumulative_infos) props=P20
    ensures final(self).twap_only(old(self), pool_id), final(self).has_twap(pool_id), final(self).twap(pool_id) == unit_share_cumulative_infos.ti(),
@fn Contract::internal_unit_share_token_amounts(self, pool_id) -> r props=P20
    requires self.cwf(),
    ensures pool_id < self.npools(), r is Some <==> self.priced(pool_id as int), r is Some ==> (r->0)@ == self.unit(pool_id as int),
@fn Contract::internal_update_unit_share_cumulative_info(self, pool_id) props=P20
    requires old(self).cwf(),
    ensures final(self).observed(old(self), pool_id),
@fn Contract::register_pool_twap_record(self, pool_id) props=P20,P18
    requires old(self).cwf(),
    ensures s_deposit() == 1, old(self).by_admin(), !old(self).has_twap(pool_id), old(self).priced(pool_id as int), final(self).twap_only(old(self), pool_id),
        final(self).has_twap(pool_id), ({ let a = old(self).unit(pool_id as int); let c = Seq::new(a.len(), |i: int| a[i] as int); final(self).twap(pool_id) == (TI { last: now_sec(), cum: c, recs: seq![(now_sec(), c)] }) }),
@fn Contract::unregister_pool_twap_record(self, pool_id) props=P20,P18
    ensures s_deposit() == 1, old(self).by_admin(), final(self).twap_only(old(self), pool_id), !final(self).has_twap(pool_id),
@fn Contract::modify_cumulative_info_record_interval_sec(self, record_interval_sec) props=P20,P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { cumulative_info_record_interval_sec: record_interval_sec, ..*old(self) }),
@fn Contract::sync_pool_twap_record(self, pool_id) props=P20
    requires old(self).cwf(),
    ensures old(self).has_twap(pool_id), old(self).priced(pool_id as int), final(self).observed(old(self), pool_id),
@fn Contract::get_unit_share_twap_token_amounts(self, pool_id) -> r props=P20,P23
    requires self.cwf(),
    ensures self.has_twap(pool_id), ({ let n = twap_step(self.twap(pool_id), now_sec(), self.unit(pool_id as int), self.cumulative_info_record_interval_sec as int);
        &&& r is Some ==> self.priced(pool_id as int) && n.recs.len() == 60 && n.last > n.recs[0].0 && forall|i: int| 0 <= i < (r->0)@.len() ==> (#[trigger] (r->0)@[i]).0 == twap_avg(n)[i]
        &&& r is None ==> !self.priced(pool_id as int) || n.recs.len() != 60 }),
@loop 0
    invariant
        __i0 <= __s0@.len(), __v0@.len() == __i0, all128(__v0@, __s0@, __i0 as int),
@fn Contract::get_unit_share_token_amounts(self, pool_id) -> r props=P20,P23
    requires self.cwf(),
    ensures self.priced(pool_id as int), r@.len() == self.unit(pool_id as int).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self.unit(pool_id as int)[i],
@loop 0
    invariant
        __i0 <= __s0@.len(), __v0@.len() == __i0, all128(__v0@, __s0@, __i0 as int),
@end
