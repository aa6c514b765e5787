@include prelude.vc
@include lib.vc
@include chain.vc
@file ref-farming/src/simple_farm.rs
@file ref-farming/src/utils.rs
@file ref-farming/src/farm.rs
@verus shared
pub type SeedId = Str;
pub type FarmId = Str;
pub type TimestampSec = u32;
/// 32 little-endian bytes, as U256::{from,to}_little_endian read and write them
pub mod fax {
use vstd::prelude::*;
use super::vax::*;
use super::vnow::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct RPS { b: [u8; 32] }
impl RPS {
    pub uninterp spec fn v(self) -> int;
    #[verifier::external_body] pub fn default() -> (r: RPS) ensures r.v() == 0 { unimplemented!() }
}
pub broadcast axiom fn axiom_rps(a: RPS) ensures 0 <= #[trigger] a.v() <= max_u256();
/// block time fits 32 bits of seconds (until the year 2106): the contract keeps seconds in u32
pub broadcast axiom fn axiom_time() ensures 0 <= #[trigger] s_now() <= u64::MAX, s_now() / 1_000_000_000 <= u32::MAX;
}
pub use fax::*;
impl VClone for RPS { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl U256 {
    #[verifier::external_body] pub fn from_little_endian(b: &RPS) -> (r: U256) ensures r.v() == b.v() { unimplemented!() }
    #[verifier::external_body] pub fn to_little_endian(&self, b: &mut RPS) ensures final(b).v() == self.v() { unimplemented!() }
}
@end
@const DENOM
@type SimpleFarmTerms
@type HRSimpleFarmTerms
@type SimpleFarmStatus
@type SimpleFarmRewardDistribution
@type SimpleFarm
@type Farm
@verus shared
impl SimpleFarmRewardDistribution {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.undistributed == 0, r.unclaimed == 0, r.rps.v() == 0, r.rr == 0 { unimplemented!() }
}
pub open spec fn now_sec() -> int { s_now() / 1_000_000_000 }
pub open spec fn sec32(t: u64) -> int { (t as int / 1_000_000_000) }
impl SimpleFarm {
    /// F01: conservation; F02: nothing faster than scheduled, ended only when everything is released
    pub open spec fn wf(&self) -> bool {
        let d = self.last_distribution;
        &&& self.amount_of_reward == d.undistributed + d.unclaimed + self.amount_of_claimed
        &&& self.amount_of_beneficiary <= self.amount_of_claimed
        &&& self.released() <= d.rr * self.terms.reward_per_session
        &&& (self.status is Ended || self.status is Cleared) ==> d.undistributed == 0
        &&& self.status is Created ==> self.amount_of_reward == 0 && d.rr == 0 && d.rps.v() == 0 && d.unclaimed == 0
        &&& self.status is Cleared ==> d.unclaimed == 0
    }
    pub open spec fn released(&self) -> int { self.amount_of_reward - self.last_distribution.undistributed }
    /// sessions counted never exceed those completed at second t
    pub open spec fn on_time(&self, t: int) -> bool {
        self.last_distribution.rr > 0 ==> self.terms.session_interval > 0 && self.terms.start_at + self.last_distribution.rr * self.terms.session_interval <= t
    }
    pub open spec fn same_terms(&self, o: &SimpleFarm) -> bool { self.farm_id == o.farm_id && self.terms == o.terms }
}
/// what is released by a distribution at `now` (nanoseconds)
pub open spec fn dist_added(f: SimpleFarm) -> int {
    let s = now_sec() - f.terms.start_at;
    let due = (s / (f.terms.session_interval as int) - f.last_distribution.rr) * f.terms.reward_per_session;
    if f.last_distribution.undistributed < due { f.last_distribution.undistributed as int } else { due }
}
pub open spec fn started(f: SimpleFarm) -> bool { f.status is Running && s_now() >= f.terms.start_at * 1_000_000_000 }
/// the distribution record after releasing what is due at `now`
pub open spec fn dist_ok(f: SimpleFarm, total: int, d: SimpleFarmRewardDistribution) -> bool {
    let o = f.last_distribution;
    let a = dist_added(f);
    &&& f.terms.session_interval > 0 && 0 <= a <= o.undistributed
    &&& d.undistributed == o.undistributed - a
    &&& d.unclaimed == o.unclaimed + a
    &&& d.rps.v() == o.rps.v() + (if total > 0 { (a * DENOM) / total } else { 0 })
    &&& o.rr <= d.rr <= (now_sec() - f.terms.start_at) / (f.terms.session_interval as int)
    &&& a <= (d.rr - o.rr) * f.terms.reward_per_session
    &&& (d.rr - o.rr == 0 ==> a == 0)
    // all due sessions are counted unless the reward is exhausted
    &&& d.rr == (now_sec() - f.terms.start_at) / (f.terms.session_interval as int) || d.undistributed == 0
}
/// the farm after `distribute`
pub open spec fn distributed(f: SimpleFarm, total: int, g: SimpleFarm) -> bool {
    &&& g.same_terms(&f) && g.amount_of_reward == f.amount_of_reward
    &&& !started(f) ==> g == f
    &&& started(f) ==> {
        let a = dist_added(f);
        let o = f.last_distribution;
        &&& f.terms.session_interval > 0 && 0 <= a <= o.undistributed
        &&& g.last_distribution.undistributed == o.undistributed - a
        &&& g.last_distribution.rps.v() == o.rps.v() + (if total > 0 { (a * DENOM) / total } else { 0 })
        &&& g.last_distribution.rr >= o.rr
        &&& (g.last_distribution.rr == o.rr ==> a == 0)
        &&& (total > 0 || g.last_distribution.rr == o.rr) ==> g.last_distribution.unclaimed == o.unclaimed + a && g.amount_of_claimed == f.amount_of_claimed && g.amount_of_beneficiary == f.amount_of_beneficiary
        &&& total == 0 && g.last_distribution.rr != o.rr ==> g.last_distribution.unclaimed == 0 && g.amount_of_claimed == f.amount_of_claimed + o.unclaimed + a && g.amount_of_beneficiary == f.amount_of_beneficiary + o.unclaimed + a
        &&& g.status == (if g.last_distribution.undistributed == 0 { SimpleFarmStatus::Ended } else { f.status })
        // nothing more is due now
        &&& (started(g) ==> dist_added(g) == 0)
    }
}
pub open spec fn owed(stake: int, rps: int, mark: int) -> int { (stake * (rps - mark)) / (DENOM as int) }
@end
@fn to_nano(timestamp) -> r props=F02
    ensures r == timestamp * 1_000_000_000,
@entry
    proof { pow10_9(); }
@fn to_sec(timestamp) -> r props=F02
    requires timestamp as int / 1_000_000_000 <= u32::MAX,
    ensures r as int == timestamp as int / 1_000_000_000,
@entry
    proof { pow10_9(); }
@end
@fn SimpleFarm::new(id, terms) -> r props=F01,F02
    ensures r.farm_id == id, r.terms == terms, r.amount_of_reward == 0, r.amount_of_claimed == 0, r.amount_of_beneficiary == 0, r.status is Created,
        r.last_distribution.undistributed == 0, r.last_distribution.unclaimed == 0, r.last_distribution.rr == 0, r.last_distribution.rps.v() == 0, r.wf(),
@fn SimpleFarm::try_distribute(self, total_seeds) -> r props=F01,F02,F03
    ensures
        r is Some <==> started(*self),
        r is Some ==> dist_ok(*self, *total_seeds as int, r->0),
@entry
    proof {
        if started(*self) && self.terms.session_interval > 0 {
            dist_arith(self.last_distribution.undistributed as int, (now_sec() - self.terms.start_at) / (self.terms.session_interval as int) - self.last_distribution.rr, self.terms.reward_per_session as int);
        }
    }
@end
@verus
pub proof fn dist_arith(u: int, k: int, p: int)
    requires 0 <= u, 0 <= p
    ensures u < k * p ==> ({ let i = u / p; p > 0 && 0 <= i < k && i * p <= u && u < i * p + p && (i + 1) * p == i * p + p && (i * p == u ==> (u > 0 ==> i > 0)) }),
        k == 0 ==> k * p == 0, k >= 0 ==> k * p >= 0
{
    if k >= 0 { assert(k * p >= 0) by(nonlinear_arith) requires k >= 0, p >= 0; }
    if u < k * p {
        assert(p > 0 && k > 0) by(nonlinear_arith) requires 0 <= u, u < k * p, p >= 0;
        div_floor(u, p);
        let i = u / p;
        if i >= k { assert(i * p >= k * p) by(nonlinear_arith) requires i >= k, p > 0; }
        assert((i + 1) * p == i * p + p) by(nonlinear_arith);
        if i == 0 { assert(i * p == 0) by(nonlinear_arith) requires i == 0; }
    }
}
@end
@fn SimpleFarm::distribute(self, total_seeds, silent) props=F01,F02,F03
    requires old(self).wf(),
    ensures
        final(self).wf(),
        distributed(*old(self), *total_seeds as int, *final(self)),
@entry
    proof { dist_conserves(*self); }
@fn SimpleFarm::add_reward(self, amount) -> r props=F01,F02
    requires old(self).wf(),
    ensures reward_added(*old(self), *final(self), *amount as int, r),
@fn SimpleFarm::view_farmer_unclaimed_reward(self, user_rps, user_seeds, total_seeds) -> r props=F03
    ensures r == unclaimed_now(*self, user_rps.v(), *user_seeds as int, *total_seeds as int),
@fn SimpleFarm::claim_user_reward(self, user_rps, user_seeds, total_seeds, silent) -> r props=F01,F02,F03
    requires old(self).wf(),
    ensures
        final(self).wf(),
        claimed_step(*old(self), user_rps.v(), *user_seeds as int, *total_seeds as int, *final(self), r.0, r.1 as int),
@fn SimpleFarm::move_to_clear(self, total_seeds) -> r props=F01,F06
    requires old(self).wf(),
    ensures cleared(*old(self), *final(self), r),
@fn SimpleFarm::can_be_removed(self, total_seeds) -> r props=F06,F02
    ensures r == removable(*self),
@end
@verus shared
/// effect of one claim: distribute, pay the stake's part of the growth since its marker, move the marker to the present
pub open spec fn claimed_step(o: SimpleFarm, mark: int, stake: int, total: int, n: SimpleFarm, new_mark: RPS, pay: int) -> bool {
    exists|g: SimpleFarm| {
        &&& #[trigger] distributed(o, total, g)
        &&& mark <= g.last_distribution.rps.v() || stake == 0
        &&& pay == owed(stake, g.last_distribution.rps.v(), mark)
        &&& 0 <= pay <= g.last_distribution.unclaimed
        &&& new_mark == g.last_distribution.rps
        &&& n.same_terms(&g) && n.status == g.status && n.amount_of_reward == g.amount_of_reward && n.amount_of_beneficiary == g.amount_of_beneficiary
        &&& n.amount_of_claimed == g.amount_of_claimed + pay
        &&& n.last_distribution == (SimpleFarmRewardDistribution { unclaimed: (g.last_distribution.unclaimed - pay) as u128, ..g.last_distribution })
    }
}
pub open spec fn reward_added(o: SimpleFarm, n: SimpleFarm, amount: int, r: Option<u128>) -> bool {
    &&& n.wf()
    &&& n.farm_id == o.farm_id && n.terms == (SimpleFarmTerms { start_at: n.terms.start_at, ..o.terms })
    &&& r is None ==> n == o
    &&& r is Some ==> (o.status is Created || o.status is Running) && n.status is Running
            && n.amount_of_reward == o.amount_of_reward + amount
            && n.last_distribution == (SimpleFarmRewardDistribution { undistributed: (o.last_distribution.undistributed + amount) as u128, ..o.last_distribution })
            && o.last_distribution.undistributed + amount <= u128::MAX
            && r->0 == n.last_distribution.undistributed
            && n.amount_of_claimed == o.amount_of_claimed && n.amount_of_beneficiary == o.amount_of_beneficiary
    // the start is only ever fixed by the first reward, and never in the past
    &&& n.terms.start_at != o.terms.start_at ==> o.status is Created && o.terms.start_at == 0 && n.terms.start_at == now_sec()
    // a farm whose reward is exhausted takes none
    &&& started(o) && dist_added(o) == o.last_distribution.undistributed ==> r is None
}
/// what a farmer could claim now
pub open spec fn unclaimed_now(f: SimpleFarm, mark: int, stake: int, total: int) -> int {
    if stake == 0 || total == 0 { 0 } else {
        owed(stake, f.last_distribution.rps.v() + (if started(f) { (dist_added(f) * DENOM) / total } else { 0 }), mark)
    }
}
pub open spec fn cleared(o: SimpleFarm, n: SimpleFarm, r: bool) -> bool {
    &&& n.wf() && n.same_terms(&o) && n.amount_of_reward == o.amount_of_reward
    &&& r ==> n.status is Cleared && n.last_distribution.undistributed == 0 && n.last_distribution.unclaimed == 0
            && (o.status is Ended || started(o))
    // what was unclaimed goes to the beneficiary
    &&& r ==> n.amount_of_beneficiary - o.amount_of_beneficiary == n.amount_of_claimed - o.amount_of_claimed
    &&& r && o.status is Ended ==> n.amount_of_beneficiary == o.amount_of_beneficiary + o.last_distribution.unclaimed
    &&& r <==> removable(o)
}
/// ended, or everything is due by now
pub open spec fn removable(f: SimpleFarm) -> bool {
    f.status is Ended || (started(f) && dist_added(f) == f.last_distribution.undistributed)
}
@verus
pub proof fn dist_conserves(f: SimpleFarm)
    requires f.wf()
    ensures forall|t: int, d: SimpleFarmRewardDistribution| #[trigger] dist_ok(f, t, d) ==> f.amount_of_reward - d.undistributed <= d.rr * f.terms.reward_per_session
{
    assert forall|t: int, d: SimpleFarmRewardDistribution| #[trigger] dist_ok(f, t, d) implies f.amount_of_reward - d.undistributed <= d.rr * f.terms.reward_per_session by {
        let p = f.terms.reward_per_session as int;
        assert((d.rr - f.last_distribution.rr) * p + f.last_distribution.rr * p == d.rr * p) by(nonlinear_arith);
    }
}
@end
