@include prelude.vc
@include lib.vc
@include chain.vc
@file ref-farming/src/simple_farm.rs
@file ref-farming/src/utils.rs
@file ref-farming/src/farm.rs
@file ref-farming/src/farm_seed.rs
@file ref-farming/src/farmer.rs
@file ref-farming/src/legacy.rs
@file ref-farming/src/lib.rs
@const DENOM MIN_SEED_DEPOSIT MAX_ACCOUNT_LENGTH GAS_FOR_FT_TRANSFER GAS_FOR_RESOLVE_TRANSFER GAS_FOR_RESOLVE_WITHDRAW_SEED MIN_FARMER_LENGTH
@type SimpleFarmTerms
@type HRSimpleFarmTerms
@type SimpleFarmStatus
@type SimpleFarmRewardDistribution
@type SimpleFarm
@type Farm
@type SeedType
@type FarmSeed
@type VersionedFarmSeed
@type Farmer
@type VersionedFarmer
@type RunningState
@type ContractDataV0104
@type ContractData
@type VersionedContractData
@type Contract
@import sfarm.vc *
@verus shared
pub struct StorageBalance { pub total: U128, pub available: U128 }
pub struct StorageBalanceBounds { pub min: U128, pub max: Option<U128> }
pub enum StorageKeys { Seed, Farm, OutdatedFarm, Farmer, RewardInfo, UserRps { account_id: AccountId } }
pub type SM = Map<SeedId, VersionedFarmSeed>;
pub type FM = Map<AccountId, VersionedFarmer>;
pub type GM = Map<FarmId, Farm>;
// farm ids are "<seed id>#<index>"
pub mod fid { use super::*;
pub uninterp spec fn seed_of(f: FarmId) -> SeedId;
pub uninterp spec fn idx_of(f: FarmId) -> int;
pub uninterp spec fn mk_fid(s: SeedId, i: int) -> FarmId;
pub broadcast axiom fn axiom_fid(s: SeedId, i: int) ensures i >= 0 ==> seed_of(#[trigger] mk_fid(s, i)) == s && idx_of(mk_fid(s, i)) == i;
}
pub use fid::*;
/// what is left in storage under an account's marker prefix when the account registers (again)
pub uninterp spec fn s_left(a: AccountId) -> Map<FarmId, RPS>;
pub open spec fn fs(sm: SM, s: SeedId) -> FarmSeed { sm[s]->V101_0 }
pub open spec fn sf(g: Farm) -> SimpleFarm { g->SimpleFarm_0 }
pub open spec fn stk(v: VersionedFarmer, s: SeedId) -> int { mget(v->V101_0.seeds@, s) }
pub open spec fn mark_in(m: Map<FarmId, RPS>, f: FarmId) -> int { if m.dom().contains(f) { m[f].v() } else { 0 } }
pub open spec fn marks(v: VersionedFarmer) -> Map<FarmId, RPS> { v->V101_0.user_rps@ }
pub open spec fn mark(v: VersionedFarmer, f: FarmId) -> int { mark_in(marks(v), f) }
pub open spec fn rps_of(g: Farm) -> int { sf(g).last_distribution.rps.v() }
pub open spec fn f_stk(s: SeedId) -> spec_fn(VersionedFarmer) -> int { |v: VersionedFarmer| stk(v, s) }
pub open spec fn due(v: VersionedFarmer, s: SeedId, f: FarmId, r: int) -> int { stk(v, s) * (r - mark(v, f)) }
pub open spec fn f_due(s: SeedId, f: FarmId, r: int) -> spec_fn(VersionedFarmer) -> int { |v: VersionedFarmer| due(v, s, f, r) }
pub open spec fn total_of(sm: SM, s: SeedId) -> int { if sm.dom().contains(s) { fs(sm, s).amount as int } else { 0 } }
pub open spec fn known(sm: SM, f: FarmId) -> bool { sm.dom().contains(seed_of(f)) && idx_of(f) < fs(sm, seed_of(f)).next_index }
/// F04: the total staked for a seed is the sum of its farmers' stakes
pub open spec fn totals(sm: SM, fm: FM) -> bool { forall|s: SeedId| #[trigger] total_of(sm, s) == fsum(fm, f_stk(s)) }
pub open spec fn farm_ok(sm: SM, f: FarmId, g: Farm) -> bool {
    sf(g).wf() && sf(g).farm_id == f && sf(g).terms.seed_id == seed_of(f) && sm.dom().contains(seed_of(f)) && fs(sm, seed_of(f)).farms@.contains(f)
}
pub open spec fn farms_ok(sm: SM, gm: GM) -> bool {
    &&& forall|f: FarmId| #[trigger] gm.dom().contains(f) ==> farm_ok(sm, f, gm[f])
    &&& forall|s: SeedId, f: FarmId| sm.dom().contains(s) && #[trigger] fs(sm, s).farms@.contains(f) ==> gm.dom().contains(f) && seed_of(f) == s && idx_of(f) < fs(sm, s).next_index
}
pub open spec fn old_ok(sm: SM, gm: GM, om: GM) -> bool {
    forall|f: FarmId| #[trigger] om.dom().contains(f) ==> !gm.dom().contains(f) && known(sm, f) && sf(om[f]).wf() && sf(om[f]).farm_id == f && sf(om[f]).status is Cleared
}
/// markers belong to farms that exist or existed
pub open spec fn marks_ok(sm: SM, fm: FM) -> bool {
    forall|a: AccountId, f: FarmId| fm.dom().contains(a) && #[trigger] marks(fm[a]).dom().contains(f) ==> known(sm, f)
}
/// F03: no farmer is marked beyond the present, and what all of them can claim is covered by the distributed, unclaimed reward
pub open spec fn solvent(f: FarmId, g: Farm, fm: FM) -> bool {
    &&& forall|a: AccountId| #[trigger] fm.dom().contains(a) ==> mark(fm[a], f) <= rps_of(g)
    &&& fsum(fm, f_due(seed_of(f), f, rps_of(g))) <= sf(g).last_distribution.unclaimed * DENOM
}
pub open spec fn all_solvent(gm: GM, fm: FM) -> bool { forall|f: FarmId| #[trigger] gm.dom().contains(f) ==> solvent(f, gm[f], fm) }
pub open spec fn st_inv(sm: SM, fm: FM, gm: GM, om: GM) -> bool {
    totals(sm, fm) && farms_ok(sm, gm) && old_ok(sm, gm, om) && marks_ok(sm, fm) && all_solvent(gm, fm)
}
/// paid to farmers out of this farm so far
pub open spec fn net(g: Farm) -> int { sf(g).amount_of_claimed - sf(g).amount_of_beneficiary }
pub open spec fn f_net(t: AccountId) -> spec_fn(Farm) -> int { |g: Farm| if sf(g).terms.reward_token == t { net(g) } else { 0 } }
/// paid to farmers in token t out of all farms so far
pub open spec fn paid(gm: GM, t: AccountId) -> int { fsum(gm, f_net(t)) }
impl Contract {
    pub open spec fn d(&self) -> ContractData { self.data->V0110_0 }
    pub open spec fn sm(&self) -> SM { self.d().seeds@ }
    pub open spec fn fm(&self) -> FM { self.d().farmers@ }
    pub open spec fn gm(&self) -> GM { self.d().farms@ }
    pub open spec fn om(&self) -> GM { self.d().outdated_farms@ }
    pub open spec fn inv(&self) -> bool { self.data is V0110 && st_inv(self.sm(), self.fm(), self.gm(), self.om()) }
    pub open spec fn running(&self) -> bool { self.d().state is Running }
    pub open spec fn by_owner(&self) -> bool { s_pred() == self.d().owner_id }
    pub open spec fn has(&self, a: AccountId) -> bool { self.fm().dom().contains(a) }
    pub open spec fn fr(&self, a: AccountId) -> Farmer { self.fm()[a]->V101_0 }
    pub open spec fn stake(&self, a: AccountId, s: SeedId) -> int { fget(self.fm(), f_stk(s), a) }
    pub open spec fn reward(&self, a: AccountId, t: AccountId) -> int { if self.has(a) { mget(self.fr(a).rewards@, t) } else { 0 } }
    /// nothing but the maps of seeds, farmers and farms is written, and the farm ids stay
    pub open spec fn same_conf(&self, o: &Contract) -> bool {
        &&& self.data is V0110 && o.data is V0110
        &&& self.d() == (ContractData { seeds: self.d().seeds, farmers: self.d().farmers, farms: self.d().farms, ..o.d() })
    }
    /// of the farmers only `a` is written
    pub open spec fn only(&self, o: &Contract, a: AccountId) -> bool { self.has(a) && o.has(a) && self.fm() == o.fm().insert(a, self.fm()[a]) }
}
impl Contract {
    /// nothing but the map of farmers and their number is written
    pub open spec fn same_farming(&self, o: &Contract) -> bool {
        &&& self.data is V0110 && o.data is V0110
        &&& self.d() == (ContractData { farmers: self.d().farmers, farmer_count: self.d().farmer_count, ..o.d() })
    }
    /// the deposit of `a` pays for its storage
    pub open spec fn pays(&self, a: AccountId) -> bool { self.has(a) && f_cost(self.fr(a)) <= self.fr(a).amount && self.fr(a).amount > 0 }
    pub open spec fn deposited(&self, a: AccountId) -> int { if self.has(a) { self.fr(a).amount as int } else { 0 } }
    /// markers left in storage from an earlier registration of `a` are of known farms and not of the future
    pub open spec fn left_ok(&self, a: AccountId) -> bool {
        self.has(a) || forall|f: FarmId| #[trigger] s_left(a).dom().contains(f) ==> known(self.sm(), f) && (self.gm().dom().contains(f) ==> s_left(a)[f].v() <= rps_of(self.gm()[f]))
    }
    /// only the deposit of `a` is written; a new farmer has no stake and no reward
    pub open spec fn re_deposit(&self, o: &Contract, a: AccountId, amount: int) -> bool {
        &&& self.same_farming(o) && self.has(a) && self.fm() == o.fm().insert(a, self.fm()[a])
        &&& self.fr(a).amount == amount
        &&& o.has(a) ==> self.fr(a) == (Farmer { amount: self.fr(a).amount, ..o.fr(a) }) && self.d().farmer_count == o.d().farmer_count
        &&& !o.has(a) ==> self.fr(a).rewards@ == Map::<AccountId, u128>::empty() && self.fr(a).seeds@ == Map::<SeedId, u128>::empty() && self.d().farmer_count == o.d().farmer_count + 1
    }
    /// of the reward balances only that of `a` in `t` moved, by d
    pub open spec fn rewarded(&self, o: &Contract, a: AccountId, t: AccountId, d: int) -> bool {
        &&& self.same_conf(o) && self.only(o, a) && self.sm() == o.sm() && self.gm() == o.gm()
        &&& forall|t2: AccountId| #[trigger] self.reward(a, t2) == o.reward(a, t2) + (if t2 == t { d } else { 0 })
        &&& self.fr(a) == (Farmer { rewards: self.fr(a).rewards, ..o.fr(a) })
    }
    /// the farm is gone, kept with its unclaimed reward recorded for the beneficiary
    pub open spec fn cleaned(&self, o: &Contract, f: FarmId, r: bool) -> bool {
        &&& self.data is V0110 && o.data is V0110
        &&& self.d() == (ContractData { seeds: self.d().seeds, farms: self.d().farms, outdated_farms: self.d().outdated_farms, ..o.d() })
        &&& !r ==> self.sm() == o.sm() && self.gm() == o.gm() && self.om() == o.om()
        &&& r ==> o.gm().dom().contains(f) && removable(sf(o.gm()[f])) && !o.om().dom().contains(f)
                && self.gm() == o.gm().remove(f) && self.om() == o.om().insert(f, self.om()[f]) && cleared(sf(o.gm()[f]), sf(self.om()[f]), true)
                && self.sm() == o.sm().insert(seed_of(f), self.sm()[seed_of(f)]) && ({
                    let (x, y) = (fs(o.sm(), seed_of(f)), fs(self.sm(), seed_of(f)));
                    y == (FarmSeed { farms: y.farms, ..x }) && y.farms@ == x.farms@.remove(f) })
    }
    /// a fresh farm under terms t
    pub open spec fn farm_added(&self, o: &Contract, t: HRSimpleFarmTerms, min_deposit: int, f: FarmId) -> bool {
        let s = t.seed_id;
        &&& self.same_conf(o) && self.fm() == o.fm()
        &&& !o.gm().dom().contains(f) && !o.om().dom().contains(f) && seed_of(f) == s
        &&& self.gm() == o.gm().insert(f, self.gm()[f]) && self.gm()[f] is SimpleFarm && ({ let g = sf(self.gm()[f]); g.farm_id == f && terms_of(t, g.terms) && g.amount_of_reward == 0 && g.status is Created })
        &&& self.sm() == o.sm().insert(s, self.sm()[s])
        &&& o.sm().dom().contains(s) ==> ({ let (x, y) = (fs(o.sm(), s), fs(self.sm(), s)); y == (FarmSeed { farms: y.farms, next_index: y.next_index, ..x }) && y.farms@ == x.farms@.insert(f) && y.next_index == x.next_index + 1 })
        &&& !o.sm().dom().contains(s) ==> ({ let y = fs(self.sm(), s); y.amount == 0 && y.min_deposit == min_deposit && y.farms@ == Set::<FarmId>::empty().insert(f) && y.next_index == 1 })
    }
}
pub open spec fn same_index(sm: SM, sm2: SM) -> bool {
    sm2.dom() == sm.dom() && forall|s: SeedId| #[trigger] sm.dom().contains(s) ==> fs(sm2, s).farms@ == fs(sm, s).farms@ && fs(sm2, s).next_index == fs(sm, s).next_index
}
/// one farm after a claim of `a`
pub open spec fn claim_at(o: &Contract, gm: GM, a: AccountId, f: FarmId) -> bool {
    claimed_step(sf(o.gm()[f]), mark(o.fm()[a], f), stk(o.fm()[a], seed_of(f)), total_of(o.sm(), seed_of(f)), sf(gm[f]), sf(gm[f]).last_distribution.rps, net(gm[f]) - net(o.gm()[f]))
}
pub open spec fn owns(v: VersionedFarmer, t: AccountId) -> int { mget(v->V101_0.rewards@, t) }
pub open spec fn claims_v(o: &Contract, gm: GM, v: VersionedFarmer, a: AccountId, fset: Set<FarmId>) -> bool {
    &&& gm.dom() == o.gm().dom()
    &&& forall|f: FarmId| #![trigger gm[f]] o.gm().dom().contains(f) ==> if fset.contains(f) { claim_at(o, gm, a, f) } else { gm[f] == o.gm()[f] }
    &&& forall|t: AccountId| #[trigger] owns(v, t) - paid(gm, t) == o.reward(a, t) - paid(o.gm(), t)
}
pub open spec fn marked_v(o: &Contract, gm: GM, v: VersionedFarmer, a: AccountId, fset: Set<FarmId>) -> bool {
    forall|f: FarmId| #[trigger] mark(v, f) == (if fset.contains(f) { rps_of(gm[f]) } else { mark(o.fm()[a], f) })
}
/// `a` claimed in the farms of `fset`, and was paid in each token exactly what these farms paid out
pub open spec fn claims(o: &Contract, n: &Contract, a: AccountId, fset: Set<FarmId>) -> bool { claims_v(o, n.gm(), n.fm()[a], a, fset) }
/// markers of `a` at the present in the farms of fset, the others as before
pub open spec fn marked(o: &Contract, n: &Contract, a: AccountId, fset: Set<FarmId>) -> bool { marked_v(o, n.gm(), n.fm()[a], a, fset) }
/// the first i of a listing
pub open spec fn seen(ord: Seq<FarmId>, i: int) -> Set<FarmId> decreases i { if i <= 0 { Set::empty() } else { seen(ord, i - 1).insert(ord[i - 1]) } }
/// state of a claim after the farms of fset
pub open spec fn part(o: &Contract, gm: GM, v: VersionedFarmer, a: AccountId, fset: Set<FarmId>) -> bool {
    &&& o.inv() && o.has(a)
    &&& st_inv(o.sm(), o.fm().insert(a, v), gm, o.om())
    &&& claims_v(o, gm, v, a, fset)
    &&& marked_v(o, gm, v, a, fset)
    &&& v->V101_0.seeds@ == o.fr(a).seeds@ && v->V101_0.amount == o.fr(a).amount
}
/// what claim_user_reward_from_farm did
pub open spec fn one_claim(g: Farm, v: VersionedFarmer, total: int, g2: Farm, v2: VersionedFarmer) -> bool {
    let o = sf(g); let n = sf(g2); let a = v->V101_0; let b = v2->V101_0;
    &&& n.wf() && n.same_terms(&o)
    &&& b.seeds == a.seeds && b.amount == a.amount
    &&& b.user_rps@ == a.user_rps@.insert(o.farm_id, n.last_distribution.rps)
    &&& claimed_step(o, mark_in(a.user_rps@, o.farm_id), mget(a.seeds@, o.terms.seed_id), total, n, n.last_distribution.rps, net(g2) - net(g))
    &&& forall|t: AccountId| #[trigger] mget(b.rewards@, t) == mget(a.rewards@, t) + (if t == o.terms.reward_token { net(g2) - net(g) } else { 0 })
}
/// stake and deposit of `a` as before
pub open spec fn kept(o: &Contract, n: &Contract, a: AccountId) -> bool { n.fr(a).seeds@ == o.fr(a).seeds@ && n.fr(a).amount == o.fr(a).amount }
pub open spec fn seed_farms(c: &Contract, s: SeedId) -> Set<FarmId> { if c.sm().dom().contains(s) { fs(c.sm(), s).farms@ } else { Set::empty() } }
/// stake of `a` in `s` and the total of `s` moved by d; every other stake and seed as before
pub open spec fn staked(o: &Contract, n: &Contract, a: AccountId, s: SeedId, d: int) -> bool {
    &&& o.sm().dom().contains(s) && n.sm() == o.sm().insert(s, n.sm()[s])
    &&& fs(n.sm(), s) == (FarmSeed { amount: (fs(o.sm(), s).amount + d) as u128, seed_type: fs(n.sm(), s).seed_type, ..fs(o.sm(), s) })
    &&& 0 <= fs(o.sm(), s).amount + d <= u128::MAX
    &&& n.stake(a, s) == o.stake(a, s) + d
    &&& forall|s2: SeedId| s2 != s ==> #[trigger] n.stake(a, s2) == o.stake(a, s2)
    &&& n.fr(a).amount == o.fr(a).amount
}
/// stake of a farmer and total of seed s moved by d, markers of the seed's farms kept or, with no stake left, dropped
pub open spec fn restaked(sm: SM, sm2: SM, v: VersionedFarmer, v2: VersionedFarmer, s: SeedId, d: int) -> bool {
    &&& sm.dom().contains(s) && sm2 == sm.insert(s, sm2[s]) && v2->V101_0.rewards@ == v->V101_0.rewards@
    &&& fs(sm2, s).amount == fs(sm, s).amount + d && fs(sm2, s).farms@ == fs(sm, s).farms@ && fs(sm2, s).next_index == fs(sm, s).next_index
    &&& stk(v2, s) == stk(v, s) + d
    &&& forall|s2: SeedId| s2 != s ==> #[trigger] stk(v2, s2) == stk(v, s2)
    &&& forall|f: FarmId| #[trigger] marks(v2).dom().contains(f) ==> marks(v).dom().contains(f) && marks(v2)[f] == marks(v)[f]
    &&& forall|f: FarmId| #[trigger] marks(v).dom().contains(f) ==> marks(v2).dom().contains(f) || (stk(v2, s) == 0 && fs(sm, s).farms@.contains(f))
}
/// storage a farmer has to pay for
pub open spec fn f_cost(v: Farmer) -> int { (92 + 84 * v.rewards@.dom().len() + 84 * v.seeds@.dom().len() + 165 * v.rps_count) * s_byte_cost() }
pub open spec fn min_cost() -> int { (92 + 800 + 960) * s_byte_cost() }
// ---------------------------------------------------------------- calls to other contracts
pub mod ext_fungible_token { use super::*;
    #[verifier::external_body] pub fn ft_transfer(receiver: AccountId, amount: U128, memo: Option<Str>, token: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *token, method: m_ft_transfer(), args: PArgs::Ft { receiver, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
}
pub mod ext_multi_fungible_token { use super::*;
    #[verifier::external_body] pub fn mft_transfer(token_id: Str, receiver: AccountId, amount: U128, memo: Option<Str>, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_mft_transfer(), args: PArgs::Mft { token: token_id, sender: s_me(), receiver, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
}
pub mod ext_self { use super::*;
    #[verifier::external_body] pub fn callback_post_withdraw_reward(token_id: AccountId, sender_id: AccountId, amount: U128, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_cb_reward(), args: PArgs::TokUserAmt { token: token_id, user: sender_id, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
    #[verifier::external_body] pub fn callback_post_withdraw_ft_seed(seed_id: SeedId, sender_id: AccountId, amount: U128, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_cb_ft_seed(), args: PArgs::TokUserAmt { token: seed_id, user: sender_id, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
    #[verifier::external_body] pub fn callback_post_withdraw_mft_seed(seed_id: SeedId, sender_id: AccountId, amount: U128, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_cb_mft_seed(), args: PArgs::TokUserAmt { token: seed_id, user: sender_id, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
}
pub open spec fn m_ft_transfer() -> int { 1 }
pub open spec fn m_mft_transfer() -> int { 2 }
pub open spec fn m_cb_reward() -> int { 3 }
pub open spec fn m_cb_ft_seed() -> int { 4 }
pub open spec fn m_cb_mft_seed() -> int { 5 }
/// `amount` of the token sent to the user, with this contract's callback for the same user and amount as the only continuation
pub open spec fn sends_ft(p: PSpec, token: AccountId, user: AccountId, amount: int, cb: int) -> bool {
    p == (PSpec::Then { a: Box::new(PSpec::Call { to: token, method: m_ft_transfer(), args: PArgs::Ft { receiver: user, amount }, deposit: 1 }),
        b: Box::new(PSpec::Call { to: s_me(), method: cb, args: PArgs::TokUserAmt { token, user, amount }, deposit: 0 }) })
}
pub uninterp spec fn seed_host(s: SeedId) -> AccountId;
pub uninterp spec fn seed_sub(s: SeedId) -> AccountId;
pub uninterp spec fn mft_name(t: AccountId) -> AccountId;
pub uninterp spec fn mft_seed(host: AccountId, pool: u64) -> SeedId;
pub open spec fn sends_mft(p: PSpec, s: SeedId, user: AccountId, amount: int) -> bool {
    p == (PSpec::Then { a: Box::new(PSpec::Call { to: seed_host(s), method: m_mft_transfer(), args: PArgs::Mft { token: mft_name(seed_sub(s)), sender: s_me(), receiver: user, amount }, deposit: 1 }),
        b: Box::new(PSpec::Call { to: s_me(), method: m_cb_mft_seed(), args: PArgs::TokUserAmt { token: s, user, amount }, deposit: 0 }) })
}
impl<K, V> UnorderedMap<K, V> {
    #[verifier::external_body] pub fn new<P>(p: P) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}
impl Str {
    #[verifier::external_body] pub fn parse<T: VTryFrom<Str>>(&self) -> (r: Result<T, ()>) ensures r is Ok ==> T::vtf(*self, r->Ok_0) { unimplemented!() }
}
impl VFrom<U128> for U128 { open spec fn vfs(a: U128, r: U128) -> bool { r == a } fn vfromx(a: U128) -> (r: U128) { a } }
impl VTryFrom<Str> for Str { open spec fn vtf(a: Str, r: Str) -> bool { r == a } }
impl VFrom<&HRSimpleFarmTerms> for SimpleFarmTerms { open spec fn vfs(a: &HRSimpleFarmTerms, r: SimpleFarmTerms) -> bool { terms_of(*a, r) } fn vfromx(a: &HRSimpleFarmTerms) -> (r: SimpleFarmTerms) { SimpleFarmTerms::vfrom_hr(a) } }
pub open spec fn terms_of(a: HRSimpleFarmTerms, r: SimpleFarmTerms) -> bool {
    r.seed_id == a.seed_id && r.reward_token == a.reward_token.0 && r.start_at == a.start_at && r.reward_per_session == a.reward_per_session.0 && r.session_interval == a.session_interval
}
@verus
// ---------------------------------------------------------------- the steps keep the invariant
pub proof fn dues_nonneg(fm: FM, s: SeedId, f: FarmId, r: int)
    requires forall|a: AccountId| #[trigger] fm.dom().contains(a) ==> mark(fm[a], f) <= r
    ensures forall|a: AccountId| fm.dom().contains(a) ==> f_due(s, f, r)(#[trigger] fm[a]) >= 0
{
    assert forall|a: AccountId| fm.dom().contains(a) implies f_due(s, f, r)(#[trigger] fm[a]) >= 0 by {
        assert(fm.dom().contains(a));
        let (x, y) = (stk(fm[a], s), r - mark(fm[a], f));
        assert(x * y >= 0) by(nonlinear_arith) requires x >= 0, y >= 0;
    }
}
/// what one farmer can claim is covered: its claim is never refused
pub proof fn f03_covered(f: FarmId, g: Farm, fm: FM, a: AccountId)
    requires solvent(f, g, fm), fm.dom().contains(a)
    ensures 0 <= owed(stk(fm[a], seed_of(f)), rps_of(g), mark(fm[a], f)) <= sf(g).last_distribution.unclaimed
{
    let r = rps_of(g);
    let s = seed_of(f);
    dues_nonneg(fm, s, f, r);
    fsum_member(fm, f_due(s, f, r), a);
    let x = due(fm[a], s, f, r);
    assert(f_due(s, f, r)(fm[a]) == x);
    div_floor(x, DENOM as int);
    div_le(x, DENOM as int, sf(g).last_distribution.unclaimed as int);
}
pub proof fn put_farmer(sm: SM, sm2: SM, fm: FM, gm: GM, om: GM, a: AccountId, v: VersionedFarmer)
    requires st_inv(sm, fm, gm, om), same_index(sm, sm2),
        forall|s: SeedId| #[trigger] total_of(sm2, s) == total_of(sm, s) - fget(fm, f_stk(s), a) + stk(v, s),
        forall|f: FarmId| #[trigger] marks(v).dom().contains(f) ==> known(sm, f),
        forall|f: FarmId| #[trigger] gm.dom().contains(f) ==> mark(v, f) <= rps_of(gm[f]) && due(v, seed_of(f), f, rps_of(gm[f])) <= fget(fm, f_due(seed_of(f), f, rps_of(gm[f])), a),
    ensures st_inv(sm2, fm.insert(a, v), gm, om)
{
    let fm2 = fm.insert(a, v);
    assert forall|s: SeedId| #[trigger] total_of(sm2, s) == fsum(fm2, f_stk(s)) by {
        assert(total_of(sm, s) == fsum(fm, f_stk(s)));
        fsum_insert(fm, f_stk(s), a, v);
    }
    assert forall|s: SeedId| sm.dom().contains(s) == sm2.dom().contains(s) by {}
    assert forall|s: SeedId, f: FarmId| sm2.dom().contains(s) && #[trigger] fs(sm2, s).farms@.contains(f) implies gm.dom().contains(f) && seed_of(f) == s && idx_of(f) < fs(sm2, s).next_index by {
        assert(sm.dom().contains(s)); assert(fs(sm, s).farms@.contains(f));
    }
    assert forall|f: FarmId| #[trigger] gm.dom().contains(f) implies farm_ok(sm2, f, gm[f]) by { assert(farm_ok(sm, f, gm[f])); assert(sm.dom().contains(seed_of(f))); }
    assert forall|f: FarmId| known(sm, f) implies #[trigger] known(sm2, f) by { assert(sm.dom().contains(seed_of(f))); }
    assert forall|b: AccountId, f: FarmId| fm2.dom().contains(b) && #[trigger] marks(fm2[b]).dom().contains(f) implies known(sm2, f) by {
        if b != a { assert(marks(fm[b]).dom().contains(f)); }
    }
    assert forall|f: FarmId| #[trigger] gm.dom().contains(f) implies solvent(f, gm[f], fm2) by {
        assert(solvent(f, gm[f], fm));
        let r = rps_of(gm[f]);
        fsum_insert(fm, f_due(seed_of(f), f, r), a, v);
        assert(f_due(seed_of(f), f, r)(v) == due(v, seed_of(f), f, r));
        assert forall|b: AccountId| #[trigger] fm2.dom().contains(b) implies mark(fm2[b], f) <= r by { if b != a { assert(fm.dom().contains(b)); } }
    }
}
/// the claim of farmer `a` in farm `f`
pub proof fn claim_keeps(sm: SM, fm: FM, gm: GM, om: GM, a: AccountId, f: FarmId, v: VersionedFarmer, g: Farm, pay: int)
    requires st_inv(sm, fm, gm, om), fm.dom().contains(a), gm.dom().contains(f),
        v->V101_0.seeds@ == fm[a]->V101_0.seeds@, marks(v) == marks(fm[a]).insert(f, sf(g).last_distribution.rps), sf(g).wf(),
        claimed_step(sf(gm[f]), mark(fm[a], f), stk(fm[a], seed_of(f)), total_of(sm, seed_of(f)), sf(g), sf(g).last_distribution.rps, pay),
    ensures st_inv(sm, fm.insert(a, v), gm.insert(f, g), om)
{
    let s = seed_of(f);
    let o = sf(gm[f]);
    let total = total_of(sm, s);
    let stake = stk(fm[a], s);
    let mk = mark(fm[a], f);
    let n = choose|n: SimpleFarm| {
        &&& #[trigger] distributed(o, total, n)
        &&& mk <= n.last_distribution.rps.v() || stake == 0
        &&& pay == owed(stake, n.last_distribution.rps.v(), mk)
        &&& 0 <= pay <= n.last_distribution.unclaimed
        &&& sf(g).last_distribution.rps == n.last_distribution.rps
        &&& sf(g).same_terms(&n) && sf(g).status == n.status && sf(g).amount_of_reward == n.amount_of_reward && sf(g).amount_of_beneficiary == n.amount_of_beneficiary
        &&& sf(g).amount_of_claimed == n.amount_of_claimed + pay
        &&& sf(g).last_distribution == (SimpleFarmRewardDistribution { unclaimed: (n.last_distribution.unclaimed - pay) as u128, ..n.last_distribution })
    };
    let r0 = rps_of(gm[f]);
    let r = n.last_distribution.rps.v();
    let q = r - r0;
    let fm2 = fm.insert(a, v);
    let gm2 = gm.insert(f, g);
    assert(farm_ok(sm, f, gm[f]));
    assert(solvent(f, gm[f], fm));
    // distribution
    dues_nonneg(fm, s, f, r0);
    fsum_nonneg(fm, f_due(s, f, r0));
    assert(total == fsum(fm, f_stk(s)));
    let (su, s0) = (fsum(fm, f_due(s, f, r)), fsum(fm, f_due(s, f, r0)));
    assert forall|b: AccountId| fm.dom().contains(b) implies f_due(s, f, r)(#[trigger] fm[b]) == f_due(s, f, r0)(fm[b]) + q * f_stk(s)(fm[b]) by {
        let (x, y) = (stk(fm[b], s), mark(fm[b], f));
        assert(x * (r - y) == x * (r0 - y) + q * x) by(nonlinear_arith) requires q == r - r0;
    }
    fsum_lin(fm, f_due(s, f, r), f_due(s, f, r0), f_stk(s), q);
    let dn = DENOM as int;
    let u = n.last_distribution.unclaimed as int;
    if started(o) {
        let ad = dist_added(o);
        if total > 0 {
            div_floor(ad * dn, total);
            assert(ad * dn >= 0) by(nonlinear_arith) requires ad >= 0, dn >= 0;
            assert(q >= 0);
            assert(u == o.last_distribution.unclaimed + ad);
            assert(u * dn == o.last_distribution.unclaimed * dn + ad * dn) by(nonlinear_arith) requires u == o.last_distribution.unclaimed + ad;
            assert(su <= u * dn);
        } else {
            assert(total == 0) by { fsum_nonneg(fm, f_stk(s)); }
            assert(q == 0);
            assert forall|b: AccountId| fm.dom().contains(b) implies f_due(s, f, r0)(#[trigger] fm[b]) == 0 by {
                fsum_member(fm, f_stk(s), b);
                assert(f_stk(s)(fm[b]) == stk(fm[b], s));
                let y = r0 - mark(fm[b], f);
                assert(0 * y == 0);
            }
            fsum_zero(fm, f_due(s, f, r0));
            assert(q * total == 0) by(nonlinear_arith) requires q == 0;
            assert(u * dn >= 0) by(nonlinear_arith) requires u >= 0, dn >= 0;
            assert(su <= u * dn);
        }
    } else { assert(q * total == 0) by(nonlinear_arith) requires q == 0; assert(su <= u * dn); }
    assert(q >= 0);
    assert(su <= u * dn && r >= r0);
    // payment
    let x = stake * (r - mk);
    assert(x >= 0) by(nonlinear_arith) requires stake >= 0, r >= mk, x == stake * (r - mk);
    div_floor(x, dn);
    fsum_insert(fm, f_due(s, f, r), a, v);
    assert(f_due(s, f, r)(fm[a]) == x);
    assert(mark(v, f) == r);
    assert(stake * (r - r) == 0) by(nonlinear_arith);
    assert(f_due(s, f, r)(v) == 0);
    assert((u - pay) * dn == u * dn - pay * dn) by(nonlinear_arith);
    assert(fsum(fm2, f_due(s, f, r)) <= (u - pay) * dn);
    assert forall|b: AccountId| #[trigger] fm2.dom().contains(b) implies mark(fm2[b], f) <= r by { if b != a { assert(fm.dom().contains(b)); } }
    assert(solvent(f, g, fm2));
    assert forall|f2: FarmId| #[trigger] gm2.dom().contains(f2) implies solvent(f2, gm2[f2], fm2) by {
        if f2 != f {
            assert(gm.dom().contains(f2)); assert(solvent(f2, gm[f2], fm));
            let r2 = rps_of(gm[f2]);
            let s2 = seed_of(f2);
            fsum_insert(fm, f_due(s2, f2, r2), a, v);
            assert(mark(v, f2) == mark(fm[a], f2));
            assert(f_due(s2, f2, r2)(v) == f_due(s2, f2, r2)(fm[a]));
            assert forall|b: AccountId| #[trigger] fm2.dom().contains(b) implies mark(fm2[b], f2) <= r2 by { assert(fm.dom().contains(b)); }
        }
    }
    assert forall|s2: SeedId| #[trigger] total_of(sm, s2) == fsum(fm2, f_stk(s2)) by {
        fsum_insert(fm, f_stk(s2), a, v);
        assert(f_stk(s2)(v) == f_stk(s2)(fm[a]));
    }
    assert forall|b: AccountId, f2: FarmId| fm2.dom().contains(b) && #[trigger] marks(fm2[b]).dom().contains(f2) implies known(sm, f2) by {
        if b != a || f2 != f { assert(marks(fm[b]).dom().contains(f2)); }
        else { assert(fs(sm, s).farms@.contains(f)); }
    }
    assert forall|f2: FarmId| #[trigger] gm2.dom().contains(f2) implies farm_ok(sm, f2, gm2[f2]) by { assert(gm.dom().contains(f2)); assert(farm_ok(sm, f2, gm[f2])); }
    assert forall|s2: SeedId, f2: FarmId| sm.dom().contains(s2) && #[trigger] fs(sm, s2).farms@.contains(f2) implies gm2.dom().contains(f2) && seed_of(f2) == s2 && idx_of(f2) < fs(sm, s2).next_index by {}
    assert(old_ok(sm, gm2, om));
}
pub proof fn claim_start(o: &Contract, a: AccountId)
    requires o.inv(), o.has(a)
    ensures part(o, o.gm(), o.fm()[a], a, Set::empty())
{
    assert(o.fm().insert(a, o.fm()[a]) =~= o.fm());
}
pub proof fn claim_one(o: &Contract, gm: GM, v: VersionedFarmer, a: AccountId, fset: Set<FarmId>, f: FarmId, g2: Farm, v2: VersionedFarmer)
    requires part(o, gm, v, a, fset), !fset.contains(f), o.gm().dom().contains(f), one_claim(gm[f], v, total_of(o.sm(), seed_of(f)), g2, v2),
    ensures part(o, gm.insert(f, g2), v2, a, fset.insert(f)), farm_ok(o.sm(), f, g2),
{
    let fm = o.fm().insert(a, v);
    assert(farm_ok(o.sm(), f, gm[f]));
    assert(gm[f] == o.gm()[f]);
    assert(farm_ok(o.sm(), f, g2));
    claim_keeps(o.sm(), fm, gm, o.om(), a, f, v2, g2, net(g2) - net(gm[f]));
    assert(fm.insert(a, v2) =~= o.fm().insert(a, v2));
    let gm2 = gm.insert(f, g2);
    assert(gm2.dom() =~= o.gm().dom());
    assert(mark(v, f) == mark(o.fm()[a], f));
    assert(claim_at(o, gm2, a, f));
    assert forall|f3: FarmId| #![trigger gm2[f3]] o.gm().dom().contains(f3) implies if fset.insert(f).contains(f3) { claim_at(o, gm2, a, f3) } else { gm2[f3] == o.gm()[f3] } by {
        if f3 != f { assert(gm2[f3] == gm[f3]); if fset.contains(f3) { assert(claim_at(o, gm, a, f3)); } }
    }
    assert forall|t: AccountId| #[trigger] owns(v2, t) - paid(gm2, t) == o.reward(a, t) - paid(o.gm(), t) by {
        fsum_insert(gm, f_net(t), f, g2);
        assert(owns(v, t) - paid(gm, t) == o.reward(a, t) - paid(o.gm(), t));
        assert(f_net(t)(g2) - f_net(t)(gm[f]) == (if t == sf(g2).terms.reward_token { net(g2) - net(gm[f]) } else { 0 }));
        assert(mget(v2->V101_0.rewards@, t) == mget(v->V101_0.rewards@, t) + (if t == sf(gm[f]).terms.reward_token { net(g2) - net(gm[f]) } else { 0 }));
    }
    assert forall|f3: FarmId| #[trigger] mark(v2, f3) == (if fset.insert(f).contains(f3) { rps_of(gm2[f3]) } else { mark(o.fm()[a], f3) }) by {
        if f3 != f { assert(mark(v2, f3) == mark(v, f3)); }
    }
}
/// the present farm of an index entry
pub proof fn farm_of_seed(o: &Contract, gm: GM, v: VersionedFarmer, a: AccountId, fset: Set<FarmId>, s: SeedId, f: FarmId)
    requires part(o, gm, v, a, fset), o.sm().dom().contains(s), fs(o.sm(), s).farms@.contains(f)
    ensures o.gm().dom().contains(f), gm.dom().contains(f), seed_of(f) == s, sf(gm[f]).wf(), sf(gm[f]).farm_id == f, sf(gm[f]).terms.seed_id == s
{
    assert(gm.dom().contains(f));
    assert(farm_ok(o.sm(), f, gm[f]));
}
pub proof fn seen_has(ord: Seq<FarmId>, i: int, f: FarmId)
    requires 0 <= i <= ord.len()
    ensures seen(ord, i).contains(f) <==> exists|j: int| 0 <= j < i && ord[j] == f
    decreases i
{
    if i > 0 { seen_has(ord, i - 1, f); assert(ord[i - 1] == f || !(exists|j: int| i - 1 <= j < i && ord[j] == f)); }
}
pub proof fn seen_step(ord: Seq<FarmId>, m: Set<FarmId>, i: int)
    requires is_order(ord, m), 0 <= i < ord.len()
    ensures seen(ord, i + 1) == seen(ord, i).insert(ord[i]), !seen(ord, i).contains(ord[i])
{
    seen_has(ord, i, ord[i]);
}
pub proof fn seen_all(ord: Seq<FarmId>, m: Set<FarmId>)
    requires is_order(ord, m)
    ensures seen(ord, ord.len() as int) == m
{
    assert forall|f: FarmId| seen(ord, ord.len() as int).contains(f) == m.contains(f) by { seen_has(ord, ord.len() as int, f); }
    assert(seen(ord, ord.len() as int) =~= m);
}
/// a stake moves after the claim in all farms of the seed
pub proof fn restake(o: &Contract, gm: GM, v: VersionedFarmer, a: AccountId, s: SeedId, v2: VersionedFarmer, sm2: SM, d: int)
    requires part(o, gm, v, a, seed_farms(o, s)), restaked(o.sm(), sm2, v, v2, s, d),
    ensures st_inv(sm2, o.fm().insert(a, v2), gm, o.om()), claims_v(o, gm, v2, a, seed_farms(o, s)),
        stk(v2, s) != 0 ==> marked_v(o, gm, v2, a, seed_farms(o, s)), marks(v2) == marks(v) ==> marked_v(o, gm, v2, a, seed_farms(o, s)),
{
    let fm = o.fm().insert(a, v);
    assert forall|t: AccountId| #[trigger] owns(v2, t) == owns(v, t) by {}
    if marks(v2) == marks(v) { assert forall|f: FarmId| #[trigger] mark(v2, f) == mark(v, f) by {} }
    if stk(v2, s) != 0 { assert(marks(v2) =~= marks(v)); }
    assert forall|f: FarmId| #[trigger] gm.dom().contains(f) implies mark(v2, f) <= rps_of(gm[f]) && due(v2, seed_of(f), f, rps_of(gm[f])) <= fget(fm, f_due(seed_of(f), f, rps_of(gm[f])), a) by {
        let r = rps_of(gm[f]);
        assert(farm_ok(o.sm(), f, gm[f])); assert(solvent(f, gm[f], fm)); assert(fm.dom().contains(a));
        assert(mark(v2, f) == mark(v, f) || (stk(v2, s) == 0 && fs(o.sm(), s).farms@.contains(f) && mark(v2, f) == 0)) by {
            if marks(v).dom().contains(f) {} if marks(v2).dom().contains(f) {}
        }
        assert(f_due(seed_of(f), f, r)(v) == due(v, seed_of(f), f, r));
        if seed_of(f) == s {
            assert(mark(v, f) == r);
            let (x, y) = (stk(v, s), stk(v2, s));
            assert(x * (r - r) == 0 && y * (r - r) == 0) by(nonlinear_arith);
            let z = r - mark(v2, f);
            if stk(v2, s) == 0 { assert(0 * z == 0); }
        } else {
            if fs(o.sm(), s).farms@.contains(f) { assert(seed_of(f) == s); }
            assert(stk(v2, seed_of(f)) == stk(v, seed_of(f)));
        }
    }
    assert forall|s2: SeedId| #[trigger] total_of(sm2, s2) == total_of(o.sm(), s2) - fget(fm, f_stk(s2), a) + stk(v2, s2) by { assert(f_stk(s2)(v) == stk(v, s2)); if s2 != s { assert(stk(v2, s2) == stk(v, s2)); } }
    assert forall|f: FarmId| #[trigger] marks(v2).dom().contains(f) implies known(o.sm(), f) by { assert(marks(fm[a]).dom().contains(f)); }
    assert(same_index(o.sm(), sm2)) by { assert(sm2.dom() =~= o.sm().dom()); }
    put_farmer(o.sm(), sm2, fm, gm, o.om(), a, v2);
    assert(fm.insert(a, v2) =~= o.fm().insert(a, v2));
}
/// a farmer written with the same stakes and no new markers
pub proof fn touch(o: &Contract, a: AccountId, v: VersionedFarmer)
    requires o.inv(), o.has(a), v->V101_0.seeds@ == o.fr(a).seeds@, marks(v) == marks(o.fm()[a]),
    ensures st_inv(o.sm(), o.fm().insert(a, v), o.gm(), o.om())
{
    let fm = o.fm();
    assert forall|f: FarmId| #[trigger] o.gm().dom().contains(f) implies mark(v, f) <= rps_of(o.gm()[f]) && due(v, seed_of(f), f, rps_of(o.gm()[f])) <= fget(fm, f_due(seed_of(f), f, rps_of(o.gm()[f])), a) by {
        assert(solvent(f, o.gm()[f], fm)); assert(fm.dom().contains(a));
        assert(f_due(seed_of(f), f, rps_of(o.gm()[f]))(fm[a]) == due(v, seed_of(f), f, rps_of(o.gm()[f])));
    }
    assert forall|s: SeedId| #[trigger] total_of(o.sm(), s) == total_of(o.sm(), s) - fget(fm, f_stk(s), a) + stk(v, s) by { assert(f_stk(s)(fm[a]) == stk(v, s)); }
    assert forall|f: FarmId| #[trigger] marks(v).dom().contains(f) implies known(o.sm(), f) by { assert(marks(fm[a]).dom().contains(f)); }
    put_farmer(o.sm(), o.sm(), fm, o.gm(), o.om(), a, v);
}
/// a marker of a farm that is no more is dropped
pub proof fn unmark(o: &Contract, a: AccountId, v: VersionedFarmer, f: FarmId)
    requires o.inv(), o.has(a), v->V101_0.seeds@ == o.fr(a).seeds@, marks(v) == marks(o.fm()[a]).remove(f) || marks(v) == marks(o.fm()[a]), o.sm().dom().contains(seed_of(f)), !fs(o.sm(), seed_of(f)).farms@.contains(f),
    ensures st_inv(o.sm(), o.fm().insert(a, v), o.gm(), o.om())
{
    let fm = o.fm();
    assert forall|f2: FarmId| #[trigger] o.gm().dom().contains(f2) implies mark(v, f2) <= rps_of(o.gm()[f2]) && due(v, seed_of(f2), f2, rps_of(o.gm()[f2])) <= fget(fm, f_due(seed_of(f2), f2, rps_of(o.gm()[f2])), a) by {
        assert(farm_ok(o.sm(), f2, o.gm()[f2]));
        assert(f2 != f);
        assert(solvent(f2, o.gm()[f2], fm)); assert(fm.dom().contains(a));
        assert(mark(v, f2) == mark(fm[a], f2));
        assert(f_due(seed_of(f2), f2, rps_of(o.gm()[f2]))(fm[a]) == due(v, seed_of(f2), f2, rps_of(o.gm()[f2])));
    }
    assert forall|s: SeedId| #[trigger] total_of(o.sm(), s) == total_of(o.sm(), s) - fget(fm, f_stk(s), a) + stk(v, s) by { assert(f_stk(s)(fm[a]) == stk(v, s)); }
    assert forall|f2: FarmId| #[trigger] marks(v).dom().contains(f2) implies known(o.sm(), f2) by { assert(marks(fm[a]).dom().contains(f2)); }
    put_farmer(o.sm(), o.sm(), fm, o.gm(), o.om(), a, v);
}
/// a farmer registers
pub proof fn enroll(o: &Contract, a: AccountId, v: VersionedFarmer)
    requires o.inv(), !o.has(a), o.left_ok(a), v->V101_0.seeds@ == Map::<SeedId, u128>::empty(), marks(v) == s_left(a),
    ensures st_inv(o.sm(), o.fm().insert(a, v), o.gm(), o.om())
{
    let fm = o.fm();
    assert forall|f: FarmId| #[trigger] o.gm().dom().contains(f) implies mark(v, f) <= rps_of(o.gm()[f]) && due(v, seed_of(f), f, rps_of(o.gm()[f])) <= fget(fm, f_due(seed_of(f), f, rps_of(o.gm()[f])), a) by {
        assert(farm_ok(o.sm(), f, o.gm()[f]));
        let x = rps_of(o.gm()[f]) - mark(v, f);
        assert(stk(v, seed_of(f)) == 0);
        assert(0 * x == 0);
        if marks(v).dom().contains(f) { assert(s_left(a).dom().contains(f)); }
    }
    assert forall|s: SeedId| #[trigger] total_of(o.sm(), s) == total_of(o.sm(), s) - fget(fm, f_stk(s), a) + stk(v, s) by {}
    put_farmer(o.sm(), o.sm(), fm, o.gm(), o.om(), a, v);
}
/// a farm written with the same id, growth and unclaimed reward
pub proof fn put_farm(sm: SM, fm: FM, gm: GM, om: GM, f: FarmId, g: Farm)
    requires st_inv(sm, fm, gm, om), gm.dom().contains(f), farm_ok(sm, f, g), rps_of(g) == rps_of(gm[f]), sf(g).last_distribution.unclaimed == sf(gm[f]).last_distribution.unclaimed,
    ensures st_inv(sm, fm, gm.insert(f, g), om)
{
    let gm2 = gm.insert(f, g);
    assert forall|f2: FarmId| #[trigger] gm2.dom().contains(f2) implies solvent(f2, gm2[f2], fm) && farm_ok(sm, f2, gm2[f2]) by { assert(gm.dom().contains(f2)); assert(solvent(f2, gm[f2], fm)); assert(farm_ok(sm, f2, gm[f2])); }
    assert(old_ok(sm, gm2, om));
}
pub proof fn new_farm(sm: SM, sm2: SM, fm: FM, gm: GM, om: GM, f: FarmId, g: Farm)
    requires st_inv(sm, fm, gm, om), !known(sm, f), sf(g).wf(), sf(g).farm_id == f, sf(g).terms.seed_id == seed_of(f), rps_of(g) == 0,
        ({ let s = seed_of(f);
           &&& sm2 == sm.insert(s, sm2[s]) && fs(sm2, s).amount == total_of(sm, s)
           &&& fs(sm2, s).farms@ == (if sm.dom().contains(s) { fs(sm, s).farms@ } else { Set::empty() }).insert(f)
           &&& fs(sm2, s).next_index > idx_of(f) && (sm.dom().contains(s) ==> fs(sm2, s).next_index >= fs(sm, s).next_index) }),
    ensures st_inv(sm2, fm, gm.insert(f, g), om), !gm.dom().contains(f), !om.dom().contains(f)
{
    let s = seed_of(f);
    let gm2 = gm.insert(f, g);
    if gm.dom().contains(f) { assert(farm_ok(sm, f, gm[f])); assert(fs(sm, s).farms@.contains(f)); }
    assert forall|s2: SeedId| #[trigger] total_of(sm2, s2) == fsum(fm, f_stk(s2)) by { assert(total_of(sm, s2) == fsum(fm, f_stk(s2))); }
    assert forall|f2: FarmId| known(sm, f2) implies #[trigger] known(sm2, f2) by {}
    assert forall|b: AccountId, f2: FarmId| fm.dom().contains(b) && #[trigger] marks(fm[b]).dom().contains(f2) implies known(sm2, f2) by { assert(known(sm, f2)); }
    assert forall|f2: FarmId| #[trigger] gm2.dom().contains(f2) implies farm_ok(sm2, f2, gm2[f2]) by { if f2 != f { assert(gm.dom().contains(f2)); assert(farm_ok(sm, f2, gm[f2])); } }
    assert forall|s2: SeedId, f2: FarmId| sm2.dom().contains(s2) && #[trigger] fs(sm2, s2).farms@.contains(f2) implies gm2.dom().contains(f2) && seed_of(f2) == s2 && idx_of(f2) < fs(sm2, s2).next_index by {
        if f2 != f { assert(fs(sm, s2).farms@.contains(f2)); }
    }
    assert forall|f2: FarmId| #[trigger] gm2.dom().contains(f2) implies solvent(f2, gm2[f2], fm) by {
        if f2 != f { assert(gm.dom().contains(f2)); assert(solvent(f2, gm[f2], fm)); }
        else {
            assert forall|b: AccountId| #[trigger] fm.dom().contains(b) implies mark(fm[b], f) == 0 by {
                if marks(fm[b]).dom().contains(f) { assert(known(sm, f)); }
            }
            assert forall|b: AccountId| fm.dom().contains(b) implies f_due(s, f, 0)(#[trigger] fm[b]) == 0 by {
                assert(fm.dom().contains(b)); assert(mark(fm[b], f) == 0);
                let x = stk(fm[b], s); assert(x * 0 == 0);
            }
            fsum_zero(fm, f_due(s, f, 0));
            let (u, dn) = (sf(g).last_distribution.unclaimed as int, DENOM as int);
            assert(u * dn >= 0) by(nonlinear_arith) requires u >= 0, dn >= 0;
        }
    }
}
pub proof fn drop_farm(sm: SM, sm2: SM, fm: FM, gm: GM, om: GM, f: FarmId, g: Farm)
    requires st_inv(sm, fm, gm, om), gm.dom().contains(f), sf(g).wf(), sf(g).farm_id == f, sf(g).status is Cleared,
        ({ let s = seed_of(f);
           &&& sm2 == sm.insert(s, sm2[s]) && fs(sm2, s).amount == fs(sm, s).amount
           &&& fs(sm2, s).farms@ == fs(sm, s).farms@.remove(f) && fs(sm2, s).next_index == fs(sm, s).next_index }),
    ensures st_inv(sm2, fm, gm.remove(f), om.insert(f, g))
{
    let s = seed_of(f);
    let gm2 = gm.remove(f);
    assert(farm_ok(sm, f, gm[f]));
    assert(fs(sm, s).farms@.contains(f));
    assert forall|s2: SeedId| #[trigger] total_of(sm2, s2) == fsum(fm, f_stk(s2)) by { assert(total_of(sm, s2) == fsum(fm, f_stk(s2))); }
    assert forall|f2: FarmId| known(sm, f2) implies #[trigger] known(sm2, f2) by {}
    assert(known(sm2, f));
    assert forall|b: AccountId, f2: FarmId| fm.dom().contains(b) && #[trigger] marks(fm[b]).dom().contains(f2) implies known(sm2, f2) by { assert(known(sm, f2)); }
    assert forall|f2: FarmId| #[trigger] gm2.dom().contains(f2) implies farm_ok(sm2, f2, gm2[f2]) && solvent(f2, gm2[f2], fm) by { assert(gm.dom().contains(f2)); assert(farm_ok(sm, f2, gm[f2])); assert(solvent(f2, gm[f2], fm)); }
    assert forall|s2: SeedId, f2: FarmId| sm2.dom().contains(s2) && #[trigger] fs(sm2, s2).farms@.contains(f2) implies gm2.dom().contains(f2) && seed_of(f2) == s2 && idx_of(f2) < fs(sm2, s2).next_index by {
        assert(fs(sm, s2).farms@.contains(f2));
    }
}
/// a farmer without stake leaves
pub proof fn drop_farmer(sm: SM, fm: FM, gm: GM, om: GM, a: AccountId)
    requires st_inv(sm, fm, gm, om), fm.dom().contains(a), forall|s: SeedId| #[trigger] stk(fm[a], s) == 0,
    ensures st_inv(sm, fm.remove(a), gm, om)
{
    let fm2 = fm.remove(a);
    assert forall|s: SeedId| #[trigger] total_of(sm, s) == fsum(fm2, f_stk(s)) by { fsum_remove(fm, f_stk(s), a); assert(stk(fm[a], s) == 0); }
    assert forall|b: AccountId, f: FarmId| fm2.dom().contains(b) && #[trigger] marks(fm2[b]).dom().contains(f) implies known(sm, f) by { assert(marks(fm[b]).dom().contains(f)); }
    assert forall|f: FarmId| #[trigger] gm.dom().contains(f) implies solvent(f, gm[f], fm2) by {
        assert(solvent(f, gm[f], fm));
        let (s, r) = (seed_of(f), rps_of(gm[f]));
        fsum_remove(fm, f_due(s, f, r), a);
        assert(stk(fm[a], s) == 0);
        let y = r - mark(fm[a], f);
        assert(0 * y == 0);
        assert(f_due(s, f, r)(fm[a]) == 0);
        assert forall|b: AccountId| #[trigger] fm2.dom().contains(b) implies mark(fm2[b], f) <= r by { assert(fm.dom().contains(b)); }
    }
}
@end
@fn SimpleFarmTerms::from<&HRSimpleFarmTerms>(terms) -> r as=vfrom_hr props=F02
    ensures terms_of(*terms, r),
@verus shared
/// LookupMap::new: a handle onto whatever storage holds under the prefix
#[verifier::external_body] pub fn v_reopen(p: StorageKeys) -> (r: LookupMap<FarmId, RPS>) ensures p is UserRps ==> r@ == s_left(p->UserRps_account_id) { unimplemented!() }
@end
