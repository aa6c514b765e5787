@include utils.vc
@include chain.vc
@include feespec.vc
@include curve.vc
@file ref-exchange/src/simple_pool.rs
@file ref-exchange/src/stable_swap/mod.rs
@file ref-exchange/src/rated_swap/mod.rs
@file ref-exchange/src/degen_swap/mod.rs
@file ref-exchange/src/pool.rs
@const NUM_TOKENS
@type SwapVolume
@type SimplePool
@type StableSwapPool
@type RatedSwapPool
@type DegenSwapPool
@type Pool
@file ref-exchange/src/pool_limit_info.rs
@type DegenPoolLimitInfo
@type VDegenPoolLimitInfo
@type VPoolLimitInfo
@import dgate.vc DegenSwapPool::assert_degens_valid
@import simple_pool.vc SimplePool::new SimplePool::modify_total_fee SimplePool::share_has_registered SimplePool::share_register SimplePool::share_unregister SimplePool::share_transfer SimplePool::share_balance_of SimplePool::share_total_balance SimplePool::tokens SimplePool::get_fee SimplePool::get_volumes SimplePool::swap SimplePool::swap_by_output SimplePool::add_liquidity SimplePool::remove_liquidity
@import spool.vc StableSwapPool::new StableSwapPool::modify_total_fee StableSwapPool::share_has_registered StableSwapPool::share_register StableSwapPool::share_unregister StableSwapPool::share_transfer StableSwapPool::share_balance_of StableSwapPool::share_total_balance StableSwapPool::tokens StableSwapPool::get_fee StableSwapPool::get_volumes StableSwapPool::swap StableSwapPool::add_liquidity StableSwapPool::remove_liquidity_by_shares StableSwapPool::remove_liquidity_by_tokens StableSwapPool::ramp_amplification StableSwapPool::stop_ramp_amplification
@import ratedpool.vc RatedSwapPool::new RatedSwapPool::modify_total_fee RatedSwapPool::share_has_registered RatedSwapPool::share_register RatedSwapPool::share_unregister RatedSwapPool::share_transfer RatedSwapPool::share_balance_of RatedSwapPool::share_total_balance RatedSwapPool::tokens RatedSwapPool::get_fee RatedSwapPool::get_volumes RatedSwapPool::swap RatedSwapPool::add_liquidity RatedSwapPool::remove_liquidity_by_shares RatedSwapPool::remove_liquidity_by_tokens RatedSwapPool::ramp_amplification RatedSwapPool::stop_ramp_amplification
@import degenpool.vc DegenSwapPool::new DegenSwapPool::modify_total_fee DegenSwapPool::share_has_registered DegenSwapPool::share_register DegenSwapPool::share_unregister DegenSwapPool::share_transfer DegenSwapPool::share_balance_of DegenSwapPool::share_total_balance DegenSwapPool::tokens DegenSwapPool::get_fee DegenSwapPool::get_volumes DegenSwapPool::swap DegenSwapPool::add_liquidity DegenSwapPool::remove_liquidity_by_shares DegenSwapPool::remove_liquidity_by_tokens DegenSwapPool::ramp_amplification DegenSwapPool::stop_ramp_amplification DegenSwapPool::get_tvl
@verus
/// the value limits configured per pool
pub uninterp spec fn s_limits() -> Map<u64, VPoolLimitInfo>;
#[verifier::external_body] pub fn read_pool_limit_from_storage() -> (r: UnorderedMap<u64, VPoolLimitInfo>) ensures r@ == s_limits() { unimplemented!() }
pub open spec fn us() -> int { 1_000_000_000_000_000_000_000_000 }
pub open spec fn scaled(a: Seq<u128>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] * us()) }
/// the abstract pool of xbase.vc, for each kind
impl Pool {
    pub open spec fn pwf(&self) -> bool { match self { Pool::SimplePool(p) => p.wf(), Pool::StableSwapPool(p) => p.wf(), Pool::RatedSwapPool(p) => p.wf(), Pool::DegenSwapPool(p) => p.wf() } }
    pub open spec fn pshape(&self) -> bool { match self { Pool::SimplePool(p) => p.shape(), Pool::StableSwapPool(p) => p.shape(), Pool::RatedSwapPool(p) => p.shape(), Pool::DegenSwapPool(p) => p.shape() } }
    pub open spec fn sh(&self) -> Map<AccountId, u128> { match self { Pool::SimplePool(p) => p.shares@, Pool::StableSwapPool(p) => p.shares@, Pool::RatedSwapPool(p) => p.shares@, Pool::DegenSwapPool(p) => p.shares@ } }
    pub open spec fn supply(&self) -> int { match self { Pool::SimplePool(p) => p.shares_total_supply as int, Pool::StableSwapPool(p) => p.shares_total_supply as int, Pool::RatedSwapPool(p) => p.shares_total_supply as int, Pool::DegenSwapPool(p) => p.shares_total_supply as int } }
    pub open spec fn toks(&self) -> Seq<AccountId> { match self { Pool::SimplePool(p) => p.token_account_ids@, Pool::StableSwapPool(p) => p.token_account_ids@, Pool::RatedSwapPool(p) => p.token_account_ids@, Pool::DegenSwapPool(p) => p.token_account_ids@ } }
    pub open spec fn res(&self) -> Seq<int> {
        match self {
            Pool::SimplePool(p) => scaled(p.amounts@),
            Pool::StableSwapPool(p) => Seq::new(p.c_amounts@.len(), |i: int| p.c_amounts@[i] * StableSwapPool::unit(p.dec(i))),
            Pool::RatedSwapPool(p) => Seq::new(p.c_amounts@.len(), |i: int| p.c_amounts@[i] * RatedSwapPool::unit(p.dec(i))),
            Pool::DegenSwapPool(p) => Seq::new(p.c_amounts@.len(), |i: int| p.c_amounts@[i] * DegenSwapPool::unit(p.dec(i))),
        }
    }
    pub open spec fn sdec(&self) -> int { match self { Pool::SimplePool(_) => 24, Pool::StableSwapPool(_) => 18, Pool::RatedSwapPool(_) => 24, Pool::DegenSwapPool(_) => 24 } }
    pub open spec fn redeem(&self, s: int) -> Seq<u128> {
        match self {
            Pool::SimplePool(p) => Seq::new(p.amounts@.len(), |i: int| ((p.amounts@[i] * s) / (p.shares_total_supply as int)) as u128),
            Pool::StableSwapPool(p) => Seq::new(p.c_amounts@.len(), |i: int| StableSwapPool::to_a((p.c_amounts@[i] * s) / (p.shares_total_supply as int), p.dec(i)) as u128),
            Pool::RatedSwapPool(p) => Seq::new(p.c_amounts@.len(), |i: int| RatedSwapPool::to_a((p.c_amounts@[i] * s) / (p.shares_total_supply as int), p.dec(i)) as u128),
            Pool::DegenSwapPool(p) => Seq::new(p.c_amounts@.len(), |i: int| DegenSwapPool::to_a((p.c_amounts@[i] * s) / (p.shares_total_supply as int), p.dec(i)) as u128),
        }
    }
    pub open spec fn tvl_ok(&self, id: u64) -> bool {
        match self { Pool::DegenSwapPool(p) => s_limits().dom().contains(id) ==> p.tvl() <= (s_limits()[id]->DegenPoolLimit_0->Current_0).tvl_limit, _ => true }
    }
    pub open spec fn fee(&self) -> int { match self { Pool::SimplePool(p) => p.total_fee as int, Pool::StableSwapPool(p) => p.total_fee as int, Pool::RatedSwapPool(p) => p.total_fee as int, Pool::DegenSwapPool(p) => p.total_fee as int } }
    pub open spec fn vols(&self) -> Seq<SwapVolume> { match self { Pool::SimplePool(p) => p.volumes@, Pool::StableSwapPool(p) => p.volumes@, Pool::RatedSwapPool(p) => p.volumes@, Pool::DegenSwapPool(p) => p.volumes@ } }
}
proof fn credit_up(m: Map<AccountId, u128>, k: AccountId, n: int)
    requires 0 <= n, msum(m) + n <= u128::MAX
    ensures msum(credit(m, k, n)) == msum(m) + n, mget(credit(m, k, n), k) == mget(m, k) + n, mget(m, k) + n <= u128::MAX, forall|id: AccountId| #[trigger] mget(credit(m, k, n), id) >= mget(m, id)
{ msum_member(m, k); msum_insert(m, k, (mget(m, k) + n) as u128); }
proof fn fee_up(m: Map<AccountId, u128>, fees: AdminFees, n: int)
    requires msum(m) + n <= u128::MAX, 0 <= n, fees.referral_info is Some ==> (fees.referral_info->0).1 <= 10000
    ensures forall|id: AccountId| #[trigger] mget(fee_ledger(m, fees, n), id) >= mget(m, id)
{
    let rp = ref_part(m, fees, n);
    if fees.referral_info is Some { let b = (fees.referral_info->0).1 as int; assert(0 <= n * b <= n * 10000) by(nonlinear_arith) requires n >= 0, 0 <= b <= 10000; div_le(n * b, 10000, n); }
    let m1 = if rp > 0 { credit(m, (fees.referral_info->0).0, rp) } else { m };
    if rp > 0 { credit_up(m, (fees.referral_info->0).0, rp); }
    credit_up(m1, fees.exchange_id, n - rp);
    assert forall|id: AccountId| #[trigger] mget(fee_ledger(m, fees, n), id) >= mget(m, id) by { assert(mget(m1, id) >= mget(m, id)); }
}
proof fn simple_swap(o: SimplePool, n: SimplePool, tin: AccountId, a: int, tout: AccountId, b: int, fees: AdminFees, v: bool)
    requires o.shape(), n.same_config(&o), o.swap_effect(n, tin, a, tout, b, fees, v), fees.referral_info is Some ==> (fees.referral_info->0).1 <= 10000,
    ensures exists|i: int, j: int| #[trigger] swapped(Pool::SimplePool(o), Pool::SimplePool(n), i, j, tin, tout, a, b),
        !v && o.wf() ==> no_one_loses(Pool::SimplePool(n), Pool::SimplePool(o)),
{
    let (i, j) = choose|i: int, j: int| #[trigger] o.is_idx(tin, i) && #[trigger] o.is_idx(tout, j) && i != j
            && o.amounts@[i] > 0 && o.amounts@[j] > 0
            && 0 <= a && 0 <= b && o.amounts@[i] + a <= u128::MAX && b <= o.amounts@[j]
            && n.amounts@ == o.amounts@.update(i, (o.amounts@[i] + a) as u128).update(j, (o.amounts@[j] - b) as u128)
            && fee_step(o, n, i, j, fees, v);
    assert(swapped(Pool::SimplePool(o), Pool::SimplePool(n), i, j, tin, tout, a, b));
    if !v && o.wf() { let t = n.shares_total_supply - o.shares_total_supply; fee_up(o.shares@, fees, t); }
}
proof fn simple_add(o: SimplePool, n: SimplePool, who: AccountId, a: Seq<u128>, r: int)
    requires o.shape(), n.same_config(&o), n.shape(), a.len() == 2, forall|i: int| 0 <= i < 2 ==> #[trigger] n.amounts@[i] == o.amounts@[i] + a[i], n.shares_total_supply == o.shares_total_supply + r, r > 0,
    ensures took(Pool::SimplePool(o), Pool::SimplePool(n), a), o.wf() ==> mget(o.shares@, who) + r <= u128::MAX
{
    let po = Pool::SimplePool(o); let pn = Pool::SimplePool(n);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] pn.res()[i] == po.res()[i] + a[i] * us() by { assert(n.amounts@[i] == o.amounts@[i] + a[i]); }
    msum_member(o.shares@, who);
}
proof fn simple_share(o: SimplePool, n: SimplePool, s: int, r: Seq<u128>)
    requires o.shape(), n.same_config(&o), n.shape(), r.len() == 2,
        forall|i: int| 0 <= i < 2 ==> (#[trigger] r[i]) == (o.amounts@[i] * s) / (o.shares_total_supply as int) && n.amounts@[i] == o.amounts@[i] - r[i],
    ensures gave(Pool::SimplePool(o), Pool::SimplePool(n), r), r == Pool::SimplePool(o).redeem(s),
{
    let po = Pool::SimplePool(o); let pn = Pool::SimplePool(n);
    assert(r =~= po.redeem(s));
    assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] pn.res()[i] <= po.res()[i] - r[i] * us() by { assert(n.amounts@[i] == o.amounts@[i] - r[i]); }
}
pub open spec fn ramp_only(o: Pool, n: Pool) -> bool { same_pool(n, o) && n.sh() == o.sh() && pool_kind_same(n, o) && n.pshape() && (o.pwf() ==> n.pwf()) }
pub open spec fn acc_of(s: Seq<VAcc>) -> Seq<AccountId> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn fresh(p: Pool, toks: Seq<VAcc>, fee: int) -> bool {
    &&& p.pwf() && p.pshape() && p.sh() == Map::<AccountId, u128>::empty() && p.supply() == 0 && p.fee() == fee && p.toks() == acc_of(toks)
    &&& p.res() == Seq::new(toks.len(), |i: int| 0int)
}
fn SimplePool_new(id: u32, toks: Vec<VAcc>, fee: u32) -> (r: SimplePool)
    ensures toks@.len() == 2, fee < 10000, fresh(Pool::SimplePool(r), toks@, fee as int)
{ let ghost t = toks@; let r = SimplePool::new(id, toks, fee);
  proof { let p = Pool::SimplePool(r); assert(p.toks() =~= acc_of(t)); assert(r.token_account_ids@.len() == 2); assert(p.res() =~= Seq::new(t.len(), |i: int| 0int)); }
  r }
@end
@include poolk.vc P=StableSwapPool
@include poolk.vc P=RatedSwapPool
@include poolk.vc P=DegenSwapPool
@file ref-exchange/src/pool_limit_info.rs
@verus
impl VFrom<VDegenPoolLimitInfo> for DegenPoolLimitInfo { open spec fn vfs(a: VDegenPoolLimitInfo, r: Self) -> bool { r == a->Current_0 } fn vfromx(a: VDegenPoolLimitInfo) -> (r: Self) { DegenPoolLimitInfo::from_limit(a) } }
@end
@fn DegenPoolLimitInfo::from<VDegenPoolLimitInfo>(v) -> r props=P21 as=from_limit
    ensures r == v->Current_0,
@fn VPoolLimitInfo::get_degen_pool_limit(self) -> r props=P21
    ensures r == self->DegenPoolLimit_0->Current_0,
@file ref-exchange/src/pool.rs
@fn Pool::get_tvl(self) -> r props=P21
    requires self.pshape(),
    ensures *self is DegenSwapPool, self->DegenSwapPool_0.gate(), r == self->DegenSwapPool_0.tvl(),
@include pool_api.vc
