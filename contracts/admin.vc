@include xbase.vc
@import ledger.vc Contract::assert_contract_running Contract::assert_owner Contract::is_owner_or_guardians Contract::internal_check_storage
@import pool_api.vc *
@file ref-exchange/src/client_echo_limit.rs
@const GAS_FOR_BASIC_OP FEE_DIVISOR MAX_ADMIN_FEE_BPS
@verus
pub struct WrappedTimestamp(pub u64);
pub struct DegenOracleConfig { pub x: u8 }
pub struct DegenType { pub x: u8 }
pub struct DegenPoolLimitInfo { pub x: u8 }
pub enum VPoolLimitInfo { DegenPoolLimit(DegenPoolLimitInfo) }
pub struct PoolInfo { pub pool_kind: Str }
impl VClone for DegenOracleConfig { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for DegenType { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl DegenOracleConfig { #[verifier::external_body] pub fn get_key(&self) -> Str { unimplemented!() } }
impl VFrom<DegenPoolLimitInfo> for DegenPoolLimitInfo { open spec fn vfs(a: DegenPoolLimitInfo, r: DegenPoolLimitInfo) -> bool { r == a } fn vfromx(a: DegenPoolLimitInfo) -> (r: DegenPoolLimitInfo) { a } }
// the registries of rates, prices and limits live in storage cells of their own: only the call's permission is decided here
#[verifier::external_body] pub fn global_register_rate(a: &Str, b: &AccountId, c: Option<Str>) -> bool requires may_configure() { unimplemented!() }
#[verifier::external_body] pub fn global_unregister_rate(b: &AccountId) -> bool requires may_configure_owner() { unimplemented!() }
#[verifier::external_body] pub fn global_update_rated_token_extra_info(b: &AccountId, c: Str) requires may_configure() { unimplemented!() }
#[verifier::external_body] pub fn global_register_degen(b: &AccountId, c: DegenType) -> bool requires may_configure() { unimplemented!() }
#[verifier::external_body] pub fn global_update_degen(b: &AccountId, c: DegenType) -> bool requires may_configure_owner() { unimplemented!() }
#[verifier::external_body] pub fn global_unregister_degen(b: &AccountId) -> bool requires may_configure_owner() { unimplemented!() }
#[verifier::external_body] pub fn global_register_degen_oracle_config(c: DegenOracleConfig) -> bool requires may_configure() { unimplemented!() }
#[verifier::external_body] pub fn global_update_degen_oracle_config(c: DegenOracleConfig) -> bool requires may_configure_owner() { unimplemented!() }
#[verifier::external_body] pub fn global_unregister_degen_oracle_config(c: &Str) -> bool requires may_configure_owner() { unimplemented!() }
#[verifier::external_body] pub fn read_pool_limit_from_storage() -> UnorderedMap<u64, VPoolLimitInfo> { unimplemented!() }
#[verifier::external_body] pub fn write_pool_limit_to_storage(m: UnorderedMap<u64, VPoolLimitInfo>) requires may_configure() { unimplemented!() }
/// granted by the contract of each method to exactly the roles that may change those registries
pub uninterp spec fn may_configure() -> bool;
pub uninterp spec fn may_configure_owner() -> bool;
impl Contract { #[verifier::external_body] pub fn get_pool(&self, pool_id: u64) -> PoolInfo { unimplemented!() } }
pub open spec fn ramp_only(o: Pool, n: Pool) -> bool { same_pool(n, o) && n.sh() == o.sh() && pool_kind_same(n, o) && n.pshape() && (o.pwf() ==> n.pwf()) }
pub open spec fn only_fee(o: Pool, n: Pool, fee: int) -> bool { n.fee() == fee && n.sh() == o.sh() && n.res() == o.res() && n.supply() == o.supply() && pool_kind_same(n, o) }
// proved for the real pools in unit pools (*_ramp, *_stop)
impl StableSwapPool {
    #[verifier::external_body] pub fn ramp_amplification(&mut self, future_amp_factor: u128, future_amp_time: u64) requires Pool::StableSwapPool(*old(self)).pshape() ensures ramp_only(Pool::StableSwapPool(*old(self)), Pool::StableSwapPool(*final(self))) { unimplemented!() }
    #[verifier::external_body] pub fn stop_ramp_amplification(&mut self) requires Pool::StableSwapPool(*old(self)).pshape() ensures ramp_only(Pool::StableSwapPool(*old(self)), Pool::StableSwapPool(*final(self))) { unimplemented!() }
}
impl RatedSwapPool {
    #[verifier::external_body] pub fn ramp_amplification(&mut self, future_amp_factor: u128, future_amp_time: u64) requires Pool::RatedSwapPool(*old(self)).pshape() ensures ramp_only(Pool::RatedSwapPool(*old(self)), Pool::RatedSwapPool(*final(self))) { unimplemented!() }
    #[verifier::external_body] pub fn stop_ramp_amplification(&mut self) requires Pool::RatedSwapPool(*old(self)).pshape() ensures ramp_only(Pool::RatedSwapPool(*old(self)), Pool::RatedSwapPool(*final(self))) { unimplemented!() }
}
impl DegenSwapPool {
    #[verifier::external_body] pub fn ramp_amplification(&mut self, future_amp_factor: u128, future_amp_time: u64) requires Pool::DegenSwapPool(*old(self)).pshape() ensures ramp_only(Pool::DegenSwapPool(*old(self)), Pool::DegenSwapPool(*final(self))) { unimplemented!() }
    #[verifier::external_body] pub fn stop_ramp_amplification(&mut self) requires Pool::DegenSwapPool(*old(self)).pshape() ensures ramp_only(Pool::DegenSwapPool(*old(self)), Pool::DegenSwapPool(*final(self))) { unimplemented!() }
}
#[verifier::external_body] pub fn v_bytes() -> Vec<u8> { unimplemented!() }
pub struct VNear { }
#[verifier::external_body] pub fn v_bci(b: Box<VNear>) { unimplemented!() }
#[verifier::external_body] pub fn v_state_read() -> (r: Option<Contract>) ensures r is Some ==> (r->0).owner_id == stored_owner() { unimplemented!() }
pub uninterp spec fn stored_owner() -> AccountId;
pub uninterp spec fn may_upgrade() -> bool;
/// the promises that deploy new code (raw runtime calls, not looked into)
#[verifier::external_body] pub fn v_unsafe() requires may_upgrade() { unimplemented!() }
#[verifier::external_body] pub fn read_ce_tw_from_storage() -> UnorderedSet<Str> { unimplemented!() }
#[verifier::external_body] pub fn write_ce_tw_to_storage(m: UnorderedSet<Str>) requires may_configure() { unimplemented!() }
#[verifier::external_body] pub fn read_ce_sw_from_storage() -> UnorderedSet<Str> { unimplemented!() }
#[verifier::external_body] pub fn write_ce_sw_to_storage(m: UnorderedSet<Str>) requires may_configure() { unimplemented!() }
#[verifier::external_body] pub fn read_ssw_from_storage() -> UnorderedSet<Str> { unimplemented!() }
#[verifier::external_body] pub fn write_ssw_to_storage(m: UnorderedSet<Str>) requires may_configure() { unimplemented!() }
pub open spec fn listed(s: Seq<VAcc>, k: AccountId) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn listed_s(s: Seq<Str>, k: Str) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == k }
proof fn listed_push(a: Seq<VAcc>, x: VAcc) ensures forall|k: AccountId| #[trigger] listed(a.push(x), k) <==> listed(a, k) || k == x.0 {
    assert forall|k: AccountId| #[trigger] listed(a.push(x), k) <==> listed(a, k) || k == x.0 by {
        if listed(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k; assert(a.push(x)[i].0 == k); }
        if k == x.0 { assert(a.push(x)[a.len() as int].0 == k); }
        if listed(a.push(x), k) { let i = choose|i: int| 0 <= i < a.push(x).len() && (#[trigger] a.push(x)[i]).0 == k; if i < a.len() { assert(a[i].0 == k); } }
    }
}
proof fn listed_s_push(a: Seq<Str>, x: Str) ensures forall|k: Str| #[trigger] listed_s(a.push(x), k) <==> listed_s(a, k) || k == x {
    assert forall|k: Str| #[trigger] listed_s(a.push(x), k) <==> listed_s(a, k) || k == x by {
        if listed_s(a, k) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == k; assert(a.push(x)[i] == k); }
        if k == x { assert(a.push(x)[a.len() as int] == k); }
        if listed_s(a.push(x), k) { let i = choose|i: int| 0 <= i < a.push(x).len() && #[trigger] a.push(x)[i] == k; if i < a.len() { assert(a[i] == k); } }
    }
}
@end
@fn Contract::set_owner(self, owner_id) props=P18
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == (Contract { owner_id: final(self).owner_id, ..*old(self) }),
        final(self).owner_id == owner_id.0,
@fn Contract::retrieve_unmanaged_token(self, token_id, amount) -> r props=P18
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
        amount.0 > 0, r@ == (PSpec::Call { to: token_id.0, method: m_ft_transfer(), args: PArgs::Ft { receiver: old(self).owner_id, amount: amount.0 as int }, deposit: 1 }),
@fn Contract::extend_guardians(self, guardians) props=P18
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == (Contract { guardians: final(self).guardians, ..*old(self) }),
        forall|k: AccountId| #[trigger] final(self).guardians@.contains(k) <==> old(self).guardians@.contains(k) || listed(guardians@, k),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == guardians@, *self == (Contract { guardians: self.guardians, ..*old(self) }),
        forall|k: AccountId| #[trigger] self.guardians@.contains(k) <==> old(self).guardians@.contains(k) || listed(guardians@.subrange(0, __i0 as int), k),
@loop_end 0
    proof { let a = guardians@.subrange(0, __i0 - 1); let b = guardians@.subrange(0, __i0 as int); assert(b =~= a.push(guardians@[__i0 - 1])); listed_push(a, guardians@[__i0 - 1]); }
@exit
    proof { assert(guardians@.subrange(0, guardians@.len() as int) =~= guardians@); }
@fn Contract::remove_guardians(self, guardians) props=P18
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == (Contract { guardians: final(self).guardians, ..*old(self) }),
        forall|k: AccountId| #[trigger] final(self).guardians@.contains(k) <==> old(self).guardians@.contains(k) && !listed(guardians@, k),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == guardians@, *self == (Contract { guardians: self.guardians, ..*old(self) }),
        forall|k: AccountId| #[trigger] self.guardians@.contains(k) <==> old(self).guardians@.contains(k) && !listed(guardians@.subrange(0, __i0 as int), k),
@loop_end 0
    proof { let a = guardians@.subrange(0, __i0 - 1); let b = guardians@.subrange(0, __i0 as int); assert(b =~= a.push(guardians@[__i0 - 1])); listed_push(a, guardians@[__i0 - 1]); }
@exit
    proof { assert(guardians@.subrange(0, guardians@.len() as int) =~= guardians@); }
@fn Contract::extend_auto_whitelisted_postfix(self, postfixes) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { auto_whitelisted_postfix: final(self).auto_whitelisted_postfix, ..*old(self) }),
        forall|k: AccountId| #[trigger] final(self).auto_whitelisted_postfix@.contains(k) <==> old(self).auto_whitelisted_postfix@.contains(k) || listed_s(postfixes@, k),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == postfixes@, *self == (Contract { auto_whitelisted_postfix: self.auto_whitelisted_postfix, ..*old(self) }),
        forall|k: AccountId| #[trigger] self.auto_whitelisted_postfix@.contains(k) <==> old(self).auto_whitelisted_postfix@.contains(k) || listed_s(postfixes@.subrange(0, __i0 as int), k),
@loop_end 0
    proof { let a = postfixes@.subrange(0, __i0 - 1); let b = postfixes@.subrange(0, __i0 as int); assert(b =~= a.push(postfixes@[__i0 - 1])); listed_s_push(a, postfixes@[__i0 - 1]); }
@exit
    proof { assert(postfixes@.subrange(0, postfixes@.len() as int) =~= postfixes@); }
@fn Contract::remove_auto_whitelisted_postfix(self, postfixes) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { auto_whitelisted_postfix: final(self).auto_whitelisted_postfix, ..*old(self) }),
        forall|k: AccountId| #[trigger] final(self).auto_whitelisted_postfix@.contains(k) <==> old(self).auto_whitelisted_postfix@.contains(k) && !listed_s(postfixes@, k),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == postfixes@, *self == (Contract { auto_whitelisted_postfix: self.auto_whitelisted_postfix, ..*old(self) }),
        forall|k: AccountId| #[trigger] self.auto_whitelisted_postfix@.contains(k) <==> old(self).auto_whitelisted_postfix@.contains(k) && !listed_s(postfixes@.subrange(0, __i0 as int), k),
@loop_end 0
    proof { let a = postfixes@.subrange(0, __i0 - 1); let b = postfixes@.subrange(0, __i0 as int); assert(b =~= a.push(postfixes@[__i0 - 1])); listed_s_push(a, postfixes@[__i0 - 1]); }
@exit
    proof { assert(postfixes@.subrange(0, postfixes@.len() as int) =~= postfixes@); }
@fn Contract::modify_boost_farm_id(self, boost_farm_id) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { boost_farm_id: final(self).boost_farm_id, ..*old(self) }),
        final(self).boost_farm_id == boost_farm_id,
@fn Contract::modify_burrowland_id(self, burrowland_id) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { burrowland_id: final(self).burrowland_id, ..*old(self) }),
        final(self).burrowland_id == burrowland_id,
@fn Contract::modify_wnear_id(self, wnear_id) props=P18
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == (Contract { wnear_id: final(self).wnear_id, ..*old(self) }),
        final(self).wnear_id == Some(wnear_id),
@fn Contract::change_state(self, state) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { state: final(self).state, ..*old(self) }),
        final(self).state == state, state is Running && !(old(self).state is Running) ==> s_pred() == old(self).owner_id,
@fn Contract::extend_whitelisted_tokens(self, tokens) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { whitelisted_tokens: final(self).whitelisted_tokens, ..*old(self) }),
        forall|k: AccountId| #[trigger] final(self).whitelisted_tokens@.contains(k) <==> old(self).whitelisted_tokens@.contains(k) || listed(tokens@, k),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == tokens@, *self == (Contract { whitelisted_tokens: self.whitelisted_tokens, ..*old(self) }),
        forall|k: AccountId| #[trigger] self.whitelisted_tokens@.contains(k) <==> old(self).whitelisted_tokens@.contains(k) || listed(tokens@.subrange(0, __i0 as int), k),
@loop_end 0
    proof { let a = tokens@.subrange(0, __i0 - 1); let b = tokens@.subrange(0, __i0 as int); assert(b =~= a.push(tokens@[__i0 - 1])); listed_push(a, tokens@[__i0 - 1]); }
@exit
    proof { assert(tokens@.subrange(0, tokens@.len() as int) =~= tokens@); }
@fn Contract::remove_whitelisted_tokens(self, tokens) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { whitelisted_tokens: final(self).whitelisted_tokens, ..*old(self) }),
        forall|k: AccountId| #[trigger] final(self).whitelisted_tokens@.contains(k) <==> old(self).whitelisted_tokens@.contains(k) && !listed(tokens@, k),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == tokens@, *self == (Contract { whitelisted_tokens: self.whitelisted_tokens, ..*old(self) }),
        forall|k: AccountId| #[trigger] self.whitelisted_tokens@.contains(k) <==> old(self).whitelisted_tokens@.contains(k) && !listed(tokens@.subrange(0, __i0 as int), k),
@loop_end 0
    proof { let a = tokens@.subrange(0, __i0 - 1); let b = tokens@.subrange(0, __i0 as int); assert(b =~= a.push(tokens@[__i0 - 1])); listed_push(a, tokens@[__i0 - 1]); }
@exit
    proof { assert(tokens@.subrange(0, tokens@.len() as int) =~= tokens@); }
@fn Contract::extend_frozenlist_tokens(self, tokens) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { frozen_tokens: final(self).frozen_tokens, ..*old(self) }),
        forall|k: AccountId| #[trigger] final(self).frozen_tokens@.contains(k) <==> old(self).frozen_tokens@.contains(k) || listed(tokens@, k),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == tokens@, *self == (Contract { frozen_tokens: self.frozen_tokens, ..*old(self) }),
        forall|k: AccountId| #[trigger] self.frozen_tokens@.contains(k) <==> old(self).frozen_tokens@.contains(k) || listed(tokens@.subrange(0, __i0 as int), k),
@loop_end 0
    proof { let a = tokens@.subrange(0, __i0 - 1); let b = tokens@.subrange(0, __i0 as int); assert(b =~= a.push(tokens@[__i0 - 1])); listed_push(a, tokens@[__i0 - 1]); }
@exit
    proof { assert(tokens@.subrange(0, tokens@.len() as int) =~= tokens@); }
@fn Contract::remove_frozenlist_tokens(self, tokens) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { frozen_tokens: final(self).frozen_tokens, ..*old(self) }),
        forall|k: AccountId| #[trigger] final(self).frozen_tokens@.contains(k) <==> old(self).frozen_tokens@.contains(k) && !listed(tokens@, k),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == tokens@, *self == (Contract { frozen_tokens: self.frozen_tokens, ..*old(self) }),
        forall|k: AccountId| #[trigger] self.frozen_tokens@.contains(k) <==> old(self).frozen_tokens@.contains(k) && !listed(tokens@.subrange(0, __i0 as int), k),
@loop_end 0
    proof { let a = tokens@.subrange(0, __i0 - 1); let b = tokens@.subrange(0, __i0 as int); assert(b =~= a.push(tokens@[__i0 - 1])); listed_push(a, tokens@[__i0 - 1]); }
@exit
    proof { assert(tokens@.subrange(0, tokens@.len() as int) =~= tokens@); }
@fn Contract::insert_referral(self, referral_id, fee_bps) props=P18,P11
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { referrals: final(self).referrals, ..*old(self) }),
        0 < fee_bps < 10000, !old(self).referrals@.dom().contains(referral_id.0), final(self).referrals@ == old(self).referrals@.insert(referral_id.0, fee_bps),
@fn Contract::update_referral(self, referral_id, fee_bps) props=P18,P11
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { referrals: final(self).referrals, ..*old(self) }),
        0 < fee_bps < 10000, old(self).referrals@.dom().contains(referral_id.0), final(self).referrals@ == old(self).referrals@.insert(referral_id.0, fee_bps),
@fn Contract::remove_referral(self, referral_id) props=P18
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { referrals: final(self).referrals, ..*old(self) }),
        old(self).referrals@.dom().contains(referral_id.0), final(self).referrals@ == old(self).referrals@.remove(referral_id.0),
@fn Contract::modify_admin_fee(self, admin_fee_bps) props=P18,P11
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == (Contract { admin_fee_bps: final(self).admin_fee_bps, ..*old(self) }),
        final(self).admin_fee_bps == admin_fee_bps, admin_fee_bps <= 8000,
@fn Contract::modify_total_fee(self, pool_id, total_fee) props=P18,P11
    requires old(self).cwf(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { pools: final(self).pools, ..*old(self) }),
        pool_id < old(self).npools(), total_fee < 10000, exists|n: Pool| final(self).pools@ == old(self).pools@.update(pool_id as int, n) && #[trigger] only_fee(old(self).pools@[pool_id as int], n, total_fee as int),
@exit
    proof { let n = self.pools@[pool_id as int]; assert(only_fee(old(self).pools@[pool_id as int], n, total_fee as int)); assert(self.pools@ =~= old(self).pools@.update(pool_id as int, n)); }
@fn Contract::stable_swap_ramp_amp(self, pool_id, future_amp_factor, future_amp_time) props=P18,P11
    requires old(self).cwf(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { pools: final(self).pools, ..*old(self) }),
        pool_id < old(self).npools(), exists|n: Pool| #[trigger] ramp_only(old(self).pools@[pool_id as int], n) && final(self).pools@ == old(self).pools@.update(pool_id as int, n),
@fn Contract::stable_swap_stop_ramp_amp(self, pool_id) props=P18,P11
    requires old(self).cwf(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == (Contract { pools: final(self).pools, ..*old(self) }),
        pool_id < old(self).npools(), exists|n: Pool| #[trigger] ramp_only(old(self).pools@[pool_id as int], n) && final(self).pools@ == old(self).pools@.update(pool_id as int, n),
@fn Contract::register_rated_token(self, rate_type, token_id, extra_info) props=P18
    requires old(self).by_admin() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == *old(self),
@fn Contract::unregister_rated_token(self, token_id) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure_owner() && may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@fn Contract::update_rated_token_extra_info(self, token_id, extra_info) props=P18
    requires old(self).by_admin() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == *old(self),
@fn Contract::register_degen_token(self, token_id, degen_type) props=P18
    requires old(self).by_admin() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == *old(self),
@fn Contract::update_degen_token(self, token_id, degen_type) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure_owner() && may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@fn Contract::unregister_degen_token(self, token_id) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure_owner() && may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@fn Contract::register_degen_oracle_config(self, degen_oracle_config) props=P18
    requires old(self).by_admin() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == *old(self),
@fn Contract::unregister_degen_oracle_config(self, degen_oracle_config_key) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure_owner() && may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@fn Contract::update_degen_oracle_config(self, degen_oracle_config) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure_owner() && may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@fn Contract::add_degen_pool_limit(self, pool_id, degen_pool_limit_info) props=P18
    requires old(self).by_admin() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == *old(self),
@fn Contract::update_degen_pool_limit(self, pool_id, degen_pool_limit_info) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure_owner() && may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@fn Contract::remove_pool_limit(self, pool_id) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure_owner() && may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@fn Contract::extend_client_echo_token_id_whitelist(self, token_ids) props=P18
    requires old(self).by_admin() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == *old(self),
@loop 0
    invariant __i0 <= __s0@.len(), *self == *old(self),
@fn Contract::remove_client_echo_token_id_whitelist(self, token_ids) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@loop 0
    invariant __i0 <= __s0@.len(), *self == *old(self),
@fn Contract::extend_client_echo_sender_id_whitelist(self, sender_ids) props=P18
    requires old(self).by_admin() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == *old(self),
@loop 0
    invariant __i0 <= __s0@.len(), *self == *old(self),
@fn Contract::remove_client_echo_sender_id_whitelist(self, sender_ids) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@loop 0
    invariant __i0 <= __s0@.len(), *self == *old(self),
@fn Contract::extend_secure_sender_whitelist(self, sender_ids) props=P18
    requires old(self).by_admin() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, old(self).by_admin(), *final(self) == *old(self),
@loop 0
    invariant __i0 <= __s0@.len(), *self == *old(self),
@fn Contract::remove_secure_sender_whitelist(self, sender_ids) props=P18
    requires old(self).owner_id == s_pred() && s_deposit() == 1 ==> may_configure(),
    ensures s_deposit() == 1, s_pred() == old(self).owner_id, *final(self) == *old(self),
@loop 0
    invariant __i0 <= __s0@.len(), *self == *old(self),
@fn Contract::migrate() -> r props=P18
    ensures s_pred() == s_me(),
@subst env :: state_read ()=>v_state_read ()
@fn upgrade() props=P18
    requires s_pred() == stored_owner() ==> may_upgrade(),
@subst "migrate" . as_bytes () . to_vec ()=>v_bytes ()
@subst "metadata" . as_bytes () . to_vec ()=>v_bytes ()
@subst env :: setup_panic_hook () ;=>
@subst env :: set_blockchain_interface (=>v_bci (
@subst near_blockchain :: NearBlockchain {=>VNear {
@subst env :: state_read ()=>v_state_read ()
@end
