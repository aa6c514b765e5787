@include prelude.vc
@include lib.vc
@include chain.vc
@file ref-exchange/src/account_deposit.rs
@file ref-exchange/src/legacy.rs
@file ref-exchange/src/lib.rs
@file ref-exchange/src/utils.rs
@file ref-exchange/src/unit_lpt_cumulative_infos.rs
@file ref-exchange/src/account_lostfound.rs
@file ref-exchange/src/owner.rs
@file ref-exchange/src/admin_fee.rs
@const U128_STORAGE U64_STORAGE U32_STORAGE ACC_ID_STORAGE ACC_ID_AS_KEY_STORAGE KEY_PREFIX_ACC ACC_ID_AS_CLT_KEY_STORAGE INIT_ACCOUNT_STORAGE
@const GAS_FOR_FT_TRANSFER GAS_FOR_FT_TRANSFER_CALL GAS_FOR_NEAR_WITHDRAW GAS_FOR_CB_NEAR_TRANSFER GAS_FOR_CB_FT_TRANSFER MIN_CONTRACT_FREE_BALANCE ONE_NEAR
@verus shared
pub type StorageUsage = u64;
pub type LostfoundAccount = UnorderedMap<AccountId, Balance>;
@type StorageKey
@type AccountV1
@type AccountV2
@type ShadowRecord
@type VShadowRecord
@type ShadowActions
@type Account
@type VAccount
@type RunningState
@type CumulativeRecord
@type UnitShareCumulativeInfo
@type VUnitShareCumulativeInfo
@type AdminFees
@file ref-exchange/src/pool.rs
@type SwapVolume
@verus shared
pub open spec fn us() -> int { 1_000_000_000_000_000_000_000_000 }
/// A pool of any kind, seen from the contract: its contracts (pool_api.vc) are proved for the real pools in unit pools
#[verifier::external_body] pub struct SimplePool { p: u8 }
#[verifier::external_body] pub struct StableSwapPool { p: u8 }
#[verifier::external_body] pub struct RatedSwapPool { p: u8 }
#[verifier::external_body] pub struct DegenSwapPool { p: u8 }
impl Pool {
    pub uninterp spec fn pwf(&self) -> bool;
    pub uninterp spec fn pshape(&self) -> bool;
    pub uninterp spec fn sh(&self) -> Map<AccountId, u128>;
    pub uninterp spec fn supply(&self) -> int;
    pub uninterp spec fn toks(&self) -> Seq<AccountId>;
    /// what the pool records of each token, in units of 1/us() of the token
    pub uninterp spec fn res(&self) -> Seq<int>;
    /// decimals of a share
    pub uninterp spec fn sdec(&self) -> int;
    /// what so many shares are worth
    pub uninterp spec fn redeem(&self, shares: int) -> Seq<u128>;
    /// the pool's value does not exceed the limit configured for it
    pub uninterp spec fn tvl_ok(&self, id: u64) -> bool;
    pub uninterp spec fn fee(&self) -> int;
    pub uninterp spec fn vols(&self) -> Seq<SwapVolume>;
}
@type Pool
@verus shared
/// the token transfers this call has scheduled so far (kept by internal_send_tokens and internal_send_token_with_msg)
#[verifier::external_body] pub struct SendLog { p: u8 }
impl SendLog {
    pub uninterp spec fn view(&self) -> Seq<PSpec>;
    #[verifier::external_body] pub fn note(&mut self, p: Ghost<PSpec>) ensures final(self)@ == old(self)@.push(p@) { unimplemented!() }
}
@end
@file ref-exchange/src/swap_volume.rs
@type SwapVolumeU256
@type Contract add:lf=LookupMap<AccountId,LostfoundAccount> add:vol=LookupMap<u32,Vec<SwapVolumeU256>> add:sent=SendLog
@verus shared
// ---------------------------------------------------------------- what the contract records about an account
pub ghost struct AV { pub near: int, pub leg: Map<AccountId, u128>, pub tok: Map<AccountId, u128>, pub shadow: Map<u64, VShadowRecord> }
pub open spec fn rec_in(m: Map<u64, VShadowRecord>, p: u64) -> ShadowRecord { if m.dom().contains(p) { m[p]->Current_0 } else { ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 } } }
impl AV {
    pub open spec fn reg(&self, t: AccountId) -> bool { self.tok.dom().contains(t) || self.leg.dom().contains(t) }
    pub open spec fn bal(&self, t: AccountId) -> int { if self.tok.dom().contains(t) { self.tok[t] as int } else if self.leg.dom().contains(t) { self.leg[t] as int } else { 0 } }
    /// every token recorded once
    pub open spec fn wf(&self) -> bool { forall|t: AccountId| #![trigger self.tok.dom().contains(t)] #![trigger self.leg.dom().contains(t)] !(self.tok.dom().contains(t) && self.leg.dom().contains(t)) }
    /// no balance in a record of the old format
    pub open spec fn noleg(&self) -> bool { forall|t: AccountId| !(#[trigger] self.leg.dom().contains(t)) }
    /// NEAR locked for the storage of this account
    pub open spec fn cost(&self) -> int { (102 + 84 * self.leg.dom().len() + 148 * self.tok.dom().len()) * s_byte_cost() }
    pub open spec fn covered(&self) -> bool { self.cost() <= self.near }
    pub open spec fn rec(&self, p: u64) -> ShadowRecord { rec_in(self.shadow, p) }
    /// nothing but the token balances (and how they are kept) differs
    pub open spec fn same_rest(&self, o: AV) -> bool { self.near == o.near && self.shadow == o.shadow }
    /// the balance of t moved by d, every other balance and registration as before
    pub open spec fn moved(&self, o: AV, t: AccountId, d: int) -> bool {
        &&& self.same_rest(o)
        &&& self.bal(t) == o.bal(t) + d
        &&& o.reg(t) ==> self.reg(t)
        &&& forall|u: AccountId| u != t ==> #[trigger] self.bal(u) == o.bal(u) && self.reg(u) == o.reg(u)
    }
}
impl Account {
    pub open spec fn av(&self) -> AV { AV { near: self.near_amount as int, leg: self.legacy_tokens@, tok: self.tokens@, shadow: self.shadow_records@ } }
}
impl VAccount {
    pub open spec fn av(&self) -> AV {
        match self {
            VAccount::Current(a) => a.av(),
            VAccount::V1(a) => AV { near: a.near_amount as int, leg: a.tokens@, tok: Map::empty(), shadow: Map::empty() },
            VAccount::V2(a) => AV { near: a.near_amount as int, leg: a.legacy_tokens@, tok: a.tokens@, shadow: Map::empty() },
        }
    }
}
pub open spec fn lfb(lf: LookupMap<AccountId, LostfoundAccount>, id: AccountId, t: AccountId) -> int {
    if lf@.dom().contains(id) && lf@[id]@.dom().contains(t) { lf@[id]@[t] as int } else { 0 }
}
impl Contract {
    /// what the lost-and-found area holds for a user
    #[verifier::inline] pub open spec fn lfbal(&self, id: AccountId, t: AccountId) -> int { lfb(self.lf, id, t) }
    // read_lostfound(): a handle with a constant prefix onto that area
    #[verifier::external_body] pub fn lf_mut(&mut self) -> (r: &mut LookupMap<AccountId, LostfoundAccount>)
        ensures *r == old(self).lf, *final(self) == (Contract { lf: *final(r), ..*old(self) }) { unimplemented!() }
    pub open spec fn has(&self, id: AccountId) -> bool { self.accounts@.dom().contains(id) }
    pub open spec fn av(&self, id: AccountId) -> AV { self.accounts@[id].av() }
    pub open spec fn abal(&self, id: AccountId, t: AccountId) -> int { if self.has(id) { self.av(id).bal(t) } else { 0 } }
    /// every account records each token once
    pub open spec fn awf(&self) -> bool { forall|id: AccountId| #[trigger] self.accounts@.dom().contains(id) ==> self.accounts@[id].av().wf() }
    /// nothing but the accounts differs
    pub open spec fn same_but_accounts(&self, o: &Contract) -> bool { *self == (Contract { accounts: self.accounts, ..*o }) }
    /// the same, and something may have been sent
    pub open spec fn same_but_accounts_sent(&self, o: &Contract) -> bool { *self == (Contract { accounts: self.accounts, sent: self.sent, ..*o }) }
    pub open spec fn acct_put(&self, o: &Contract, id: AccountId, v: AV) -> bool {
        exists|x: VAccount| self.accounts@ == #[trigger] o.accounts@.insert(id, x) && x.av() == v
    }
    /// only account `id` was written: it records `v`
    pub open spec fn acct_set(&self, o: &Contract, id: AccountId, v: AV) -> bool {
        self.same_but_accounts(o) && exists|x: VAccount| self.accounts@ == #[trigger] o.accounts@.insert(id, x) && x.av() == v
    }
}
pub open spec fn free_of(r: ShadowRecord, total: int) -> int { total - (if r.shadow_in_burrow > r.shadow_in_farm { r.shadow_in_burrow } else { r.shadow_in_farm }) }
pub open spec fn rec_after(r: ShadowRecord, a: ShadowActions, n: int) -> ShadowRecord {
    match a {
        ShadowActions::ToFarming => ShadowRecord { shadow_in_farm: (r.shadow_in_farm + n) as u128, ..r },
        ShadowActions::ToBurrowland => ShadowRecord { shadow_in_burrow: (r.shadow_in_burrow + n) as u128, ..r },
        ShadowActions::FromFarming => ShadowRecord { shadow_in_farm: (r.shadow_in_farm - n) as u128, ..r },
        ShadowActions::FromBurrowland => ShadowRecord { shadow_in_burrow: (r.shadow_in_burrow - n) as u128, ..r },
    }
}
/// none of these moves a record out of range
pub open spec fn rec_fits(r: ShadowRecord, a: ShadowActions, n: int) -> bool {
    match a {
        ShadowActions::ToFarming => r.shadow_in_farm + n <= u128::MAX,
        ShadowActions::ToBurrowland => r.shadow_in_burrow + n <= u128::MAX,
        ShadowActions::FromFarming => n <= r.shadow_in_farm,
        ShadowActions::FromBurrowland => n <= r.shadow_in_burrow,
    }
}
impl<K, V> UnorderedMap<K, V> {
    #[verifier::external_body] pub fn new<P>(p: P) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}
impl ShadowRecord { pub fn default() -> (r: ShadowRecord) ensures r.shadow_in_farm == 0, r.shadow_in_burrow == 0 { ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 } } }
impl VFrom<Account> for VAccount { open spec fn vfs(a: Account, r: VAccount) -> bool { r.av() == a.av() && r == VAccount::Current(a) } fn vfromx(a: Account) -> (r: VAccount) { VAccount::vfrom_account(a) } }
impl VFrom<VShadowRecord> for ShadowRecord { open spec fn vfs(a: VShadowRecord, r: ShadowRecord) -> bool { a == VShadowRecord::Current(r) } fn vfromx(a: VShadowRecord) -> (r: ShadowRecord) { ShadowRecord::vfrom_v(a) } }
impl VFrom<ShadowRecord> for VShadowRecord { open spec fn vfs(a: ShadowRecord, r: VShadowRecord) -> bool { r == VShadowRecord::Current(a) } fn vfromx(a: ShadowRecord) -> (r: VShadowRecord) { VShadowRecord::vfrom_r(a) } }
// ---------------------------------------------------------------- calls to other contracts: what is sent
pub mod ext_fungible_token { use super::*;
    #[verifier::external_body] pub fn ft_transfer(receiver: AccountId, amount: U128, memo: Option<Str>, token: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *token, method: m_ft_transfer(), args: PArgs::Ft { receiver, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
    #[verifier::external_body] pub fn ft_transfer_call(receiver: AccountId, amount: U128, memo: Option<Str>, msg: Str, token: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *token, method: m_ft_transfer_call(), args: PArgs::Ft { receiver, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
}
pub mod ext_share_token_receiver { use super::*;
    #[verifier::external_body] pub fn mft_on_transfer(token_id: Str, sender_id: AccountId, amount: U128, msg: Str, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_mft_on_transfer(), args: PArgs::Mft { token: token_id, sender: sender_id, receiver: *to, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
}
pub mod ext_shadow_receiver { use super::*;
    #[verifier::external_body] pub fn on_cast_shadow(account_id: AccountId, shadow_id: Str, amount: U128, msg: Str, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_cast(), args: PArgs::TokUserAmt { token: shadow_id, user: account_id, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
    #[verifier::external_body] pub fn on_remove_shadow(account_id: AccountId, shadow_id: Str, amount: U128, msg: Str, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_uncast(), args: PArgs::TokUserAmt { token: shadow_id, user: account_id, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
}
pub mod ext_wrap_near { use super::*;
    #[verifier::external_body] pub fn near_withdraw(amount: U128, token: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *token, method: m_near_withdraw(), args: PArgs::Ft { receiver: s_me(), amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
}
pub mod ext_self { use super::*;
    #[verifier::external_body] pub fn mft_resolve_transfer(token_id: Str, sender_id: AccountId, receiver_id: AccountId, amount: U128, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_mft_resolve(), args: PArgs::Mft { token: token_id, sender: sender_id, receiver: receiver_id, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
    #[verifier::external_body] pub fn callback_on_shadow(action: ShadowActions, sender_id: AccountId, pool_id: u64, amount: U128, storage_fee: U128, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_cb_shadow(), args: PArgs::Shadow { action: shadow_no(action), user: sender_id, pool: pool_id as int, amount: amount.0 as int, fee: storage_fee.0 as int }, deposit: deposit as int }) { unimplemented!() }
    #[verifier::external_body] pub fn callback_on_burrow_liquidation(sender_id: AccountId, pool_id: u64, amount: U128, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_cb_liq(), args: PArgs::Shadow { action: 3, user: sender_id, pool: pool_id as int, amount: amount.0 as int, fee: 0 }, deposit: deposit as int }) { unimplemented!() }
    #[verifier::external_body] pub fn exchange_callback_post_withdraw_near(sender_id: AccountId, amount: U128, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_cb_near(), args: PArgs::Ft { receiver: sender_id, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
    #[verifier::external_body] pub fn exchange_callback_post_withdraw(token_id: AccountId, sender_id: AccountId, amount: U128, to: &AccountId, deposit: u128, gas: u64) -> (r: Promise)
        ensures r@ == (PSpec::Call { to: *to, method: m_cb_ft(), args: PArgs::TokUserAmt { token: token_id, user: sender_id, amount: amount.0 as int }, deposit: deposit as int }) { unimplemented!() }
}
pub open spec fn m_ft_transfer() -> int { 1 }
pub open spec fn m_ft_transfer_call() -> int { 2 }
pub open spec fn m_near_withdraw() -> int { 3 }
pub open spec fn m_cb_near() -> int { 4 }
pub open spec fn m_cb_ft() -> int { 5 }
pub open spec fn m_mft_on_transfer() -> int { 6 }
pub open spec fn m_mft_resolve() -> int { 7 }
pub open spec fn m_cast() -> int { 8 }
pub open spec fn m_uncast() -> int { 9 }
pub open spec fn m_cb_shadow() -> int { 10 }
pub open spec fn m_cb_liq() -> int { 11 }
pub open spec fn shadow_no(a: ShadowActions) -> int { match a { ShadowActions::ToFarming => 0, ShadowActions::FromFarming => 1, ShadowActions::ToBurrowland => 2, ShadowActions::FromBurrowland => 3 } }
impl Contract {
    pub open spec fn npools(&self) -> int { self.pools@.len() as int }
    /// shares of `id` in pool p
    pub open spec fn shares(&self, p: int, id: AccountId) -> int { mget(self.pools@[p].sh(), id) }
    pub open spec fn rec(&self, p: int, id: AccountId) -> ShadowRecord { if self.has(id) { self.av(id).rec(p as u64) } else { ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 } } }
    /// what is recorded as deposited elsewhere never exceeds what is held
    pub open spec fn shadow_ok(&self) -> bool {
        &&& forall|p: int, id: AccountId| 0 <= p < self.npools() ==> free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0
        &&& forall|p: int| 0 <= p < self.npools() ==> #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 })
        &&& forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX ==> #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 })
        &&& self.npools() <= u32::MAX
    }
    /// representation invariant of the contract
    pub open spec fn cwf(&self) -> bool {
        &&& self.awf()
        &&& forall|i: int| 0 <= i < self.pools@.len() ==> (#[trigger] self.pools@[i]).pwf() && self.pools@[i].pshape()
        &&& self.admin_fee_bps <= 8000
        &&& forall|r: AccountId| #[trigger] self.referrals@.dom().contains(r) ==> self.referrals@[r] <= 10000
    }
    pub open spec fn total(&self, t: AccountId) -> int { fsum(self.accounts@, |v: VAccount| v.av().bal(t)) }
    pub open spec fn frozen(&self, t: AccountId) -> bool { self.frozen_tokens@.contains(t) }
    pub open spec fn by_owner(&self) -> bool { s_pred() == self.owner_id }
    pub open spec fn by_admin(&self) -> bool { s_pred() == self.owner_id || self.guardians@.contains(s_pred()) }
    pub open spec fn running(&self) -> bool { self.state is Running }
}
impl<T> VFrom<Promise> for PromiseOrValue<T> { open spec fn vfs(a: Promise, r: PromiseOrValue<T>) -> bool { r == PromiseOrValue::<T>::Promise(a) } fn vfromx(a: Promise) -> (r: PromiseOrValue<T>) { PromiseOrValue::Promise(a) } }
/// what `amts` (per token of `toks`) holds of t, among the first n
pub open spec fn got(toks: Seq<AccountId>, amts: Seq<u128>, n: int, t: AccountId) -> int decreases n {
    if n <= 0 { 0 } else { got(toks, amts, n - 1, t) + (if toks[n - 1] == t { amts[n - 1] as int } else { 0 }) }
}
/// tokens sent to `user` with this exchange's callback as the only continuation, for the same token, user and amount
pub open spec fn sends(p: PSpec, token: AccountId, user: AccountId, amount: int) -> bool {
    &&& p is Then
    &&& p->a == Box::new(PSpec::Call { to: token, method: m_ft_transfer(), args: PArgs::Ft { receiver: user, amount }, deposit: 1 })
        && p->b == Box::new(PSpec::Call { to: s_me(), method: m_cb_ft(), args: PArgs::TokUserAmt { token, user, amount }, deposit: 0 })
}
pub open spec fn unwraps(p: PSpec, token: AccountId, user: AccountId, amount: int) -> bool {
    &&& p is Then
    &&& p->a == Box::new(PSpec::Call { to: token, method: m_near_withdraw(), args: PArgs::Ft { receiver: s_me(), amount }, deposit: 1 })
        && p->b == Box::new(PSpec::Call { to: s_me(), method: m_cb_near(), args: PArgs::Ft { receiver: user, amount }, deposit: 0 })
}
pub open spec fn sends_call(p: PSpec, token: AccountId, user: AccountId, amount: int) -> bool {
    &&& p is Then
    &&& p->a == Box::new(PSpec::Call { to: token, method: m_ft_transfer_call(), args: PArgs::Ft { receiver: user, amount }, deposit: 1 })
        && p->b == Box::new(PSpec::Call { to: s_me(), method: m_cb_ft(), args: PArgs::TokUserAmt { token, user, amount }, deposit: 0 })
}
@end
@fn VAccount::from<Account>(account) -> r as=vfrom_account props=P12
    ensures r == VAccount::Current(account),
@fn ShadowRecord::from<VShadowRecord>(v) -> r as=vfrom_v props=P17
    ensures v == VShadowRecord::Current(r),
@fn VShadowRecord::from<ShadowRecord>(shadow_record) -> r as=vfrom_r props=P17
    ensures r == VShadowRecord::Current(shadow_record),
@end
