@include xbase.vc
@import ledger.vc Contract::assert_contract_running Contract::is_owner_or_guardians Contract::internal_check_storage
@import pool_api.vc *
@import twap.vc *
@import swap.vc SwapVolumeU256::default SwapVolumeU256::from<&SwapVolume> internal_set_swap_volume_u256_vec
@file ref-exchange/src/swap_volume.rs
@file ref-exchange/src/action.rs
@type SwapAction
@type SwapByOutputAction
@type Action
@type ActionResult
@verus
pub open spec fn fresh(p: Pool, toks: Seq<VAcc>, fee: int) -> bool {
    &&& p.pwf() && p.pshape() && p.sh() == Map::<AccountId, u128>::empty() && p.supply() == 0 && p.fee() == fee && p.toks() == acc_of(toks)
    &&& p.res() == Seq::new(toks.len(), |i: int| 0int)
}
pub open spec fn acc_of(s: Seq<VAcc>) -> Seq<AccountId> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn distinct(s: Seq<VAcc>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0 != #[trigger] s[j].0 }
// proved for the real constructors in unit pools (*_new)
impl SimplePool { #[verifier::external_body] pub fn new(id: u32, toks: Vec<VAcc>, fee: u32) -> (r: Self) ensures toks@.len() == 2, fee < 10000, fresh(Pool::SimplePool(r), toks@, fee as int) { unimplemented!() } }
impl StableSwapPool { #[verifier::external_body] pub fn new(id: u32, toks: Vec<VAcc>, dec: Vec<u8>, amp: u128, fee: u32) -> (r: Self) requires distinct(toks@), toks@.len() == dec@.len() <= u32::MAX ensures fee < 10000, fresh(Pool::StableSwapPool(r), toks@, fee as int) { unimplemented!() } }
impl RatedSwapPool { #[verifier::external_body] pub fn new(id: u32, toks: Vec<VAcc>, dec: Vec<u8>, amp: u128, fee: u32) -> (r: Self) requires distinct(toks@), toks@.len() == dec@.len() <= u32::MAX ensures fee < 10000, fresh(Pool::RatedSwapPool(r), toks@, fee as int) { unimplemented!() } }
impl DegenSwapPool { #[verifier::external_body] pub fn new(id: u32, toks: Vec<VAcc>, dec: Vec<u8>, amp: u128, fee: u32) -> (r: Self) requires distinct(toks@), toks@.len() == dec@.len() <= u32::MAX ensures fee < 10000, fresh(Pool::DegenSwapPool(r), toks@, fee as int) { unimplemented!() } }
pub open spec fn zeros(n: nat) -> Seq<(int, int)> { Seq::new(n, |i: int| (0int, 0int)) }
impl Contract {
    /// exactly one pool was added, empty, with the exchange as its only (empty) share account and volume counters at zero
    pub open spec fn added(&self, o: &Contract, toks: Seq<VAcc>, fee: int) -> bool {
        let n = self.pools@[o.npools()]; let id = o.npools() as u32;
        &&& self.pools@ == o.pools@.push(n) && n.toks() == acc_of(toks) && n.fee() == fee && n.supply() == 0
        &&& n.sh() == Map::<AccountId, u128>::empty().insert(s_me(), 0u128)
        &&& n.res() == Seq::new(toks.len(), |i: int| 0int)
        &&& *self == (Contract { pools: self.pools, vol: self.vol, ..*o })
        &&& self.vol@.dom() == o.vol@.dom().insert(id) && volv(self.vol@[id]@) == zeros(toks.len())
        &&& forall|k: u32| k != id && o.vol@.dom().contains(k) ==> #[trigger] self.vol@[k] == o.vol@[k]
    }
    pub open spec fn addable(&self) -> bool { self.cwf() && self.shadow_ok() && self.npools() < u32::MAX && forall|a: int| 0 <= a <= s_deposit() ==> may_send(s_pred(), a) }
}
@end
@fn check_token_duplicates(tokens) props=P24
    ensures distinct(tokens@),
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@ == tokens@, __v0@.finite(), __v0@.len() <= __i0,
        forall|k: &Str| #[trigger] __v0@.contains(k) ==> exists|i: int| 0 <= i < __i0 && tokens@[i].0 == *k,
        __v0@.len() == __i0 ==> forall|i: int, j: int| 0 <= i < j < __i0 ==> #[trigger] tokens@[i].0 != #[trigger] tokens@[j].0,
        forall|i: int| 0 <= i < __i0 ==> __v0@.contains(&(#[trigger] tokens@[i]).0),
@fn Contract::internal_add_pool(self, pool) -> r props=P24,P06,P17
    requires old(self).addable(), pool.pwf(), pool.pshape(), pool.sh() == Map::<AccountId, u128>::empty(), pool.supply() == 0,
    ensures final(self).cwf(), final(self).shadow_ok(), r == old(self).npools(),
        ({ let n = final(self).pools@[r as int];
           &&& final(self).pools@ == old(self).pools@.push(n) && same_pool(n, pool) && pool_kind_same(n, pool) && n.sh() == pool.sh().insert(s_me(), 0u128)
           &&& *final(self) == (Contract { pools: final(self).pools, vol: final(self).vol, ..*old(self) })
           &&& final(self).vol@.dom() == old(self).vol@.dom().insert(r as u32) && volv(final(self).vol@[r as u32]@) == zeros(pool.toks().len())
           &&& forall|k: u32| k != r as u32 && old(self).vol@.dom().contains(k) ==> #[trigger] final(self).vol@[k] == old(self).vol@[k] }),
@subst internal_set_swap_volume_u256_vec (=>internal_set_swap_volume_u256_vec (& mut self . vol , 
@exit
    proof {
        let n = self.pools@[r as int];
        assert(self.pools@ =~= old(self).pools@.push(n));
        assert(volv(self.vol@[r as u32]@) =~= zeros(n.toks().len()));
        assert forall|p: int, id: AccountId| 0 <= p < self.npools() implies free_of(#[trigger] self.rec(p, id), self.shares(p, id)) >= 0 by { if p < old(self).npools() { assert(free_of(old(self).rec(p, id), old(self).shares(p, id)) >= 0); } else { assert(old(self).rec(p, id) == self.rec(p, id)); } }
        assert forall|p: int| 0 <= p < self.npools() implies #[trigger] self.rec(p, s_me()) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, s_me()) == self.rec(p, s_me())); }
        assert forall|p: int, id: AccountId| self.npools() <= p <= u64::MAX implies #[trigger] self.rec(p, id) == (ShadowRecord { shadow_in_farm: 0, shadow_in_burrow: 0 }) by { assert(old(self).rec(p, id) == self.rec(p, id)); }
    }
@fn Contract::add_simple_pool(self, tokens, fee) -> r props=P24,P19
    requires old(self).addable(),
    ensures /*P19*/ old(self).running(), final(self).cwf(), final(self).shadow_ok(), final(self).added(old(self), tokens@, fee as int), r == old(self).npools(),
        tokens@.len() == 2, distinct(tokens@), fee < 10000, final(self).pools@[r as int] is SimplePool,
@fn Contract::add_stable_swap_pool(self, tokens, decimals, fee, amp_factor) -> r props=P24,P18
    requires old(self).addable(), tokens@.len() <= u32::MAX,
    ensures /*P18*/ old(self).by_admin(), final(self).cwf(), final(self).shadow_ok(), final(self).added(old(self), tokens@, fee as int), r == old(self).npools(),
        decimals@.len() == tokens@.len(), distinct(tokens@), fee < 10000, final(self).pools@[r as int] is StableSwapPool,
@fn Contract::add_rated_swap_pool(self, tokens, decimals, fee, amp_factor) -> r props=P24,P18
    requires old(self).addable(), tokens@.len() <= u32::MAX,
    ensures /*P18*/ old(self).by_admin(), final(self).cwf(), final(self).shadow_ok(), final(self).added(old(self), tokens@, fee as int), r == old(self).npools(),
        decimals@.len() == tokens@.len(), distinct(tokens@), fee < 10000, final(self).pools@[r as int] is RatedSwapPool,
@fn Contract::add_degen_swap_pool(self, tokens, decimals, fee, amp_factor) -> r props=P24,P18
    requires old(self).addable(), tokens@.len() <= u32::MAX,
    ensures /*P18*/ old(self).by_admin(), final(self).cwf(), final(self).shadow_ok(), final(self).added(old(self), tokens@, fee as int), r == old(self).npools(),
        decimals@.len() == tokens@.len(), distinct(tokens@), fee < 10000, final(self).pools@[r as int] is DegenSwapPool,
@end
