@verus
// ---------------------------------------------------------------- env: constant during one contract call
pub mod vnow { use vstd::prelude::*; pub uninterp spec fn s_now() -> int; }
pub use vnow::*;
pub uninterp spec fn s_pred() -> AccountId;
pub uninterp spec fn s_me() -> AccountId;
pub uninterp spec fn s_signer() -> AccountId;
pub uninterp spec fn s_deposit() -> int;
pub uninterp spec fn s_byte_cost() -> int;
pub uninterp spec fn s_result(i: int) -> PromiseResult;
pub uninterp spec fn s_results() -> int;
pub enum PromiseResult { NotReady, Successful(Vec<u8>), Failed }
pub mod env {
    use super::*;
    #[verifier::external_body] pub fn block_timestamp() -> (r: u64) ensures r == s_now() { unimplemented!() }
    #[verifier::external_body] pub fn predecessor_account_id() -> (r: AccountId) ensures r == s_pred() { unimplemented!() }
    #[verifier::external_body] pub fn current_account_id() -> (r: AccountId) ensures r == s_me() { unimplemented!() }
    #[verifier::external_body] pub fn signer_account_id() -> (r: AccountId) ensures r == s_signer() { unimplemented!() }
    #[verifier::external_body] pub fn attached_deposit() -> (r: u128) ensures r == s_deposit() { unimplemented!() }
    #[verifier::external_body] pub fn storage_byte_cost() -> (r: u128) ensures r == s_byte_cost() { unimplemented!() }
    // measured by the runtime: unconstrained
    #[verifier::external_body] pub fn storage_usage() -> (r: u64) { unimplemented!() }
    #[verifier::external_body] pub fn account_balance() -> (r: u128) { unimplemented!() }
    #[verifier::external_body] pub fn prepaid_gas() -> (r: u64) { unimplemented!() }
    #[verifier::external_body] pub fn used_gas() -> (r: u64) { unimplemented!() }
    #[verifier::external_body] pub fn promise_results_count() -> (r: u64) ensures r == s_results() { unimplemented!() }
    #[verifier::external_body] pub fn promise_result(i: u64) -> (r: PromiseResult) ensures r == s_result(i as int), !(r is NotReady) { unimplemented!() }
    #[verifier::external_body] pub fn state_exists() -> (r: bool) { unimplemented!() }
}
/// near_sdk::is_promise_success
#[verifier::external_body] pub fn is_promise_success() -> (r: bool) ensures s_results() == 1, r == s_result(0) is Successful { unimplemented!() }
/// near_sdk::assert_one_yocto
#[verifier::external_body] pub fn assert_one_yocto() ensures s_deposit() == 1 { unimplemented!() }

/// what near_bindgen's generated entry of a #[private] method checks
#[verifier::external_body] pub fn v_private() ensures s_pred() == s_me() { unimplemented!() }

// ---------------------------------------------------------------- promises: what is sent is data
pub enum PSpec {
    Empty { to: AccountId },
    Transfer { to: AccountId, amount: int },
    Call { to: AccountId, method: int, args: PArgs, deposit: int },
    Then { a: Box<PSpec>, b: Box<PSpec> },
    And { x: Box<PSpec>, y: Box<PSpec> },
}
pub enum PArgs {
    None,
    Ft { receiver: AccountId, amount: int },
    Mft { token: AccountId, sender: AccountId, receiver: AccountId, amount: int },
    Shadow { action: int, user: AccountId, pool: int, amount: int, fee: int },
    Ids { ids: Seq<AccountId> },
    Raw { x: Seq<u8> },
    Ints { m: Map<AccountId, int> },
    TokUserAmt { token: AccountId, user: AccountId, amount: int },
    Other,
}
#[verifier::external_body]
pub struct Promise { p: u8 }
impl Promise {
    pub uninterp spec fn view(&self) -> PSpec;
    #[verifier::external_body] pub fn new(a: AccountId) -> (r: Promise) ensures r@ == (PSpec::Empty { to: a }) { unimplemented!() }
    /// sending NEAR is an effect the caller must have been granted by its contract
    #[verifier::external_body] pub fn transfer(self, amount: u128) -> (r: Promise)
        requires self@ is Empty && may_send(self@->Empty_to, amount as int)
        ensures r@ == (PSpec::Transfer { to: self@->Empty_to, amount: amount as int }) { unimplemented!() }
    #[verifier::external_body] pub fn then(self, b: Promise) -> (r: Promise) ensures r@ == (PSpec::Then { a: Box::new(self@), b: Box::new(b@) }) { unimplemented!() }
}
pub uninterp spec fn may_send(to: AccountId, amount: int) -> bool;
pub enum PromiseOrValue<T> { Promise(Promise), Value(T) }

// ---------------------------------------------------------------- std and near_sdk collections: trusted map/set/sequence models
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: std::marker::PhantomData<(K, V)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct UnorderedMap<K, V> { k: std::marker::PhantomData<(K, V)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: std::marker::PhantomData<K> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct UnorderedSet<K> { k: std::marker::PhantomData<K> }
#[verifier::external_body] #[verifier::accept_recursive_types(K)]
pub struct Vector<K> { k: std::marker::PhantomData<K> }
pub open spec fn mopt<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(*k),
            r is Some ==> *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r is None ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == mopt(old(self)@, k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == mopt(old(self)@, *k) { unimplemented!() }
    /// the order in which iteration visits the keys
    pub uninterp spec fn kord(&self) -> Seq<K>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), is_order(self.kord(), self@.dom()) { unimplemented!() }
    #[verifier::external_body] pub fn vkeys(&self) -> (r: Vec<K>) ensures r@ == self.kord(), is_order(r@, self@.dom()) { unimplemented!() }
    pub fn vref(&self) -> (r: &Self) ensures r == self { self }
    #[verifier::external_body] pub fn vidx(&self, i: usize) -> (r: (&K, &V)) ensures is_order(self.kord(), self@.dom()), i < self.kord().len(), *r.0 == self.kord()[i as int], *r.1 == self@[*r.0], self@.dom().contains(*r.0) { unimplemented!() }
}
/// the lowering of map.entry(k).or_insert_with(Vec::new).push(v)
impl<K, V> HashMap<K, Vec<V>> {
    #[verifier::external_body] pub fn ventry_push(&mut self, k: K, v: V)
        ensures final(self)@.dom() == old(self)@.dom().insert(k), forall|j: K| j != k && #[trigger] old(self)@.dom().contains(j) ==> final(self)@[j] == old(self)@[j],
            final(self)@[k]@ == (if old(self)@.dom().contains(k) { old(self)@[k]@ } else { Seq::empty() }).push(v) { unimplemented!() }
}
impl<K, V> VNext<(K, V)> for HashMap<K, V> {
    open spec fn vseqn(&self) -> Seq<(K, V)> { Seq::new(self.kord().len(), |i: int| (self.kord()[i], self@[self.kord()[i]])) }
    #[verifier::external_body] fn vnext(&self, i: usize) -> (r: (K, V)) { unimplemented!() }
}
impl<K, V> VIsEmpty for HashMap<K, V> { open spec fn ves(&self) -> bool { self@.dom().len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
impl<K, V> VClone for HashMap<K, V> { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl<K, V> UnorderedMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<V>) ensures r == mopt(self@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &K, v: &V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(*k, *v), r == mopt(old(self)@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == mopt(old(self)@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self@.dom().len() { unimplemented!() }
}
impl<K, V> UnorderedMap<K, V> {
    /// the order in which the keys are stored
    pub uninterp spec fn kord(&self) -> Seq<K>;
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<(K, V)>) ensures is_order(self.kord(), self@.dom()), r@ == Seq::new(self.kord().len(), |i: int| (self.kord()[i], self@[self.kord()[i]])) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
}
impl<K, V> VIsEmpty for UnorderedMap<K, V> { open spec fn ves(&self) -> bool { self@.dom().len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
/// a duplicate-free order of the elements
pub open spec fn is_order<K>(s: Seq<K>, m: Set<K>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])
    &&& forall|k: K| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && s[i] == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
}
${SETS}
impl<K> HashSet<K> {
    #[verifier::external_body] pub fn extend(&mut self, v: Vec<K>) ensures forall|k: K| #[trigger] final(self)@.contains(k) <==> old(self)@.contains(k) || v@.contains(k) { unimplemented!() }
}
impl<K> UnorderedSet<K> {
    #[verifier::external_body] pub fn vset(&self) -> (r: Vec<K>) ensures r@ == self.ord(), is_order(self.ord(), self@) { unimplemented!() }
}
impl<K> Vector<K> {
    pub uninterp spec fn view(&self) -> Seq<K>;
    #[verifier::external_body] pub fn get(&self, i: u64) -> (r: Option<K>) ensures r == (if i < self@.len() { Some(self@[i as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: &K) ensures final(self)@ == old(self)@.push(*x) { unimplemented!() }
    #[verifier::external_body] pub fn replace(&mut self, i: u64, x: &K) -> (r: K) ensures i < old(self)@.len(), r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *x) { unimplemented!() }
}
@end
