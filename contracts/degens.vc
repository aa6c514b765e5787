@include dbase.vc
@verus
/// the decimals (price identifiers) sent along with a batch question, token by token
pub uninterp spec fn s_arg_dec(t: AccountId) -> int;
pub uninterp spec fn s_arg_pid(t: AccountId) -> PriceIdentifier;
pub uninterp spec fn s_pymap(v: Seq<u8>) -> Option<Map<PriceIdentifier, Option<Price>>>;
impl VJson for HashMap<PriceIdentifier, Option<Price>> { uninterp spec fn js(v: Seq<u8>) -> Option<Self>; }
pub open spec fn ok_bytes(r: PromiseResult) -> Seq<u8> { r->Successful_0@ }
/// price p of a token with `dec` decimals, quoted with multiplier / 10^decimals, at 24 decimals
pub open spec fn po_val(p: OPrice, dec: int) -> int { (ONE * p.multiplier) / spow(10, p.decimals - dec) }
/// a single question to the NEAR oracle: exactly this token was answered
pub open spec fn po_one(x: PriceOracleDegen, ans: Seq<u8>, price: int) -> bool {
    &&& PriceData::js(ans) is Some && pd_ok(PriceData::js(ans)->0, po_cfg().maximum_recency_duration_sec as int, po_cfg().maximum_staleness_duration_sec as int)
    &&& quoted((PriceData::js(ans)->0).prices@, 0, x.token_id, x.decimals as int, price)
}
pub open spec fn quoted(q: Seq<AssetOptionalPrice>, i: int, t: AccountId, dec: int, price: int) -> bool {
    0 <= i < q.len() && q[i].asset_id == t && q[i].price is Some && (q[i].price->0).decimals >= dec && price == po_val(q[i].price->0, dec)
}
pub open spec fn py_one(ans: Seq<u8>, price: int) -> bool {
    Price::js(ans) is Some && py_ok(Price::js(ans)->0, py_cfg().pyth_price_valid_duration_sec as int) && price == py_val(Price::js(ans)->0)
}
pub open spec fn po_batch(t: AccountId, ans: Seq<u8>, price: int) -> bool {
    &&& PriceData::js(ans) is Some && pd_ok(PriceData::js(ans)->0, po_cfg().maximum_recency_duration_sec as int, po_cfg().maximum_staleness_duration_sec as int)
    &&& exists|i: int| #[trigger] quoted((PriceData::js(ans)->0).prices@, i, t, s_arg_dec(t), price)
}
pub type PyMap = HashMap<PriceIdentifier, Option<Price>>;
pub open spec fn py_batch(t: AccountId, ans: Seq<u8>, price: int) -> bool {
    &&& PyMap::js(ans) is Some
    &&& ({ let m = (PyMap::js(ans)->0)@; m.dom().contains(s_arg_pid(t)) && m[s_arg_pid(t)] is Some && py_ok(m[s_arg_pid(t)]->0, py_cfg().pyth_price_valid_duration_sec as int) && price == py_val(m[s_arg_pid(t)]->0) })
}
/// the entry n is what a single answer makes of the entry o
pub open spec fn degen_step(o: Degen, n: Degen, ans: Seq<u8>) -> bool {
    n.info() is Some && n.priced((n.info()->0).stored_degen as int) && o.same_cfg(n)
    && match o { Degen::PriceOracle(x) => po_one(x, ans, (n.info()->0).stored_degen as int), Degen::PythOracle(_) => py_one(ans, (n.info()->0).stored_degen as int) }
}
/// a price is only written for a registered token, keeping its configuration, stamped now, from a successful answer to a
/// question the contract itself asked: the token's own answer, or its line in a batch answer
pub open spec fn may_degen(t: AccountId, n: Degen) -> bool {
    &&& s_pred() == s_me() && s_results() == 1 && s_result(0) is Successful
    &&& s_degens().dom().contains(t) && s_degens()[t].same_cfg(n) && n.info() is Some && n.priced((n.info()->0).stored_degen as int)
    &&& step_any(t, n, ok_bytes(s_result(0)), (n.info()->0).stored_degen as int)
}
pub open spec fn step_any(t: AccountId, n: Degen, ans: Seq<u8>, p: int) -> bool {
    degen_step(s_degens()[t], n, ans) || po_batch(t, ans, p) || py_batch(t, ans, p)
}
pub struct VGuard { pub x: u8 }
impl VDegens {
    #[verifier::external_body] pub fn lock(&self) -> (r: Option<VDegens>) { unimplemented!() }
    /// an entry may have been given a new price earlier in this call
    #[verifier::external_body] pub fn get(&self, k: &AccountId) -> (r: Option<&Degen>) ensures r is Some <==> s_degens().dom().contains(*k), r is Some ==> s_degens()[*k].same_cfg(*(r->0)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, k: AccountId, v: Degen) -> (r: Option<Degen>) requires may_degen(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn try_to_vec(&self) -> (r: Result<Vec<u8>, ()>) { unimplemented!() }
}
impl VKey { pub fn as_bytes(&self) -> (r: &VKey) ensures r == self { self } }
pub const DEGEN_STORAGE_KEY: VKey = VKey { k: 3 };
#[verifier::external_body] pub fn v_storage_write(k: &VKey, v: &Vec<u8>) -> (r: bool) { unimplemented!() }
pub struct Contract { x: u8 }
pub mod ext_self { use super::*;
    #[verifier::external_body] pub fn update_degen_token_price_callback(token: AccountId, to: &AccountId, d: u128, gas: u64) -> (r: Promise) ensures d == 0 ==> r@ == ask(*to, m_degen_cb(), PArgs::Ids { ids: seq![token] }) { unimplemented!() }
    #[verifier::external_body] pub fn batch_update_degen_token_by_price_oracle_callback(m: HashMap<AccountId, u8>, to: &AccountId, d: u128, gas: u64) -> (r: Promise) requires forall|t: AccountId| #[trigger] m@.dom().contains(t) ==> asked_dec(t, m@[t] as int) { unimplemented!() }
    #[verifier::external_body] pub fn batch_update_degen_token_by_pyth_oracle_callback(m: HashMap<PriceIdentifier, Vec<AccountId>>, to: &AccountId, d: u128, gas: u64) -> (r: Promise) requires forall|p: PriceIdentifier| #[trigger] m@.dom().contains(p) ==> asked_pids(m@[p]@, p) { unimplemented!() }
}
/// a batch question carries the registered decimals (price identifier) of each token
pub open spec fn asked_dec(t: AccountId, d: int) -> bool { s_degens().dom().contains(t) && s_degens()[t] is PriceOracle && s_degens()[t]->PriceOracle_0.decimals == d }
pub open spec fn asked_pid(t: AccountId, p: PriceIdentifier) -> bool { s_degens().dom().contains(t) && s_degens()[t] is PythOracle && s_degens()[t]->PythOracle_0.price_identifier == p }
pub open spec fn asked_pids(s: Seq<AccountId>, p: PriceIdentifier) -> bool { forall|i: int| 0 <= i < s.len() ==> asked_pid(#[trigger] s[i], p) }
@fn global_get_degen(token_id) -> r props=P21
    ensures s_degens().dom().contains(*token_id), s_degens()[*token_id].same_cfg(r),
@fn global_set_degen(token_id, degen) props=P21
    requires may_degen(*token_id, *degen),
@subst env :: storage_write=>v_storage_write
@fn Degen::update_price_info(self, price_info) props=P21
    ensures final(self).info() == Some(price_info), old(self).same_cfg(*final(self)),
@fn PriceOracleDegen::set_price(self, cross_call_result) -> r props=P21
    ensures has_po(), po_one(*old(self), cross_call_result@, r as int), Degen::PriceOracle(*old(self)).same_cfg(Degen::PriceOracle(*final(self))), Degen::PriceOracle(*final(self)).priced(r as int),
@fn PythOracleDegen::set_price(self, cross_call_result) -> r props=P21
    ensures has_py(), py_one(cross_call_result@, r as int), Degen::PythOracle(*old(self)).same_cfg(Degen::PythOracle(*final(self))), Degen::PythOracle(*final(self)).priced(r as int),
@subst . abs ()=>. vabs ()
@fn Degen::set_price(self, cross_call_result) -> r props=P21
    ensures degen_step(*old(self), *final(self), cross_call_result@),
@fn PriceOracleDegen::async_update(self) -> r props=P21
    ensures has_po(), r@ == ask(po_cfg().oracle_id, m_price_data(), PArgs::Ids { ids: seq![self.token_id] }),
@exit
    proof { assert((r@->args)->ids =~= seq![self.token_id]); }
@fn PythOracleDegen::async_update(self) -> r props=P21
    ensures has_py(), r@ == ask(py_cfg().oracle_id, m_pyth_price(), PArgs::Raw { x: self.price_identifier.0@ }),
@fn Degen::async_update(self) -> r props=P21
    ensures r@ == (match *self { Degen::PriceOracle(x) => ask(po_cfg().oracle_id, m_price_data(), PArgs::Ids { ids: seq![x.token_id] }), Degen::PythOracle(x) => ask(py_cfg().oracle_id, m_pyth_price(), PArgs::Raw { x: x.price_identifier.0@ }) }),
@fn batch_update_degen_token_by_price_oracle(token_id_decimals_map) props=P21
    requires forall|t: AccountId| #[trigger] token_id_decimals_map@.dom().contains(t) ==> asked_dec(t, token_id_decimals_map@[t] as int),
@fn batch_update_degen_token_by_pyth_oracle(price_id_token_id_map) props=P21
    requires forall|p: PriceIdentifier| #[trigger] price_id_token_id_map@.dom().contains(p) ==> asked_pids(price_id_token_id_map@[p]@, p),
@fn internal_batch_update_degen_token_price(token_ids) props=P21
@subst . entry (=>. ventry_push (
@subst ) . or_insert_with (Vec :: new) . push (token_id)=>, token_id)
@loop 0
    invariant forall|t: AccountId| #[trigger] token_id_decimals_map@.dom().contains(t) ==> asked_dec(t, token_id_decimals_map@[t] as int),
        forall|p: PriceIdentifier| #[trigger] price_id_token_id_map@.dom().contains(p) ==> asked_pids(price_id_token_id_map@[p]@, p),
@fn Degen::sync_token_price(self, token_id) props=P21
@fn Contract::update_degen_token_price_callback(self, token_id) props=P21
    ensures s_pred() == s_me(),
@fn Contract::batch_update_degen_token_by_price_oracle_callback(self, token_id_decimals_map) props=P21
    requires forall|t: AccountId| #[trigger] token_id_decimals_map@.dom().contains(t) ==> token_id_decimals_map@[t] == s_arg_dec(t),
    ensures s_pred() == s_me(),
@subst near_sdk :: promise_result_as_success=>promise_result_as_success
@loop 0
    invariant forall|t: AccountId| #[trigger] token_id_decimals_map@.dom().contains(t) ==> token_id_decimals_map@[t] == s_arg_dec(t),
        s_pred() == s_me(), s_results() == 1, s_result(0) is Successful, PriceData::js(ok_bytes(s_result(0))) is Some, __s0@ == (PriceData::js(ok_bytes(s_result(0)))->0).prices@, 0 <= __i0 <= __s0@.len(), timestamp == s_now(),
        pd_ok(PriceData::js(ok_bytes(s_result(0)))->0, po_cfg().maximum_recency_duration_sec as int, po_cfg().maximum_staleness_duration_sec as int),
@at call update_price_info 0
    proof { assert(quoted((PriceData::js(ok_bytes(s_result(0)))->0).prices@, __i0 - 1, token_id, s_arg_dec(token_id), price as int)); }
@fn Contract::batch_update_degen_token_by_pyth_oracle_callback(self, price_id_token_id_map) props=P21
    requires forall|p: PriceIdentifier, i: int| #[trigger] price_id_token_id_map@.dom().contains(p) && 0 <= i < price_id_token_id_map@[p]@.len() ==> s_arg_pid(#[trigger] price_id_token_id_map@[p]@[i]) == p,
    ensures s_pred() == s_me(),
@subst . abs ()=>. vabs ()
@subst near_sdk :: promise_result_as_success=>promise_result_as_success
@loop 0
    invariant __s0@ == price_id_token_id_map@, forall|p: PriceIdentifier, i: int| #[trigger] price_id_token_id_map@.dom().contains(p) && 0 <= i < price_id_token_id_map@[p]@.len() ==> s_arg_pid(#[trigger] price_id_token_id_map@[p]@[i]) == p,
        s_pred() == s_me(), s_results() == 1, s_result(0) is Successful, PyMap::js(ok_bytes(s_result(0))) == Some(prices), timestamp == s_now(), config == py_cfg(), __i0 == 0 || is_order(__s0.kord(), __s0@.dom()),
@before_loop 1
    proof {
        assert(__s0.kord()[__i0 - 1] == price_id);
        assert(__s0@.dom().contains(price_id));
        assert(token_ids == __s0@[price_id]);
        assert(prices@.dom().contains(price_id));
        assert(prices@[price_id] is Some);
        assert(py_ok(prices@[price_id]->0, py_cfg().pyth_price_valid_duration_sec as int));
        assert(price == py_val(prices@[price_id]->0));
        assert forall|i: int| 0 <= i < __s1@.len() implies py_batch(#[trigger] __s1@[i], ok_bytes(s_result(0)), price as int) by { assert(s_arg_pid(price_id_token_id_map@[price_id]@[i]) == price_id); }
    }
@loop 1
    invariant s_pred() == s_me(), s_results() == 1, s_result(0) is Successful, PyMap::js(ok_bytes(s_result(0))) == Some(prices), timestamp == s_now(), 0 <= __i1 <= __s1@.len(), forall|i: int| 0 <= i < __s1@.len() ==> py_batch(#[trigger] __s1@[i], ok_bytes(s_result(0)), price as int),
@end
