@include prelude.vc
@include lib.vc
@include chain.vc
@include feespec.vc
@include curve.vc
@include rspec.vc DIR=rated_swap P=RatedSwapPool R=rate
@import utils.vc u128_ratio
@include obase.vc
@file ref-exchange/src/rated_swap/mod.rs
@const TARGET_DECIMAL PRECISION
@file ref-exchange/src/rated_swap/stnear_rate.rs#st
@file ref-exchange/src/rated_swap/linear_rate.rs#li
@file ref-exchange/src/rated_swap/nearx_rate.rs#nx
@file ref-exchange/src/rated_swap/sfrax_rate.rs#sf
@file ref-exchange/src/rated_swap/rate.rs
@file ref-exchange/src/lib.rs
@const st_EXPIRE_TS li_EXPIRE_TS nx_EXPIRE_TS sf_EXPIRE_TS sf_MAX_DURATION_SEC sf_MIN_DURATION_SEC
@const NO_DEPOSIT GAS_FOR_BASIC_OP
@type StnearRate
@type LinearRate
@type NearxRate
@type PriceOracle
@type PythOracle
@type SfraxExtraInfo
@type SfraxRate
@type Rate
@verus
pub spec const DAY: int = 86_400_000_000_000;
impl Rate {
    pub open spec fn stored(self) -> u128 { match self { Rate::Stnear(x) => x.stored_rates, Rate::Linear(x) => x.stored_rates, Rate::Nearx(x) => x.stored_rates, Rate::Sfrax(x) => x.stored_rates } }
    pub open spec fn at(self) -> u64 { match self { Rate::Stnear(x) => x.rates_updated_at, Rate::Linear(x) => x.rates_updated_at, Rate::Nearx(x) => x.rates_updated_at, Rate::Sfrax(x) => x.rates_updated_at } }
    /// fetched within the last 24 hours
    pub open spec fn fresh(self) -> bool { s_now() <= self.at() + DAY }
}
/// what a SFRAX answer must be, and the rate it stands for
pub open spec fn frax_ok(x: SfraxRate, ans: Seq<u8>, price: int) -> bool {
    match x.extra_info {
        SfraxExtraInfo::PriceOracle(o) => {
            &&& PriceData::js(ans) is Some
            &&& frax_po(x, o, PriceData::js(ans)->0, price)
        }
        SfraxExtraInfo::PythOracle(o) => {
            let b = Price::js(s_unpair(ans).0); let r = Price::js(s_unpair(ans).1);
            &&& b is Some && r is Some && py_ok(b->0, o.pyth_price_valid_duration_sec as int) && py_ok(r->0, o.pyth_price_valid_duration_sec as int)
            &&& py_val(b->0) != 0 && price == (ONE * py_val(r->0)) / py_val(b->0)
        }
    }
}
pub open spec fn frax_po(x: SfraxRate, o: PriceOracle, d: PriceData, price: int) -> bool {
    &&& pd_ok(d, o.maximum_recency_duration_sec as int, o.maximum_staleness_duration_sec as int)
    &&& d.prices@.len() >= 2 && d.prices@[0].asset_id == o.base_contract_id && d.prices@[1].asset_id == x.contract_id
    &&& d.prices@[0].price is Some && d.prices@[1].price is Some
    &&& (d.prices@[0].price->0).decimals == (d.prices@[1].price->0).decimals
    &&& (d.prices@[0].price->0).multiplier != 0
    &&& price == (ONE * (d.prices@[1].price->0).multiplier) / ((d.prices@[0].price->0).multiplier as int)
}
pub open spec fn near_ok(ans: Seq<u8>, price: int) -> bool { U128::js(ans) is Some && (U128::js(ans)->0).0 == price }
/// the entry `n` is what the answer `ans` makes of the entry `o`
pub open spec fn rate_step(o: Rate, n: Rate, ans: Seq<u8>) -> bool {
    &&& n.at() == s_now()
    &&& match (o, n) {
        (Rate::Stnear(x), Rate::Stnear(y)) => near_ok(ans, y.stored_rates as int) && y.contract_id == x.contract_id,
        (Rate::Linear(x), Rate::Linear(y)) => near_ok(ans, y.stored_rates as int) && y.contract_id == x.contract_id,
        (Rate::Nearx(x), Rate::Nearx(y)) => near_ok(ans, y.stored_rates as int) && y.contract_id == x.contract_id,
        (Rate::Sfrax(x), Rate::Sfrax(y)) => frax_ok(x, ans, y.stored_rates as int) && y.contract_id == x.contract_id && y.extra_info == x.extra_info,
        _ => false,
    }
}
/// the two prices packed into one answer, and back
pub uninterp spec fn s_pair(a: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn s_unpair(a: Seq<u8>) -> (Seq<u8>, Seq<u8>);
pub axiom fn unpair_pair(a: Seq<u8>, b: Seq<u8>) ensures s_unpair(s_pair(a, b)) == (a, b);
/// registered rated tokens when the call starts
pub uninterp spec fn s_rates() -> Map<AccountId, Rate>;
/// what the pools' contracts call the rate of a token, and its validity
pub axiom fn rate_table()
    ensures forall|t: AccountId| #[trigger] s_rate(t) == (if s_rates().dom().contains(t) { s_rates()[t].stored() } else { 1_000_000_000_000_000_000_000_000u128 }),
        forall|t: AccountId| #[trigger] s_rate_ok(t) == (s_rates().dom().contains(t) ==> s_rates()[t].fresh());
pub open spec fn ok_bytes(r: PromiseResult) -> Seq<u8> { r->Successful_0@ }
pub open spec fn rate_answer() -> Seq<u8> { if s_results() == 1 { ok_bytes(s_result(0)) } else { s_pair(ok_bytes(s_result(0)), ok_bytes(s_result(1))) } }
/// an entry may only be written as it is already, or as the successful answer the contract itself asked for makes it
pub open spec fn may_rate(t: AccountId, n: Rate) -> bool {
    s_rates().dom().contains(t) && (s_rates()[t] == n || answered(t, n))
}
pub open spec fn answered(t: AccountId, n: Rate) -> bool {
    &&& s_pred() == s_me()
    &&& s_results() == 1 || s_results() == 2
    &&& s_result(0) is Successful && (s_results() == 2 ==> s_result(1) is Successful)
    &&& rate_step(s_rates()[t], n, rate_answer())
}
@verus
pub struct VKey { pub k: u8 }
impl VKey { pub fn as_bytes(&self) -> (r: &VKey) ensures r == self { self } }
pub const RATE_STORAGE_KEY: VKey = VKey { k: 1 };
pub uninterp spec fn s_rates_bytes(m: Map<AccountId, Rate>) -> Seq<u8>;
/// the stored table; a missing one is empty
#[verifier::external_body] pub fn v_storage_read(k: &VKey) -> (r: Option<Vec<u8>>) ensures r is Some ==> r->0@ == s_rates_bytes(s_rates()) { unimplemented!() }
#[verifier::external_body] pub fn v_storage_write(k: &VKey, v: &Vec<u8>) -> (r: bool) requires cache_bytes(v@) { unimplemented!() }
pub uninterp spec fn cache_bytes(v: Seq<u8>) -> bool;
impl HashMap<AccountId, Rate> {
    #[verifier::external_body] pub fn try_from_slice(v: &Vec<u8>) -> (r: Result<HashMap<AccountId, Rate>, ()>) ensures r is Ok ==> v@ == s_rates_bytes(r->Ok_0@) && (v@ == s_rates_bytes(s_rates()) ==> r->Ok_0@ == s_rates()) { unimplemented!() }
}
/// the in-memory copy of the table, loaded on first use: entries enter it only under may_rate
pub struct VRates { pub x: u8 }
pub const RATES: VRates = VRates { x: 0 };
impl VRates {
    #[verifier::external_body] pub fn lock(&self) -> (r: Option<VRates>) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &AccountId) -> (r: Option<&Rate>) ensures r is Some <==> s_rates().dom().contains(*k), r is Some ==> *(r->0) == s_rates()[*k] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&self, k: AccountId, v: Rate) -> (r: Option<Rate>) requires may_rate(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn try_to_vec(&self) -> (r: Result<Vec<u8>, ()>) ensures r is Ok ==> cache_bytes(r->Ok_0@) { unimplemented!() }
}
impl VIsEmpty for VRates { uninterp spec fn ves(&self) -> bool; #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
pub mod ext_metapool { use super::*; #[verifier::external_body] pub fn get_st_near_price(to: &AccountId, d: u128, gas: u64) -> (r: Promise) ensures d == 0 ==> r@ == ask(*to, m_st_price(), PArgs::None) { unimplemented!() } }
pub mod ext_linear { use super::*; #[verifier::external_body] pub fn ft_price(to: &AccountId, d: u128, gas: u64) -> (r: Promise) ensures d == 0 ==> r@ == ask(*to, m_ft_price(), PArgs::None) { unimplemented!() } }
pub mod ext_nearx { use super::*; #[verifier::external_body] pub fn get_nearx_price(to: &AccountId, d: u128, gas: u64) -> (r: Promise) ensures d == 0 ==> r@ == ask(*to, m_nearx_price(), PArgs::None) { unimplemented!() } }
pub mod ext_self { use super::*; #[verifier::external_body] pub fn update_token_rate_callback(token: AccountId, to: &AccountId, d: u128, gas: u64) -> (r: Promise) ensures d == 0 ==> r@ == ask(*to, m_rate_cb(), PArgs::Ids { ids: seq![token] }) { unimplemented!() } }
#[verifier::external_body] pub fn pair_rated_price_to_vec_u8(a: Vec<u8>, b: Vec<u8>) -> (r: Vec<u8>) ensures r@ == s_pair(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn unpair_rated_price_from_vec_u8(a: &Vec<u8>) -> (r: (Vec<u8>, Vec<u8>)) ensures (r.0@, r.1@) == s_unpair(a@) { unimplemented!() }
pub struct Contract { x: u8 }
/// the question asked for a rate
pub open spec fn rate_ask(x: Rate) -> PSpec {
    match x {
        Rate::Stnear(y) => ask(y.contract_id, m_st_price(), PArgs::None),
        Rate::Linear(y) => ask(y.contract_id, m_ft_price(), PArgs::None),
        Rate::Nearx(y) => ask(y.contract_id, m_nearx_price(), PArgs::None),
        Rate::Sfrax(y) => frax_ask(y),
    }
}
pub open spec fn frax_ask(y: SfraxRate) -> PSpec {
    match y.extra_info {
        SfraxExtraInfo::PriceOracle(o) => ask(o.oracle_id, m_price_data(), PArgs::Ids { ids: seq![o.base_contract_id, y.contract_id] }),
        SfraxExtraInfo::PythOracle(o) => PSpec::And { x: Box::new(ask(o.oracle_id, m_pyth_price(), PArgs::Raw { x: o.base_price_identifier.0@ })), y: Box::new(ask(o.oracle_id, m_pyth_price(), PArgs::Raw { x: o.rate_price_identifier.0@ })) },
    }
}
@verus
/// a Pyth-based SFRAX rate is written from exactly the two answers: the first is the base's, the second the rated token's
pub proof fn p21_frax_two_answers(t: AccountId, n: Rate, x: SfraxRate, o: PythOracle)
    requires may_rate(t, n), s_rates()[t] == Rate::Sfrax(x), x.extra_info == SfraxExtraInfo::PythOracle(o), s_results() == 2, n != s_rates()[t]
    ensures s_result(0) is Successful, s_result(1) is Successful, n.at() == s_now(),
        ({ let b = Price::js(ok_bytes(s_result(0))); let r = Price::js(ok_bytes(s_result(1)));
           b is Some && r is Some && py_ok(b->0, o.pyth_price_valid_duration_sec as int) && py_ok(r->0, o.pyth_price_valid_duration_sec as int) && n.stored() == (ONE * py_val(r->0)) / py_val(b->0) }),
{
    unpair_pair(ok_bytes(s_result(0)), ok_bytes(s_result(1)));
}
@include ratek.vc T=StnearRate C=st_EXPIRE_TS M=m_st_price
@include ratek.vc T=LinearRate C=li_EXPIRE_TS M=m_ft_price
@include ratek.vc T=NearxRate C=nx_EXPIRE_TS M=m_nearx_price
@fn SfraxExtraInfo::assert_valid(self) props=P21
    ensures match *self { SfraxExtraInfo::PriceOracle(e) => 10 <= e.maximum_staleness_duration_sec <= 300, SfraxExtraInfo::PythOracle(e) => 10 <= e.pyth_price_valid_duration_sec <= 300 },
@fn SfraxRate::are_actual(self) -> r props=P21
    ensures r == (s_now() <= self.rates_updated_at + DAY),
@fn SfraxRate::get(self) -> r props=P21
    ensures r == self.stored_rates,
@fn SfraxRate::last_update_ts(self) -> r props=P21
    ensures r == self.rates_updated_at,
@fn SfraxRate::async_update(self) -> r props=P21
    ensures r@ == frax_ask(*self),
@exit
    proof { if self.extra_info is PriceOracle { let o = self.extra_info->PriceOracle_0; assert((r@->args)->ids =~= seq![o.base_contract_id, self.contract_id]); } }
@fn SfraxRate::set(self, cross_call_result) -> r props=P21
    ensures frax_ok(*old(self), cross_call_result@, r as int), final(self).stored_rates == r, final(self).rates_updated_at == s_now(), final(self).contract_id == old(self).contract_id, final(self).extra_info == old(self).extra_info,
@subst . abs ()=>. vabs ()
@fn Rate::are_actual(self) -> r props=P21
    ensures r == self.fresh(),
@fn Rate::get(self) -> r props=P21
    ensures r == self.stored(),
@fn Rate::last_update_ts(self) -> r props=P21
    ensures r == self.at(),
@fn Rate::async_update(self) -> r props=P21
    ensures r@ == rate_ask(*self),
@fn Rate::set(self, cross_call_result) -> r props=P21
    ensures rate_step(*old(self), *final(self), cross_call_result@), r == final(self).stored(),
@fn global_get_rate(token_id) -> r props=P21
    ensures r == mopt(s_rates(), *token_id),
@subst env :: storage_read=>v_storage_read
@loop 0
    invariant __s0@ == s_rates() || __s0@ == Map::<AccountId, Rate>::empty(), __i0 == 0 || is_order(__s0.kord(), __s0@.dom()),
@fn global_set_rate(token_id, rate) props=P21
    requires may_rate(*token_id, *rate),
@subst env :: storage_read=>v_storage_read
@subst env :: storage_write=>v_storage_write
@loop 0
    invariant __s0@ == s_rates() || __s0@ == Map::<AccountId, Rate>::empty(), __i0 == 0 || is_order(__s0.kord(), __s0@.dom()),
@fn is_global_rate_valid(token_id) -> r props=P21
    ensures r == s_rate_ok(*token_id),
@subst env :: storage_read=>v_storage_read
@entry
    proof { rate_table(); }
@loop 0
    invariant __s0@ == s_rates() || __s0@ == Map::<AccountId, Rate>::empty(), __i0 == 0 || is_order(__s0.kord(), __s0@.dom()),
@fn RatedSwapPool::get_rates(self) -> r props=P21,P07
    ensures r@ == self.rt(),
@entry
    proof { rate_table(); }
@loop 0
    invariant forall|t: AccountId| #[trigger] s_rate(t) == (if s_rates().dom().contains(t) { s_rates()[t].stored() } else { 1_000_000_000_000_000_000_000_000u128 }),
        0 <= __i0 <= __s0@.len(), __s0@ == self.token_account_ids@, __v0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> #[trigger] __v0@[i] == s_rate(self.token_account_ids@[i]),
@exit
    proof { assert(r@ =~= self.rt()); }
@fn RatedSwapPool::assert_rates_valid(self) props=P21
    ensures self.gate(),
@loop 0
    invariant 0 <= __i0 <= __s0@.len(), __s0@ == self.token_account_ids@, forall|i: int| 0 <= i < __i0 ==> s_rate_ok(#[trigger] self.token_account_ids@[i]),
@fn Contract::update_token_rate(self, token_id) -> r props=P21
    ensures s_rates().dom().contains(token_id.0) ==> r is Promise && r->Promise_0@ == (PSpec::Then { a: Box::new(rate_ask(s_rates()[token_id.0])), b: Box::new(ask(s_me(), m_rate_cb(), PArgs::Ids { ids: seq![token_id.0] })) }),
@fn Contract::update_token_rate_callback(self, token_id) props=P21
    ensures s_pred() == s_me(),
@end
