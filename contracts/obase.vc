@file ref-exchange/src/errors.rs
@file ref-exchange/src/oracle.rs
@verus
pub struct I64(pub i64);
@type price_oracle::Price as=OPrice
@type AssetOptionalPrice type:price=Option<OPrice> type:asset_id=AccountId
@type PriceData
@type pyth_oracle::Price
@type PriceIdentifier
@verus
impl VClone for AssetOptionalPrice { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for PriceData { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
/// serde_json: a fixed partial function from bytes to values
pub trait VJson: Sized { spec fn js(v: Seq<u8>) -> Option<Self>; }
#[verifier::external_body] pub fn from_slice<T: VJson>(v: &Vec<u8>) -> (r: Result<T, ()>) ensures r is Ok <==> T::js(v@) is Some, r is Ok ==> T::js(v@) == Some(r->Ok_0) { unimplemented!() }
impl VJson for U128 { uninterp spec fn js(v: Seq<u8>) -> Option<Self>; }
impl VJson for PriceData { uninterp spec fn js(v: Seq<u8>) -> Option<Self>; }
impl VJson for Price { uninterp spec fn js(v: Seq<u8>) -> Option<Self>; }
pub trait VAbs: Sized { spec fn vabss(self, r: Self) -> bool; fn vabs(self) -> (r: Self) ensures self.vabss(r); }
impl VAbs for i32 { open spec fn vabss(self, r: i32) -> bool { self > i32::MIN && r == (if self < 0 { -self } else { self as int }) } #[verifier::external_body] fn vabs(self) -> (r: i32) { unimplemented!() } }
pub open spec fn ns(s: int) -> int { s * 1_000_000_000 }
pub spec const ONE: int = 1_000_000_000_000_000_000_000_000;
/// an answer of the NEAR price oracle may be used: recent, not from the future, not stale
pub open spec fn pd_ok(d: PriceData, rec: int, stale: int) -> bool { d.recency_duration_sec <= rec && d.timestamp <= s_now() && s_now() - d.timestamp <= ns(stale) }
/// an answer of Pyth may be used: positive, published, not older than allowed
pub open spec fn py_ok(p: Price, dur: int) -> bool { p.price.0 > 0 && p.publish_time > 0 && ns(p.publish_time as u32 + dur) >= s_now() }
/// its value with the pool's 24 decimals
pub open spec fn py_val(p: Price) -> int {
    if p.expo > 0 { (ONE * p.price.0) * spow(10, p.expo as int) } else { (ONE * p.price.0) / spow(10, -(p.expo as int)) }
}
/// near_sdk::promise_result_as_success
#[verifier::external_body] pub fn promise_result_as_success() -> (r: Option<Vec<u8>>) ensures s_results() == 1, r is Some <==> s_result(0) is Successful, r is Some ==> s_result(0) == PromiseResult::Successful(r->0) { unimplemented!() }
/// cross-contract calls made to fetch a value
pub open spec fn m_st_price() -> int { 1 }
pub open spec fn m_ft_price() -> int { 2 }
pub open spec fn m_nearx_price() -> int { 3 }
pub open spec fn m_price_data() -> int { 4 }
pub open spec fn m_pyth_price() -> int { 5 }
pub open spec fn m_pyth_list() -> int { 6 }
pub open spec fn m_rate_cb() -> int { 7 }
pub open spec fn m_degen_cb() -> int { 8 }
pub open spec fn m_po_cb() -> int { 9 }
pub open spec fn m_py_cb() -> int { 10 }
pub open spec fn ask(to: AccountId, m: int, args: PArgs) -> PSpec { PSpec::Call { to, method: m, args, deposit: 0 } }
impl Promise {
    #[verifier::external_body] pub fn and(self, b: Promise) -> (r: Promise) ensures r@ == (PSpec::And { x: Box::new(self@), y: Box::new(b@) }) { unimplemented!() }
}
impl<T> VFrom<Promise> for PromiseOrValue<T> { open spec fn vfs(a: Promise, r: PromiseOrValue<T>) -> bool { r == PromiseOrValue::<T>::Promise(a) } fn vfromx(a: Promise) -> (r: PromiseOrValue<T>) { PromiseOrValue::Promise(a) } }
pub open spec fn oseq(o: Option<Vec<AccountId>>) -> Seq<AccountId> { match o { Some(v) => v@, None => Seq::empty() } }
pub mod ext_price_oracle {
    use super::*;
    #[verifier::external_body] pub fn get_price_data(ids: Option<Vec<AccountId>>, to: &AccountId, d: u128, gas: u64) -> (r: Promise)
        ensures d == 0 ==> r@ == ask(*to, m_price_data(), PArgs::Ids { ids: oseq(ids) }) { unimplemented!() }
}
pub mod ext_pyth_oracle {
    use super::*;
    #[verifier::external_body] pub fn get_price(id: PriceIdentifier, to: &AccountId, d: u128, gas: u64) -> (r: Promise)
        ensures d == 0 ==> r@ == ask(*to, m_pyth_price(), PArgs::Raw { x: id.0@ }) { unimplemented!() }
    #[verifier::external_body] pub fn list_prices_no_older_than(ids: Vec<PriceIdentifier>, age: u64, to: &AccountId, d: u128, gas: u64) -> (r: Promise)
        ensures d == 0 ==> r@ == ask(*to, m_pyth_list(), PArgs::Other) { unimplemented!() }
}
pub mod price_oracle { pub use super::{ext_price_oracle, PriceData}; }
pub mod pyth_oracle { pub use super::{ext_pyth_oracle, Price, PriceIdentifier}; }
@file ref-exchange/src/utils.rs
@fn to_nano(ts) -> r props=P21
    ensures r == ns(ts as int),
@entry
    proof { pow10_9(); }
@fn PriceData::assert_valid(self, timestamp, maximum_recency_duration_sec, maximum_staleness_duration_sec) props=P21
    ensures timestamp == s_now() ==> pd_ok(*self, maximum_recency_duration_sec as int, maximum_staleness_duration_sec as int),
@fn Price::is_valid(self, timestamp, pyth_price_valid_duration_sec) -> r props=P21
    ensures timestamp == s_now() ==> r == py_ok(*self, pyth_price_valid_duration_sec as int),
@end
