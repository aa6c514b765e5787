@include prelude.vc
@include lib.vc
@include chain.vc
@include feespec.vc
@include curve.vc
@include rspec.vc DIR=degen_swap P=DegenSwapPool R=degen
@import utils.vc u128_ratio
@include obase.vc
@file ref-exchange/src/degen_swap/mod.rs
@const TARGET_DECIMAL PRECISION
@file ref-exchange/src/degen_swap/price_oracle.rs#po
@file ref-exchange/src/degen_swap/pyth_oracle.rs#py
@file ref-exchange/src/degen_swap/degen.rs
@file ref-exchange/src/lib.rs
@const NO_DEPOSIT GAS_FOR_BASIC_OP
@const po_GAS_FOR_BATCH_UPDATE_DEGEN_TOKEN_BY_PRICE_ORACLE_OP po_GAS_FOR_BATCH_UPDATE_DEGEN_TOKEN_BY_PRICE_ORACLE_CALLBACK
@const py_GAS_FOR_BATCH_UPDATE_DEGEN_TOKEN_BY_PYTH_ORACLE_OP py_GAS_FOR_BATCH_UPDATE_DEGEN_TOKEN_BY_PYTH_ORACLE_CALLBACK
@type PriceInfo
@type PriceOracleConfig
@type PythOracleConfig
@type DegenOracleConfig
@type PriceOracleDegen
@type PythOracleDegen
@type Degen
@verus
pub struct VKey { pub k: u8 }
impl VToString for VKey { open spec fn vts(&self) -> Str { s_key(self.k) } #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
pub uninterp spec fn s_key(k: u8) -> Str;
pub const PRICE_ORACLE_CONFIG_KEY: VKey = VKey { k: 1 };
pub const PYTH_ORACLE_CONFIG_KEY: VKey = VKey { k: 2 };
/// the registered tokens and the oracle configurations when the call starts
pub uninterp spec fn s_degens() -> Map<AccountId, Degen>;
pub uninterp spec fn s_cfgs() -> Map<Str, DegenOracleConfig>;
pub open spec fn po_cfg() -> PriceOracleConfig { s_cfgs()[s_key(1)]->PriceOracle_0 }
pub open spec fn py_cfg() -> PythOracleConfig { s_cfgs()[s_key(2)]->PythOracle_0 }
pub open spec fn has_po() -> bool { s_cfgs().dom().contains(s_key(1)) && s_cfgs()[s_key(1)] is PriceOracle }
pub open spec fn has_py() -> bool { s_cfgs().dom().contains(s_key(2)) && s_cfgs()[s_key(2)] is PythOracle }
impl Degen {
    pub open spec fn info(self) -> Option<PriceInfo> { match self { Degen::PriceOracle(x) => x.price_info, Degen::PythOracle(x) => x.price_info } }
    pub open spec fn life(self) -> int { match self { Degen::PriceOracle(_) => po_cfg().expire_ts as int, Degen::PythOracle(_) => py_cfg().expire_ts as int } }
    /// there is a price and it was fetched within the configured age
    pub open spec fn fresh(self) -> bool { self.info() is Some && s_now() <= (self.info()->0).degen_updated_at + self.life() }
    /// same token, same oracle, same decimals or price identifier
    pub open spec fn same_cfg(self, n: Degen) -> bool {
        match (self, n) { (Degen::PriceOracle(x), Degen::PriceOracle(y)) => x.token_id == y.token_id && x.decimals == y.decimals, (Degen::PythOracle(x), Degen::PythOracle(y)) => x.price_identifier == y.price_identifier, _ => false }
    }
    pub open spec fn priced(self, p: int) -> bool { self.info() is Some && (self.info()->0).stored_degen == p && (self.info()->0).degen_updated_at == s_now() }
}
/// the in-memory copy of the configurations
pub struct VCfgs { pub x: u8 }
pub const DEGEN_ORACLE_CONFIGS: VCfgs = VCfgs { x: 0 };
impl VCfgs {
    #[verifier::external_body] pub fn lock(&self) -> (r: Option<VCfgs>) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Str) -> (r: Option<&DegenOracleConfig>) ensures r is Some <==> s_cfgs().dom().contains(*k), r is Some ==> *(r->0) == s_cfgs()[*k] { unimplemented!() }
}
/// fills the in-memory copies from storage on first use
#[verifier::external_body] pub fn init_degen_oracle_configs_cache() { unimplemented!() }
#[verifier::external_body] pub fn init_degens_cache() { unimplemented!() }
pub struct VDegens { pub x: u8 }
pub const DEGENS: VDegens = VDegens { x: 0 };
@fn global_get_degen_price_oracle_config() -> r props=P21
    ensures has_po(), r == po_cfg(),
@fn global_get_degen_pyth_oracle_config() -> r props=P21
    ensures has_py(), r == py_cfg(),
@fn PriceOracleDegen::is_price_valid(self) -> r props=P21
    ensures self.price_info is Some, has_po(), r == (s_now() <= (self.price_info->0).degen_updated_at + po_cfg().expire_ts),
@fn PriceOracleDegen::get_price_info(self) -> r props=P21
    ensures self.price_info == Some(*r),
@fn PythOracleDegen::is_price_valid(self) -> r props=P21
    ensures self.price_info is Some, has_py(), r == (s_now() <= (self.price_info->0).degen_updated_at + py_cfg().expire_ts),
@fn PythOracleDegen::get_price_info(self) -> r props=P21
    ensures self.price_info == Some(*r),
@fn Degen::is_price_valid(self) -> r props=P21
    ensures self.info() is Some, r == self.fresh(),
@fn Degen::get_price_info(self) -> r props=P21
    ensures self.info() == Some(*r),
@end
