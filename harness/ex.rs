// included into ref-exchange as module ref_verif
pub mod base { include!("common/base.rs"); }
pub mod world { include!("ex/world.rs"); }
pub mod simple { include!("ex/simple.rs"); }
pub mod stable { include!("ex/stable.rs"); }
pub mod ledger { include!("ex/ledger.rs"); }
pub mod admin { include!("ex/admin.rs"); }
pub fn run(prop: &str, seed: u64, thorough: bool, only: Option<(String, u64)>, scale: f64, w: (u64, u64)) -> bool {
    base::run_tests(&[simple::TESTS, stable::TESTS, ledger::TESTS, admin::TESTS], prop, seed, thorough, only, scale, w)
}
