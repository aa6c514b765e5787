pub mod base { include!("common/base.rs"); }
pub mod world { include!("fa/world.rs"); }
pub mod farm { include!("fa/farm.rs"); }
pub fn run(prop: &str, seed: u64, thorough: bool, only: Option<(String, u64)>, scale: f64, w: (u64, u64)) -> bool {
    base::run_tests(&[farm::TESTS], prop, seed, thorough, only, scale, w)
}
