//! Definitions of simulated CLIs, shared by the code generator (build time) and the
//! reference model (run time). Nothing here depends on palc.
pub mod codegen;
pub mod defgen;
pub mod enums;
pub mod help;
pub mod model;
pub mod rng;
pub mod spec;

/// Seed and size of the family of definitions to build.
pub fn defs_from_env() -> (u64, usize) {
    let get = |k: &str, d: u64| match std::env::var(k) {
        Ok(s) if !s.is_empty() => s.parse().expect("a number"),
        _ => d,
    };
    (get("PALCSIM_DEFS", 1), get("PALCSIM_COUNT", 120) as usize)
}
