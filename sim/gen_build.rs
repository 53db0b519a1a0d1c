fn main() {
    println!("cargo:rerun-if-env-changed=PALCSIM_DEFS");
    println!("cargo:rerun-if-env-changed=PALCSIM_COUNT");
    // Definitions to leave out, by index.
    println!("cargo:rerun-if-env-changed=PALCSIM_SKIP");
    let skip = std::env::var("PALCSIM_SKIP").unwrap_or_default();
    let skip: Vec<usize> = skip.split(',').filter_map(|s| s.parse().ok()).collect();
    let (seed, count) = clispec::defs_from_env();
    let shards = 6;
    let me: usize = std::env::var("CARGO_PKG_NAME").unwrap()[3..].parse().unwrap();
    let clis: Vec<_> = (0..count)
        .filter(|i| i % shards == me && !skip.contains(i))
        .map(|i| (i, clispec::defgen::cli(seed, i)))
        .collect();
    let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").unwrap()).join("clis.rs");
    std::fs::write(out, clispec::codegen::generate(&clis)).unwrap();
}
