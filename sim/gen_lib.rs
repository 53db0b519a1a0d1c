//! Simulated CLIs of one shard, generated from their definitions by the build script.
include!(concat!(env!("OUT_DIR"), "/clis.rs"));
