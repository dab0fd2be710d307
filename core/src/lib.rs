//! Shared parts of the runtime monitors for nt-hive: hive builder, reference reader, instruments.
pub mod build;
pub mod cases;
pub mod dict;
pub mod exercise;
pub mod fold;
pub mod model;
pub mod mslice;
pub mod mutate;
pub mod obs;
pub mod oracle;
pub mod query;
pub mod rng;
pub mod walk;
