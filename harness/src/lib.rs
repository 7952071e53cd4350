pub mod engine;
pub mod props;
pub mod refs;
