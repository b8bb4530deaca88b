pub mod alloc;
pub mod custom;
pub mod engine;
pub mod idl;
pub mod io;
pub mod mem;
pub mod parquet_table;
pub mod props;
pub mod runner;
pub mod types;
pub mod value;
pub mod wire;
