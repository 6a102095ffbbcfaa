
#[macro_use]
pub mod objs;
pub mod alloc;
pub mod bvops;
pub mod ch;
pub mod colossal;
pub mod data;
pub mod hot;
pub mod node;
pub mod disk;
pub mod sched;
pub mod shared;
pub mod sim;
pub mod props;
pub mod reent;
pub mod run;
pub mod widewm;
