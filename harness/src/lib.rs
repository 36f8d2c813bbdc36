#[cfg(not(miri))]
#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

pub mod alloc;
#[macro_use]
pub mod case;
pub mod css;
pub mod doc;
pub mod drive;
pub mod gen;
pub mod machine;
pub mod props;
pub mod rng;
pub mod runner;
pub mod scene;
pub mod sheet;
pub mod snap;
