//! Generators, reference models and checks for the properties of ruplicity.

#[macro_use]
pub mod util;
pub mod alloc;
pub mod clock;
pub mod dirfail;
pub mod driver;
pub mod expect;
pub mod dump;
pub mod guided;
pub mod hist;
pub mod mani;
pub mod mem;
pub mod names;
pub mod props;
pub mod tarw;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
