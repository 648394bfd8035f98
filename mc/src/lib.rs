pub mod alloc;
#[macro_use]
pub mod eng;
pub mod env;
pub mod model;
pub mod sut;
pub mod wire;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;
