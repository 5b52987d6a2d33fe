//! Bounded exhaustive exploration of mdarray against reference models.

pub mod alloc;
pub mod engine;
pub mod model;
pub mod tracked;

#[global_allocator]
static GLOBAL: alloc::CheckedAlloc = alloc::CheckedAlloc;
pub mod types;
