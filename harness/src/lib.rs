pub mod alloc;
#[macro_use]
pub mod engine;
pub mod checks;
pub mod cov;
pub mod dict;
pub mod gen;
pub mod model;
pub mod names;
pub mod rules;
pub mod wire;
