pub mod gram;
pub mod json;
pub mod model;
pub mod rng;
pub mod sem;
pub mod tree;
pub use simlx as lx;
