pub mod alloc;
pub mod engine;
pub mod guided;
pub mod known;
pub mod runner;
pub mod suites;
