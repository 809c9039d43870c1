//! Non-generic half of the harness, always compiled with optimisation.
pub mod model;
pub mod sexp;
pub mod report;
pub mod enumv;
pub mod stream;
pub mod mutate;
