pub use mc_core::{enumv, model, mutate, report, sexp, stream};
pub mod dynv;
pub mod drive;
pub mod conform;
pub use deku;
pub mod prim;
pub mod direct;
pub mod size;
