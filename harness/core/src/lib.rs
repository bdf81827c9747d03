//! What the checks share and what knows nothing of the crate under test: the
//! engine and the reference model.
#![allow(clippy::all)]
pub mod engine;
pub mod model;
pub mod ckalloc;
