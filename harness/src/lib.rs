#![allow(clippy::all)]
pub use vhcore::{ckalloc, engine, ensure, model};
pub mod subject;
pub mod codec;
#[cfg(all(feature = "registry", feature = "full"))]
pub mod registry;
#[cfg(all(feature = "registry", feature = "full"))]
pub mod user;
#[cfg(all(feature = "derived", feature = "full"))]
pub mod derived_fixed;
pub mod streams;
#[cfg(feature = "oct-alloc")]
pub mod slots;
pub mod featreg;
#[cfg(feature = "full")]
pub mod sslice;
#[cfg(feature = "full")]
pub mod ledger;
#[cfg(feature = "full")]
pub mod sstr;
#[cfg(feature = "full")]
pub mod cmp;
#[cfg(feature = "full")]
pub mod cells;
#[cfg(all(feature = "full", feature = "dense"))]
pub mod dense;
#[cfg(feature = "full")]
pub mod small;
#[cfg(feature = "full")]
pub mod errors;
