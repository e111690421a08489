//! Monitors for crevice: a reference model of the GLSL layout rules, uniform
//! access to the crate's operations, and oracles over what they do.

#[macro_use]
pub mod src_impls;
pub mod erased;
pub mod model;
pub mod props;
pub mod registry;
pub mod report;
pub mod rng;
#[cfg(feature = "std")]
pub mod sink;

pub use erased::{erase140, erase430, Erased};
pub use model::{Desc, K, L};
pub use src_impls::{Cur, Src};
