//! Whole client programs: worlds and queries of many shapes (worlds.rs, written by gen.py), run on
//! symbolic populations and keys and compared with the rules themselves.
#![cfg_attr(lsym, feature(core_intrinsics))]
#![allow(internal_features, unexpected_cfgs, dead_code, unused_macros, unused_imports, static_mut_refs, unused_variables, unused_mut, unused_assignments)]
#[macro_use]
#[path = "../../common/rt.rs"]
pub mod rt;
#[path = "../../core/src/gen.rs"]
pub mod gen;
pub mod model;
mod worlds;
#[cfg(not(lsym))]
pub use worlds::ENTRIES;
