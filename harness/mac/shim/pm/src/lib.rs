//! Stands for the compiler's proc_macro crate: token streams outside the compiler.
pub use proc_macro2::*;
