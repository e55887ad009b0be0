//! C18: client programs at the edge of what the types admit (cases_*.rs, written by gen.py), and the
//! auto-traits of everything the API hands out.
#![cfg_attr(lsym, feature(core_intrinsics))]
#![allow(internal_features, unexpected_cfgs, dead_code, unused, warnings)]
#[macro_use]
#[path = "../../common/rt.rs"]
pub mod rt;
#[forbid(unsafe_code)]
#[cfg_attr(feature = "events", path = "cases_events.rs")]
#[cfg_attr(not(feature = "events"), path = "cases_plain.rs")]
mod cases;
#[forbid(unsafe_code)]
mod traits;

entries! {
    c18_hold => cases::twins_hold();
    c18_solo => cases::twins_solo();
    #[cfg(feature = "events")]
    c18_event => cases::twins_event();
    c18_unsound => cases::unsound();
    c18_traits => traits::all();
}
