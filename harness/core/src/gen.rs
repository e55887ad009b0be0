//! Supplies the versions that slots and archetypes start with (only under cfg(gecs_verif)).
use crate::rt::*;

pub static mut SLOT_MODE: u8 = 0;
pub static mut ARCH_MODE: u8 = 0;

#[cfg(gecs_verif)]
#[no_mangle]
fn gecs_verif_slot_version_start() -> u32 {
    start(unsafe { SLOT_MODE }, "slotgen")
}
#[cfg(gecs_verif)]
#[no_mangle]
fn gecs_verif_archetype_version_start() -> u32 {
    start(unsafe { ARCH_MODE }, "archgen")
}
#[cfg(gecs_verif)]
fn start(mode: u8, tag: &'static str) -> u32 {
    if mode == 0 {
        return 0;
    }
    if mode == 3 {
        return unsafe { if tag.len() == 7 && tag.as_bytes()[0] == b's' { FIX_SLOT } else { FIX_ARCH } };
    }
    let g = sym32(tag);
    assume(g != 0);
    if mode == 2 {
        assume(g <= u32::MAX - 16); // histories of at most 16 removals stay below the overflow
    }
    g
}
/// As `with_sym`, excluding initial versions so high that the history could overflow them.
pub fn with_sym_low<R>(slots: bool, archs: bool, f: impl FnOnce() -> R) -> R {
    unsafe {
        SLOT_MODE = slots as u8 * 2;
        ARCH_MODE = archs as u8 * 2;
    }
    let r = f();
    unsafe {
        SLOT_MODE = 0;
        ARCH_MODE = 0;
    }
    r
}
/// Runs `f` (a construction) with symbolic initial versions: every value in 1..=u32::MAX stands
/// for a storage whose positions have been through that many create/destroy cycles.
pub fn with_sym<R>(slots: bool, archs: bool, f: impl FnOnce() -> R) -> R {
    unsafe {
        SLOT_MODE = slots as u8;
        ARCH_MODE = archs as u8;
    }
    let r = f();
    unsafe {
        SLOT_MODE = 0;
        ARCH_MODE = 0;
    }
    r
}

pub static mut FIX_SLOT: u32 = 0;
pub static mut FIX_ARCH: u32 = 0;
/// Runs `f` (a construction) with these initial versions.
pub fn with_fixed<R>(slot: u32, arch: u32, f: impl FnOnce() -> R) -> R {
    unsafe {
        FIX_SLOT = slot;
        FIX_ARCH = arch;
        SLOT_MODE = 3;
        ARCH_MODE = 3;
    }
    let r = f();
    unsafe {
        SLOT_MODE = 0;
        ARCH_MODE = 0;
    }
    r
}
