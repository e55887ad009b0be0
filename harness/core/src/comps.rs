//! Component types. `D` is tracked: every value has an identity whose life cycle is recorded, so
//! that a double drop, a read of a dropped value, a bit-copy or a leak is an assertion failure.
use crate::rt::*;

pub trait Val: Sized {
    fn mk(v: u32) -> Self;
    fn get(&self) -> u32;
    fn set(&mut self, v: u32);
    /// What a read of a component holding `v` must return.
    fn norm(v: u32) -> u32 {
        v
    }
}

macro_rules! plain {
    ($(#[$m:meta])* $n:ident, $t:ty) => {
        $(#[$m])*
        #[derive(Clone)]
        pub struct $n(pub $t);
        impl Val for $n {
            fn mk(v: u32) -> Self { $n(v as $t) }
            fn get(&self) -> u32 { self.0 as u32 }
            fn set(&mut self, v: u32) { self.0 = v as $t; }
            fn norm(v: u32) -> u32 { v as $t as u32 }
        }
    };
}
plain!(P, u32);
plain!(Q, u32);
plain!(R, u32);
plain!(#[repr(align(32))] L, u32);
plain!(S8, u8);
plain!(S64, u64);

/// Zero-sized, but with observable clones and drops.
pub struct Z;
static mut Z_LIVE: i32 = 0;
pub fn z_live() -> i32 {
    unsafe { Z_LIVE }
}
impl Val for Z {
    fn mk(_: u32) -> Self {
        unsafe { Z_LIVE += 1 };
        Z
    }
    fn get(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
    fn norm(_: u32) -> u32 {
        0
    }
}
impl Clone for Z {
    fn clone(&self) -> Z {
        Z::mk(0)
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        unsafe {
            Z_LIVE -= 1;
            check(Z_LIVE >= 0, "a zero-sized component is dropped more often than created");
        }
    }
}

// ---- tracked components -------------------------------------------------------------------

const NREG: usize = 512;
const DEAD: u8 = 0;
const LIVE: u8 = 1;
const DROPPED: u8 = 2;
static mut REG: [u8; NREG] = [0; NREG];
static mut CLONED: [u8; NREG] = [0; NREG];
static mut NEXT: usize = 0;
static mut LIVE_N: usize = 0;
/// 0: no injection; k: the k-th call from now on panics.
pub static mut PANIC_CLONE: u32 = 0;
pub static mut PANIC_DROP: u32 = 0;
/// Set when an injected panic was raised.
pub static mut PANICKED: bool = false;

pub fn d_live() -> usize {
    unsafe { LIVE_N }
}
pub fn d_next() -> usize {
    unsafe { NEXT }
}
pub fn d_state(id: usize) -> u8 {
    unsafe { REG[id] }
}
pub fn d_is_live(id: usize) -> bool {
    unsafe { REG[id] == LIVE }
}
pub fn d_is_dropped(id: usize) -> bool {
    unsafe { REG[id] == DROPPED }
}
pub fn d_clones(id: usize) -> u8 {
    unsafe { CLONED[id] }
}
pub fn d_reset_clones() {
    unsafe {
        let mut i = 0;
        while i < NREG {
            CLONED[i] = 0;
            i += 1;
        }
    }
}
pub fn inject_clone(k: u32) {
    unsafe { PANIC_CLONE = k }
}
pub fn inject_drop(k: u32) {
    unsafe { PANIC_DROP = k }
}
pub fn panicked() -> bool {
    unsafe { PANICKED }
}

macro_rules! tracked {
    ($n:ident) => {
        pub struct $n {
            pub id: u32,
            pub v: u32,
        }
        impl Val for $n {
            fn mk(v: u32) -> Self {
                unsafe {
                    let id = NEXT;
                    NEXT += 1;
                    REG[id] = LIVE;
                    LIVE_N += 1;
                    $n { id: id as u32, v }
                }
            }
            fn get(&self) -> u32 {
                check(d_is_live(self.id as usize), "a component is readable after it was dropped or handed out");
                self.v
            }
            fn set(&mut self, v: u32) {
                check(d_is_live(self.id as usize), "a component is writable after it was dropped or handed out");
                self.v = v;
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                check(d_is_live(self.id as usize), "a dropped component is cloned");
                unsafe {
                    if PANIC_CLONE > 0 {
                        PANIC_CLONE -= 1;
                        if PANIC_CLONE == 0 {
                            PANICKED = true;
                            panic!("clone");
                        }
                    }
                    CLONED[self.id as usize] += 1;
                }
                Self::mk(self.v)
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                unsafe {
                    check(REG[self.id as usize] == LIVE, "a component is dropped twice");
                    REG[self.id as usize] = DROPPED;
                    LIVE_N -= 1;
                    if PANIC_DROP > 0 {
                        PANIC_DROP -= 1;
                        if PANIC_DROP == 0 {
                            PANICKED = true;
                            panic!("drop");
                        }
                    }
                }
            }
        }
    };
}
tracked!(D);
tracked!(E);

/// Tracked and heap-backed.
pub struct X(pub Box<u32>);
impl Val for X {
    fn mk(v: u32) -> Self {
        X(Box::new(v))
    }
    fn get(&self) -> u32 {
        *self.0
    }
    fn set(&mut self, v: u32) {
        *self.0 = v
    }
}
impl Clone for X {
    fn clone(&self) -> Self {
        X(Box::new(*self.0))
    }
}
