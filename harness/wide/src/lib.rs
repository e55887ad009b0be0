//! Archetypes of every number of components (written by gen.py).
#![cfg_attr(lsym, feature(core_intrinsics))]
#![allow(internal_features, unexpected_cfgs, dead_code, unused_macros, unused_imports, static_mut_refs, unused_variables, unused_mut)]
#[macro_use]
#[path = "../../common/rt.rs"]
pub mod rt;
use crate::rt::*;
use gecs::prelude::*;

entries! {
    c19_narrow => narrow::run();
    #[cfg(feature = "c32")]
    c19_wide => wide::run();
}

static mut LIVE: i64 = 0;
macro_rules! comps {
    ($($c:ident $k:expr, $t:ty;)*) => { $(
        pub struct $c(pub $t);
        impl $c {
            fn mk(v: u32) -> Self { unsafe { LIVE += 1 }; $c(v.wrapping_add($k) as $t) }
            fn is(&self, v: u32) -> bool { self.0 == v.wrapping_add($k) as $t }
            fn set(&mut self, v: u32) { self.0 = v.wrapping_add($k) as $t; }
        }
        impl Clone for $c { fn clone(&self) -> Self { unsafe { LIVE += 1 }; $c(self.0) } }
        impl Drop for $c { fn drop(&mut self) { unsafe { LIVE -= 1 }; } }
    )* };
}
comps! {
    C1 1, u8;
    C2 2, u64;
    C3 3, u16;
    C4 4, u32;
    C5 5, u8;
    C6 6, u64;
    C7 7, u16;
    C8 8, u32;
    C9 9, u8;
    C10 10, u64;
    C11 11, u16;
    C12 12, u32;
    C13 13, u8;
    C14 14, u64;
    C15 15, u16;
    C16 16, u32;
    C17 17, u8;
    C18 18, u64;
    C19 19, u16;
    C20 20, u32;
    C21 21, u8;
    C22 22, u64;
    C23 23, u16;
    C24 24, u32;
    C25 25, u8;
    C26 26, u64;
    C27 27, u16;
    C28 28, u32;
    C29 29, u8;
    C30 30, u64;
    C31 31, u16;
    C32 32, u32;
}
macro_rules! one {
    ($f:ident, $W:ident, $A:ident, $a:ident, $n:expr, $($c:ident $l:ident),*) => {
        #[inline(never)]
        fn $f() {
            let base = live_allocs();
            let v = sym32("v");
            let mut w = $W::new();
            let mk = |v: u32| ($($c::mk(v),)*);
            let e = [w.create::<$A>(mk(v)), w.$a.create(mk(v ^ 1)), w.create::<$A>(mk(v ^ 2)), w.create::<$A>(mk(v ^ 3))];
            check(unsafe { LIVE } == 4 * $n, "creation moves every component in once");
            let mut i = 0;
            while i < 4 {
                let x = v ^ i as u32;
                check(ecs_find!(w, e[i], |$($l: &$c),*| $($l.is(x))&&*) == Some(true), "ecs_find! binds each parameter to its own column");
                check(ecs_find_borrow!(w, e[i].into_any(), |$($l: &$c),*| $($l.is(x))&&*) == Some(true), "ecs_find_borrow! binds each parameter to its own column");
                match w.$a.view(e[i]) {
                    Some(mut s) => { $( check(s.component::<$c>().is(x), "a view reads its own column"); s.component_mut::<$c>().set(x); )* }
                    None => check(false, "a view of a live entity"),
                }
                i += 1;
            }
            // write them all, remove one, read the rest
            ecs_iter!(w, |h: &Entity<$A>, $($l: &mut $c),*| {
                let x = if *h == e[0] { 0 } else if *h == e[1] { 1 } else if *h == e[2] { 2 } else { 3 };
                $( $l.set(v.wrapping_add(x)); )*
            });
            match w.destroy(e[1]) {
                Some(d) => {
                    let x = v.wrapping_add(1);
                    $( check(d.get::<$c>().is(x), "destroy() returns every component"); )*
                }
                None => check(false, "destroy() of a live entity"),
            }
            check(unsafe { LIVE } == 3 * $n, "destroy() takes every component out once");
            let u = w.clone();
            check(unsafe { LIVE } == 6 * $n, "clone() clones every component once");
            drop(w);
            check(unsafe { LIVE } == 3 * $n, "dropping the original leaves the clone's components");
            let mut w = u;
            check(w.$a.len() == 3 && w.$a.resolve(e[1]).is_none(), "len() and stale handles");
            for i in [0usize, 2, 3] {
                let x = v.wrapping_add(i as u32);
                match w.$a.resolve(e[i]) {
                    Some(k) => {
                        check(w.$a.entities()[k] == e[i], "resolve() designates the entity");
                        $( check(w.$a.get_slice::<$c>()[k].is(x) && w.$a.borrow_slice_mut::<$c>()[k].is(x), "a slice holds its own column"); )*
                        let s = w.$a.get_all_slices_mut();
                        $( check(s.$l[k].is(x), "get_all_slices_mut() holds every column"); )*
                    }
                    None => check(false, "resolve() of a live entity"),
                }
                match w.$a.borrow(e[i]) {
                    Some(b) => { $( check(b.component::<$c>().is(x), "a borrow reads its own column"); )* }
                    None => check(false, "a borrow of a live entity"),
                }
            }
            let mut n = 0;
            for (h, $($l),*) in w.$a.iter_mut() {
                let i = if h == &e[0] { 0 } else if h == &e[2] { 2 } else { 3 };
                let x = v.wrapping_add(i);
                $( check($l.is(x), "iter_mut() presents every column"); )*
                n += 1;
            }
            check(n == 3, "iter_mut() presents every entity");
            drop(w);
            check(unsafe { LIVE } == 0, "dropping the world drops every component once");
            check(live_allocs() == base, "an allocation outlives the world");
        }
    };
}

pub mod narrow {
    use super::*;
    ecs_world! {
        ecs_name!(Narrow);
        ecs_archetype!(A1, C8);
        ecs_archetype!(A2, C15, C16);
        ecs_archetype!(A3, C22, C23, C24);
        ecs_archetype!(A4, C29, C30, C31, C32);
        ecs_archetype!(A5, C4, C5, C6, C7, C8);
        ecs_archetype!(A6, C11, C12, C13, C14, C15, C16);
        ecs_archetype!(A7, C18, C19, C20, C21, C22, C23, C24);
        ecs_archetype!(A8, C25, C26, C27, C28, C29, C30, C31, C32);
        ecs_archetype!(A9, C32, C1, C2, C3, C4, C5, C6, C7, C8);
        ecs_archetype!(A10, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16);
        ecs_archetype!(A11, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24);
        ecs_archetype!(A12, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32);
        ecs_archetype!(A13, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8);
        ecs_archetype!(A14, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16);
        ecs_archetype!(A15, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24);
        ecs_archetype!(A16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32);
    }
    one!(f1, Narrow, A1, a_1, 1, C8 c_8);
    one!(f2, Narrow, A2, a_2, 2, C15 c_15, C16 c_16);
    one!(f3, Narrow, A3, a_3, 3, C22 c_22, C23 c_23, C24 c_24);
    one!(f4, Narrow, A4, a_4, 4, C29 c_29, C30 c_30, C31 c_31, C32 c_32);
    one!(f5, Narrow, A5, a_5, 5, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8);
    one!(f6, Narrow, A6, a_6, 6, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16);
    one!(f7, Narrow, A7, a_7, 7, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24);
    one!(f8, Narrow, A8, a_8, 8, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32);
    one!(f9, Narrow, A9, a_9, 9, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8);
    one!(f10, Narrow, A10, a_10, 10, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16);
    one!(f11, Narrow, A11, a_11, 11, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24);
    one!(f12, Narrow, A12, a_12, 12, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32);
    one!(f13, Narrow, A13, a_13, 13, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8);
    one!(f14, Narrow, A14, a_14, 14, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16);
    one!(f15, Narrow, A15, a_15, 15, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24);
    one!(f16, Narrow, A16, a_16, 16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32);


    pub fn run() {
        match pick("n", 16) {
            0 => f1(),
            1 => f2(),
            2 => f3(),
            3 => f4(),
            4 => f5(),
            5 => f6(),
            6 => f7(),
            7 => f8(),
            8 => f9(),
            9 => f10(),
            10 => f11(),
            11 => f12(),
            12 => f13(),
            13 => f14(),
            14 => f15(),
            _ => f16(),
        }
        cover("end");
    }
}

#[cfg(feature = "c32")]
pub mod wide {
    use super::*;
    ecs_world! {
        ecs_name!(Wide);
        ecs_archetype!(A17, C24, C25, C26, C27, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8);
        ecs_archetype!(A18, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16);
        ecs_archetype!(A19, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24);
        ecs_archetype!(A20, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32);
        ecs_archetype!(A21, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8);
        ecs_archetype!(A22, C27, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16);
        ecs_archetype!(A23, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24);
        ecs_archetype!(A24, C9, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32);
        ecs_archetype!(A25, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8);
        ecs_archetype!(A26, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16);
        ecs_archetype!(A27, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24);
        ecs_archetype!(A28, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32);
        ecs_archetype!(A29, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8);
        ecs_archetype!(A30, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16);
        ecs_archetype!(A31, C26, C27, C28, C29, C30, C31, C32, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24);
        ecs_archetype!(A32, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C26, C27, C28, C29, C30, C31, C32);
    }
    one!(f17, Wide, A17, a_17, 17, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8);
    one!(f18, Wide, A18, a_18, 18, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16);
    one!(f19, Wide, A19, a_19, 19, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24);
    one!(f20, Wide, A20, a_20, 20, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32);
    one!(f21, Wide, A21, a_21, 21, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8);
    one!(f22, Wide, A22, a_22, 22, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16);
    one!(f23, Wide, A23, a_23, 23, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24);
    one!(f24, Wide, A24, a_24, 24, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32);
    one!(f25, Wide, A25, a_25, 25, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8);
    one!(f26, Wide, A26, a_26, 26, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16);
    one!(f27, Wide, A27, a_27, 27, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24);
    one!(f28, Wide, A28, a_28, 28, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32);
    one!(f29, Wide, A29, a_29, 29, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8);
    one!(f30, Wide, A30, a_30, 30, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16);
    one!(f31, Wide, A31, a_31, 31, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24);
    one!(f32, Wide, A32, a_32, 32, C1 c_1, C2 c_2, C3 c_3, C4 c_4, C5 c_5, C6 c_6, C7 c_7, C8 c_8, C9 c_9, C10 c_10, C11 c_11, C12 c_12, C13 c_13, C14 c_14, C15 c_15, C16 c_16, C17 c_17, C18 c_18, C19 c_19, C20 c_20, C21 c_21, C22 c_22, C23 c_23, C24 c_24, C25 c_25, C26 c_26, C27 c_27, C28 c_28, C29 c_29, C30 c_30, C31 c_31, C32 c_32);


    pub fn run() {
        match pick("n", 16) {
            0 => f17(),
            1 => f18(),
            2 => f19(),
            3 => f20(),
            4 => f21(),
            5 => f22(),
            6 => f23(),
            7 => f24(),
            8 => f25(),
            9 => f26(),
            10 => f27(),
            11 => f28(),
            12 => f29(),
            13 => f30(),
            14 => f31(),
            _ => f32(),
        }
        cover("end");
    }
}
