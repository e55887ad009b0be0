#!/usr/bin/env python3
"""Writes src/lib.rs: archetypes of every number of components."""
out = ['''//! Archetypes of every number of components (written by gen.py).
#![cfg_attr(lsym, feature(core_intrinsics))]
#![allow(internal_features, unexpected_cfgs, dead_code, unused_macros, unused_imports, static_mut_refs, unused_variables, unused_mut)]
#[macro_use]
#[path = "../../common/rt.rs"]
pub mod rt;
use crate::rt::*;
use gecs::prelude::*;

entries! {
    c19_narrow => narrow::run();
    #[cfg(feature = "c32")]
    c19_wide => wide::run();
}

static mut LIVE: i64 = 0;
macro_rules! comps {
    ($($c:ident $k:expr, $t:ty;)*) => { $(
        pub struct $c(pub $t);
        impl $c {
            fn mk(v: u32) -> Self { unsafe { LIVE += 1 }; $c(v.wrapping_add($k) as $t) }
            fn is(&self, v: u32) -> bool { self.0 == v.wrapping_add($k) as $t }
            fn set(&mut self, v: u32) { self.0 = v.wrapping_add($k) as $t; }
        }
        impl Clone for $c { fn clone(&self) -> Self { unsafe { LIVE += 1 }; $c(self.0) } }
        impl Drop for $c { fn drop(&mut self) { unsafe { LIVE -= 1 }; } }
    )* };
}
comps! {
''']
for k in range(1, 33):
    out.append("    C%d %d, %s;\n" % (k, k, ("u32", "u8", "u64", "u16")[k % 4]))
out.append('''}
macro_rules! one {
    ($f:ident, $W:ident, $A:ident, $a:ident, $n:expr, $($c:ident $l:ident),*) => {
        #[inline(never)]
        fn $f() {
            let base = live_allocs();
            let v = sym32("v");
            let mut w = $W::new();
            let mk = |v: u32| ($($c::mk(v),)*);
            let e = [w.create::<$A>(mk(v)), w.$a.create(mk(v ^ 1)), w.create::<$A>(mk(v ^ 2)), w.create::<$A>(mk(v ^ 3))];
            check(unsafe { LIVE } == 4 * $n, "creation moves every component in once");
            let mut i = 0;
            while i < 4 {
                let x = v ^ i as u32;
                check(ecs_find!(w, e[i], |$($l: &$c),*| $($l.is(x))&&*) == Some(true), "ecs_find! binds each parameter to its own column");
                check(ecs_find_borrow!(w, e[i].into_any(), |$($l: &$c),*| $($l.is(x))&&*) == Some(true), "ecs_find_borrow! binds each parameter to its own column");
                match w.$a.view(e[i]) {
                    Some(mut s) => { $( check(s.component::<$c>().is(x), "a view reads its own column"); s.component_mut::<$c>().set(x); )* }
                    None => check(false, "a view of a live entity"),
                }
                i += 1;
            }
            // write them all, remove one, read the rest
            ecs_iter!(w, |h: &Entity<$A>, $($l: &mut $c),*| {
                let x = if *h == e[0] { 0 } else if *h == e[1] { 1 } else if *h == e[2] { 2 } else { 3 };
                $( $l.set(v.wrapping_add(x)); )*
            });
            match w.destroy(e[1]) {
                Some(d) => {
                    let x = v.wrapping_add(1);
                    $( check(d.get::<$c>().is(x), "destroy() returns every component"); )*
                }
                None => check(false, "destroy() of a live entity"),
            }
            check(unsafe { LIVE } == 3 * $n, "destroy() takes every component out once");
            let u = w.clone();
            check(unsafe { LIVE } == 6 * $n, "clone() clones every component once");
            drop(w);
            check(unsafe { LIVE } == 3 * $n, "dropping the original leaves the clone's components");
            let mut w = u;
            check(w.$a.len() == 3 && w.$a.resolve(e[1]).is_none(), "len() and stale handles");
            for i in [0usize, 2, 3] {
                let x = v.wrapping_add(i as u32);
                match w.$a.resolve(e[i]) {
                    Some(k) => {
                        check(w.$a.entities()[k] == e[i], "resolve() designates the entity");
                        $( check(w.$a.get_slice::<$c>()[k].is(x) && w.$a.borrow_slice_mut::<$c>()[k].is(x), "a slice holds its own column"); )*
                        let s = w.$a.get_all_slices_mut();
                        $( check(s.$l[k].is(x), "get_all_slices_mut() holds every column"); )*
                    }
                    None => check(false, "resolve() of a live entity"),
                }
                match w.$a.borrow(e[i]) {
                    Some(b) => { $( check(b.component::<$c>().is(x), "a borrow reads its own column"); )* }
                    None => check(false, "a borrow of a live entity"),
                }
            }
            let mut n = 0;
            for (h, $($l),*) in w.$a.iter_mut() {
                let i = if h == &e[0] { 0 } else if h == &e[2] { 2 } else { 3 };
                let x = v.wrapping_add(i);
                $( check($l.is(x), "iter_mut() presents every column"); )*
                n += 1;
            }
            check(n == 3, "iter_mut() presents every entity");
            drop(w);
            check(unsafe { LIVE } == 0, "dropping the world drops every component once");
            check(live_allocs() == base, "an allocation outlives the world");
        }
    };
}
''')


def world(name, lo, hi):
    s = "ecs_world! {\n    ecs_name!(%s);\n" % name
    for n in range(lo, hi + 1):
        s += "    ecs_archetype!(A%d, %s);\n" % (n, ", ".join("C%d" % (1 + (n * 7 + i) % 32) if n < 32 else "C%d" % (i + 1) for i in range(n)))
    s += "}\n"
    for n in range(lo, hi + 1):
        ks = [1 + (n * 7 + i) % 32 if n < 32 else i + 1 for i in range(n)]
        s += "one!(f%d, %s, A%d, a_%d, %d, %s);\n" % (n, name, n, n, n, ", ".join("C%d c_%d" % (k, k) for k in ks))
    return s


for name, lo, hi, cfg in (("narrow", 1, 16, ""), ("wide", 17, 32, '#[cfg(feature = "c32")]\n')):
    w = name.capitalize()
    body = world(w, lo, hi)
    out.append("\n%spub mod %s {\n    use super::*;\n%s\n    pub fn run() {\n        match pick(\"n\", %d) {\n%s        }\n        cover(\"end\");\n    }\n}\n" % (
        cfg, name, "".join("    " + l + "\n" if l else "\n" for l in body.split("\n")), hi - lo + 1,
        "".join("            %s => f%d(),\n" % ("_" if n == hi else n - lo, n) for n in range(lo, hi + 1))))
open(__file__.rsplit("/", 1)[0] + "/src/lib.rs", "w").write("".join(out))
