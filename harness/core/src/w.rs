//! The world of the history harnesses and, per archetype, every access path of the public API.
pub use crate::comps::*;
use crate::rt::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(W);
    #[archetype_id(3)]
    ecs_archetype!(ArchA, P, D, Q);
    ecs_archetype!(ArchB, L, #[component_id(7)] P, Z);
    #[archetype_id(200)]
    ecs_archetype!(ArchC, Q);
}

pub const NCOL: usize = 3;
pub type Vals = [u32; NCOL];

pub fn same(a: &Vals, b: &Vals) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < NCOL {
        ok &= a[i] == b[i];
        i += 1;
    }
    ok
}

/// Number of read paths that do not consume the entity.
pub const NREAD: usize = 21;
/// Number of write paths.
pub const NWRITE: usize = 12;

macro_rules! arch {
    ($m:ident, $A:ident, $f:ident, $cap:ident, [$($c:ident : $C:ident = $i:tt),*]) => {
        pub mod $m {
            use super::*;
            pub type A = $A;
            pub const COLS: &[usize] = &[$($i),*];

            fn comps(v: Vals) -> ($($C,)*) {
                ($(<$C as Val>::mk(v[$i]),)*)
            }
            pub fn norm(v: Vals) -> Vals {
                let mut r = [0; NCOL];
                $( r[$i] = <$C as Val>::norm(v[$i]); )*
                r
            }
            pub fn vals(c: &<$A as Archetype>::Components) -> Vals {
                let mut r = [0; NCOL];
                $( r[$i] = c.$c.get(); )*
                r
            }
            pub fn create(w: &mut W, v: Vals) -> Entity<$A> {
                w.create::<$A>(comps(v))
            }
            pub fn create_arch(w: &mut W, v: Vals) -> Entity<$A> {
                w.$f.create(comps(v))
            }
            pub fn create_within(w: &mut W, v: Vals) -> Result<Entity<$A>, Vals> {
                match w.create_within_capacity::<$A>(comps(v)) {
                    Ok(e) => Ok(e),
                    Err(c) => Err(vals(&c)),
                }
            }
            pub fn create_within_arch(w: &mut W, v: Vals) -> Result<Entity<$A>, Vals> {
                match w.$f.create_within_capacity(comps(v)) {
                    Ok(e) => Ok(e),
                    Err(c) => Err(vals(&c)),
                }
            }
            pub fn len(w: &W) -> usize { w.$f.len() }
            pub fn capacity(w: &W) -> usize { w.archetype::<$A>().capacity() }

            /// Destroys through key kind `k`; the values handed back, where the path returns them.
            pub const NDESTROY: usize = 8;
            pub fn destroy(w: &mut W, e: Entity<$A>, k: usize) -> Option<Option<Vals>> {
                match k {
                    0 => w.destroy(e).map(|c| Some(vals(&c))),
                    1 => w.destroy(e.into_any()).map(|_| None),
                    2 => { let d = w.to_direct(e)?; w.destroy(d).map(|c| Some(vals(&c))) }
                    3 => { let d = w.to_direct(e.into_any())?; w.destroy(d).map(|_| None) }
                    4 => w.$f.destroy(e).map(|c| Some(vals(&c))),
                    5 => w.$f.destroy(e.into_any()).map(|c| Some(vals(&c))),
                    6 => { let d = w.$f.to_direct(e)?; w.$f.destroy(d).map(|c| Some(vals(&c))) }
                    _ => { let d = w.$f.to_direct(e.into_any())?; w.$f.destroy(d).map(|c| Some(vals(&c))) }
                }
            }
            pub fn destroy_direct(w: &mut W, d: EntityDirect<$A>, any: bool) -> bool {
                if any { w.destroy(d.into_any()).is_some() } else { w.destroy(d).is_some() }
            }

            /// Reads all columns of `e` through access path `p`.
            pub fn read(w: &mut W, e: Entity<$A>, p: usize) -> Option<Vals> {
                let any = e.into_any();
                let id = "the access path designates another entity";
                match p {
                    0 => ecs_find!(w, e, |x: &Entity<$A>, $($c: &$C),*| {
                        check(*x == e, id);
                        let mut r = [0; NCOL]; $( r[$i] = $c.get(); )* r
                    }),
                    1 => ecs_find!(w, any, |x: &EntityAny, y: &Entity<$A>, $($c: &mut $C),*| {
                        check(*x == any && *y == e, id);
                        let mut r = [0; NCOL]; $( r[$i] = $c.get(); )* r
                    }),
                    2 => {
                        let d = w.to_direct(e)?;
                        ecs_find!(w, d, |x: &Entity<$A>, y: &EntityDirect<$A>, $($c: &$C),*| {
                            check(*x == e && *y == d, id);
                            let mut r = [0; NCOL]; $( r[$i] = $c.get(); )* r
                        })
                    }
                    3 => {
                        let d = w.to_direct(any)?;
                        ecs_find!(w, d, |x: &EntityDirectAny, z: &Entity<_>, y: &Entity<$A>, $($c: &$C),*| {
                            check(*x == d && *z == e && *y == e, id);
                            let mut r = [0; NCOL]; $( r[$i] = $c.get(); )* r
                        })
                    }
                    4 => ecs_find_borrow!(w, e, |x: &Entity<$A>, $($c: &$C),*| {
                        check(*x == e, id);
                        let mut r = [0; NCOL]; $( r[$i] = $c.get(); )* r
                    }),
                    5 => ecs_find_borrow!(w, any, |x: &EntityAny, y: &Entity<$A>, $($c: &mut $C),*| {
                        check(*x == any && *y == e, id);
                        let mut r = [0; NCOL]; $( r[$i] = $c.get(); )* r
                    }),
                    6 => {
                        let d = w.to_direct(any)?;
                        ecs_find_borrow!(w, d, |x: &EntityDirect<_>, y: &Entity<$A>, $($c: &$C),*| {
                            check(x.into_any() == d && *y == e, id);
                            let mut r = [0; NCOL]; $( r[$i] = $c.get(); )* r
                        })
                    }
                    7 => w.$f.view(e).map(|v| {
                        check(*v.entity == e, id);
                        let mut r = [0; NCOL]; $( r[$i] = v.$c.get(); )* r
                    }),
                    8 => w.$f.view(any).map(|mut v| {
                        check(*v.entity == e, id);
                        let mut r = [0; NCOL];
                        $( r[$i] = v.component::<$C>().get(); check(v.component_mut::<$C>().get() == r[$i], "component_mut differs from component"); )* r
                    }),
                    9 => {
                        let d = w.to_direct(e)?;
                        w.view::<$A, _>(d).map(|v| {
                            check(*v.entity == e, id);
                            let mut r = [0; NCOL]; $( r[$i] = v.component::<$C>().get(); )* r
                        })
                    }
                    10 => w.$f.borrow(e).map(|v| {
                        check(*v.entity() == e, id);
                        let mut r = [0; NCOL]; $( r[$i] = v.component::<$C>().get(); )* r
                    }),
                    11 => w.borrow::<$A, _>(e).map(|v| {
                        check(*v.entity() == e, id);
                        let mut r = [0; NCOL]; $( r[$i] = v.component_mut::<$C>().get(); )* r
                    }),
                    12 => {
                        let d = w.$f.to_direct(any)?;
                        w.$f.borrow(d).map(|v| {
                            check(*v.entity() == e, id);
                            let mut r = [0; NCOL]; $( r[$i] = v.component::<$C>().get(); )* r
                        })
                    }
                    13 => {
                        let ix = w.$f.resolve(e)?;
                        check(w.$f.entities()[ix] == e, id);
                        let mut r = [0; NCOL];
                        $( r[$i] = w.$f.get_slice::<$C>()[ix].get(); )*
                        Some(r)
                    }
                    14 => {
                        let ix = w.$f.resolve(any)?;
                        let mut r = [0; NCOL];
                        $( r[$i] = w.$f.borrow_slice::<$C>()[ix].get();
                           check(w.$f.borrow_slice_mut::<$C>()[ix].get() == r[$i], "borrow_slice_mut differs from borrow_slice");
                           check(w.$f.get_slice_mut::<$C>()[ix].get() == r[$i], "get_slice_mut differs from borrow_slice"); )*
                        Some(r)
                    }
                    15 => {
                        let ix = w.$f.resolve(e)?;
                        let s = w.$f.get_all_slices_mut();
                        check(s.entity[ix] == e, id);
                        let mut r = [0; NCOL];
                        $( check(s.$c.len() == s.entity.len(), "slices of different lengths"); r[$i] = s.$c[ix].get(); )*
                        Some(r)
                    }
                    16 => {
                        let mut out = None;
                        for (x, $($c),*) in w.$f.iter() {
                            if *x == e {
                                check(out.is_none(), "iter() presents an entity twice");
                                let mut r = [0; NCOL]; $( r[$i] = $c.get(); )*
                                out = Some(r);
                            }
                        }
                        out
                    }
                    17 => {
                        let mut out = None;
                        for (x, $($c),*) in w.$f.iter_mut() {
                            if *x == e {
                                check(out.is_none(), "iter_mut() presents an entity twice");
                                let mut r = [0; NCOL]; $( r[$i] = $c.get(); )*
                                out = Some(r);
                            }
                        }
                        out
                    }
                    18 => {
                        let mut out = None;
                        ecs_iter!(w, |x: &Entity<$A>, $($c: &$C),*| {
                            if *x == e {
                                check(out.is_none(), "ecs_iter! presents an entity twice");
                                let mut r = [0; NCOL]; $( r[$i] = $c.get(); )*
                                out = Some(r);
                            }
                        });
                        out
                    }
                    19 => {
                        let mut out = None;
                        ecs_iter_borrow!(w, |x: &EntityAny, $($c: &mut $C),*| {
                            if *x == any {
                                check(out.is_none(), "ecs_iter_borrow! presents an entity twice");
                                let mut r = [0; NCOL]; $( r[$i] = $c.get(); )*
                                out = Some(r);
                            }
                        });
                        out
                    }
                    _ => {
                        let mut out = None;
                        ecs_iter_destroy!(w, |x: &EntityAny, $($c: &mut $C),*| {
                            if *x == any {
                                check(out.is_none(), "ecs_iter_destroy! presents an entity twice");
                                let mut r = [0; NCOL]; $( r[$i] = $c.get(); )*
                                out = Some(r);
                            }
                        });
                        out
                    }
                }
            }

            /// Writes all columns of `e` through access path `p`.
            pub fn write(w: &mut W, e: Entity<$A>, p: usize, v: Vals) -> bool {
                let any = e.into_any();
                match p {
                    0 => ecs_find!(w, e, |$($c: &mut $C),*| { $( $c.set(v[$i]); )* }).is_some(),
                    1 => ecs_find!(w, any, |_x: &Entity<$A>, $($c: &mut $C),*| { $( $c.set(v[$i]); )* }).is_some(),
                    2 => ecs_find_borrow!(w, any, |_x: &Entity<$A>, $($c: &mut $C),*| { $( $c.set(v[$i]); )* }).is_some(),
                    3 => match w.$f.view(any) {
                        Some(view) => { $( view.$c.set(v[$i]); )* true }
                        None => false,
                    },
                    4 => match w.view::<$A, _>(e) {
                        Some(mut view) => { $( view.component_mut::<$C>().set(v[$i]); )* true }
                        None => false,
                    },
                    5 => match w.$f.borrow(e) {
                        Some(b) => { $( b.component_mut::<$C>().set(v[$i]); )* true }
                        None => false,
                    },
                    6 => match w.$f.resolve(e) {
                        Some(ix) => { $( w.$f.get_slice_mut::<$C>()[ix].set(v[$i]); )* true }
                        None => false,
                    },
                    7 => match w.$f.resolve(any) {
                        Some(ix) => { $( w.$f.borrow_slice_mut::<$C>()[ix].set(v[$i]); )* true }
                        None => false,
                    },
                    8 => match w.$f.resolve(e) {
                        Some(ix) => { let s = w.$f.get_all_slices_mut(); $( s.$c[ix].set(v[$i]); )* true }
                        None => false,
                    },
                    9 => {
                        let mut hit = false;
                        for (x, $($c),*) in w.$f.iter_mut() {
                            if *x == e { hit = true; $( $c.set(v[$i]); )* }
                        }
                        hit
                    }
                    10 => {
                        let mut hit = false;
                        ecs_iter!(w, |x: &Entity<$A>, $($c: &mut $C),*| {
                            if *x == e { hit = true; $( $c.set(v[$i]); )* }
                        });
                        hit
                    }
                    _ => {
                        let mut hit = false;
                        ecs_iter_borrow!(w, |x: &Entity<$A>, $($c: &mut $C),*| {
                            if *x == e { hit = true; $( $c.set(v[$i]); )* }
                        });
                        hit
                    }
                }
            }

            /// Every lookup path agrees on whether `e` is alive.
            pub fn lookups(w: &mut W, e: Entity<$A>, alive: bool) {
                let any = e.into_any();
                check(w.contains(e) == alive, "World::contains(typed) <=> alive");
                check(w.contains(any) == alive, "World::contains(any) <=> alive");
                check(w.$f.contains(e) == alive, "Archetype::contains(typed) <=> alive");
                check(w.$f.contains(any) == alive, "Archetype::contains(any) <=> alive");
                let ix = w.$f.resolve(e);
                check(ix.is_some() == alive, "Archetype::resolve(typed) <=> alive");
                check(w.$f.resolve(any) == ix, "Archetype::resolve(any) == resolve(typed)");
                if let Some(ix) = ix {
                    check(ix < w.$f.len(), "resolve() < len()");
                    check(w.$f.entities()[ix] == e, "entities()[resolve(e)] == e");
                }
                let d = w.to_direct(e);
                check(d.is_some() == alive, "World::to_direct(typed) <=> alive");
                let da = w.to_direct(any);
                check(da == d.map(|d| d.into_any()), "World::to_direct(any) == to_direct(typed)");
                check(w.$f.to_direct(e) == d, "Archetype::to_direct(typed) == World::to_direct");
                check(w.$f.to_direct(any) == da, "Archetype::to_direct(any) == World::to_direct");
                if let (Some(d), Some(da)) = (d, da) {
                    check(w.contains(d) && w.contains(da), "a fresh direct handle is accepted by World::contains");
                    check(w.$f.contains(d) && w.$f.contains(da), "a fresh direct handle is accepted by Archetype::contains");
                    check(w.$f.resolve(d) == ix && w.$f.resolve(da) == ix, "a direct handle resolves to the entity it was issued for");
                }
            }
            pub fn all_reads(w: &mut W, e: Entity<$A>, alive: bool, v: Vals) {
                let mut p = 0;
                while p < NREAD {
                    match read(w, e, p) {
                        Some(x) => {
                            check(alive, "an access path reaches a destroyed entity");
                            check(same(&x, &norm(v)), "an access path yields the entity's own, latest values");
                        }
                        None => check(!alive, "an access path refuses a live entity"),
                    }
                    p += 1;
                }
            }
        }
    };
}

arch!(a, ArchA, arch_a, arch_a, [p: P = 0, d: D = 1, q: Q = 2]);
arch!(b, ArchB, arch_b, arch_b, [l: L = 0, p: P = 1, z: Z = 2]);
arch!(c, ArchC, arch_c, arch_c, [q: Q = 0]);

// ---- model ---------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum H {
    A(Entity<ArchA>),
    B(Entity<ArchB>),
    C(Entity<ArchC>),
}
impl H {
    pub fn any(&self) -> EntityAny {
        match *self {
            H::A(h) => h.into_any(),
            H::B(h) => h.into_any(),
            H::C(h) => h.into_any(),
        }
    }
    pub fn arch(&self) -> usize {
        match *self {
            H::A(_) => 0,
            H::B(_) => 1,
            H::C(_) => 2,
        }
    }
}
pub const ARCH_IDS: [u8; 3] = [3, 4, 200];

#[derive(Clone, Copy)]
pub struct Ent {
    pub h: H,
    pub alive: bool,
    pub v: Vals,
}
pub const MAXE: usize = 48;
pub struct Model {
    pub e: [Option<Ent>; MAXE],
    pub n: usize,
}
impl Model {
    pub fn new() -> Self {
        Model { e: [None; MAXE], n: 0 }
    }
    pub fn add(&mut self, h: H, v: Vals) {
        self.e[self.n] = Some(Ent { h, alive: true, v });
        self.n += 1;
    }
    pub fn at(&self, i: usize) -> Ent {
        self.e[i].unwrap()
    }
    pub fn kill(&mut self, i: usize) {
        self.e[i].as_mut().unwrap().alive = false;
    }
    pub fn live(&self, arch: usize) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < self.n {
            let x = self.at(i);
            if x.alive && x.h.arch() == arch {
                n += 1;
            }
            i += 1;
        }
        n
    }
}

pub fn fresh_vals() -> Vals {
    [sym32("v"), sym32("v"), sym32("v")]
}
/// Creates in archetype `k`.
pub fn create(w: &mut W, m: &mut Model, k: usize, v: Vals) -> H {
    let h = match k {
        0 => H::A(a::create(w, v)),
        1 => H::B(b::create(w, v)),
        _ => H::C(c::create(w, v)),
    };
    observe(h.any().raw().0 as u64);
    observe(h.any().raw().1 as u64);
    m.add(h, v);
    h
}
pub fn norm(k: usize, v: Vals) -> Vals {
    match k {
        0 => a::norm(v),
        1 => b::norm(v),
        _ => c::norm(v),
    }
}
/// Destroys entity `i` (alive or not) through key kind `k` and checks the outcome.
pub fn destroy(w: &mut W, m: &mut Model, i: usize, k: usize) {
    let x = m.at(i);
    let r = match x.h {
        H::A(h) => a::destroy(w, h, k),
        H::B(h) => b::destroy(w, h, k),
        H::C(h) => c::destroy(w, h, k),
    };
    check(r.is_some() == x.alive, "destroy() succeeds <=> the entity is alive");
    if let Some(Some(v)) = r {
        check(same(&v, &norm(x.h.arch(), x.v)), "destroy() returns the entity's own, latest values");
    }
    m.kill(i);
}
pub fn lookups(w: &mut W, m: &Model) {
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        match x.h {
            H::A(h) => a::lookups(w, h, x.alive),
            H::B(h) => b::lookups(w, h, x.alive),
            H::C(h) => c::lookups(w, h, x.alive),
        }
        i += 1;
    }
}
pub fn all_reads(w: &mut W, m: &Model) {
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        match x.h {
            H::A(h) => a::all_reads(w, h, x.alive, x.v),
            H::B(h) => b::all_reads(w, h, x.alive, x.v),
            H::C(h) => c::all_reads(w, h, x.alive, x.v),
        }
        i += 1;
    }
}
/// One read path for every entity.
pub fn reads(w: &mut W, m: &Model, p: usize) {
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        let r = match x.h {
            H::A(h) => a::read(w, h, p),
            H::B(h) => b::read(w, h, p),
            H::C(h) => c::read(w, h, p),
        };
        match r {
            Some(v) => {
                check(x.alive, "an access path reaches a destroyed entity");
                check(same(&v, &norm(x.h.arch(), x.v)), "an access path yields the entity's own, latest values");
            }
            None => check(!x.alive, "an access path refuses a live entity"),
        }
        i += 1;
    }
}
pub fn lens(w: &W, m: &Model) {
    let l = [a::len(w), b::len(w), c::len(w)];
    let k = [a::capacity(w), b::capacity(w), c::capacity(w)];
    let mut i = 0;
    while i < 3 {
        check(l[i] == m.live(i), "len() == number of live entities");
        check(k[i] >= l[i], "capacity() >= len()");
        i += 1;
    }
    check(w.arch_a.is_empty() == (l[0] == 0) && w.arch_b.is_empty() == (l[1] == 0) && w.arch_c.is_empty() == (l[2] == 0), "is_empty() <=> len() == 0");
}
pub fn everything(w: &mut W, m: &Model) {
    lookups(w, m);
    all_reads(w, m);
    lens(w, m);
}
