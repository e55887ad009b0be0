//! A clone is observationally identical and thereafter independent.
use crate::comps::*;
use crate::gen::with_sym_low;
use crate::rt::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(Y);
    #[archetype_id(4)]
    ecs_archetype!(Y0, D, P);
    ecs_archetype!(Y1, L, Z, P);
    #[archetype_id(9)]
    ecs_archetype!(Y2, X, D);
}
const NA: usize = 3;
const MAXH: usize = 32;

/// Everything handed out so far.
#[derive(Clone, Copy)]
struct Known {
    h: [Option<EntityAny>; MAXH],
    n: usize,
    d: [Option<EntityDirectAny>; MAXH],
    nd: usize,
    len: [usize; NA],
}
impl Known {
    fn handle(&mut self, h: EntityAny) {
        let mut i = 0;
        while i < self.n {
            check(self.h[i].unwrap() != h, "a handle is issued twice");
            i += 1;
        }
        self.h[self.n] = Some(h);
        self.n += 1;
    }
    fn direct(&mut self, d: EntityDirectAny) {
        self.d[self.nd] = Some(d);
        self.nd += 1;
    }
}

const NOBS: usize = 320;
/// What a world answers to every query.
#[derive(Clone, Copy)]
pub struct Obs {
    v: [u64; NOBS],
    n: usize,
}
impl Obs {
    fn new() -> Self {
        Obs { v: [0; NOBS], n: 0 }
    }
    fn put(&mut self, x: u64) {
        self.v[self.n] = x;
        self.n += 1;
    }
    fn h(&mut self, x: EntityAny) {
        let (a, b) = x.raw();
        self.put((a as u64) << 32 | b as u64);
    }
    fn same(&self, o: &Obs, msg: &'static str) {
        check(self.n == o.n, msg);
        let mut i = 0;
        while i < self.n {
            check(self.v[i] == o.v[i], msg);
            i += 1;
        }
    }
}
fn none<T>(o: &Option<T>) -> bool {
    o.is_none()
}

#[inline(never)]
fn look(w: &mut Y, kn: &Known) -> Obs {
    let mut o = Obs::new();
    o.put(w.y_0.len() as u64 | (w.y_1.len() as u64) << 8 | (w.y_2.len() as u64) << 16);
    o.put(w.y_0.capacity() as u64 | (w.y_1.capacity() as u64) << 8 | (w.y_2.capacity() as u64) << 16);
    // storage order
    for (h, d, p) in w.y_0.iter() {
        o.h(h.into_any());
        o.put((d.get() as u64) << 32 | p.get() as u64);
    }
    for (h, l, z, p) in w.y_1.iter_mut() {
        o.h(h.into_any());
        o.put((l.get() as u64) << 32 | p.get() as u64);
    }
    {
        let s = w.y_2.get_all_slices_mut();
        let mut i = 0;
        while i < s.entity.len() {
            o.h(s.entity[i].into_any());
            o.put((s.x[i].get() as u64) << 32 | s.d[i].get() as u64);
            i += 1;
        }
    }
    // queries
    let q = &mut o;
    ecs_iter!(w, |h: &EntityAny, p: &P| {
        q.h(*h);
        q.put(p.get() as u64);
    });
    let q = &mut o;
    ecs_iter_borrow!(w, |h: &Entity<_>, d: &D, x: &EntityDirect<_>| {
        q.h(h.into_any());
        q.put(d.get() as u64);
    });
    // handles
    let mut i = 0;
    while i < kn.n {
        let h = kn.h[i].unwrap();
        let c = w.contains(h) as u64;
        let ix = match h.archetype_id() {
            4 => w.y_0.resolve(h),
            5 => w.y_1.resolve(h),
            _ => w.y_2.resolve(h),
        };
        let f = ecs_find!(w, h, |p: &OneOf<P, X>, h: &EntityAny| 1 | (p.get() as u64) << 8);
        o.put(c | match ix { Some(i) => (i as u64 + 1) << 8, None => 0 });
        o.put(f.unwrap_or(0));
        let b = ecs_find_borrow!(w, h, |d: &OneOf<D, Z>| 1 | (d.get() as u64) << 8);
        o.put(b.unwrap_or(0));
        i += 1;
    }
    // direct handles
    let mut i = 0;
    while i < kn.nd {
        let d = kn.d[i].unwrap();
        let c = w.contains(d) as u64;
        let same = match w.to_direct(d) {
            Some(x) => if x == d { 1u64 } else { 2 },
            None => 0,
        };
        o.put(c | same << 1);
        match ecs_find!(w, d, |h: &EntityAny| *h) {
            Some(h) => o.h(h),
            None => o.put(0),
        }
        i += 1;
    }
    #[cfg(feature = "events")]
    {
        o.put(77);
        for h in w.iter_created() { o.h(*h); }
        o.put(78);
        for h in w.iter_destroyed() { o.h(*h); }
        o.put(79);
        for h in w.y_0.iter_created() { o.h(h.into_any()); }
        o.put(80);
        for h in w.y_2.iter_destroyed() { o.h(h.into_any()); }
    }
    o
}

fn create(w: &mut Y, kn: &mut Known, k: usize) {
    let v = sym32("v");
    let h = match k {
        0 => w.create::<Y0>((D::mk(v), P(v ^ 1))).into_any(),
        1 => w.y_1.create((L(v), Z::mk(0), P(v ^ 2))).into_any(),
        _ => w.create::<Y2>((X::mk(v), D::mk(v ^ 3))).into_any(),
    };
    kn.handle(h);
    kn.len[k] += 1;
}
fn arch(h: EntityAny) -> usize {
    match h.archetype_id() {
        4 => 0,
        5 => 1,
        _ => 2,
    }
}
/// One operation; `None` of them concerns the other world.
fn op(w: &mut Y, kn: &mut Known, quick: bool) {
    let n = if cfg!(feature = "events") { 6 } else { 5 };
    match pick("op", n) {
        0 => {
            let k = pick("arch", NA);
            create(w, kn, k);
        }
        1 => {
            if kn.n > 0 {
                let h = kn.h[pick("entity", kn.n)].unwrap();
                let was = w.contains(h);
                let gone = if quick || sym_bool("any") {
                    w.destroy(h).is_some()
                } else {
                    match w.to_direct(h) {
                        Some(d) => w.destroy(d).is_some(),
                        None => false,
                    }
                };
                check(gone == was, "destroy() succeeds <=> the entity is alive");
                kn.len[arch(h)] -= gone as usize;
            }
        }
        2 => {
            if kn.n > 0 {
                let h = kn.h[pick("entity", kn.n)].unwrap();
                if let Some(d) = w.to_direct(h) {
                    kn.direct(d);
                }
            }
        }
        3 => {
            // write everywhere
            let v = sym32("v");
            ecs_iter!(w, |p: &mut P| p.set(v));
            ecs_iter_borrow!(w, |d: &mut D| d.set(v ^ 1));
            for x in w.y_2.get_slice_mut::<X>() {
                x.set(v ^ 2);
            }
        }
        4 => {
            // destroy the first one of each archetype in a loop
            let mut last = None;
            let l = &mut last;
            let k = &mut kn.len;
            ecs_iter_destroy!(w, |h: &EntityAny| {
                let i = h.archetype_id();
                if *l != Some(i) {
                    *l = Some(i);
                    k[arch(*h)] -= 1;
                    EcsStepDestroy::ContinueDestroy
                } else {
                    EcsStepDestroy::Continue
                }
            });
        }
        _ => {
            #[cfg(feature = "events")]
            if sym_bool("world") {
                w.clear_events();
            } else {
                w.y_0.clear_events();
            }
        }
    }
}
fn lens(w: &Y, kn: &Known) {
    check(w.y_0.len() == kn.len[0] && w.y_1.len() == kn.len[1] && w.y_2.len() == kn.len[2], "len() == number of live entities");
}
fn refill(w: &mut Y, kn: &mut Known) {
    let v = 5;
    let mut k = 0;
    while k < NA {
        let cap = [w.y_0.capacity(), w.y_1.capacity(), w.y_2.capacity()][k];
        loop {
            let r = match k {
                0 => w.create_within_capacity::<Y0>((D::mk(v), P(v ^ 1))).ok().map(|h| h.into_any()),
                1 => w.create_within_capacity::<Y1>((L(v), Z::mk(0), P(v ^ 2))).ok().map(|h| h.into_any()),
                _ => w.y_2.create_within_capacity((X::mk(v), D::mk(v ^ 3))).ok().map(|h| h.into_any()),
            };
            check(r.is_some() == (kn.len[k] < cap), "a world or its clone cannot be refilled to capacity");
            match r {
                Some(h) => {
                    kn.handle(h);
                    kn.len[k] += 1;
                    check(w.contains(h), "a created entity exists");
                }
                None => break,
            }
        }
        k += 1;
    }
    lens(w, kn);
}

/// `pre` operations, clone, compare, `post` operations on either world, refill both.
pub fn diverge(pre: usize, post: usize, seeded: usize, symgen: bool) {
    let base = live_allocs();
    let c = pick("cap", 2);
    let make = || Y::with_capacity(YCapacity { y_0: 3 * c, y_1: c, y_2: 2 });
    let mut a = if symgen { with_sym_low(true, true, make) } else { make() };
    let mut ka = Known { h: [None; MAXH], n: 0, d: [None; MAXH], nd: 0, len: [0; NA] };
    let mut i = 0;
    while i < seeded {
        create(&mut a, &mut ka, i % NA);
        i += 1;
    }
    let mut i = 0;
    while i < pre {
        op(&mut a, &mut ka, true);
        i += 1;
    }
    // a direct handle to every live entity
    let mut i = 0;
    while i < ka.n {
        if let Some(d) = a.to_direct(ka.h[i].unwrap()) {
            ka.direct(d);
        }
        i += 1;
    }
    let before = look(&mut a, &ka);
    let live = d_live();
    let z = z_live();
    let mut b = a.clone();
    let mut kb = ka;
    check(d_live() == 2 * live && z_live() == 2 * z, "clone() clones each live component exactly once");
    look(&mut a, &ka).same(&before, "clone() changes the original");
    let mut ob = look(&mut b, &kb);
    ob.same(&before, "a clone answers a query differently");
    let mut oa = before;
    let mut i = 0;
    while i < post {
        let (oa0, ob0) = (look(&mut a, &ka), look(&mut b, &kb));
        if sym_bool("clone") {
            op(&mut b, &mut kb, false);
            look(&mut a, &ka).same(&oa0, "an operation on the clone is observable in the original");
        } else {
            op(&mut a, &mut ka, false);
            look(&mut b, &kb).same(&ob0, "an operation on the original is observable in the clone");
        }
        lens(&a, &ka);
        lens(&b, &kb);
        i += 1;
    }
    let ob0 = look(&mut b, &kb);
    refill(&mut a, &mut ka);
    look(&mut b, &kb).same(&ob0, "an operation on the original is observable in the clone");
    if sym_bool("drop") {
        drop(a);
        look(&mut b, &kb).same(&ob0, "dropping the original is observable in the clone");
        refill(&mut b, &mut kb);
        drop(b);
    } else {
        let oa0 = look(&mut a, &ka);
        refill(&mut b, &mut kb);
        look(&mut a, &ka).same(&oa0, "an operation on the clone is observable in the original");
        drop(b);
        look(&mut a, &ka).same(&oa0, "dropping the clone is observable in the original");
        // growth goes on
        create(&mut a, &mut ka, 0);
        create(&mut a, &mut ka, 1);
        lens(&a, &ka);
        drop(a);
    }
    check(d_live() == 0 && z_live() == 0, "a value is left behind after every world is gone");
    check(live_allocs() == base, "an allocation is left behind");
    cover("end");
}

/// The storage of one archetype through any removals, then `clone_from`/clone of the clone.
pub fn holes(n: usize) {
    let mut a = Y::new();
    let mut ka = Known { h: [None; MAXH], n: 0, d: [None; MAXH], nd: 0, len: [0; NA] };
    let mut i = 0;
    while i < n {
        create(&mut a, &mut ka, 0);
        i += 1;
    }
    let kills = pick("kills", n + 1);
    let mut i = 0;
    while i < kills {
        let h = ka.h[pick("entity", n)].unwrap();
        assume(a.contains(h)); // concrete: prunes
        a.destroy(h);
        ka.len[0] -= 1;
        i += 1;
    }
    let before = look(&mut a, &ka);
    let mut b = Y::new();
    let mut junk = ka;
    junk.len = [0; NA];
    create(&mut b, &mut Known { n: 0, nd: 0, ..junk }, 0);
    b.clone_from(&a);
    let mut kb = ka;
    look(&mut b, &kb).same(&before, "a clone answers a query differently");
    let mut c = b.clone();
    drop(b);
    let mut kc = ka;
    look(&mut c, &kc).same(&before, "a clone answers a query differently");
    refill(&mut c, &mut kc);
    look(&mut a, &ka).same(&before, "an operation on the clone is observable in the original");
    refill(&mut a, &mut ka);
    cover("end");
}
