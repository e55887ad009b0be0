//! One larger scenario, judged for one property at a time: two archetypes (wide, tracked columns; zero-sized
//! and one-byte columns) with dozens to hundreds of entities, through bulk removals, growth, cloning and
//! refilling. Sizes and patterns are picked; component values are symbolic.
use crate::comps::{Val, P, S8};
use crate::rt::*;
use gecs::prelude::*;

const N: usize = 2600;
const NVAL: usize = 5200;
static mut STATE: [u8; NVAL] = [0; NVAL];
static mut CLONES: [u8; NVAL] = [0; NVAL];
static mut NEXT: usize = 0;
static mut LIVE: usize = 0;
static mut ZLIVE: i64 = 0;

/// Tracked.
pub struct T {
    id: usize,
    v: u32,
}
fn mk(v: u32) -> T {
    unsafe {
        let id = NEXT;
        NEXT += 1;
        STATE[id] = 1;
        LIVE += 1;
        T { id, v }
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        unsafe {
            if J & DROPS != 0 {
                check(STATE[self.id] == 1, "a dropped component is cloned");
            }
            CLONES[self.id] += 1;
        }
        mk(self.v)
    }
}
impl Drop for T {
    fn drop(&mut self) {
        unsafe {
            if J & DROPS != 0 {
                check(STATE[self.id] == 1, "a component is dropped twice");
            }
            STATE[self.id] = 2;
            LIVE -= 1;
        }
    }
}
/// Zero-sized and counted.
pub struct Z;
fn mkz() -> Z {
    unsafe { ZLIVE += 1 };
    Z
}
impl Clone for Z {
    fn clone(&self) -> Z {
        mkz()
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { ZLIVE -= 1 };
    }
}
/// 484 bytes.
#[derive(Clone)]
pub struct Big(pub [u32; 121]);
fn big(v: u32) -> Big {
    let mut b = Big([7; 121]);
    b.0[0] = v;
    b.0[63] = !v;
    b.0[120] = v ^ 0x5a5a;
    b
}
/// 67 bytes, of alignment 1.
#[derive(Clone)]
pub struct Odd(pub [u8; 67]);
fn odd(v: u32) -> Odd {
    let mut b = Odd([7; 67]);
    b.0[0] = v as u8;
    b.0[64] = !v as u8;
    b.0[66] = v as u8 ^ 0x5a;
    b
}
fn same1(s: &S8, o: &Odd, v: u32) -> bool {
    let v = v as u8;
    s.0 == v && o.0[0] == v && o.0[64] == !v && o.0[66] == v ^ 0x5a && o.0[1] == 7 && o.0[65] == 7
}

ecs_world! {
    ecs_name!(G);
    #[archetype_id(6)]
    ecs_archetype!(G0, T, Big, P);
    #[archetype_id(9)]
    ecs_archetype!(G1, S8, Z, Odd);
}

pub const HANDLES: u32 = 1;
pub const VALUES: u32 = 2;
pub const DROPS: u32 = 4;
pub const ITER: u32 = 8;
pub const LOOP: u32 = 16;
pub const UNIQUE: u32 = 32;
pub const DIRECT: u32 = 64;
pub const COUNTS: u32 = 128;
pub const CLONE: u32 = 256;
pub const EVENTS: u32 = 512;
static mut J: u32 = 0;
fn on(j: u32) -> bool {
    unsafe { J & j != 0 }
}

#[derive(Clone, Copy)]
struct Ent {
    h: EntityAny,
    v: u32,
    k: u8,
    alive: bool,
    d: Option<EntityDirectAny>,
    /// A removal happened since `d` was issued.
    stale: bool,
    seen: u16,
}
/// Every entity ever created in one world.
struct Model {
    e: [Option<Ent>; N],
    n: usize,
    len: [usize; 2],
    removals: [usize; 2],
    /// Hash table over the handles.
    t: [u16; 8192],
}
static mut MODEL: Model = Model { e: [None; N], n: 0, len: [0; 2], removals: [0; 2], t: [0; 8192] };

fn hash(h: EntityAny) -> usize {
    let (a, b) = h.raw();
    ((a as usize >> 8).wrapping_mul(2) ^ (a as usize & 255) ^ (b as usize).wrapping_mul(641)) & 8191
}
impl Model {
    fn find(&self, h: EntityAny) -> Option<usize> {
        let mut i = hash(h);
        while self.t[i] != 0 {
            let j = self.t[i] as usize - 1;
            if self.at(j).h == h {
                return Some(j);
            }
            i = (i + 1) & 8191;
        }
        None
    }
    fn at(&self, i: usize) -> &Ent {
        match &self.e[i] {
            Some(e) => e,
            None => panic!(),
        }
    }
    fn at_mut(&mut self, i: usize) -> &mut Ent {
        match &mut self.e[i] {
            Some(e) => e,
            None => panic!(),
        }
    }
    fn add(&mut self, h: EntityAny, k: usize, v: u32) {
        let old = self.find(h);
        if on(UNIQUE) {
            check(old.is_none(), "a handle is issued twice");
        } else {
            assume(old.is_none()); // not this property's business; such a run ends here
        }
        let mut i = hash(h);
        while self.t[i] != 0 {
            i = (i + 1) & 8191;
        }
        self.t[i] = self.n as u16 + 1;
        self.e[self.n] = Some(Ent { h, v, k: k as u8, alive: true, d: None, stale: false, seen: 0 });
        self.n += 1;
        self.len[k] += 1;
    }
    fn gone(&mut self, i: usize) {
        let k = self.at(i).k as usize;
        self.at_mut(i).alive = false;
        self.len[k] -= 1;
        self.removals[k] += 1;
        let mut j = 0;
        while j < self.n {
            let e = self.at_mut(j);
            if e.k as usize == k {
                e.stale = true;
            }
            j += 1;
        }
    }
}

fn create(w: &mut G, m: &mut Model, k: usize, base: u32) {
    let v = base.wrapping_add(m.n as u32 * 3);
    let h = match k {
        0 => w.create::<G0>((mk(v), big(v), P(v ^ 9))).into_any(),
        _ => w.g_1.create((S8(v as u8), mkz(), odd(v))).into_any(),
    };
    m.add(h, k, v);
}
fn create_within(w: &mut G, m: &mut Model, k: usize, base: u32) -> bool {
    let v = base.wrapping_add(m.n as u32 * 3);
    let h = match k {
        0 => w.g_0.create_within_capacity((mk(v), big(v), P(v ^ 9))).ok().map(|h| h.into_any()),
        _ => w.create_within_capacity::<G1>((S8(v as u8), mkz(), odd(v))).ok().map(|h| h.into_any()),
    };
    match h {
        Some(h) => m.add(h, k, v),
        None => (),
    }
    h.is_some()
}
fn same0(t: &T, b: &Big, p: &P, v: u32) -> bool {
    t.v == v && b.0[0] == v && b.0[63] == !v && b.0[120] == v ^ 0x5a5a && b.0[1] == 7 && b.0[119] == 7 && p.0 == v ^ 9
}
fn cap(w: &G, k: usize) -> usize {
    if k == 0 { w.g_0.capacity() } else { w.g_1.capacity() }
}
fn len(w: &G, k: usize) -> usize {
    if k == 0 { w.g_0.len() } else { w.g_1.len() }
}

fn destroy(w: &mut G, m: &mut Model, i: usize, how: usize) {
    let e = *m.at(i);
    let (h, v) = (e.h, e.v);
    let gone = match (e.k, how % 3) {
        (0, 0) => {
            let h: Entity<G0> = h.try_into().unwrap();
            match w.destroy(h) {
                Some(c) => {
                    if on(VALUES) {
                        check(same0(c.get::<T>(), c.get::<Big>(), c.get::<P>(), v), "destroy() returns the entity's own components");
                    }
                    true
                }
                None => false,
            }
        }
        (1, 0) => {
            let h: Entity<G1> = h.try_into().unwrap();
            match w.g_1.destroy(h) {
                Some(c) => {
                    if on(VALUES) {
                        check(same1(c.get::<S8>(), c.get::<Odd>(), v), "destroy() returns the entity's own components");
                    }
                    true
                }
                None => false,
            }
        }
        (_, 1) => w.destroy(h).is_some(),
        _ => match w.to_direct(h) {
            Some(d) => w.destroy(d).is_some(),
            None => false,
        },
    };
    if on(HANDLES | UNIQUE | DIRECT) {
        check(gone, "destroy() rejects a live entity");
    } else {
        assume(gone);
    }
    m.gone(i);
}

/// Everything this run's property says about the present state.
#[inline(never)]
fn judge(w: &mut G, m: &mut Model) {
    if on(COUNTS) {
        let mut k = 0;
        while k < 2 {
            check(len(w, k) == m.len[k], "len() == number of live entities");
            check(cap(w, k) >= m.len[k], "capacity() >= len()");
            k += 1;
        }
        check(w.g_0.is_empty() == (m.len[0] == 0) && w.g_1.is_empty() == (m.len[1] == 0), "is_empty() <=> len() == 0");
    }
    if on(HANDLES) {
        let mut i = 0;
        while i < m.n {
            let e = m.at(i);
            check(w.contains(e.h) == e.alive, "a handle is accepted <=> its entity is alive (contains)");
            check(w.to_direct(e.h).is_some() == e.alive, "a handle is accepted <=> its entity is alive (to_direct)");
            let h = ecs_find!(w, e.h, |h: &EntityAny| *h);
            check(h == if e.alive { Some(e.h) } else { None }, "a handle finds exactly its own entity (ecs_find!)");
            let ix = if e.k == 0 { w.g_0.resolve(e.h) } else { w.g_1.resolve(e.h) };
            check(ix.is_some() == e.alive, "a handle is accepted <=> its entity is alive (resolve)");
            match ix {
                Some(ix) => {
                    let own = if e.k == 0 { w.g_0.entities()[ix].into_any() } else { w.g_1.entities()[ix].into_any() };
                    check(own == e.h, "a handle resolves to exactly its own entity");
                }
                None => (),
            }
            i += 1;
        }
    }
    if on(VALUES | CLONE) {
        let mut i = 0;
        while i < m.n {
            let e = *m.at(i);
            if e.alive {
                let ok = if e.k == 0 {
                    ecs_find!(w, e.h, |t: &T, b: &Big, p: &mut P| same0(t, b, p, e.v))
                } else {
                    ecs_find!(w, e.h, |s: &S8, o: &Odd| same1(s, o, e.v))
                };
                check(ok == Some(true), "a read returns the entity's own components (ecs_find!)");
                let ok = if e.k == 0 {
                    w.g_0.borrow(e.h).map(|b| {
                        let (t, g, p) = (b.component::<T>(), b.component::<Big>(), b.component::<P>());
                        same0(&t, &g, &p, e.v)
                    })
                } else {
                    w.g_1.view(e.h).map(|v| same1(v.component::<S8>(), v.component::<Odd>(), e.v))
                };
                check(ok == Some(true), "a read returns the entity's own components (view/borrow)");
            } else if on(CLONE) {
                check(!w.contains(e.h), "a dead entity's handle is accepted");
            }
            i += 1;
        }
    }
    if on(VALUES | ITER | CLONE) {
        let mut i = 0;
        while i < m.n {
            m.at_mut(i).seen = 0;
            i += 1;
        }
        let mm = &mut *m;
        let mut visit = |h: EntityAny, f: u16| -> u32 {
            match mm.find(h) {
                Some(i) => {
                    let e = mm.at_mut(i);
                    check(e.alive, "an iteration presents a dead entity");
                    check(e.seen & f == 0, "an iteration presents an entity twice");
                    e.seen |= f;
                    e.v
                }
                None => {
                    check(false, "an iteration presents an unknown handle");
                    0
                }
            }
        };
        let own = "an iteration presents another entity's components";
        ecs_iter!(w, |h: &EntityAny, t: &T, b: &Big, p: &P| {
            let v = visit(*h, 1);
            check(same0(t, b, p, v), own);
        });
        ecs_iter!(w, |h: &Entity<G1>, s: &mut S8, o: &Odd| {
            let v = visit(h.into_any(), 1);
            check(same1(s, o, v), own);
        });
        ecs_iter_borrow!(w, |h: &EntityAny| {
            visit(*h, 2);
        });
        for (h, t, b, p) in w.g_0.iter() {
            let v = visit(h.into_any(), 4);
            check(same0(t, b, p, v), own);
        }
        for (h, s, _, o) in w.g_1.iter_mut() {
            let v = visit(h.into_any(), 4);
            check(same1(s, o, v), own);
        }
        {
            let s = w.g_0.get_all_slices_mut();
            let n = s.entity.len();
            check(s.t.len() == n && s.big.len() == n && s.p.len() == n, "the slices of an archetype have different lengths");
            let mut i = 0;
            while i < n {
                let v = visit(s.entity[i].into_any(), 8);
                check(same0(&s.t[i], &s.big[i], &s.p[i], v), own);
                i += 1;
            }
        }
        {
            let h = w.g_1.entities();
            let (s, o) = (w.g_1.borrow_slice::<S8>(), w.g_1.borrow_slice_mut::<Odd>());
            check(s.len() == h.len() && o.len() == h.len(), "the slices of an archetype have different lengths");
            let mut i = 0;
            while i < h.len() {
                let v = visit(h[i].into_any(), 8);
                check(same1(&s[i], &o[i], v), own);
                i += 1;
            }
        }
        let mut i = 0;
        while i < m.n {
            let e = m.at(i);
            check(!e.alive || e.seen == 15 || !on(ITER | CLONE), "an iteration misses a live entity");
            i += 1;
        }
    }
    if on(DIRECT) {
        let mut i = 0;
        while i < m.n {
            let e = m.at(i);
            match e.d {
                Some(d) => {
                    let f = ecs_find!(w, d, |h: &EntityAny| *h);
                    check(w.contains(d) == f.is_some(), "a direct handle is accepted by one path only");
                    if e.stale {
                        check(f.is_none(), "a direct handle survives a removal from its archetype");
                    } else {
                        check(f == Some(e.h), "a direct handle designates its own entity while nothing is removed");
                    }
                }
                None => (),
            }
            i += 1;
        }
    }
    #[cfg(feature = "events")]
    if on(EVENTS) {
        let mut i = 0;
        while i < m.n {
            m.at_mut(i).seen = 0;
            i += 1;
        }
        let mut n = 0;
        for h in w.iter_created() {
            match m.find(*h) {
                Some(i) => {
                    check(m.at(i).seen & 1 == 0, "a creation is logged twice");
                    m.at_mut(i).seen |= 1;
                }
                None => check(false, "an unknown handle is in the created log"),
            }
            n += 1;
        }
        check(n == m.n, "the created log misses a creation");
        let mut n = 0;
        for h in w.g_0.iter_destroyed().map(|h| h.into_any()).chain(w.g_1.iter_destroyed().map(|h| h.into_any())) {
            match m.find(h) {
                Some(i) => {
                    check(m.at(i).seen & 2 == 0, "a destruction is logged twice");
                    check(!m.at(i).alive, "a live entity is in the destroyed log");
                    m.at_mut(i).seen |= 2;
                }
                None => check(false, "an unknown handle is in the destroyed log"),
            }
            n += 1;
        }
        check(n == m.removals[0] + m.removals[1], "the destroyed log misses a destruction");
    }
}

/// Takes a direct handle of every live entity.
fn direct_all(w: &mut G, m: &mut Model) {
    if !on(DIRECT) {
        return;
    }
    let mut i = 0;
    while i < m.n {
        let e = *m.at(i);
        if e.alive {
            let d = if i % 2 == 0 { w.to_direct(e.h) } else { ecs_find_borrow!(w, e.h, |d: &EntityDirectAny| *d) };
            check(d.is_some(), "no direct handle of a live entity");
            let x = m.at_mut(i);
            x.d = d;
            x.stale = false;
        }
        i += 1;
    }
}

/// Removes all entities for which `f(ordinal within its archetype, model index)` holds, by a destroying loop.
fn sweep(w: &mut G, m: &mut Model, f: impl Fn(usize) -> bool, stop: usize) {
    let mut n = 0;
    let k = m.n;
    let judged = on(LOOP);
    let live = m.len[0] + m.len[1];
    let mut i = 0;
    while i < m.n {
        m.at_mut(i).seen = 0;
        i += 1;
    }
    let mm = &mut *m;
    let nn = &mut n;
    ecs_iter_destroy!(w, |h: &EntityAny, d: &EntityDirectAny| {
        match mm.find(*h) {
            Some(i) => {
                if judged {
                    check(mm.at(i).alive, "the loop visits a dead entity");
                    check(mm.at(i).seen == 0, "the loop visits an entity twice");
                }
                mm.at_mut(i).seen = 1;
                *nn += 1;
                if f(i) {
                    mm.gone(i);
                    if *nn == stop { EcsStepDestroy::BreakDestroy } else { EcsStepDestroy::ContinueDestroy }
                } else if *nn == stop {
                    EcsStepDestroy::Break
                } else {
                    EcsStepDestroy::Continue
                }
            }
            None => {
                if judged {
                    check(false, "the loop visits an unknown handle");
                }
                EcsStepDestroy::Break
            }
        }
    });
    if judged {
        check(n == if stop > 0 && stop < live { stop } else { live }, "the loop visits each live entity once, up to Break");
        let mut i = 0;
        while i < m.n {
            let e = *m.at(i);
            check(w.contains(e.h) == e.alive, "exactly the flagged entities are destroyed");
            if e.alive {
                let ok = if e.k == 0 {
                    ecs_find!(w, e.h, |h: &EntityAny, t: &T, b: &Big, p: &P| same0(t, b, p, e.v) && *h == e.h)
                } else {
                    ecs_find!(w, e.h, |h: &EntityAny, s: &S8, o: &Odd| same1(s, o, e.v) && *h == e.h)
                };
                check(ok == Some(true), "a survivor of the loop keeps its handle and values");
            }
            i += 1;
        }
    }
}

/// `sizes`: entities per archetype; `caps`: initial capacities; `pats`: how many removal patterns (0 none,
/// 1 all by loop, 2 all forward, 3 all backward, 4 every other by loop, 5 first half forward, 6 loop with a
/// break, 7 a single entity at any index).
pub fn run(judges: u32, sizes: &[usize], caps: &[usize], pats: &[usize]) {
    let base_allocs = live_allocs();
    unsafe { J = judges };
    let m = unsafe { &mut MODEL };
    let c = caps[pick("cap", caps.len())];
    let n = sizes[pick("size", sizes.len())];
    let mut w = G::with_capacity(GCapacity { g_0: c, g_1: c });
    let (c0, c1) = (w.g_0.capacity(), w.g_1.capacity());
    if on(COUNTS) {
        check(c0 >= c && c1 >= c, "with_capacity(n) has room for n");
    }
    let base = sym32("v");
    let mut i = 0;
    while i < n {
        create(&mut w, m, 0, base);
        create(&mut w, m, 1, base);
        if on(COUNTS) && i < c {
            check(w.g_0.capacity() == c0 && w.g_1.capacity() == c1, "with_capacity(n) permits n creations without growing");
        }
        i += 1;
    }
    judge(&mut w, m);
    direct_all(&mut w, m);
    let before = [cap(&w, 0), cap(&w, 1)];
    let pat = pats[pick("pattern", pats.len())];
    match pat {
        0 => (),
        1 => sweep(&mut w, m, |_| true, 0),
        2 => {
            let mut i = 0;
            while i < m.n {
                destroy(&mut w, m, i, i / 2);
                i += 1;
            }
        }
        3 => {
            let mut i = m.n;
            while i > 0 {
                i -= 1;
                destroy(&mut w, m, i, i / 2);
            }
        }
        4 => sweep(&mut w, m, |i| (i / 2) % 2 == 1, 0),
        5 => {
            let mut i = 0;
            while i < m.n / 2 {
                destroy(&mut w, m, i, i / 2);
                i += 1;
            }
        }
        6 => sweep(&mut w, m, |i| i % 5 != 0, n + n / 2),
        _ => {
            let i = pick("one", n);
            destroy(&mut w, m, 2 * i, i);
            destroy(&mut w, m, 2 * i + 1, i);
        }
    }
    judge(&mut w, m);
    direct_all(&mut w, m);
    // go on with a clone, or not
    let cloned = pick("clone", 2) == 1;
    if cloned {
        let (live, z) = unsafe { (LIVE, ZLIVE) };
        let b = w.clone();
        if on(DROPS) {
            check(unsafe { LIVE == 2 * live && ZLIVE == 2 * z }, "clone() clones each live component exactly once");
        }
        if on(CLONE) {
            check(b.g_0.len() == w.g_0.len() && b.g_0.capacity() == w.g_0.capacity() && b.g_1.len() == w.g_1.len() && b.g_1.capacity() == w.g_1.capacity(), "a clone has the same len and capacity");
            let mut i = 0;
            while i < b.g_0.len() {
                check(b.g_0.entities()[i] == w.g_0.entities()[i], "a clone stores its entities in the same order");
                i += 1;
            }
            judge(&mut w, m);
        }
        drop(w);
        w = b;
        if on(DROPS) {
            check(unsafe { LIVE == live && ZLIVE == z }, "dropping the original drops its own components only");
        }
        judge(&mut w, m);
    }
    // refill: to capacity, over it
    let c = [cap(&w, 0), cap(&w, 1)];
    if on(COUNTS) {
        check(c[0] >= before[0] && c[1] >= before[1], "capacity() never decreases");
    }
    let mut k = 0;
    while k < 2 {
        let room = c[k] - m.len[k];
        let mut i = 0;
        while i < room {
            // alternately by either kind of creation
            let ok = if i % 2 == 0 {
                create_within(&mut w, m, k, base)
            } else {
                create(&mut w, m, k, base);
                true
            };
            if on(COUNTS | CLONE | HANDLES) {
                check(ok, "create_within_capacity() fails below capacity");
            } else {
                assume(ok);
            }
            if on(COUNTS | CLONE) {
                check(cap(&w, k) == c[k], "a creation below capacity changes capacity()");
            }
            i += 1;
        }
        if on(COUNTS) {
            let l = len(&w, k);
            check(l == c[k], "an archetype cannot be refilled to its capacity");
            check(!create_within(&mut w, m, k, base), "create_within_capacity() succeeds at capacity");
            check(cap(&w, k) == c[k] && len(&w, k) == l, "a failed create_within_capacity() changes the archetype");
        }
        k += 1;
    }
    judge(&mut w, m);
    direct_all(&mut w, m);
    if pick("over", 2) == 1 {
        create(&mut w, m, 0, base);
        create(&mut w, m, 1, base);
        if on(COUNTS) {
            check(cap(&w, 0) > c[0] && cap(&w, 1) > c[1], "create() at capacity grows");
        }
        judge(&mut w, m);
    }
    #[cfg(feature = "events")]
    if on(EVENTS) {
        w.clear_events();
        check(w.iter_created().next().is_none() && w.iter_destroyed().next().is_none(), "clear_events() empties the logs");
        check(w.g_0.len() == m.len[0] && w.g_1.len() == m.len[1], "clear_events() affects entities");
    }
    drop(w);
    if on(DROPS) {
        check(unsafe { LIVE == 0 && ZLIVE == 0 }, "a component outlives its world");
        check(live_allocs() == base_allocs, "an allocation outlives the world");
        let mut i = 0;
        let n = unsafe { NEXT };
        while i < n {
            check(unsafe { STATE[i] == 2 && CLONES[i] <= 1 }, "each component is dropped once and cloned once per clone()");
            i += 1;
        }
    }
    cover("end");
}
pub const ALL: [usize; 7] = [0, 1, 2, 3, 4, 5, 6];
pub fn quick(j: u32) {
    run(j, &[12, 40], &[0, 33], &ALL)
}
pub fn wide(j: u32) {
    run(j, &[300], &[0], &[1, 2, 4, 6])
}
pub fn any(j: u32) {
    run(j, &[3, 7, 15, 20, 31, 70], &[0, 1, 5, 33], &[0, 1, 2, 3, 4, 5, 6, 7])
}
