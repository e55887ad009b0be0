//! One archetype with more entities than 16 bits can count, judged for one property at a time. The population
//! and its values are concrete; what happens to it (and where) is picked.
use crate::big::{CLONE, COUNTS, DIRECT, DROPS, EVENTS, HANDLES, ITER, LOOP, UNIQUE, VALUES};
use crate::rt::*;
use gecs::prelude::*;

const M: usize = 200_000;
const T: usize = 1 << 19;
const NVAL: usize = 400_000;
static mut STATE: [u8; NVAL] = [0; NVAL];
static mut NEXT: usize = 0;
static mut LIVE: usize = 0;

/// Tracked.
pub struct V {
    id: u32,
    v: u32,
}
fn mk(v: u32) -> V {
    unsafe {
        let id = NEXT;
        NEXT += 1;
        STATE[id] = 1;
        LIVE += 1;
        V { id: id as u32, v }
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        unsafe {
            if J & DROPS != 0 {
                check(STATE[self.id as usize] & 3 == 1, "a dropped component is cloned");
                check(STATE[self.id as usize] & 4 == 0, "a component is cloned twice");
            }
            STATE[self.id as usize] |= 4;
        }
        mk(self.v)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        unsafe {
            if J & DROPS != 0 {
                check(STATE[self.id as usize] & 3 == 1, "a component is dropped twice");
            }
            STATE[self.id as usize] = 2;
            LIVE -= 1;
        }
    }
}
#[derive(Clone)]
pub struct H(pub u16);

ecs_world! {
    ecs_name!(K);
    #[archetype_id(5)]
    ecs_archetype!(K0, V, H);
}

static mut J: u32 = 0;
fn on(j: u32) -> bool {
    unsafe { J & j != 0 }
}
/// Every entity ever created: its handle, whether it lives, and marks.
struct Model {
    h: [Option<EntityAny>; M],
    alive: [bool; M],
    seen: [u8; M],
    n: usize,
    len: usize,
    removals: usize,
    t: [u32; T],
}
static mut MODEL: Model = Model { h: [None; M], alive: [false; M], seen: [0; M], n: 0, len: 0, removals: 0, t: [0; T] };
fn hash(h: EntityAny) -> usize {
    let (a, b) = h.raw();
    ((a as usize >> 8).wrapping_mul(2) ^ (a as usize & 255) ^ (b as usize).wrapping_mul(40961)) & (T - 1)
}
fn val(i: usize) -> u32 {
    i as u32 * 3 + 5
}
fn same(v: &V, h: &H, i: usize) -> bool {
    v.v == val(i) && h.0 == val(i) as u16
}
impl Model {
    fn find(&self, h: EntityAny) -> Option<usize> {
        let mut i = hash(h);
        while self.t[i] != 0 {
            let j = self.t[i] as usize - 1;
            if self.h[j] == Some(h) {
                return Some(j);
            }
            i = (i + 1) & (T - 1);
        }
        None
    }
    fn add(&mut self, h: EntityAny) {
        let old = self.find(h);
        if on(UNIQUE) {
            check(old.is_none(), "a handle is issued twice");
        } else {
            assume(old.is_none());
        }
        let mut i = hash(h);
        while self.t[i] != 0 {
            i = (i + 1) & (T - 1);
        }
        self.t[i] = self.n as u32 + 1;
        self.h[self.n] = Some(h);
        self.alive[self.n] = true;
        self.n += 1;
        self.len += 1;
    }
    fn gone(&mut self, i: usize) {
        self.alive[i] = false;
        self.len -= 1;
        self.removals += 1;
    }
    fn at(&self, i: usize) -> EntityAny {
        match self.h[i] {
            Some(h) => h,
            None => panic!(),
        }
    }
}
fn create(w: &mut K, m: &mut Model, within: bool) -> bool {
    let v = val(m.n);
    let h = if within {
        match w.create_within_capacity::<K0>((mk(v), H(v as u16))) {
            Ok(h) => h,
            Err(_) => return false,
        }
    } else {
        w.create::<K0>((mk(v), H(v as u16)))
    };
    m.add(h.into_any());
    true
}
fn destroy(w: &mut K, m: &mut Model, i: usize, how: usize) {
    let h = m.at(i);
    let gone = match how % 3 {
        0 => match w.destroy(Entity::<K0>::from_any(h)) {
            Some(c) => {
                if on(VALUES) {
                    check(same(c.get::<V>(), c.get::<H>(), i), "destroy() returns the entity's own components");
                }
                true
            }
            None => false,
        },
        1 => w.destroy(h).is_some(),
        _ => match w.to_direct(h) {
            Some(d) => w.destroy(d).is_some(),
            None => false,
        },
    };
    if on(HANDLES | UNIQUE | DIRECT) {
        check(gone, "destroy() rejects a live entity");
    } else {
        assume(gone);
    }
    m.gone(i);
}
/// Around the byte boundaries of an index, and the ends.
const AT: [usize; 18] = [0, 1, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 65791, 65792, 65799];
/// Those, some around them, and a sample.
fn probed(i: usize) -> bool {
    i < 4 || i % 509 == 0 || (i >= 253 && i < 260) || (i >= 32765 && i < 32771) || (i >= 65530 && i < 65542) || (i >= 65788 && i < 65804)
}

#[inline(never)]
fn judge(w: &mut K, m: &mut Model) {
    if on(COUNTS | CLONE) {
        check(w.k_0.len() == m.len, "len() == number of live entities");
        check(w.k_0.capacity() >= m.len, "capacity() >= len()");
        check(w.k_0.is_empty() == (m.len == 0), "is_empty() <=> len() == 0");
    }
    if on(HANDLES | VALUES | CLONE) {
        let mut i = 0;
        while i < m.n {
            if probed(i) {
                let (h, alive) = (m.at(i), m.alive[i]);
                if on(HANDLES | CLONE) {
                    check(w.contains(h) == alive, "a handle is accepted <=> its entity is alive (contains)");
                    let f = ecs_find!(w, h, |h: &EntityAny| *h);
                    check(f == if alive { Some(h) } else { None }, "a handle finds exactly its own entity (ecs_find!)");
                    match w.k_0.resolve(h) {
                        Some(ix) => check(alive && w.k_0.entities()[ix].into_any() == h, "a handle resolves to exactly its own entity"),
                        None => check(!alive, "a handle is accepted <=> its entity is alive (resolve)"),
                    }
                    let f = w.to_direct(h).map(|d| ecs_find_borrow!(w, d, |h: &EntityAny| *h));
                    check(f == if alive { Some(Some(h)) } else { None }, "a handle is accepted <=> its entity is alive (to_direct)");
                }
                if on(VALUES | CLONE) && alive {
                    check(ecs_find!(w, h, |v: &V, x: &H| same(v, x, i)) == Some(true), "a read returns the entity's own components (ecs_find!)");
                    check(w.k_0.borrow(h).map(|b| same(&b.component::<V>(), &b.component::<H>(), i)) == Some(true), "a read returns the entity's own components (borrow)");
                    check(w.k_0.view(h).map(|b| same(b.v, b.h, i)) == Some(true), "a read returns the entity's own components (view)");
                }
            }
            i += 1;
        }
    }
}
/// One iteration of the kind picked, seen through `visit`.
#[inline(never)]
fn iterate(w: &mut K, m: &mut Model, full: bool) {
    if !on(ITER | VALUES | CLONE) {
        return;
    }
    m.seen = [0; M];
    let form = if full || on(ITER) { pick("form", 8) } else { [0, 3, 5][pick("form", 3)] };
    let len = m.len;
    let stop = if on(ITER) && (form < 3 || form == 7) { [0, 65536, 1, 65535, 65537][pick("break", if full { 5 } else { 2 })] } else { 0 };
    let mut n = 0;
    {
        let mut visit = |h: EntityAny, ok: &dyn Fn(usize) -> bool| {
            match m.find(h) {
                Some(i) => {
                    check(m.alive[i], "an iteration presents a dead entity");
                    check(m.seen[i] == 0, "an iteration presents an entity twice");
                    m.seen[i] = 1;
                    check(ok(i), "an iteration presents another entity's components");
                }
                None => check(false, "an iteration presents an unknown handle"),
            }
            n += 1;
            if n == stop { EcsStep::Break } else { EcsStep::Continue }
        };
        match form {
            0 => ecs_iter!(w, |h: &EntityAny, v: &V, x: &mut H| visit(*h, &|i| same(v, x, i))),
            1 => ecs_iter_borrow!(w, |h: &Entity<_>, x: &mut H, v: &V| visit(h.into_any(), &|i| same(v, x, i))),
            2 => ecs_iter!(w, |h: &Entity<K0>| visit(h.into_any(), &|_| true)),
            3 => {
                for (h, v, x) in w.k_0.iter() {
                    visit(h.into_any(), &|i| same(v, x, i));
                }
            }
            4 => {
                for (h, v, x) in w.k_0.iter_mut() {
                    visit(h.into_any(), &|i| same(v, x, i));
                }
            }
            5 => {
                let s = w.k_0.get_all_slices_mut();
                check(s.v.len() == s.entity.len() && s.h.len() == s.entity.len(), "the slices of an archetype have different lengths");
                let mut j = 0;
                while j < s.entity.len() {
                    visit(s.entity[j].into_any(), &|i| same(&s.v[j], &s.h[j], i));
                    j += 1;
                }
            }
            6 => {
                let (e, s, x) = (w.k_0.entities(), w.k_0.borrow_slice::<V>(), w.k_0.borrow_slice_mut::<H>());
                check(s.len() == e.len() && x.len() == e.len(), "the slices of an archetype have different lengths");
                let mut j = 0;
                while j < e.len() {
                    visit(e[j].into_any(), &|i| same(&s[j], &x[j], i));
                    j += 1;
                }
            }
            _ => ecs_iter_destroy!(w, |h: &EntityAny, v: &V| match visit(*h, &|i| v.v == val(i)) {
                EcsStep::Break => EcsStepDestroy::Break,
                EcsStep::Continue => EcsStepDestroy::Continue,
            }),
        }
    }
    check(n == if stop > 0 && stop < len { stop } else { len }, "an iteration presents each live entity once, up to Break");
}

/// Each entity for which `f` holds is destroyed by a loop, which stops at the `stop`-th.
#[inline(never)]
fn sweep(w: &mut K, m: &mut Model, f: impl Fn(usize) -> bool, stop: usize) {
    m.seen = [0; M];
    let live = m.len;
    let mut n = 0;
    ecs_iter_destroy!(w, |h: &EntityAny, v: &V| {
        match m.find(*h) {
            Some(i) => {
                if on(LOOP) {
                    check(m.alive[i], "the loop visits a dead entity");
                    check(m.seen[i] == 0, "the loop visits an entity twice");
                    check(v.v == val(i), "the loop presents another entity's components");
                }
                m.seen[i] = 1;
                n += 1;
                match (f(i), n == stop) {
                    (true, s) => {
                        m.gone(i);
                        if s { EcsStepDestroy::BreakDestroy } else { EcsStepDestroy::ContinueDestroy }
                    }
                    (false, true) => EcsStepDestroy::Break,
                    (false, false) => EcsStepDestroy::Continue,
                }
            }
            None => {
                if on(LOOP) {
                    check(false, "the loop visits an unknown handle");
                }
                EcsStepDestroy::Break
            }
        }
    });
    if on(LOOP) {
        check(n == if stop > 0 && stop < live { stop } else { live }, "the loop visits each live entity once, up to Break");
        check(w.k_0.len() == m.len, "exactly the flagged entities are destroyed");
        let mut i = 0;
        while i < m.n {
            let h = m.at(i);
            check(w.contains(h) == m.alive[i], "exactly the flagged entities are destroyed");
            if m.alive[i] && probed(i) {
                check(ecs_find!(w, h, |g: &EntityAny, v: &V, x: &H| same(v, x, i) && *g == h) == Some(true), "a survivor of the loop keeps its handle and values");
            }
            i += 1;
        }
    }
}
#[inline(never)]
fn events(_w: &K, m: &mut Model) {
    #[cfg(feature = "events")]
    if on(EVENTS) {
        m.seen = [0; M];
        let mut n = 0;
        for h in _w.iter_created() {
            match m.find(*h) {
                Some(i) => {
                    check(m.seen[i] & 1 == 0, "a creation is logged twice");
                    m.seen[i] |= 1;
                }
                None => check(false, "an unknown handle is in the created log"),
            }
            n += 1;
        }
        check(n == m.n, "the created log misses a creation");
        let mut n = 0;
        for h in _w.k_0.iter_destroyed() {
            match m.find(h.into_any()) {
                Some(i) => {
                    check(m.seen[i] & 2 == 0, "a destruction is logged twice");
                    check(!m.alive[i], "a live entity is in the destroyed log");
                    m.seen[i] |= 2;
                }
                None => check(false, "an unknown handle is in the destroyed log"),
            }
            n += 1;
        }
        check(n == m.removals, "the destroyed log misses a destruction");
    }
    let _ = m;
}

/// `n` entities in an archetype created with room for `cap`; `full`: more of each choice.
pub fn run(judges: u32, n: usize, cap: usize, full: bool) {
    let base_allocs = live_allocs();
    unsafe { J = judges };
    let m = unsafe { &mut MODEL };
    let mut w = K::with_capacity(KCapacity { k_0: cap });
    if on(COUNTS) {
        check(w.k_0.capacity() >= cap, "with_capacity(n) has room for n");
    }
    let c0 = w.k_0.capacity();
    let mut i = 0;
    while i < n {
        let c = w.k_0.capacity();
        let ok = create(&mut w, m, i % 2 == 1 && i < c);
        if on(COUNTS) {
            check(ok, "create_within_capacity() fails below capacity");
            check(i >= cap || w.k_0.capacity() == c0, "with_capacity(n) permits n creations without growing");
            check(w.k_0.capacity() == c || i == c, "a creation below capacity changes capacity()");
        } else {
            assume(ok);
        }
        i += 1;
    }
    judge(&mut w, m);
    let mut direct = [None; 18];
    if on(DIRECT) {
        let mut j = 0;
        while j < 18 {
            let h = m.at(AT[j]);
            direct[j] = if j % 2 == 0 { w.to_direct(h) } else { ecs_find!(w, h, |d: &EntityDirectAny| *d) };
            check(direct[j].is_some(), "no direct handle of a live entity");
            j += 1;
        }
    }
    let before = w.k_0.capacity();
    const FEW: [usize; 5] = [0, 256, 65535, 65536, 65799];
    let at = |tag| if full { AT[pick(tag, 18)] } else if on(ITER | CLONE) { 65535 } else { FEW[pick(tag, 5)] };
    match if !full && on(ITER) { [0, 1, 4][pick("what", 3)] } else { pick("what", 6) } {
        0 => (),
        1 => sweep(&mut w, m, |i| i % 2 == 1, 0),
        2 => {
            let at = at("stop");
            sweep(&mut w, m, |i| i % 3 == 0, at + 1)
        }
        3 => sweep(&mut w, m, |_| true, 0),
        4 => {
            let i = at("one");
            destroy(&mut w, m, i, i);
        }
        _ => {
            let mut i = 0;
            while i < n {
                if probed(i) || (full && i % 3 != 1) {
                    destroy(&mut w, m, i, i);
                }
                i += 1;
            }
        }
    }
    if on(DIRECT) {
        let mut j = 0;
        while j < 18 {
            match direct[j] {
                Some(d) => {
                    let h = m.at(AT[j]);
                    let f = ecs_find!(w, d, |h: &EntityAny| *h);
                    check(f == if m.removals == 0 { Some(h) } else { None }, "a direct handle designates its own entity while nothing is removed, and nothing afterwards");
                    check(w.contains(d) == f.is_some(), "a direct handle is accepted by one path only");
                    if m.alive[AT[j]] {
                        let f = w.to_direct(h).map(|d| ecs_find_borrow!(w, d, |h: &EntityAny| *h));
                        check(f == Some(Some(h)), "a direct handle designates its own entity while nothing is removed");
                    }
                }
                None => (),
            }
            j += 1;
        }
    }
    judge(&mut w, m);
    events(&w, m);
    if on(CLONE | DROPS) {
        let live = unsafe { LIVE };
        let b = w.clone();
        if on(DROPS) {
            check(unsafe { LIVE } == 2 * live && live == m.len, "clone() clones each live component exactly once");
        }
        if on(CLONE) {
            check(b.k_0.len() == w.k_0.len() && b.k_0.capacity() == w.k_0.capacity(), "a clone has the same len and capacity");
            let mut i = 0;
            while i < b.k_0.len() {
                check(b.k_0.entities()[i] == w.k_0.entities()[i], "a clone stores its entities in the same order");
                i += 1;
            }
        }
        drop(w);
        w = b;
        if on(DROPS) {
            check(unsafe { LIVE } == live, "dropping the original drops its own components only");
        }
        judge(&mut w, m);
    }
    iterate(&mut w, m, full);
    // refill: to capacity, over it
    let c = w.k_0.capacity();
    if on(COUNTS) {
        check(c >= before, "capacity() never decreases");
    }
    if on(COUNTS | CLONE | HANDLES | UNIQUE | EVENTS) {
        let room = c - m.len;
        let mut i = 0;
        while i < room {
            let ok = create(&mut w, m, i % 2 == 0);
            if on(COUNTS | CLONE | HANDLES) {
                check(ok, "create_within_capacity() fails below capacity");
                check(w.k_0.capacity() == c, "a creation below capacity changes capacity()");
            } else {
                assume(ok);
            }
            i += 1;
        }
        if on(COUNTS) {
            check(!create(&mut w, m, true), "create_within_capacity() succeeds at capacity");
            check(w.k_0.capacity() == c && w.k_0.len() == c, "a failed create_within_capacity() changes the archetype");
        }
        judge(&mut w, m);
        create(&mut w, m, false);
        if on(COUNTS) {
            check(w.k_0.capacity() > c && w.k_0.len() == c + 1, "create() at capacity grows");
        }
        judge(&mut w, m);
        events(&w, m);
    }
    drop(w);
    if on(DROPS) {
        check(unsafe { LIVE } == 0, "a component outlives its world");
        check(live_allocs() == base_allocs, "an allocation outlives the world");
        let mut i = 0;
        while i < unsafe { NEXT } {
            check(unsafe { STATE[i] == 2 }, "each component is dropped once");
            i += 1;
        }
    }
    cover("end");
}
