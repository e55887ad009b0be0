//! len() and capacity() are exact; creation respects capacity and the limit.
use crate::comps::*;
use crate::rt::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(K);
    ecs_archetype!(K0, P, D);
    ecs_archetype!(K1, Z);
    ecs_archetype!(K2, S8, L);
}
pub const LIMIT: usize = if cfg!(gecs_verif_small) { 5 } else { 1 << 24 };
const MAXN: usize = 24;

/// What is known about each archetype.
#[derive(Clone, Copy)]
struct M {
    n: [usize; 3],
    cap: [usize; 3],
    e: [[Option<EntityAny>; MAXN]; 3],
}
impl M {
    fn put(&mut self, k: usize, h: EntityAny) {
        let mut i = 0;
        while self.e[k][i].is_some() {
            i += 1;
        }
        self.e[k][i] = Some(h);
        self.n[k] += 1;
    }
    fn nth(&self, k: usize, mut j: usize) -> usize {
        let mut i = 0;
        loop {
            if self.e[k][i].is_some() {
                if j == 0 {
                    return i;
                }
                j -= 1;
            }
            i += 1;
        }
    }
}
fn cap(w: &K, k: usize) -> usize {
    match k {
        0 => w.k_0.capacity(),
        1 => w.k_1.capacity(),
        _ => w.archetype::<K2>().capacity(),
    }
}
/// Addresses of the arrays that have one.
fn at(w: &mut K, k: usize) -> [usize; 2] {
    match k {
        0 => [w.k_0.entities().as_ptr() as usize, w.k_0.get_slice::<D>().as_ptr() as usize ^ w.k_0.get_slice::<P>().as_ptr() as usize],
        1 => [w.k_1.entities().as_ptr() as usize, 0],
        _ => [w.k_2.entities().as_ptr() as usize, w.k_2.get_slice::<L>().as_ptr() as usize],
    }
}
fn counts(w: &mut K, m: &M) {
    let len = [w.k_0.len(), w.k_1.len(), w.archetype::<K2>().len()];
    let empty = [w.k_0.is_empty(), w.k_1.is_empty(), w.archetype::<K2>().is_empty()];
    let ents = [w.k_0.entities().len(), w.k_1.entities().len(), w.k_2.entities().len()];
    let mut k = 0;
    while k < 3 {
        check(len[k] == m.n[k], "len() == number of live entities");
        check(empty[k] == (m.n[k] == 0), "is_empty() <=> len() == 0");
        check(ents[k] == m.n[k], "entities().len() == number of live entities");
        check(cap(w, k) >= len[k], "capacity() >= len()");
        check(cap(w, k) <= LIMIT, "capacity() <= the limit");
        k += 1;
    }
}
/// The capacities that an operation may have changed: only by growing.
fn grown(w: &mut K, m: &mut M, may: usize) {
    let mut k = 0;
    while k < 3 {
        let c = cap(w, k);
        check(c >= m.cap[k], "capacity() decreased");
        check(c == m.cap[k] || k == may, "an operation that needs no room changed capacity()");
        m.cap[k] = c;
        k += 1;
    }
    counts(w, m);
}
/// World-level and archetype-level calls take turns.
fn toggle() -> u8 {
    static mut SIDE: u8 = 0;
    unsafe {
        SIDE ^= 1;
        SIDE
    }
}
fn create(w: &mut K, m: &mut M, k: usize) -> bool {
    let v = sym32("v");
    let full = m.n[k] == LIMIT;
    let side = toggle();
    let (at0, room) = (at(w, k), m.n[k] < m.cap[k]);
    let r = catch(|| match (k, side) {
        (0, 0) => w.create::<K0>((P(v), D::mk(v))).into_any(),
        (0, _) => w.k_0.create((P(v), D::mk(v))).into(),
        (1, 0) => w.create::<K1>((Z::mk(0),)).into_any(),
        (1, _) => w.k_1.create((Z::mk(0),)).into_any(),
        (_, 0) => w.create::<K2>((S8(v as u8), L(v))).into_any(),
        _ => w.archetype_mut::<K2>().create((S8(v as u8), L(v))).into_any(),
    });
    check(r.is_some() != full, "create() panics <=> the archetype is at the limit");
    if let Some(h) = r {
        m.put(k, h);
        check(w.contains(h), "a created entity exists");
    } else {
        cover("limit");
    }
    if room {
        check(at(w, k) == at0, "creation within capacity reallocated");
    }
    grown(w, m, if room || full { 3 } else { k });
    !full
}
fn within(w: &mut K, m: &mut M, k: usize) -> bool {
    let v = sym32("v");
    let side = toggle();
    let (at0, room) = (at(w, k), m.n[k] < m.cap[k]);
    let id = d_next();
    let z = z_live();
    let bad = "a failed create_within_capacity returns its argument";
    let r = match (k, side) {
        (0, 0) => w.create_within_capacity::<K0>((P(v), D::mk(v))).map(|e| e.into_any()).map_err(|c| check(c.p.get() == v && c.d.get() == v && c.d.id as usize == id, bad)),
        (0, _) => w.k_0.create_within_capacity((P(v), D::mk(v))).map(|e| e.into_any()).map_err(|c| check(c.p.get() == v && c.d.get() == v && c.d.id as usize == id, bad)),
        (1, 0) => w.create_within_capacity::<K1>((Z::mk(0),)).map(|e| e.into_any()).map_err(|c| check(z_live() == z + 1, bad)),
        (1, _) => w.k_1.create_within_capacity((Z::mk(0),)).map(|e| e.into_any()).map_err(|c| check(z_live() == z + 1, bad)),
        (_, 0) => w.create_within_capacity::<K2>((S8(v as u8), L(v))).map(|e| e.into_any()).map_err(|c| check(c.s_8.get() == v & 255 && c.l.get() == v, bad)),
        _ => w.k_2.create_within_capacity((S8(v as u8), L(v))).map(|e| e.into_any()).map_err(|c| check(c.s_8.get() == v & 255 && c.l.get() == v, bad)),
    };
    check(r.is_ok() == room, "create_within_capacity() succeeds <=> len() < capacity()");
    if let Ok(h) = r {
        m.put(k, h);
        check(w.contains(h), "a created entity exists");
    } else {
        cover("full");
    }
    check(at(w, k) == at0, "create_within_capacity() reallocated");
    grown(w, m, 3);
    room
}
fn destroy(w: &mut K, m: &mut M, k: usize, j: usize, how: usize) {
    let i = m.nth(k, j);
    let h = m.e[k][i].unwrap();
    let ok = match (how, k) {
        (0, _) => w.destroy(h).is_some(),
        (1, _) => { let d = w.to_direct(h).unwrap(); w.destroy(d).is_some() }
        (2, 0) => w.k_0.destroy(Entity::<K0>::from_any(h)).is_some(),
        (2, 1) => w.k_1.destroy(Entity::<K1>::from_any(h)).is_some(),
        (2, _) => w.k_2.destroy(Entity::<K2>::from_any(h)).is_some(),
        _ => {
            let mut n = 0;
            let r = &mut n;
            ecs_iter_destroy!(w, |x: &EntityAny| {
                if *x == h { *r += 1; EcsStepDestroy::BreakDestroy } else { EcsStepDestroy::Continue }
            });
            n == 1
        }
    };
    check(ok, "a live entity can be destroyed");
    m.e[k][i] = None;
    m.n[k] -= 1;
    // a second attempt removes nothing
    check(w.destroy(h).is_none(), "a destroyed entity is destroyed again");
    grown(w, m, 3);
}
fn fresh(c: [usize; 3]) -> (K, M) {
    let mut w = K::with_capacity(KCapacity { k_0: c[0], k_1: c[1], k_2: c[2] });
    let mut m = M { n: [0; 3], cap: [0; 3], e: [[None; MAXN]; 3] };
    let mut k = 0;
    while k < 3 {
        m.cap[k] = cap(&w, k);
        check(m.cap[k] >= c[k], "with_capacity(n) permits n creations without reallocation");
        k += 1;
    }
    counts(&mut w, &m);
    (w, m)
}

/// Any history over three archetypes that start with any small capacity.
pub fn hist(steps: usize, maxcap: usize) {
    let c = [pick("cap0", maxcap + 1), pick("cap1", maxcap + 1), 0];
    let (mut w, mut m) = fresh(c);
    let mut s = 0;
    while s < steps {
        let k = pick("arch", 3);
        match pick("op", if m.n[k] > 0 { 4 } else { 3 }) {
            0 => drop(create(&mut w, &mut m, k)),
            1 => drop(within(&mut w, &mut m, k)),
            2 => {
                let v = w.clone();
                let mut j = 0;
                while j < 3 {
                    check(cap(&v, j) == m.cap[j], "a clone has the same capacity");
                    j += 1;
                }
                if sym_bool("swap") {
                    w = v;
                }
                grown(&mut w, &mut m, 3);
            }
            _ => {
                let j = pick("victim", m.n[k]);
                destroy(&mut w, &mut m, k, j, pick("how", 4));
            }
        }
        s += 1;
    }
    cover("end");
}

/// Fill to capacity, free any subset of the positions in any order, and exactly those can be reused:
/// without reallocation, for as often as one likes. `n`: requested capacity; `over`: creations first.
pub fn reuse(maxcap: usize, over: usize, frees: usize, rounds: usize) {
    let k = pick("arch", 3);
    let mut c = [0; 3];
    c[k] = pick("cap", maxcap + 1);
    let (mut w, mut m) = fresh(c);
    let mut i = 0;
    let pre = pick("over", over + 1);
    while i < pre {
        create(&mut w, &mut m, k);
        i += 1;
    }
    let mut r = 0;
    while r < rounds {
        while m.n[k] < m.cap[k] {
            check(within(&mut w, &mut m, k), "create_within_capacity() succeeds <=> len() < capacity()");
        }
        check(!within(&mut w, &mut m, k), "create_within_capacity() succeeds <=> len() < capacity()");
        let f = if m.n[k] < frees { m.n[k] } else { frees };
        let f = pick("frees", f + 1);
        let how = pick("how", 4);
        let mut i = 0;
        while i < f {
            let j = pick("victim", m.n[k]);
            destroy(&mut w, &mut m, k, j, how);
            i += 1;
        }
        r += 1;
    }
    while within(&mut w, &mut m, k) {}
    check(m.n[k] == m.cap[k], "every freed position is reusable");
    if m.n[k] < LIMIT {
        check(create(&mut w, &mut m, k), "create() succeeds below the limit");
    }
    cover("end");
}

/// `with_capacity(n)` for every n up to what the executor's allocations can hold; then n creations.
pub fn roomy() {
    let n = sym("n", 64) as usize;
    assume(n <= LIMIT);
    let k = pick("arch", 4);
    let r = catch(|| match k {
        0 => K::with_capacity(KCapacity { k_0: n, ..Default::default() }),
        1 => K::with_capacity(KCapacity { k_1: n, ..Default::default() }),
        2 => K::with_capacity(KCapacity { k_2: n, ..Default::default() }),
        _ => K { k_0: K0::with_capacity(n), k_1: K1::new(), k_2: K2::with_capacity(0) },
    });
    check(r.is_some(), "with_capacity(n) panics although n is within the limit");
    if let Some(mut w) = r {
        let k = k % 3;
        let mut m = M { n: [0; 3], cap: [cap(&w, 0), cap(&w, 1), cap(&w, 2)], e: [[None; MAXN]; 3] };
        check(m.cap[k] >= n, "with_capacity(n) permits n creations without reallocation");
        counts(&mut w, &m);
        let mut c = m.cap[k];
        assume(c < MAXN);
        let a = at(&mut w, k);
        while c > 0 {
            check(create(&mut w, &mut m, k), "with_capacity(n) permits n creations");
            c -= 1;
        }
        check(at(&mut w, k) == a, "with_capacity(n) permits n creations without reallocation");
        check(!within(&mut w, &mut m, k), "create_within_capacity() succeeds <=> len() < capacity()");
        cover("end");
    }
}
/// ... and for every larger n it panics without attempting to allocate.
pub fn beyond() {
    let n = sym("n", 64) as usize;
    assume(n > LIMIT);
    let k = pick("arch", 5);
    no_big_alloc(true);
    let r = catch(|| match k {
        0 => drop(K::with_capacity(KCapacity { k_0: n, ..Default::default() })),
        1 => drop(K::with_capacity(KCapacity { k_1: n, ..Default::default() })),
        2 => drop(K::with_capacity(KCapacity { k_2: n, k_0: 1, k_1: 2 })),
        3 => drop(K1::with_capacity(n)),
        _ => drop(K2::with_capacity(n)),
    });
    no_big_alloc(false);
    check(r.is_none(), "with_capacity() beyond the limit does not panic");
    cover("end");
}
