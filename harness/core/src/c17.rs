//! Event logs record exactly the creations and destructions since the last clear.
use crate::comps::*;
use crate::gen::with_sym_low;
use crate::rt::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(N);
    #[archetype_id(7)]
    ecs_archetype!(N0, D, P);
    ecs_archetype!(N1, Z);
    #[archetype_id(2)]
    ecs_archetype!(N2, P, L);
}
const NA: usize = 3;
const MAXL: usize = 24;

#[derive(Clone, Copy)]
struct List {
    e: [Option<EntityAny>; MAXL],
    n: usize,
}
impl List {
    fn new() -> List {
        List { e: [None; MAXL], n: 0 }
    }
    fn put(&mut self, h: EntityAny) {
        self.e[self.n] = Some(h);
        self.n += 1;
    }
    fn count(&self, h: EntityAny) -> usize {
        let (mut i, mut c) = (0, 0);
        while i < self.n {
            c += (self.e[i].unwrap() == h) as usize;
            i += 1;
        }
        c
    }
    /// The same handles, each as often.
    fn same(&self, o: &List, msg: &'static str) {
        check(self.n == o.n, msg);
        let mut i = 0;
        while i < self.n {
            let h = self.e[i].unwrap();
            check(self.count(h) == 1 && o.count(h) == 1, msg);
            i += 1;
        }
    }
}
#[derive(Clone, Copy)]
struct M {
    all: [Option<(EntityAny, bool)>; MAXL],
    n: usize,
    c: [List; NA],
    d: [List; NA],
}
fn arch(h: EntityAny) -> usize {
    match h.archetype_id() {
        7 => 0,
        8 => 1,
        _ => 2,
    }
}
impl M {
    fn new() -> M {
        M { all: [None; MAXL], n: 0, c: [List::new(); NA], d: [List::new(); NA] }
    }
    fn born(&mut self, h: EntityAny) {
        self.all[self.n] = Some((h, true));
        self.n += 1;
        self.c[arch(h)].put(h);
    }
    fn died(&mut self, h: EntityAny) {
        let mut i = 0;
        while i < self.n {
            if self.all[i].unwrap().0 == h {
                check(self.all[i].unwrap().1, "an entity is destroyed twice");
                self.all[i] = Some((h, false));
            }
            i += 1;
        }
        self.d[arch(h)].put(h);
    }
    fn clear(&mut self, k: usize) {
        self.c[k] = List::new();
        self.d[k] = List::new();
    }
}

fn drain<'a>(mut it: impl Iterator<Item = &'a EntityAny>, total: usize) -> List {
    let mut l = List::new();
    loop {
        let left = total - if l.n < total { l.n } else { total };
        check(it.size_hint() == (left, Some(left)), "size_hint() is exact at every position");
        match it.next() {
            Some(h) => {
                check(l.n < total, "a world-level log yields more than the archetypes' logs hold");
                l.put(*h);
            }
            None => break,
        }
    }
    check(l.n == total, "a world-level log yields less than the archetypes' logs hold");
    check(it.next().is_none(), "an exhausted log yields more");
    check(it.size_hint() == (0, Some(0)), "size_hint() is exact at every position");
    l
}
fn agree(w: &N, m: &M) {
    let (mut c, mut d) = ([List::new(); NA], [List::new(); NA]);
    for h in w.n_0.iter_created() { c[0].put(h.into_any()); }
    for h in w.n_0.iter_destroyed() { d[0].put(h.into_any()); }
    for h in w.n_1.iter_created() { c[1].put(h.into_any()); }
    for h in w.n_1.iter_destroyed() { d[1].put(h.into_any()); }
    for h in w.archetype::<N2>().iter_created() { c[2].put(h.into_any()); }
    for h in w.archetype::<N2>().iter_destroyed() { d[2].put(h.into_any()); }
    let (mut nc, mut nd) = (0, 0);
    let mut k = 0;
    while k < NA {
        m.c[k].same(&c[k], "the created log holds exactly the creations since the last clear");
        m.d[k].same(&d[k], "the destroyed log holds exactly the destructions since the last clear");
        nc += c[k].n;
        nd += d[k].n;
        k += 1;
    }
    let wc = drain(w.iter_created(), nc);
    let wd = drain(w.iter_destroyed(), nd);
    let mut k = 0;
    while k < NA {
        let mut i = 0;
        while i < c[k].n {
            check(wc.count(c[k].e[i].unwrap()) == 1, "the world-level created log is the union of the archetypes' logs");
            i += 1;
        }
        let mut i = 0;
        while i < d[k].n {
            check(wd.count(d[k].e[i].unwrap()) == 1, "the world-level destroyed log is the union of the archetypes' logs");
            i += 1;
        }
        k += 1;
    }
}
/// The entities themselves are as they should be.
fn entities(w: &mut N, m: &M) {
    let mut n = [0; NA];
    let mut i = 0;
    while i < m.n {
        let (h, alive) = m.all[i].unwrap();
        check(w.contains(h) == alive, "an entity exists <=> it is alive");
        n[arch(h)] += alive as usize;
        i += 1;
    }
    check(w.n_0.len() == n[0] && w.n_1.len() == n[1] && w.n_2.len() == n[2], "len() == number of live entities");
}
fn create(w: &mut N, m: &mut M, k: usize, side: bool) {
    let h = match (k, side) {
        (0, false) => w.create::<N0>((D::mk(1), P(2))).into_any(),
        (0, _) => w.n_0.create((D::mk(1), P(2))).into_any(),
        (1, false) => w.create::<N1>((Z::mk(0),)).into_any(),
        (1, _) => w.n_1.create((Z::mk(0),)).into_any(),
        (_, false) => w.create::<N2>((P(3), L(4))).into_any(),
        _ => w.n_2.create((P(3), L(4))).into_any(),
    };
    m.born(h);
}
const PATHS: usize = 8;
fn destroy(w: &mut N, h: EntityAny, how: usize) -> bool {
    macro_rules! typed {
        ($A:ident, $f:ident) => {{
            let e = Entity::<$A>::from_any(h);
            match how {
                2 => w.destroy(e).is_some(),
                3 => match w.to_direct(e) { Some(d) => w.destroy(d).is_some(), None => false },
                4 => w.$f.destroy(e).is_some(),
                5 => w.$f.destroy(h).is_some(),
                6 => match w.$f.to_direct(e) { Some(d) => w.$f.destroy(d).is_some(), None => false },
                _ => match w.$f.to_direct(h) { Some(d) => w.$f.destroy(d).is_some(), None => false },
            }
        }};
    }
    match (how, arch(h)) {
        (0, _) => w.destroy(h).is_some(),
        (1, _) => match w.to_direct(h) { Some(d) => w.destroy(d).is_some(), None => false },
        (_, 0) => typed!(N0, n_0),
        (_, 1) => typed!(N1, n_1),
        _ => typed!(N2, n_2),
    }
}

/// Any history of everything that can create, destroy, fail to do so, or clear.
pub fn hist(steps: usize, seeded: usize, narch: usize, symgen: bool) {
    let make = || N::with_capacity(NCapacity { n_0: 2, n_1: 0, n_2: 1 });
    let mut w = if symgen { with_sym_low(true, true, make) } else { make() };
    let mut m = M::new();
    agree(&w, &m);
    let mut i = 0;
    while i < seeded {
        create(&mut w, &mut m, i % narch, i % 2 == 1);
        i += 1;
    }
    if seeded > 0 && sym_bool("clear") {
        w.clear_events();
        let mut k = 0;
        while k < NA {
            m.clear(k);
            k += 1;
        }
    }
    let mut s = 0;
    while s < steps {
        match pick("op", if m.n > 0 { 7 } else { 3 }) {
            0 => {
                let k = pick("arch", narch);
                create(&mut w, &mut m, k, s % 2 == 0);
            }
            1 => {
                // may fail: then nothing is logged
                let r = if narch > 2 && sym_bool("arch2") {
                    w.n_2.create_within_capacity((P(1), L(2))).ok().map(|e| e.into_any())
                } else {
                    w.create_within_capacity::<N0>((D::mk(1), P(2))).ok().map(|e| e.into_any())
                };
                match r {
                    Some(h) => m.born(h),
                    None => cover("full"),
                }
            }
            2 => match pick("which", NA + 1) {
                0 => { w.n_0.clear_events(); m.clear(0) }
                1 => { w.n_1.clear_events(); m.clear(1) }
                2 => { w.n_2.clear_events(); m.clear(2) }
                _ => {
                    w.clear_events();
                    m.clear(0);
                    m.clear(1);
                    m.clear(2);
                }
            },
            3 | 4 => {
                let (h, alive) = m.all[pick("entity", m.n)].unwrap();
                let ok = destroy(&mut w, h, pick("how", PATHS));
                check(ok == alive, "destroy() succeeds <=> the entity is alive");
                if ok {
                    m.died(h);
                } else {
                    cover("stale");
                }
            }
            5 => {
                // a loop with a decision per entity, possibly ended early
                let mm = &mut m;
                ecs_iter_destroy!(w, |h: &EntityAny| {
                    match pick("step", 4) {
                        0 => EcsStepDestroy::Continue,
                        1 => { mm.died(*h); EcsStepDestroy::ContinueDestroy }
                        2 => EcsStepDestroy::Break,
                        _ => { mm.died(*h); EcsStepDestroy::BreakDestroy }
                    }
                });
            }
            _ => {
                // neither reads nor writes nor clones are events
                ecs_iter!(w, |p: &mut P| p.set(9));
                let mut v = w.clone();
                agree(&v, &m);
                entities(&mut v, &m);
                if sym_bool("swap") {
                    w = v;
                } else {
                    v.clear_events();
                    create(&mut v, &mut M::new(), 0, false);
                }
            }
        }
        agree(&w, &m);
        entities(&mut w, &m);
        s += 1;
    }
    cover("end");
}
/// The iterators at the boundaries between archetypes: every combination of log lengths.
pub fn unions(max: usize) {
    let mut w = N::new();
    let mut m = M::new();
    let n = [pick("n0", max + 1), pick("n1", max + 1), pick("n2", max + 1)];
    let mut k = 0;
    while k < NA {
        let mut i = 0;
        while i < n[k] {
            create(&mut w, &mut m, k, i % 2 == 0);
            i += 1;
        }
        k += 1;
    }
    agree(&w, &m);
    let d = pick("dead", 8);
    let mut i = 0;
    while i < m.n {
        let h = m.all[i].unwrap().0;
        if d >> arch(h) & 1 == 1 {
            check(destroy(&mut w, h, i % PATHS), "destroy() succeeds <=> the entity is alive");
            m.died(h);
        }
        i += 1;
    }
    agree(&w, &m);
    // partial consumption, then every other adaptor-relevant entry point
    let total = m.c[0].n + m.c[1].n + m.c[2].n;
    let j = pick("skip", total + 1);
    let mut it = w.iter_created();
    let mut i = 0;
    while i < j {
        check(it.next().is_some(), "a world-level log yields less than the archetypes' logs hold");
        i += 1;
    }
    check(it.size_hint() == (total - j, Some(total - j)), "size_hint() is exact at every position");
    check(it.count() == total - j, "size_hint() is exact at every position");
    check(w.iter_created().nth(total).is_none(), "a world-level log yields more than the archetypes' logs hold");
    w.clear_events();
    let mut k = 0;
    while k < NA {
        m.clear(k);
        k += 1;
    }
    agree(&w, &m);
    entities(&mut w, &m);
    cover("end");
}
