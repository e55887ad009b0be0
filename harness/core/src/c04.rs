//! Ownership of component values: every value is dropped exactly once, by exactly one owner.
use crate::comps::*;
use crate::rt::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(V);
    ecs_archetype!(T0, D, X, E);
    ecs_archetype!(T1, Z, D);
    ecs_archetype!(T2, E);
}

#[derive(Clone, Copy)]
pub struct Ent {
    pub h: EntityAny,
    pub k: usize,
    /// ids of its tracked values (the second only in T0)
    pub id: [usize; 2],
    pub n: usize,
    pub alive: bool,
}
pub const MAXE: usize = 40;
pub struct Model {
    pub e: [Option<Ent>; MAXE],
    pub n: usize,
}
impl Model {
    pub fn new() -> Self {
        Model { e: [None; MAXE], n: 0 }
    }
    pub fn at(&self, i: usize) -> Ent {
        self.e[i].unwrap()
    }
    pub fn add(&mut self, h: EntityAny, k: usize, id: [usize; 2], n: usize) {
        self.e[self.n] = Some(Ent { h, k, id, n, alive: true });
        self.n += 1;
    }
    fn set(&mut self, i: usize, f: impl FnOnce(&mut Ent)) {
        f(self.e[i].as_mut().unwrap())
    }
    pub fn find(&self, h: EntityAny) -> usize {
        let mut i = 0;
        while i < self.n {
            if self.at(i).h == h {
                break;
            }
            i += 1;
        }
        check(i < self.n, "an entity of the world was never created");
        i
    }
}

/// Exactly the values of the live entities (and `extra` others) are alive.
pub fn balance(m: &Model, extra: usize, extra_z: i32) {
    let (mut want, mut z) = (extra, extra_z);
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        let mut j = 0;
        while j < x.n {
            if x.alive {
                check(d_is_live(x.id[j]), "a component of a live entity was dropped");
                want += 1;
            } else {
                check(d_is_dropped(x.id[j]), "a component of a destroyed entity was not dropped");
            }
            j += 1;
        }
        if x.alive && x.k == 1 {
            z += 1;
        }
        i += 1;
    }
    check(d_live() == want, "live component values == components of live entities");
    check(z_live() == z, "live zero-sized components == components of live entities");
}

pub fn t0(v: u32) -> (D, X, E) {
    (D::mk(v), X::mk(v ^ 1), E::mk(v ^ 2))
}
pub fn t1(v: u32) -> (Z, D) {
    (Z::mk(0), D::mk(v))
}
pub fn create(w: &mut V, m: &mut Model, k: usize) {
    let v = sym32("v");
    let n = d_next();
    match k {
        0 => {
            let h = w.create::<T0>(t0(v));
            m.add(h.into(), 0, [n, n + 1], 2);
        }
        1 => {
            let h = w.t_1.create(t1(v));
            m.add(h.into(), 1, [n, 0], 1);
        }
        _ => {
            let h = w.create::<T2>((E::mk(v),));
            m.add(h.into(), 2, [n, 0], 1);
        }
    }
}
fn within(w: &mut V, m: &mut Model, k: usize) {
    let v = sym32("v");
    let n = d_next();
    if k == 0 {
        match w.create_within_capacity::<T0>(t0(v)) {
            Ok(h) => m.add(h.into(), 0, [n, n + 1], 2),
            Err(c) => {
                cover("full");
                check(c.d.id as usize == n && d_is_live(n) && c.e.id as usize == n + 1 && d_is_live(n + 1), "a failed create_within_capacity returns its argument");
                check(c.d.get() == v && c.x.get() == v ^ 1 && c.e.get() == v ^ 2, "a failed create_within_capacity returns its argument");
                drop(c);
                check(d_is_dropped(n) && d_is_dropped(n + 1), "the returned argument is owned by the caller");
            }
        }
    } else {
        match w.t_1.create_within_capacity(t1(v)) {
            Ok(h) => m.add(h.into(), 1, [n, 0], 1),
            Err(c) => {
                cover("full");
                check(c.d.id as usize == n && d_is_live(n) && c.d.get() == v, "a failed create_within_capacity returns its argument");
                drop(c);
            }
        }
    }
}
fn handed(id: usize, want: usize, alive: bool) {
    check(alive, "destroy() hands out the components of a dead entity");
    check(id == want, "destroy() hands out the entity's own components");
    check(d_is_live(id), "destroy() hands out a dropped component");
}
pub fn destroy(w: &mut V, m: &mut Model, i: usize, kind: usize) {
    let x = m.at(i);
    let any = x.h;
    let done = match (x.k, kind) {
        (_, 0) => w.destroy(any).is_some(),
        (_, 1) => match w.to_direct(any) {
            Some(d) => w.destroy(d).is_some(),
            None => false,
        },
        (0, 2) => match w.destroy(Entity::<T0>::from_any(any)) {
            Some(c) => {
                handed(c.d.id as usize, x.id[0], x.alive);
                handed(c.e.id as usize, x.id[1], x.alive);
                let (d, y, e) = c.into_tuple();
                check(d.v ^ 1 == y.get() && d.v ^ 2 == e.v, "destroy() hands out the entity's own components");
                drop(d);
                check(d_is_dropped(x.id[0]) && d_is_live(x.id[1]), "the components handed out are owned separately");
                true
            }
            None => false,
        },
        (0, _) => match w.t_0.destroy(any) {
            Some(c) => {
                handed(c.d.id as usize, x.id[0], x.alive);
                true
            }
            None => false,
        },
        (1, 2) => match w.destroy(Entity::<T1>::from_any(any)) {
            Some(c) => {
                handed(c.d.id as usize, x.id[0], x.alive);
                true
            }
            None => false,
        },
        (1, _) => match w.t_1.to_direct(Entity::<T1>::from_any(any)) {
            Some(d) => {
                let c = w.t_1.destroy(d);
                check(c.is_some(), "a fresh direct handle can be destroyed");
                handed(c.unwrap().d.id as usize, x.id[0], x.alive);
                true
            }
            None => false,
        },
        _ => match w.destroy(Entity::<T2>::from_any(any)) {
            Some(c) => {
                handed(c.e.id as usize, x.id[0], x.alive);
                true
            }
            None => false,
        },
    };
    check(done == x.alive, "destroy() succeeds <=> the entity is alive");
    m.set(i, |x| x.alive = false);
}

/// The ids of an entity's tracked values, as the world shows them.
fn ids(w: &mut V, h: EntityAny) -> Option<[usize; 2]> {
    match h.archetype_id() {
        T0::ARCHETYPE_ID => ecs_find!(w, h, |d: &D, e: &E| [d.id as usize, e.id as usize]),
        T1::ARCHETYPE_ID => ecs_find!(w, h, |d: &D| [d.id as usize, 0]),
        _ => ecs_find!(w, h, |e: &E| [e.id as usize, 0]),
    }
}
pub fn shows(w: &mut V, m: &Model) {
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        let r = ids(w, x.h);
        check(r.is_some() == x.alive, "an entity is reachable <=> it is alive");
        if let Some(r) = r {
            check(r[0] == x.id[0] && r[1] == x.id[1], "an entity holds the values it was given");
        }
        i += 1;
    }
}

/// Clones `w`; checks that each live value was cloned exactly once, and yields the clone's model.
#[inline(never)]
pub fn clone(w: &V, m: &Model) -> (V, Model) {
    d_reset_clones();
    let z = z_live();
    let before = d_live();
    let mut w2 = w.clone();
    let mut m2 = Model::new();
    let mut i = 0;
    while i < m.n {
        let mut x = m.at(i);
        let mut j = 0;
        while j < x.n {
            check(d_clones(x.id[j]) == x.alive as u8, "cloning a world clones each live component exactly once");
            j += 1;
        }
        if x.alive {
            match ids(&mut w2, x.h) {
                Some(r) => {
                    let mut j = 0;
                    while j < x.n {
                        check(r[j] != x.id[j], "a world and its clone own the same value");
                        check(d_is_live(r[j]), "a clone holds a dropped value");
                        j += 1;
                    }
                    x.id = r;
                }
                None => check(false, "a clone lacks a live entity"),
            }
        } else {
            x.n = 0;
        }
        m2.e[i] = Some(x);
        m2.n += 1;
        i += 1;
    }
    check(d_live() == 2 * before, "cloning a world creates one value per live value");
    check(z_live() == 2 * z, "cloning a world creates one zero-sized value per live value");
    (w2, m2)
}
fn both(m: &Model, m2: &Model) {
    // each model's own values, and nothing else
    let mut n = 0;
    let mut z = 0;
    let mut i = 0;
    while i < m2.n {
        let x = m2.at(i);
        if x.alive {
            n += x.n;
            z += (x.k == 1) as i32;
        }
        i += 1;
    }
    balance(m, n, z);
    let mut n = 0;
    let mut z = 0;
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        if x.alive {
            n += x.n;
            z += (x.k == 1) as i32;
        }
        i += 1;
    }
    balance(m2, n, z);
}

fn iter_destroy(w: &mut V, m: &mut Model) {
    let mut kill = [false; MAXE];
    let kk = &mut kill;
    let mm = &*m;
    ecs_iter_destroy!(w, |h: &EntityAny, d: &mut D| {
        let i = mm.find(*h);
        check(d.id as usize == mm.at(i).id[0] && d_is_live(d.id as usize), "ecs_iter_destroy! presents the entity's own values");
        match pick("step", 4) {
            0 => EcsStepDestroy::Continue,
            1 => EcsStepDestroy::Break,
            2 => {
                kk[i] = true;
                EcsStepDestroy::ContinueDestroy
            }
            _ => {
                kk[i] = true;
                EcsStepDestroy::BreakDestroy
            }
        }
    });
    let mut i = 0;
    while i < m.n {
        if kill[i] {
            check(m.at(i).alive, "ecs_iter_destroy! presents a dead entity");
            m.set(i, |x| x.alive = false);
        }
        i += 1;
    }
}
fn overwrite(w: &mut V, m: &mut Model) {
    // replacing a value through a mutable access drops the old one
    let i = pick("entity", m.n);
    let x = m.at(i);
    let n = d_next();
    let v = sym32("v");
    let r = match x.k {
        0 => w.t_0.view(Entity::<T0>::from_any(x.h)).map(|s| {
            *s.d = D::mk(v);
            *s.x = X::mk(v ^ 1);
            *s.e = E::mk(v ^ 2);
        }),
        1 => ecs_find!(w, x.h, |d: &mut D| *d = D::mk(v)),
        _ => ecs_find_borrow!(w, x.h, |e: &mut E| *e = E::mk(v)),
    };
    check(r.is_some() == x.alive, "a write reaches an entity <=> it is alive");
    if x.alive {
        check(d_is_dropped(x.id[0]), "an overwritten value is dropped");
        m.set(i, |x| x.id = [n, if x.n == 2 { n + 1 } else { 0 }]);
    }
}

pub fn hist(steps: usize, caps: usize) {
    let base = live_allocs();
    {
        let c = pick("cap", caps);
        let mut w = V::with_capacity(VCapacity { t_0: c, t_1: c, t_2: 0 });
        let mut m = Model::new();
        let mut s = 0;
        while s < steps {
            let op = pick("op", 9 + m.n);
            match op {
                0 | 1 | 2 => create(&mut w, &mut m, op),
                3 | 4 => within(&mut w, &mut m, op - 3),
                5 => {
                    let (w2, m2) = clone(&w, &m);
                    drop(w2);
                    let mut i = 0;
                    while i < m2.n {
                        let x = m2.at(i);
                        if x.alive {
                            check(d_is_dropped(x.id[0]) && (x.n < 2 || d_is_dropped(x.id[1])), "dropping a clone drops its values");
                        }
                        i += 1;
                    }
                    balance(&m, 0, 0);
                }
                6 => {
                    let (w2, m2) = clone(&w, &m);
                    both(&m, &m2);
                    w = w2; // drops the original
                    m = m2;
                }
                7 => iter_destroy(&mut w, &mut m),
                8 => {
                    if m.n > 0 {
                        overwrite(&mut w, &mut m);
                    }
                }
                _ => destroy(&mut w, &mut m, op - 9, s % 4),
            }
            balance(&m, 0, 0);
            s += 1;
        }
        shows(&mut w, &m);
        drop(w);
        let mut i = 0;
        while i < m.n {
            m.set(i, |x| x.alive = false);
            i += 1;
        }
        balance(&m, 0, 0);
    }
    check(live_allocs() == base, "a dropped world leaves no allocation behind");
    cover("end");
}

/// One archetype, every destroy path, across growth; then the world or its clone goes first.
pub fn grow(n: usize) {
    let base = live_allocs();
    {
        let k = pick("arch", 3);
        let n = pick("n", n + 1);
        let mut w = V::new();
        let mut m = Model::new();
        let mut i = 0;
        while i < n {
            create(&mut w, &mut m, k);
            i += 1;
        }
        balance(&m, 0, 0);
        if n > 0 {
            let i = pick("i", n);
            let kind = pick("kind", 4);
            destroy(&mut w, &mut m, i, kind);
            balance(&m, 0, 0);
            let again = pick("again", 3);
            let mut j = 0;
            while j < again {
                create(&mut w, &mut m, k);
                j += 1;
            }
        }
        let (mut w2, mut m2) = clone(&w, &m);
        both(&m, &m2);
        if n > 1 {
            destroy(&mut w2, &mut m2, pick("j", 2), 2);
            both(&m, &m2);
        }
        shows(&mut w, &m);
        shows(&mut w2, &m2);
        if sym_bool("first") {
            drop(w);
            let mut i = 0;
            while i < m.n {
                m.set(i, |x| x.alive = false);
                i += 1;
            }
            both(&m, &m2);
            shows(&mut w2, &m2);
        } else {
            drop(w2);
            let mut i = 0;
            while i < m2.n {
                m2.set(i, |x| x.alive = false);
                i += 1;
            }
            both(&m, &m2);
            shows(&mut w, &m);
        }
    }
    check(d_live() == 0 && z_live() == 0, "dropping every world drops every component");
    check(live_allocs() == base, "a dropped world leaves no allocation behind");
    cover("end");
}
