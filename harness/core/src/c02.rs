use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

fn prefix(w: &mut W, m: &mut Model, na: usize, nb: usize) {
    let n = 1 + pick("na", na);
    let mut i = 0;
    while i < n {
        let v = fresh_vals();
        create(w, m, 0, v);
        i += 1;
    }
    let n = 1 + pick("nb", nb);
    let mut i = 0;
    while i < n {
        let v = fresh_vals();
        create(w, m, 1, v);
        i += 1;
    }
    let v = fresh_vals();
    create(w, m, 2, v);
    let v = fresh_vals();
    create(w, m, 2, v);
}

fn write(w: &mut W, m: &mut Model, i: usize, p: usize) {
    let v = fresh_vals();
    let x = m.at(i);
    let r = match x.h {
        H::A(h) => a::write(w, h, p, v),
        H::B(h) => b::write(w, h, p, v),
        H::C(h) => c::write(w, h, p, v),
    };
    check(r == x.alive, "a write path accepts the handle <=> the entity is alive");
    if x.alive {
        m.e[i].as_mut().unwrap().v = v;
    }
}

/// A write through every path to any entity is seen by every read path and changes nothing else.
pub fn rw(na: usize, nb: usize) {
    let mut w = W::new();
    let mut m = Model::new();
    prefix(&mut w, &mut m, na, nb);
    let d = pick("destroy", m.n + 1);
    if d < m.n {
        destroy(&mut w, &mut m, d, d % 8);
    }
    let i = pick("entity", m.n);
    let p = pick("path", NWRITE);
    write(&mut w, &mut m, i, p);
    all_reads(&mut w, &m);
    cover("end");
}

/// Values survive any structural change of other entities, growth and cloning.
pub fn keep(steps: usize) {
    let mut w = W::with_capacity(WCapacity { arch_a: 2, arch_b: 1, arch_c: 0 });
    let mut m = Model::new();
    prefix(&mut w, &mut m, 2, 1);
    let mut s = 0;
    while s < steps {
        let op = pick("op", 6 + m.n);
        match op {
            0 | 1 | 2 => {
                let v = fresh_vals();
                create(&mut w, &mut m, op, v);
            }
            3 => w = w.clone(),
            4 | 5 => {
                let i = pick("entity", m.n);
                write(&mut w, &mut m, i, (op * 5 + s) % NWRITE);
            }
            _ => destroy(&mut w, &mut m, op - 6, s % 8),
        }
        s += 1;
    }
    all_reads(&mut w, &m);
    lens(&w, &m);
    cover("end");
}

/// The Components struct, and creation from it; destroy hands the same values back.
pub fn comps() {
    let mut w = W::new();
    let (p, d, q) = (sym32("p"), sym32("d"), sym32("q"));
    let c = ArchAComponents { p: P(p), d: D::mk(d), q: Q(q) };
    check(c.get::<P>().0 == p && c.get::<D>().v == d && c.get::<Q>().0 == q, "Components::get");
    let e = w.create::<ArchA>(c);
    let e2 = w.arch_a.create((P(0), D::mk(1), Q(2)));
    let mut r = w.destroy(e).unwrap();
    check(r.get::<P>().0 == p && r.get::<D>().v == d && r.get::<Q>().0 == q, "destroy() returns the stored components");
    *r.get_mut::<Q>() = Q(p);
    let (x, y, z) = r.into_tuple();
    check(x.0 == p && y.v == d && z.0 == p, "Components::into_tuple / get_mut");
    let t: (P, D, Q) = w.arch_a.destroy(e2).unwrap().into();
    check(t.0 .0 == 0 && t.1.v == 1 && t.2 .0 == 2, "Components into tuple");
    cover("end");
}

/// Queries with subsets of the columns, in any order, bind each parameter to its own column.
pub fn orders() {
    let mut w = W::new();
    let mut m = Model::new();
    prefix(&mut w, &mut m, 2, 2);
    let i = pick("entity", m.n);
    let x = m.at(i);
    let any = x.h.any();
    let (nv, nw) = (sym32("new"), sym32("new"));
    let q = pick("query", 8);
    let mut want = x.v;
    let r = match q {
        0 => ecs_find!(w, any, |q: &mut Q, p: &mut P| { q.0 = nv; p.0 = nw; (0, 2) }),
        1 => ecs_find!(w, any, |p: &mut P, d: &mut D, q: &mut Q| { p.0 = nw; q.0 = nv; check(d.v == x.v[1], "D bound to another column"); (0, 2) }),
        2 => ecs_find_borrow!(w, any, |q: &mut Q, d: &D, p: &mut P| { q.0 = nv; p.0 = nw; check(d.v == x.v[1], "D bound to another column"); (0, 2) }),
        3 => ecs_find!(w, any, |p: &mut P, l: &mut L| { p.0 = nw; l.0 = nv; (1, 0) }),
        4 => ecs_find_borrow!(w, any, |z: &Z, l: &mut L, p: &mut P| { p.0 = nw; l.0 = nv; (1, 0) }),
        5 => ecs_find!(w, any, |p: &mut P, o: &mut OneOf<Q, L>| { p.0 = nw; o.set(nv); (if x.h.arch() == 0 { 0 } else { 1 }, if x.h.arch() == 0 { 2 } else { 0 }) }),
        6 => ecs_find!(w, any, |o: &mut OneOf<D, L>| { o.set(nv); (9, if x.h.arch() == 0 { 1 } else { 0 }) }),
        _ => ecs_find_borrow!(w, any, |o: &mut OneOf<P, Q2>| { o.set(nw); (if x.h.arch() == 0 { 0 } else { 1 }, 9) }),
    };
    let matched = match q {
        0 | 1 | 2 => x.h.arch() == 0,
        3 | 4 => x.h.arch() == 1,
        _ => x.h.arch() < 2,
    };
    check(r.is_some() == matched, "a find runs its closure <=> the entity's archetype matches the query");
    if let Some((pw, qv)) = r {
        if pw < NCOL {
            want[pw] = nw;
        }
        if qv < NCOL {
            want[qv] = nv;
        }
        m.e[i].as_mut().unwrap().v = want;
    }
    reads(&mut w, &m, 13);
    reads(&mut w, &m, 16);
    reads(&mut w, &m, 15);
    reads(&mut w, &m, 12);
    cover("end");
}
/// A component type of no archetype.
pub struct Q2(pub u32);
impl Val for Q2 {
    fn mk(v: u32) -> Self {
        Q2(v)
    }
    fn get(&self) -> u32 {
        self.0
    }
    fn set(&mut self, v: u32) {
        self.0 = v
    }
}
