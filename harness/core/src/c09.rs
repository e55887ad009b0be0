//! Direct handles: accepted only for the entity they were issued for, dead after any removal.
use crate::gen::with_sym_low;
use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

#[derive(Clone, Copy)]
struct Rec {
    d: EntityDirectAny,
    i: usize,
    /// removals from / structural changes of its archetype before it was issued
    rem: usize,
    chg: usize,
}
const MAXR: usize = 64;
struct Recs {
    r: [Option<Rec>; MAXR],
    n: usize,
    rem: [usize; 3],
    chg: [usize; 3],
}
impl Recs {
    fn new() -> Self {
        Recs { r: [None; MAXR], n: 0, rem: [0; 3], chg: [0; 3] }
    }
    fn add(&mut self, m: &Model, i: usize, d: EntityDirectAny) {
        let k = m.at(i).h.arch();
        self.r[self.n] = Some(Rec { d, i, rem: self.rem[k], chg: self.chg[k] });
        self.n += 1;
    }
    fn created(&mut self, k: usize) {
        self.chg[k] += 1;
    }
    fn removed(&mut self, k: usize) {
        self.chg[k] += 1;
        self.rem[k] += 1;
    }
}

macro_rules! probe {
    ($f:ident, $m:ident, $A:ident, $field:ident) => {
        /// Some(e): every path accepts the handle and designates e; None: every path rejects it.
        fn $f(w: &mut W, d: EntityDirectAny) -> Option<EntityAny> {
            let t = EntityDirect::<$A>::from_any(d);
            let r = ecs_find!(w, d, |h: &EntityAny| *h);
            let on = r.is_some();
            check(w.contains(d) == on, "World::contains(direct any) agrees with ecs_find!");
            check(w.contains(t) == on, "World::contains(direct) agrees with ecs_find!");
            check(w.$field.contains(d) == on, "Archetype::contains(direct any) agrees with ecs_find!");
            check(w.$field.contains(t) == on, "Archetype::contains(direct) agrees with ecs_find!");
            check(ecs_find!(w, t, |h: &EntityAny, x: &EntityDirect<$A>| { check(*x == t, "the handle a query was given"); *h }) == r, "ecs_find!(direct) agrees");
            check(ecs_find_borrow!(w, d, |h: &EntityAny, x: &EntityDirectAny| { check(*x == d, "the handle a query was given"); *h }) == r, "ecs_find_borrow!(direct any) agrees");
            check(ecs_find_borrow!(w, t, |h: &Entity<$A>| h.into_any()) == r, "ecs_find_borrow!(direct) agrees");
            check(w.$field.view(t).map(|v| v.entity.into_any()) == r, "Archetype::view(direct) agrees");
            check(w.$field.view(d).map(|v| v.entity.into_any()) == r, "Archetype::view(direct any) agrees");
            check(w.view::<$A, _>(t).map(|v| v.entity.into_any()) == r, "World::view(direct) agrees");
            check(w.$field.borrow(t).map(|v| v.entity().into_any()) == r, "Archetype::borrow(direct) agrees");
            check(w.$field.borrow(d).map(|v| v.entity().into_any()) == r, "Archetype::borrow(direct any) agrees");
            check(w.borrow::<$A, _>(t).map(|v| v.entity().into_any()) == r, "World::borrow(direct) agrees");
            check(w.$field.resolve(t).map(|ix| w.$field.entities()[ix].into_any()) == r, "Archetype::resolve(direct) agrees");
            check(w.$field.resolve(d).map(|ix| w.$field.entities()[ix].into_any()) == r, "Archetype::resolve(direct any) agrees");
            check(w.to_direct(d) == if on { Some(d) } else { None }, "World::to_direct(direct any) agrees");
            check(w.to_direct(t) == if on { Some(t) } else { None }, "World::to_direct(direct) agrees");
            check(w.$field.to_direct(t) == if on { Some(t) } else { None }, "Archetype::to_direct(direct) agrees");
            check(w.$field.to_direct(d) == if on { Some(d) } else { None }, "Archetype::to_direct(direct any) agrees");
            r
        }
    };
}
probe!(probe_a, a, ArchA, arch_a);
probe!(probe_b, b, ArchB, arch_b);
probe!(probe_c, c, ArchC, arch_c);

fn judge(w: &mut W, m: &Model, rs: &Recs) {
    let mut j = 0;
    while j < rs.n {
        let r = rs.r[j].unwrap();
        let x = m.at(r.i);
        let k = x.h.arch();
        let got = match k {
            0 => probe_a(w, r.d),
            1 => probe_b(w, r.d),
            _ => probe_c(w, r.d),
        };
        if rs.rem[k] != r.rem {
            cover("stale");
            check(got.is_none(), "a direct handle is rejected after a removal from its archetype");
        } else {
            if rs.chg[k] == r.chg {
                check(got.is_some(), "a direct handle is accepted while its archetype is unchanged");
            }
            if let Some(h) = got {
                cover("fresh");
                check(h == x.h.any(), "a direct handle designates the entity it was issued for");
                check(x.alive, "a direct handle reaches a destroyed entity");
            }
        }
        j += 1;
    }
}

/// Obtains a direct handle of live entity i in one of many ways.
fn issue(w: &mut W, m: &Model, rs: &mut Recs, i: usize, how: usize) {
    let h = m.at(i).h;
    let any = h.any();
    let d: Option<EntityDirectAny> = match how {
        0 => w.to_direct(any),
        1 => match h {
            H::A(e) => w.to_direct(e).map(|d| d.into_any()),
            H::B(e) => w.arch_b.to_direct(e).map(|d| d.into_any()),
            H::C(e) => w.archetype::<ArchC>().to_direct(e.into_any()),
        },
        2 => ecs_find!(w, any, |d: &EntityDirectAny| *d),
        3 => ecs_find_borrow!(w, any, |d: &EntityDirect<_>| d.into_any()),
        4 => match h {
            H::A(e) => ecs_find!(w, e, |d: &EntityDirect<ArchA>, p: &P| d.into_any()),
            H::B(e) => ecs_find_borrow!(w, e, |p: &mut P, d: &EntityDirect<ArchB>| d.into_any()),
            H::C(e) => ecs_find!(w, e, |q: &mut Q, d: &EntityDirectAny| *d),
        },
        5 => {
            let mut r = None;
            ecs_iter!(w, |x: &EntityAny, d: &EntityDirectAny| {
                if *x == any {
                    r = Some(*d);
                }
            });
            r
        }
        6 => {
            let mut r = None;
            ecs_iter_borrow!(w, |d: &EntityDirect<_>, x: &EntityAny| {
                if *x == any {
                    r = Some(d.into_any());
                }
            });
            r
        }
        _ => {
            let mut r = None;
            ecs_iter_destroy!(w, |x: &EntityAny, d: &EntityDirectAny| {
                if *x == any {
                    r = Some(*d);
                }
            });
            r
        }
    };
    check(d.is_some(), "a live entity has a direct handle");
    let d = d.unwrap();
    check(d.archetype_id() == any.archetype_id(), "a direct handle carries its archetype's id");
    rs.add(m, i, d);
}

pub fn hist(steps: usize, archs: usize, ways: usize) {
    let mut w = with_sym_low(false, true, || W::with_capacity(WCapacity { arch_a: 1, arch_b: 0, arch_c: 0 }));
    let mut m = Model::new();
    let mut rs = Recs::new();
    // always something to issue handles for
    create(&mut w, &mut m, 0, [1, 2, 3]);
    rs.created(0);
    let mut s = 0;
    while s < steps {
        let op = pick("op", archs + 2 + 2 * m.n);
        if op < archs {
            create(&mut w, &mut m, op, [4, 5, 6]);
            rs.created(op);
        } else if op == archs {
            // removal through a recorded direct handle
            if rs.n > 0 {
                let r = rs.r[pick("rec", rs.n)].unwrap();
                let k = m.at(r.i).h.arch();
                let ok = match (k, s % 3) {
                    (_, 0) => w.destroy(r.d).is_some(),
                    (0, 1) => w.destroy(EntityDirect::<ArchA>::from_any(r.d)).is_some(),
                    (0, _) => w.arch_a.destroy(r.d).is_some(),
                    (1, 1) => w.arch_b.destroy(EntityDirect::<ArchB>::from_any(r.d)).is_some(),
                    (1, _) => w.arch_b.destroy(r.d).is_some(),
                    (_, 1) => w.destroy(EntityDirect::<ArchC>::from_any(r.d)).is_some(),
                    (_, _) => w.arch_c.destroy(r.d).is_some(),
                };
                if rs.rem[k] != r.rem {
                    check(!ok, "destroy() accepts a direct handle issued before a removal");
                } else {
                    check(ok || rs.chg[k] != r.chg, "destroy() rejects a direct handle of an unchanged archetype");
                    if ok {
                        check(m.at(r.i).alive && !w.contains(m.at(r.i).h.any()), "destroy(direct) destroys the entity the handle was issued for");
                        m.kill(r.i);
                        rs.removed(k);
                    }
                }
            }
        } else if op == archs + 1 {
            // a loop that removes some, and hands out direct handles meanwhile
            let mut log: [Option<(usize, bool, EntityDirectAny)>; MAXE] = [None; MAXE];
            let mut n = 0;
            let (l, c) = (&mut log, &mut n);
            let mm = &m;
            ecs_iter_destroy!(w, |h: &EntityAny, d: &EntityDirectAny| {
                let mut i = 0;
                while i < mm.n && (mm.at(i).h.any() != *h || !mm.at(i).alive) {
                    i += 1;
                }
                check(i < mm.n, "ecs_iter_destroy! visits an unknown entity");
                let kill = sym_bool("kill");
                l[*c] = Some((i, kill, *d));
                *c += 1;
                if kill {
                    EcsStepDestroy::ContinueDestroy
                } else {
                    EcsStepDestroy::Continue
                }
            });
            let mut j = 0;
            while j < n {
                let (i, kill, d) = log[j].unwrap();
                rs.add(&m, i, d);
                if kill {
                    m.kill(i);
                    rs.removed(m.at(i).h.arch());
                }
                j += 1;
            }
        } else if op < archs + 2 + m.n {
            let i = op - archs - 2;
            if m.at(i).alive {
                let how = pick("how", ways);
                issue(&mut w, &m, &mut rs, i, how);
            }
        } else {
            let i = op - archs - 2 - m.n;
            let alive = m.at(i).alive;
            destroy(&mut w, &mut m, i, s % 8);
            if alive {
                rs.removed(m.at(i).h.arch());
            }
        }
        judge(&mut w, &m, &rs);
        s += 1;
    }
    cover("end");
}

/// Handles of every entity, one structural change, all judged.
pub fn one(n: usize) {
    let k = pick("arch", 3);
    let mut w = with_sym_low(false, true, W::new);
    let mut m = Model::new();
    let mut rs = Recs::new();
    let n = 1 + pick("n", n);
    let mut i = 0;
    while i < n {
        create(&mut w, &mut m, k, [i as u32, 2, 3]);
        rs.created(k);
        i += 1;
    }
    let how = pick("how", 8);
    let mut i = 0;
    while i < n {
        issue(&mut w, &m, &mut rs, i, how);
        i += 1;
    }
    judge(&mut w, &m, &rs);
    match pick("then", 4) {
        0 => {
            // creations, across growth
            let mut j = 0;
            while j < 4 {
                create(&mut w, &mut m, k, [9, 9, 9]);
                rs.created(k);
                j += 1;
            }
        }
        1 => {
            let i = pick("i", n);
            destroy(&mut w, &mut m, i, i % 8);
            rs.removed(k);
        }
        2 => {
            // a removal followed by a creation in the same place
            let i = pick("i", n);
            destroy(&mut w, &mut m, i, 1);
            rs.removed(k);
            create(&mut w, &mut m, k, [7, 7, 7]);
            rs.created(k);
        }
        _ => {
            // another archetype changes: nothing happens here
            let o = (k + 1) % 3;
            create(&mut w, &mut m, o, [8, 8, 8]);
            rs.created(o);
            let last = m.n - 1;
            destroy(&mut w, &mut m, last, 0);
            rs.removed(o);
        }
    }
    judge(&mut w, &m, &rs);
    cover("end");
}

/// Direct handles kept for any number of removals.
pub fn ages(n: usize) {
    let mut t = crate::ages::ages(n);
    let mut old = Recs::new();
    let mut i = 0;
    while i < n {
        let how = if i == 0 { pick("how", 7) } else { 0 };
        issue(&mut t.old, &t.before, &mut old, i, how);
        i += 1;
    }
    let mut rs = Recs::new();
    i = 0;
    while i < n {
        issue(&mut t.new, &t.after, &mut rs, i, 0);
        i += 1;
    }
    i = 0;
    while i < n {
        let d = old.r[i].unwrap().d;
        let r = match t.k {
            0 => probe_a(&mut t.new, d),
            1 => probe_b(&mut t.new, d),
            _ => probe_c(&mut t.new, d),
        };
        check(r.is_none(), "a direct handle is rejected after any number of removals from its archetype");
        let any = pick("any", 2) == 1;
        let r = match t.k {
            0 => a::destroy_direct(&mut t.new, EntityDirect::from_any(d), any),
            1 => b::destroy_direct(&mut t.new, EntityDirect::from_any(d), any),
            _ => c::destroy_direct(&mut t.new, EntityDirect::from_any(d), any),
        };
        check(!r, "a direct handle that is many removals old destroys an entity");
        i += 1;
    }
    judge(&mut t.new, &t.after, &rs);
    cover("end");
}
