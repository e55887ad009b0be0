//! ecs_iter_destroy!: visited exactly once, destroyed exactly when asked.
use crate::gen::with_sym_low;
use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

pub struct Log {
    n: usize,
    /// model index, step answered, direct handle if the query hands one out
    e: [(usize, usize, Option<EntityDirectAny>); MAXE],
}
impl Log {
    fn new() -> Self {
        Log { n: 0, e: [(0, 0, None); MAXE] }
    }
    fn visit(&mut self, m: &Model, h: EntityAny, d: Option<EntityDirectAny>) -> EcsStepDestroy {
        let mut i = 0;
        while i < m.n {
            let x = m.at(i);
            if x.alive && x.h.any() == h {
                break;
            }
            i += 1;
        }
        check(i < m.n, "ecs_iter_destroy! visits something that was not alive when it started");
        let mut j = 0;
        while j < self.n {
            check(self.e[j].0 != i, "ecs_iter_destroy! visits an entity twice");
            check(self.e[j].1 != 1 && self.e[j].1 != 3, "ecs_iter_destroy! goes on after a Break");
            j += 1;
        }
        let s = pick("step", 4);
        self.e[self.n] = (i, s, d);
        self.n += 1;
        match s {
            0 => EcsStepDestroy::Continue,
            1 => EcsStepDestroy::Break,
            2 => EcsStepDestroy::ContinueDestroy,
            _ => EcsStepDestroy::BreakDestroy,
        }
    }
}
fn vals(m: &Model, h: EntityAny) -> Vals {
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        if x.h.any() == h {
            return norm(x.h.arch(), x.v);
        }
        i += 1;
    }
    [0; NCOL]
}

pub const NQ: usize = 9;
const OWN: &str = "ecs_iter_destroy! presents an entity with its own components";

/// One ecs_iter_destroy! of form `q` with any answers, and its consequences.
pub fn run(w: &mut W, m: &mut Model, q: usize) {
    let mut log = Log::new();
    let l = &mut log;
    let mm = &*m;
    // for forms that write: what P becomes
    let x = sym32("write");
    let (mask, pw) = match q {
        0 => {
            ecs_iter_destroy!(w, |h: &EntityAny, e: &Entity<_>, d: &EntityDirectAny, t: &EntityDirect<_>| {
                check(e.into_any() == *h && t.into_any() == *d, "the handles of one item agree");
                l.visit(mm, *h, Some(*d))
            });
            ([true; 3], false)
        }
        1 => {
            ecs_iter_destroy!(w, |e: &Entity<ArchA>, d: &EntityDirect<ArchA>, p: &mut P, c: &D, q: &Q| {
                let v = vals(mm, e.into_any());
                check(p.0 == v[0] && c.get() == v[1] && q.0 == v[2], OWN);
                p.0 = x;
                l.visit(mm, e.into_any(), Some(d.into_any()))
            });
            ([true, false, false], true)
        }
        2 => {
            ecs_iter_destroy!(w, |h: &EntityAny, p: &mut P| {
                check(p.0 == vals(mm, *h)[if h.archetype_id() == 3 { 0 } else { 1 }], OWN);
                p.0 = x;
                l.visit(mm, *h, None)
            });
            ([true, true, false], true)
        }
        3 => {
            ecs_iter_destroy!(w, |q: &Q, h: &EntityAny, d: &EntityDirect<_>| {
                check(q.0 == vals(mm, *h)[if h.archetype_id() == 3 { 2 } else { 0 }], OWN);
                l.visit(mm, *h, Some(d.into_any()))
            });
            ([true, false, true], false)
        }
        4 => {
            ecs_iter_destroy!(w, |o: &mut OneOf<D, L>, h: &Entity<_>| {
                let h = h.into_any();
                check(o.get() == vals(mm, h)[if h.archetype_id() == 3 { 1 } else { 0 }], OWN);
                l.visit(mm, h, None)
            });
            ([true, true, false], false)
        }
        5 => {
            ecs_iter_destroy!(w, |d: &EntityDirect<ArchB>, e: &Entity<ArchB>, z: &Z| { l.visit(mm, e.into_any(), Some(d.into_any())) });
            ([false, true, false], false)
        }
        6 => {
            ecs_iter_destroy!(w, |e: &Entity<ArchC>| { l.visit(mm, e.into_any(), None) });
            ([false, false, true], false)
        }
        7 => {
            // closures answering with EcsStep never destroy
            ecs_iter_destroy!(w, |h: &EntityAny| {
                match l.visit(mm, *h, None) {
                    EcsStepDestroy::Break | EcsStepDestroy::BreakDestroy => EcsStep::Break,
                    _ => EcsStep::Continue,
                }
            });
            let mut j = 0;
            while j < log.n {
                log.e[j].1 &= 1;
                j += 1;
            }
            ([true; 3], false)
        }
        _ => {
            // closures answering nothing neither destroy nor break
            ecs_iter_destroy!(w, |h: &EntityAny, p: &mut P| {
                p.0 = x;
                check(l.n < MAXE, "ecs_iter_destroy! does not end");
                let mut i = 0;
                while i < mm.n && (mm.at(i).h.any() != *h || !mm.at(i).alive) {
                    i += 1;
                }
                check(i < mm.n, "ecs_iter_destroy! visits something that was not alive when it started");
                l.e[l.n] = (i, 0, None);
                l.n += 1;
            });
            ([true, true, false], true)
        }
    };
    // visited: all that match, unless stopped
    let stopped = log.n > 0 && (log.e[log.n - 1].1 & 1) == 1;
    let mut i = 0;
    while i < m.n {
        let y = m.at(i);
        let on = y.alive && mask[y.h.arch()];
        let mut times = 0;
        let mut j = 0;
        while j < log.n {
            times += (log.e[j].0 == i) as usize;
            j += 1;
        }
        if on {
            check(times == 1 || (stopped && times == 0), "ecs_iter_destroy! visits each matching entity exactly once");
        } else {
            check(times == 0, "ecs_iter_destroy! visits an entity that does not match");
        }
        i += 1;
    }
    let mut j = 0;
    while j < log.n {
        let (i, s, _) = log.e[j];
        let k = m.at(i).h.arch();
        if pw {
            m.e[i].as_mut().unwrap().v[if k == 0 { 0 } else { 1 }] = x;
        }
        if s >= 2 {
            m.kill(i);
        }
        j += 1;
    }
    // direct handles handed out: good until the next removal in their archetype
    let mut j = 0;
    while j < log.n {
        let (i, _, d) = log.e[j];
        if let Some(d) = d {
            let k = m.at(i).h.arch();
            let mut removed = false;
            let mut t = j;
            while t < log.n {
                if log.e[t].1 >= 2 && m.at(log.e[t].0).h.arch() == k {
                    removed = true;
                }
                t += 1;
            }
            let r = ecs_find!(w, d, |h: &EntityAny| *h);
            if removed {
                check(r.is_none() && !w.contains(d), "a direct handle is rejected after a later removal from its archetype");
            } else {
                cover("direct");
                check(r.is_some() && w.contains(d), "a direct handle handed to the closure is accepted while nothing is removed");
                check(r == Some(m.at(i).h.any()), "a direct handle handed to the closure designates the visited entity");
            }
        }
        j += 1;
    }
}

pub fn hist(steps: usize, second: bool) {
    let ca = pick("cap", 2);
    let mut w = W::with_capacity(WCapacity { arch_a: ca, arch_b: 0, arch_c: 0 });
    let mut m = Model::new();
    crate::c03::history(&mut w, &mut m, steps, 3);
    let q = pick("query", NQ);
    run(&mut w, &mut m, q);
    lookups(&mut w, &m);
    lens(&w, &m);
    reads(&mut w, &m, 0);
    reads(&mut w, &m, 16);
    if second {
        // freed positions are reused, and a second loop works as well
        let v = fresh_vals();
        create(&mut w, &mut m, 0, v);
        run(&mut w, &mut m, (q + 1) % NQ);
        lookups(&mut w, &m);
    }
    all_reads(&mut w, &m);
    cover("end");
}

/// Fills of one or two archetypes, any subset destroyed.
pub fn fill(n: usize) {
    let mut w = W::new();
    let mut m = Model::new();
    let k = pick("arch", 3);
    let n = pick("n", n + 1);
    let mut i = 0;
    while i < n {
        let v = fresh_vals();
        create(&mut w, &mut m, k, v);
        i += 1;
    }
    let v = fresh_vals();
    create(&mut w, &mut m, (k + 1) % 3, v);
    let q = match k {
        0 => 1,
        1 => 5,
        _ => 3,
    };
    run(&mut w, &mut m, q);
    lookups(&mut w, &m);
    lens(&w, &m);
    reads(&mut w, &m, 7);
    reads(&mut w, &m, 4);
    let v = fresh_vals();
    create(&mut w, &mut m, k, v);
    lookups(&mut w, &m);
    cover("end");
}
