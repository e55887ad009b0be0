//! Every way to iterate presents each live entity once, with its own data, and nothing else.
use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

pub struct Seen {
    pub n: [u8; MAXE],
    pub total: usize,
}
impl Seen {
    pub fn new() -> Self {
        Seen { n: [0; MAXE], total: 0 }
    }
    /// An item: its handle, and for each value shown, the model column it must equal.
    pub fn item(&mut self, m: &Model, h: EntityAny, vals: &[(usize, u32)]) -> usize {
        let mut i = 0;
        while i < m.n {
            let x = m.at(i);
            if x.alive && x.h.any() == h {
                break;
            }
            i += 1;
        }
        check(i < m.n, "iteration presents something that is not a live entity");
        let x = m.at(i);
        let nv = norm(x.h.arch(), x.v);
        let mut j = 0;
        while j < vals.len() {
            check(vals[j].1 == nv[vals[j].0], "iteration pairs an entity with its own components");
            j += 1;
        }
        self.n[i] += 1;
        self.total += 1;
        check(self.n[i] == 1, "iteration presents an entity more than once");
        i
    }
    pub fn done(&self, m: &Model, mask: [bool; 3], limit: usize) {
        let mut want = 0;
        let mut i = 0;
        while i < m.n {
            let x = m.at(i);
            let on = x.alive && mask[x.h.arch()];
            want += on as usize;
            if !on {
                check(self.n[i] == 0, "iteration presents an entity of an archetype it does not match");
            } else if limit == usize::MAX {
                check(self.n[i] == 1, "iteration misses a live entity");
            }
            i += 1;
        }
        check(self.total == if limit < want { limit } else { want }, "iteration presents exactly the expected number of items");
    }
}
/// column of P in an archetype
fn pc(m: &Model, h: EntityAny) -> usize {
    if h.archetype_id() == 3 { 0 } else { 1 }
}
fn qc(h: EntityAny) -> usize {
    if h.archetype_id() == 3 { 2 } else { 0 }
}

pub const NQUERY: usize = 16;
/// Runs query form `q`, asking for a Break after `limit` items.
pub fn query(w: &mut W, m: &Model, q: usize, limit: usize) {
    let mut s = Seen::new();
    let all = [true; 3];
    macro_rules! step {
        () => {
            if s.total >= limit { EcsStep::Break } else { EcsStep::Continue }
        };
    }
    if limit == 0 {
        return;
    }
    let mask = match q {
        0 => {
            ecs_iter!(w, |h: &EntityAny| { s.item(m, *h, &[]); step!() });
            all
        }
        1 => {
            ecs_iter_borrow!(w, |h: &EntityAny| { s.item(m, *h, &[]); step!() });
            all
        }
        2 => {
            ecs_iter!(w, |h: &Entity<_>, q: &Q| { let h = h.into_any(); s.item(m, h, &[(qc(h), q.0)]); step!() });
            [true, false, true]
        }
        3 => {
            ecs_iter_borrow!(w, |q: &Q, h: &EntityAny| { s.item(m, *h, &[(qc(*h), q.0)]); step!() });
            [true, false, true]
        }
        4 => {
            ecs_iter!(w, |p: &mut P, h: &EntityAny| { s.item(m, *h, &[(pc(m, *h), p.0)]); step!() });
            [true, true, false]
        }
        5 => {
            ecs_iter_borrow!(w, |p: &mut P, h: &Entity<_>| { let h = h.into_any(); s.item(m, h, &[(pc(m, h), p.0)]); step!() });
            [true, true, false]
        }
        6 => {
            ecs_iter!(w, |z: &Z, l: &mut L, h: &Entity<ArchB>, p: &P| { s.item(m, h.into_any(), &[(0, l.0), (1, p.0)]); step!() });
            [false, true, false]
        }
        7 => {
            ecs_iter_borrow!(w, |q: &mut Q, h: &Entity<ArchA>, d: &D, p: &P| { s.item(m, h.into_any(), &[(0, p.0), (1, d.get()), (2, q.0)]); step!() });
            [true, false, false]
        }
        8 => {
            ecs_iter!(w, |o: &OneOf<L, D>, h: &EntityAny, p: &P| {
                s.item(m, *h, &[(if h.archetype_id() == 3 { 1 } else { 0 }, o.get()), (pc(m, *h), p.0)]);
                step!()
            });
            [true, true, false]
        }
        9 => {
            ecs_iter_borrow!(w, |o: &mut OneOf<L, Q>, h: &EntityAny| {
                s.item(m, *h, &[(if h.archetype_id() == 3 { 2 } else { 0 }, o.get())]);
                step!()
            });
            all
        }
        10 => {
            // handles of every kind in one item; the direct ones are judged afterwards
            let mut ds = [None; MAXE];
            let dd = &mut ds;
            ecs_iter!(w, |h: &EntityAny, t: &Entity<_>, d: &EntityDirectAny, dt: &EntityDirect<_>| {
                check(t.into_any() == *h, "typed and dynamic handle of one item differ");
                check(dt.into_any() == *d, "typed and dynamic direct handle of one item differ");
                let i = s.item(m, *h, &[]);
                dd[i] = Some(*d);
                step!()
            });
            direct(w, m, &ds);
            all
        }
        11 => {
            let mut ds = [None; MAXE];
            let dd = &mut ds;
            ecs_iter_borrow!(w, |d: &EntityDirectAny, h: &EntityAny, dt: &EntityDirect<_>| {
                check(dt.into_any() == *d, "typed and dynamic direct handle of one item differ");
                let i = s.item(m, *h, &[]);
                dd[i] = Some(*d);
                step!()
            });
            direct(w, m, &ds);
            all
        }
        12 => {
            let mut ds = [None; MAXE];
            let dd = &mut ds;
            ecs_iter!(w, |h: &Entity<ArchA>, d: &EntityDirect<ArchA>, q: &mut Q| {
                let i = s.item(m, h.into_any(), &[(2, q.0)]);
                dd[i] = Some(d.into_any());
                step!()
            });
            direct(w, m, &ds);
            [true, false, false]
        }
        13 => {
            ecs_iter_borrow!(w, |h: &Entity<ArchC>| { s.item(m, h.into_any(), &[]); step!() });
            [false, false, true]
        }
        14 => {
            // no return value: never breaks
            ecs_iter!(w, |h: &EntityAny, z: &Z| { s.item(m, *h, &[]); });
            s.done(m, [false, true, false], usize::MAX);
            return;
        }
        _ => {
            ecs_iter_borrow!(w, |h: &Entity<_>, p: &P, q: &Q| { s.item(m, h.into_any(), &[(0, p.0), (2, q.0)]); });
            s.done(m, [true, false, false], usize::MAX);
            return;
        }
    };
    s.done(m, mask, limit);
}
fn direct(w: &mut W, m: &Model, ds: &[Option<EntityDirectAny>; MAXE]) {
    let mut i = 0;
    while i < m.n {
        if let Some(d) = ds[i] {
            check(w.contains(d), "a direct handle handed out by iteration is accepted");
            check(ecs_find!(w, d, |h: &EntityAny| *h) == Some(m.at(i).h.any()), "a direct handle handed out by iteration designates the item's entity");
        }
        i += 1;
    }
}

macro_rules! arch_iters {
    ($f:ident, $A:ident, $field:ident, $k:expr, [$($c:ident : $C:ident = $i:tt),*]) => {
        fn $f(w: &mut W, m: &Model) {
            let mut mask = [false; 3];
            mask[$k] = true;
            let n = w.$field.len();
            {
                let mut s = Seen::new();
                let mut it = w.$field.iter();
                loop {
                    let (lo, hi) = it.size_hint();
                    check(lo <= n - s.total && (hi.is_none() || hi.unwrap() >= n - s.total), "size_hint() of iter()");
                    match it.next() {
                        Some((h, $($c),*)) => { s.item(m, h.into_any(), &[$(($i, $c.get())),*]); }
                        None => break,
                    }
                }
                check(it.next().is_none() && it.next().is_none(), "iter() presents items after its end");
                s.done(m, mask, usize::MAX);
            }
            {
                let mut s = Seen::new();
                let mut it = w.$field.iter_mut();
                loop {
                    let (lo, hi) = it.size_hint();
                    check(lo <= n - s.total && (hi.is_none() || hi.unwrap() >= n - s.total), "size_hint() of iter_mut()");
                    match it.next() {
                        Some((h, $($c),*)) => { s.item(m, h.into_any(), &[$(($i, $c.get())),*]); }
                        None => break,
                    }
                }
                check(it.next().is_none() && it.next().is_none(), "iter_mut() presents items after its end");
                s.done(m, mask, usize::MAX);
            }
            check(w.$field.iter().count() == n && w.$field.iter_mut().count() == n, "iter().count() == len()");
            if n > 1 {
                let second = w.$field.iter().nth(1).unwrap().0.into_any();
                check(w.$field.iter_mut().skip(1).next().unwrap().0.into_any() == second, "iter() and iter_mut() agree");
                let last = w.$field.iter().last().unwrap().0.into_any();
                check(w.$field.iter_mut().last().unwrap().0.into_any() == last, "iter() and iter_mut() agree");
            }
            {
                let mut s = Seen::new();
                check(w.$field.entities().len() == n, "entities().len() == len()");
                let mut i = 0;
                while i < n {
                    let h = w.archetype::<$A>().entities()[i].into_any();
                    $( check(w.$field.get_slice::<$C>().len() == n, "get_slice().len() == len()");
                       check(w.$field.get_slice_mut::<$C>().len() == n, "get_slice_mut().len() == len()");
                       check(w.$field.borrow_slice::<$C>().len() == n, "borrow_slice().len() == len()");
                       check(w.$field.borrow_slice_mut::<$C>().len() == n, "borrow_slice_mut().len() == len()");
                       let $c = w.$field.get_slice::<$C>()[i].get();
                       check(w.$field.get_slice_mut::<$C>()[i].get() == $c, "get_slice and get_slice_mut agree");
                       check(w.$field.borrow_slice::<$C>()[i].get() == $c, "get_slice and borrow_slice agree");
                       check(w.$field.borrow_slice_mut::<$C>()[i].get() == $c, "get_slice and borrow_slice_mut agree"); )*
                    s.item(m, h, &[$(($i, $c)),*]);
                    i += 1;
                }
                s.done(m, mask, usize::MAX);
            }
            {
                let mut s = Seen::new();
                let a = w.archetype_mut::<$A>().get_all_slices_mut();
                check(a.entity.len() == n, "get_all_slices_mut(): length of entity");
                $( check(a.$c.len() == n, "get_all_slices_mut(): length of a component slice"); )*
                let mut i = 0;
                while i < n {
                    s.item(m, a.entity[i].into_any(), &[$(($i, a.$c[i].get())),*]);
                    i += 1;
                }
                s.done(m, mask, usize::MAX);
            }
        }
    };
}
arch_iters!(iters_a, ArchA, arch_a, 0, [p: P = 0, d: D = 1, q: Q = 2]);
arch_iters!(iters_b, ArchB, arch_b, 1, [l: L = 0, p: P = 1, z: Z = 2]);
arch_iters!(iters_c, ArchC, arch_c, 2, [q: Q = 0]);

/// Iteration after any short history.
pub fn hist(steps: usize) {
    let ca = pick("cap", 2);
    let mut w = W::with_capacity(WCapacity { arch_a: ca, arch_b: 0, arch_c: 0 });
    let mut m = Model::new();
    crate::c03::history(&mut w, &mut m, steps, 3);
    iters_a(&mut w, &m);
    iters_b(&mut w, &m);
    iters_c(&mut w, &m);
    let mut q = 0;
    while q < NQUERY {
        query(&mut w, &m, q, usize::MAX);
        q += 1;
    }
    let total = m.live(0) + m.live(1) + m.live(2);
    if total > 0 {
        let limit = 1 + pick("break", total);
        let mut q = 0;
        while q < NQUERY {
            query(&mut w, &m, q, limit);
            q += 1;
        }
        cover("break");
    }
    cover("end");
}

/// Longer fills (several growths), a few removals, then every way to iterate.
pub fn fill(na: usize, nb: usize, nc: usize) {
    let mut w = W::new();
    let mut m = Model::new();
    let n = [pick("na", na + 1), pick("nb", nb + 1), pick("nc", nc + 1)];
    let mut k = 0;
    while k < 3 {
        let mut i = 0;
        while i < n[k] {
            let v = fresh_vals();
            create(&mut w, &mut m, k, v);
            i += 1;
        }
        k += 1;
    }
    let kill = pick("kill", m.n + 1);
    if kill < m.n {
        destroy(&mut w, &mut m, kill, 0);
        if sym_bool("refill") {
            let v = fresh_vals();
            let k = m.at(kill).h.arch();
            create(&mut w, &mut m, k, v);
        }
    }
    iters_a(&mut w, &m);
    iters_b(&mut w, &m);
    iters_c(&mut w, &m);
    let mut q = 0;
    while q < NQUERY {
        query(&mut w, &m, q, usize::MAX);
        q += 1;
    }
    let total = m.live(0) + m.live(1) + m.live(2);
    if total > 0 {
        let limit = 1 + pick("break", total);
        let mut q = 0;
        while q < NQUERY {
            query(&mut w, &m, q, limit);
            q += 1;
        }
        cover("break");
    }
    cover("end");
}

/// Values written while iterating belong to the entity presented with them.
pub fn writes(steps: usize) {
    let mut w = W::new();
    let mut m = Model::new();
    crate::c03::history(&mut w, &mut m, steps, 3);
    let (x, y) = (sym32("x"), sym32("y"));
    // each entity's P becomes a function of its own handle
    let f = |h: EntityAny| h.raw().0.wrapping_mul(x) ^ y;
    match pick("how", 6) {
        0 => ecs_iter!(w, |h: &EntityAny, p: &mut P| { p.0 = f(*h); }),
        1 => ecs_iter_borrow!(w, |h: &EntityAny, p: &mut P| { p.0 = f(*h); }),
        2 => ecs_iter_destroy!(w, |h: &EntityAny, p: &mut P| { p.0 = f(*h); }),
        3 => {
            for (h, p, _, _) in w.arch_a.iter_mut() {
                p.0 = f(h.into_any());
            }
            for (h, _, p, _) in w.arch_b.iter_mut() {
                p.0 = f(h.into_any());
            }
        }
        4 => {
            let s = w.arch_a.get_all_slices_mut();
            let mut i = 0;
            while i < s.entity.len() {
                s.p[i].0 = f(s.entity[i].into_any());
                i += 1;
            }
            let s = w.arch_b.get_all_slices_mut();
            let mut i = 0;
            while i < s.entity.len() {
                s.p[i].0 = f(s.entity[i].into_any());
                i += 1;
            }
        }
        _ => {
            let mut i = 0;
            while i < w.arch_a.len() {
                let h = w.arch_a.entities()[i].into_any();
                w.arch_a.borrow_slice_mut::<P>()[i].0 = f(h);
                i += 1;
            }
            let mut i = 0;
            while i < w.arch_b.len() {
                let h = w.arch_b.entities()[i].into_any();
                w.arch_b.get_slice_mut::<P>()[i].0 = f(h);
                i += 1;
            }
        }
    }
    let mut i = 0;
    while i < m.n {
        let h = m.at(i).h;
        if h.arch() == 0 {
            m.e[i].as_mut().unwrap().v[0] = f(h.any());
        } else if h.arch() == 1 {
            m.e[i].as_mut().unwrap().v[1] = f(h.any());
        }
        i += 1;
    }
    all_reads(&mut w, &m);
    cover("end");
}
