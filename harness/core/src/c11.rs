//! Runtime borrows: granted exactly when they do not alias, and over exactly when they end.
use crate::comps::*;
use crate::rt::*;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(B);
    ecs_archetype!(A0, P, D, Q);
    ecs_archetype!(A1, P, Z);
}

/// Columns: A0.P, A0.D, A0.Q, A1.P, A1.Z.
const NC: usize = 5;
/// The borrows in force, per column.
#[derive(Clone, Copy)]
struct M {
    sh: [u8; NC],
    mu: [bool; NC],
}
impl M {
    fn new() -> M {
        M { sh: [0; NC], mu: [false; NC] }
    }
    fn ok(&self, sh: &[usize], mu: &[usize]) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i < sh.len() {
            ok &= !self.mu[sh[i]];
            i += 1;
        }
        let mut i = 0;
        while i < mu.len() {
            ok &= !self.mu[mu[i]] && self.sh[mu[i]] == 0;
            i += 1;
        }
        ok
    }
    fn with(&self, sh: &[usize], mu: &[usize]) -> M {
        let mut m = *self;
        let mut i = 0;
        while i < sh.len() {
            m.sh[sh[i]] += 1;
            i += 1;
        }
        let mut i = 0;
        while i < mu.len() {
            m.mu[mu[i]] = true;
            i += 1;
        }
        m
    }
}

#[inline(never)]
fn one(w: &B, c: usize, write: bool) -> bool {
    catch(|| match (c, write) {
        (0, false) => drop(w.a_0.borrow_slice::<P>()),
        (0, true) => drop(w.a_0.borrow_slice_mut::<P>()),
        (1, false) => drop(w.a_0.borrow_slice::<D>()),
        (1, true) => drop(w.a_0.borrow_slice_mut::<D>()),
        (2, false) => drop(w.a_0.borrow_slice::<Q>()),
        (2, true) => drop(w.a_0.borrow_slice_mut::<Q>()),
        (3, false) => drop(w.a_1.borrow_slice::<P>()),
        (3, true) => drop(w.a_1.borrow_slice_mut::<P>()),
        (4, false) => drop(w.a_1.borrow_slice::<Z>()),
        _ => drop(w.a_1.borrow_slice_mut::<Z>()),
    })
    .is_some()
}
/// The state of every column is exactly what the borrows in force make it.
#[inline(never)]
fn probe(w: &B, m: &M) {
    let mut c = 0;
    while c < NC {
        check(one(w, c, false) == !m.mu[c], "a shared access is refused <=> the column is mutably borrowed");
        check(one(w, c, true) == (!m.mu[c] && m.sh[c] == 0), "a mutable access is refused <=> the column is borrowed");
        c += 1;
    }
}

struct H {
    a: [Entity<A0>; 2],
    b: Entity<A1>,
    da: EntityDirect<A0>,
    db: EntityDirectAny,
}

struct Throw;

/// What happens while an access is in force: the columns are as they should be, further accesses, and
/// possibly an unwinding end.
#[inline(never)]
fn inside(w: &B, h: &H, m: M, depth: usize) {
    if depth == 0 {
        probe(w, &m);
    } else {
        access(w, h, &m, depth - 1);
        probe(w, &m);
    }
    if sym_bool("unwind") {
        panic!("inside");
    }
}

/// One access of any kind, anywhere; then the state must be as before.
fn access(w: &B, h: &H, m: &M, depth: usize) {
    let kind = pick("access", 30);
    let mut runs = 0u32;
    let r = &mut runs;
    // guard: an access whose columns are held during `inside`
    macro_rules! go {
        ([$($s:expr),*], [$($m:expr),*], |$f:ident| $body:expr) => {{
            let sh: &[usize] = &[$($s),*];
            let mu: &[usize] = &[$($m),*];
            let ok = m.ok(sh, mu);
            let m2 = m.with(sh, mu);
            let mut done = false;
            let dn = &mut done;
            catch(|| {
                let mut $f = || {
                    *r += 1;
                    check(ok, "an access that aliases a mutable borrow is granted");
                    inside(w, h, m2, depth);
                    *dn = true;
                };
                $body
            });
            check(runs == ok as u32, "an access that aliases nothing is refused");
            if ok { cover("granted") } else { cover("refused") }
        }};
    }
    // an iteration over both archetypes: `inside` happens at one visit of one of them
    macro_rules! it {
        ([$($s0:expr),*], [$($m0:expr),*], [$($s1:expr),*], [$($m1:expr),*], |$f:ident| $body:expr) => {{
            let ok0 = m.ok(&[$($s0),*], &[$($m0),*]);
            let ok1 = m.ok(&[$($s1),*], &[$($m1),*]);
            let ma = m.with(&[$($s0),*], &[$($m0),*]);
            let mb = m.with(&[$($s1),*], &[$($m1),*]);
            let at = 1 + pick("visit", 2) as u32 * 2;
            let mut threw = true;
            let th = &mut threw;
            catch(|| {
                let mut $f = || {
                    *r += 1;
                    check(if *r <= 2 { ok0 } else { ok1 }, "an access that aliases a mutable borrow is granted");
                    if *r == at {
                        inside(w, h, if at <= 2 { ma } else { mb }, depth);
                    }
                };
                $body;
                *th = false;
            });
            let want = if !ok0 { 0 } else if !ok1 { 2 } else { 3 };
            // the closure itself may have ended the loop by unwinding
            check(runs == want || (threw && runs == at && at < want), "an access that aliases nothing is refused");
            check(threw || want == 3, "an access that aliases a mutable borrow is granted");
        }};
    }
    match kind {
        0 => go!([0], [], |f| ecs_find_borrow!(w, h.a[0], |p: &P| { f(); p.get() })),
        1 => go!([], [0], |f| ecs_find_borrow!(w, h.a[1], |p: &mut P| { f(); p.set(1) })),
        2 => go!([1], [2], |f| ecs_find_borrow!(w, h.a[0].into_any(), |d: &D, q: &mut Q| { f(); q.set(d.get()) })),
        3 => go!([], [1], |f| ecs_find_borrow!(w, h.a[1].into_any(), |d: &mut D, h: &EntityAny| { f(); d.set(2) })),
        4 => go!([], [3], |f| ecs_find_borrow!(w, h.b.into_any(), |p: &mut P| { f(); p.set(1) })),
        5 => go!([3], [4], |f| ecs_find_borrow!(w, h.b, |z: &mut Z, p: &P| { f(); z.set(1) })),
        6 => go!([0], [1], |f| ecs_find_borrow!(w, h.da, |d: &mut D, x: &EntityDirect<_>, p: &P| { f(); d.set(1) })),
        7 => go!([4], [], |f| ecs_find_borrow!(w, h.db, |z: &OneOf<Q, Z>| { f(); z.get() })),
        8 => go!([], [2], |f| ecs_find_borrow!(w, h.a[0].into_any(), |z: &mut OneOf<Q, Z>| { f(); z.get() })),
        9 => go!([], [], |f| ecs_find_borrow!(w, h.a[0].into_any(), |h: &EntityAny| { f(); })),
        10 => go!([0], [], |f| { let b = w.borrow::<A0, _>(h.a[0]).unwrap(); let g = b.component::<P>(); f(); drop(g) }),
        11 => go!([], [0], |f| { let b = w.a_0.borrow(h.a[1].into_any()).unwrap(); let g = b.component_mut::<P>(); f(); drop(g) }),
        12 => go!([], [4], |f| { let b = w.a_1.borrow(h.db).unwrap(); let g = b.component_mut::<Z>(); f(); drop(g) }),
        13 => go!([3], [], |f| { let b = w.a_1.borrow(h.b).unwrap(); let g = b.component::<P>(); f(); drop(g) }),
        14 => go!([0, 0], [2], |f| {
            let b = w.a_0.borrow(h.da).unwrap();
            let c = w.a_0.borrow(h.a[1]).unwrap();
            let g = b.component::<P>(); let i = c.component::<P>(); let j = b.component_mut::<Q>();
            f(); drop(g); drop(j); drop(i)
        }),
        15 => go!([1], [], |f| { let g = w.a_0.borrow_slice::<D>(); f(); g[0].get(); }),
        16 => go!([], [1], |f| { let mut g = w.a_0.borrow_slice_mut::<D>(); f(); g[1].set(4); }),
        17 => go!([], [3], |f| { let mut g = w.archetype::<A1>().borrow_slice_mut::<P>(); f(); g[0].set(4); }),
        18 => go!([4], [], |f| { let g = w.a_1.borrow_slice::<Z>(); f(); drop(g); }),
        19 => go!([2], [0], |f| { let g = w.a_0.borrow_slice::<Q>(); let k = w.a_0.borrow_slice_mut::<P>(); f(); drop(g); drop(k); }),
        20 => {
            // clone borrows every column, for as long as the cloning takes
            let ok = m.ok(&[0, 1, 2, 3, 4], &[]);
            let c = catch(|| w.clone());
            check(c.is_some() == ok, "clone() panics <=> a column is mutably borrowed");
            if let Some(c) = c {
                probe(&c, &M::new());
            }
        }
        21 => it!([0], [], [3], [], |f| ecs_iter_borrow!(w, |p: &P| { f(); p.get(); })),
        22 => it!([], [0], [], [3], |f| ecs_iter_borrow!(w, |h: &EntityAny, p: &mut P| { f(); p.set(3); })),
        23 => it!([], [2], [], [4], |f| ecs_iter_borrow!(w, |z: &mut OneOf<Q, Z>| { f(); z.set(3); })),
        24 => it!([0], [2], [3], [4], |f| ecs_iter_borrow!(w, |z: &mut OneOf<Q, Z>, p: &P, h: &EntityDirectAny| { f(); z.set(3); })),
        25 => it!([], [], [], [], |f| ecs_iter_borrow!(w, |h: &Entity<_>, x: &EntityDirect<_>| { f(); })),
        26 => {
            // A0 only: the first visit breaks, or unwinds
            go!([0, 2], [1], |f| ecs_iter_borrow!(w, |p: &P, d: &mut D, q: &Q| { f(); d.set(3); EcsStep::Break }))
        }
        27 => go!([], [4], |f| ecs_iter_borrow!(w, |z: &mut Z| { f(); z.set(3); })),
        28 => {
            // a guard outlives a conflicting attempt, and ends when dropped
            let ok = m.ok(&[], &[1]);
            let g = catch(|| w.a_0.borrow_slice_mut::<D>());
            check(g.is_some() == ok, "a mutable access is refused <=> the column is borrowed");
            if g.is_some() {
                let m2 = m.with(&[], &[1]);
                let r = catch(|| ecs_find_borrow!(w, h.a[0], |p: &mut P, d: &mut D| { p.set(1) }));
                check(r.is_none(), "an access that aliases a mutable borrow is granted");
                let r = catch(|| ecs_iter_borrow!(w, |p: &mut P, d: &D| { p.set(1) }));
                check(r.is_none(), "an access that aliases a mutable borrow is granted");
                probe(w, &m2);
            }
            drop(g);
        }
        _ => {
            // cloned guards and projections
            let ok = m.ok(&[1], &[]);
            let g = catch(|| w.a_0.borrow_slice::<D>());
            check(g.is_some() == ok, "a shared access is refused <=> the column is mutably borrowed");
            if let Some(g) = g {
                let k = std::cell::Ref::clone(&g);
                let k = std::cell::Ref::map(k, |s| &s[1]);
                drop(g);
                probe(w, &m.with(&[1], &[]));
                check(k.get() == 21, "a projected guard reads the component");
            }
        }
    }
}

/// Accesses of every kind, nested `depth` deep and possibly unwinding at every level; afterwards the
/// world is as good as new.
pub fn nested(depth: usize) {
    let mut w = B::new();
    let a = [w.create::<A0>((P(10), D::mk(20), Q(30))), w.create::<A0>((P(11), D::mk(21), Q(31)))];
    let b = w.create::<A1>((P(12), Z::mk(0)));
    let h = H { a, b, da: w.to_direct(a[1]).unwrap(), db: w.to_direct(b.into_any()).unwrap() };
    let m = M::new();
    probe(&w, &m);
    access(&w, &h, &m, depth);
    probe(&w, &m);
    // the world itself is not affected
    check(w.contains(a[0]) && w.contains(a[1]) && w.contains(b) && w.a_0.len() == 2 && w.a_1.len() == 1, "entities are unaffected");
    drop(w.clone());
    w.create::<A0>((P(1), D::mk(2), Q(3)));
    check(w.destroy(a[0]).is_some(), "entities are unaffected");
    probe(&w, &m);
    cover("end");
}

/// Borrows and the archetypes they belong to survive growth and relocation: a borrow ended before a
/// structural change leaves no trace after it.
pub fn between(steps: usize) {
    let mut w = B::new();
    let mut n = 0usize;
    let mut last: Option<Entity<A0>> = None;
    let mut s = 0;
    while s < steps {
        let m = M::new();
        match pick("op", 5) {
            0 => {
                last = Some(w.create::<A0>((P(1), D::mk(2), Q(3))));
                n += 1;
            }
            1 => {
                if let Some(e) = last.take() {
                    check(w.destroy(e).is_some(), "destroyed");
                    n -= 1;
                }
            }
            2 => {
                // a panic while every column of A0 is borrowed
                let r = catch(|| {
                    let a = w.a_0.borrow_slice_mut::<P>();
                    let b = w.a_0.borrow_slice::<D>();
                    let c = w.a_0.borrow_slice_mut::<Q>();
                    let d = w.a_1.borrow_slice_mut::<P>();
                    if sym_bool("unwind") {
                        panic!("x");
                    }
                });
            }
            3 => {
                let v = {
                    let g = w.a_0.borrow_slice::<D>();
                    let k = w.a_0.borrow_slice::<P>();
                    w.clone()
                };
                probe(&v, &m);
                if sym_bool("swap") {
                    w = v;
                }
            }
            _ => {
                let r = catch(|| ecs_iter_destroy!(w, |p: &mut P, h: &EntityAny| {
                    if sym_bool("unwind") {
                        panic!("x");
                    }
                    EcsStepDestroy::Continue
                }));
            }
        }
        probe(&w, &m);
        check(w.a_0.len() == n, "len() == number of live entities");
        s += 1;
    }
    cover("end");
}
