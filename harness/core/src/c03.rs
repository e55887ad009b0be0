//! Handles nobody issued: arbitrary raw bits, unchecked conversions, handles of another world.
use crate::gen::{with_sym, with_sym_low};
use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

pub fn history(w: &mut W, m: &mut Model, steps: usize, narch: usize) {
    let mut s = 0;
    while s < steps {
        let op = pick("op", narch + m.n);
        if op < narch {
            let v = fresh_vals();
            create(w, m, op, v);
        } else {
            destroy(w, m, op - narch, s % 8);
        }
        s += 1;
    }
}

/// The entity (dead or alive) whose handle has exactly the bits of `h`.
fn issued(m: &Model, h: EntityAny) -> Option<usize> {
    let mut i = 0;
    while i < m.n {
        if m.at(i).h.any().raw() == h.raw() {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// What a call with an unknown handle may do: panic, report absence, or reach the right entity.
fn judge<T>(r: Option<Option<T>>, hit: Option<usize>, what: impl FnOnce(T) -> bool) {
    match r {
        None => {
            cover("panic");
            check(hit.is_none(), "a call with the handle of a live entity panics");
        }
        Some(None) => check(hit.is_none(), "a call with the handle of a live entity reports absence"),
        Some(Some(x)) => {
            check(hit.is_some(), "a handle that no live entity has is accepted");
            check(what(x), "a forged handle reaches an entity it is not the handle of");
        }
    }
}

macro_rules! typed {
    ($f:ident, $m:ident, $A:ident, $k:expr) => {
        /// Every typed and arch-level path of one archetype. `hit`: the live entity with these bits.
        fn $f(w: &mut W, m: &mut Model, h: EntityAny, hit: Option<usize>) {
            let hit = match hit {
                Some(i) if m.at(i).h.arch() == $k => Some(i),
                _ => None,
            };
            let v = match hit {
                Some(i) => $m::norm(m.at(i).v),
                None => [0; NCOL],
            };
            // arch-level with the dynamic handle
            judge(catch(|| if w.archetype::<$A>().contains(h) { Some(()) } else { None }), hit, |_| true);
            judge(catch(|| w.archetype::<$A>().resolve(h)), hit, |ix| w.archetype::<$A>().entities()[ix].into_any() == h);
            judge(catch(|| w.archetype::<$A>().to_direct(h)), hit, |d| w.archetype::<$A>().contains(d));
            judge(catch(|| w.archetype_mut::<$A>().view(h).map(|v| v.entity.into_any())), hit, |x| x == h);
            judge(catch(|| w.archetype::<$A>().borrow(h).map(|v| v.entity().into_any())), hit, |x| x == h);
            check(Entity::<$A>::try_from(h).is_ok() == (h.archetype_id() == <$A as Archetype>::ARCHETYPE_ID), "try_from(any) succeeds <=> the archetype id matches");
            let e = match catch(|| Entity::<$A>::from_any_unchecked(h)) {
                Some(e) => e,
                None => {
                    check(h.archetype_id() != <$A as Archetype>::ARCHETYPE_ID, "from_any_unchecked panics on a matching id");
                    return;
                }
            };
            if h.archetype_id() != <$A as Archetype>::ARCHETYPE_ID {
                cover("crossed archetypes");
            }
            judge(catch(|| if w.contains(e) { Some(()) } else { None }), hit, |_| true);
            judge(catch(|| w.to_direct(e)), hit, |d| w.contains(d));
            let mut p = 0;
            // (paths 19 and 20 look for the dynamic handle in a query over several archetypes)
            let nread = if h.archetype_id() == <$A as Archetype>::ARCHETYPE_ID { NREAD } else { 19 };
            while p < nread {
                judge(catch(|| $m::read(w, e, p)), hit, |x| same(&x, &v));
                p += 1;
            }
            let d = pick("destroy", 2 + $m::NDESTROY);
            if d == 0 {
                let nv = fresh_vals();
                let p = pick("wpath", NWRITE);
                judge(catch(|| if $m::write(w, e, p, nv) { Some(()) } else { None }), hit, |_| true);
                if let Some(i) = hit {
                    m.e[i].as_mut().unwrap().v = nv;
                }
            } else if d == 1 {
                judge(catch(|| w.archetype_mut::<$A>().destroy(h).map(|c| $m::vals(&c))), hit, |x| same(&x, &v));
                if let Some(i) = hit {
                    m.kill(i);
                }
            } else {
                if (d == 3 || d == 5) && h.archetype_id() != <$A as Archetype>::ARCHETYPE_ID {
                    return; // these go through the dynamic handle, which may well be a live one
                }
                judge(catch(|| $m::destroy(w, e, d - 2)), hit, |x| match x {
                    Some(x) => same(&x, &v),
                    None => true,
                });
                if let Some(i) = hit {
                    m.kill(i);
                }
            }
        }
    };
}
typed!(typed_a, a, ArchA, 0);
typed!(typed_b, b, ArchB, 1);
typed!(typed_c, c, ArchC, 2);

fn anyway(w: &mut W, m: &mut Model, h: EntityAny, hit: Option<usize>) {
    judge(catch(|| if w.contains(h) { Some(()) } else { None }), hit, |_| true);
    judge(catch(|| w.to_direct(h)), hit, |d| w.contains(d));
    judge(catch(|| ecs_find!(w, h, |e: &EntityAny| *e)), hit, |x| x == h);
    judge(catch(|| ecs_find_borrow!(w, h, |e: &EntityAny| *e)), hit, |x| x == h);
    let hp = match hit {
        Some(i) if m.at(i).h.arch() != 2 => Some(i),
        _ => None,
    };
    let pv = match hp {
        Some(i) => m.at(i).v[if m.at(i).h.arch() == 0 { 0 } else { 1 }],
        None => 0,
    };
    judge(catch(|| ecs_find!(w, h, |e: &Entity<_>, p: &P| (e.into_any(), p.0))), hp, |x| x.0 == h && x.1 == pv);
    judge(catch(|| ecs_find_borrow!(w, h, |p: &mut P, e: &Entity<_>| (e.into_any(), p.0))), hp, |x| x.0 == h && x.1 == pv);
    match catch(|| SelectEntity::try_from(h).is_ok()) {
        Some(ok) => check(ok == ARCH_IDS.contains(&h.archetype_id()), "SelectEntity::try_from succeeds <=> the archetype exists"),
        None => check(false, "SelectEntity::try_from panics"),
    }
    let r = catch(|| w.destroy(h));
    judge(r, hit, |_| true);
    if let Some(i) = hit {
        m.kill(i);
    }
}

fn attack(w: &mut W, m: &mut Model, h: EntityAny) {
    let hit = match issued(m, h) {
        Some(i) if m.at(i).alive => {
            cover("live");
            Some(i)
        }
        Some(_) => {
            cover("stale");
            None
        }
        None => {
            cover("never issued");
            None
        }
    };
    match pick("api", 4) {
        0 => anyway(w, m, h, hit),
        1 => typed_a(w, m, h, hit),
        2 => typed_b(w, m, h, hit),
        _ => typed_c(w, m, h, hit),
    }
    // whatever happened, the world is as the history says
    lookups(w, m);
    lens(w, m);
    reads(w, m, 0);
    reads(w, m, 16);
}

/// Any 64 bits whatsoever as a handle, after any short history.
pub fn raw(steps: usize, caps: usize) {
    let ca = pick("cap", caps);
    let mut w = W::with_capacity(WCapacity { arch_a: ca, arch_b: 0, arch_c: ca });
    let mut m = Model::new();
    history(&mut w, &mut m, steps, 2);
    let (k, v) = (sym32("key"), sym32("version"));
    let h = match EntityAny::from_raw((k, v)) {
        Ok(h) => {
            check(v != 0, "from_raw accepts a zero generation");
            h
        }
        Err(_) => {
            check(v == 0, "from_raw rejects a non-zero generation");
            return;
        }
    };
    check(h.raw() == (k, v), "raw(from_raw(r)) == r");
    attack(&mut w, &mut m, h);
    cover("end");
}

/// The same from arbitrary slot generations (so that any forged generation can match a slot).
pub fn raw_gen(steps: usize) {
    let ca = pick("cap", 2);
    let mut w = with_sym(true, false, || W::with_capacity(WCapacity { arch_a: 1 + ca, arch_b: 1, arch_c: 0 }));
    let mut m = Model::new();
    let mut s = 0;
    while s < steps {
        let op = pick("op", 2 + m.n);
        if op < 2 {
            let v = fresh_vals();
            create(&mut w, &mut m, op, v);
        } else {
            assume(m.at(op - 2).h.any().raw().1 != u32::MAX);
            destroy(&mut w, &mut m, op - 2, s % 8);
        }
        s += 1;
    }
    let (k, v) = (sym32("key"), sym32("version"));
    assume(v != 0);
    // one forged generation must be able to meet the generations of live and of free positions
    let h = EntityAny::from_raw((k, v)).unwrap();
    let hit = match issued(&m, h) {
        Some(i) if m.at(i).alive => {
            assume(v != u32::MAX); // destroying at the last generation panics; see C10
            Some(i)
        }
        _ => None,
    };
    match pick("api", 3) {
        0 => anyway(&mut w, &mut m, h, hit),
        1 => typed_a(&mut w, &mut m, h, hit),
        _ => typed_b(&mut w, &mut m, h, hit),
    }
    lookups(&mut w, &m);
    lens(&w, &m);
    reads(&mut w, &m, 0);
    cover("end");
}

// ---- direct handles of another world ---------------------------------------------------------

macro_rules! dtyped {
    ($f:ident, $m:ident, $A:ident, $k:expr) => {
        fn $f(w: &mut W, m: &mut Model, d: EntityDirectAny, hit: Option<usize>) {
            let hit = match hit {
                Some(i) if m.at(i).h.arch() == $k => Some(i),
                _ => None,
            };
            let (h, v) = match hit {
                Some(i) => (Some(m.at(i).h.any()), $m::norm(m.at(i).v)),
                None => (None, [0; NCOL]),
            };
            judge(catch(|| if w.archetype::<$A>().contains(d) { Some(()) } else { None }), hit, |_| true);
            judge(catch(|| w.archetype::<$A>().resolve(d)), hit, |ix| Some(w.archetype::<$A>().entities()[ix].into_any()) == h);
            judge(catch(|| w.archetype_mut::<$A>().view(d).map(|v| v.entity.into_any())), hit, |x| Some(x) == h);
            judge(catch(|| w.archetype::<$A>().borrow(d).map(|v| v.entity().into_any())), hit, |x| Some(x) == h);
            judge(catch(|| w.archetype::<$A>().to_direct(d)), hit, |x| x == d);
            let e = match catch(|| EntityDirect::<$A>::from_any_unchecked(d)) {
                Some(e) => e,
                None => {
                    check(d.archetype_id() != <$A as Archetype>::ARCHETYPE_ID, "from_any_unchecked panics on a matching id");
                    return;
                }
            };
            judge(catch(|| if w.contains(e) { Some(()) } else { None }), hit, |_| true);
            judge(catch(|| w.to_direct(e)), hit, |x| x == e);
            judge(catch(|| if w.archetype::<$A>().contains(e) { Some(()) } else { None }), hit, |_| true);
            judge(catch(|| w.archetype::<$A>().resolve(e)), hit, |ix| Some(w.archetype::<$A>().entities()[ix].into_any()) == h);
            judge(catch(|| w.view::<$A, _>(e).map(|v| v.entity.into_any())), hit, |x| Some(x) == h);
            judge(catch(|| w.borrow::<$A, _>(e).map(|v| v.entity().into_any())), hit, |x| Some(x) == h);
            judge(catch(|| ecs_find!(w, e, |x: &Entity<$A>| x.into_any())), hit, |x| Some(x) == h);
            judge(catch(|| ecs_find_borrow!(w, e, |x: &Entity<$A>| x.into_any())), hit, |x| Some(x) == h);
            match pick("destroy", 4) {
                0 => judge(catch(|| w.destroy(e).map(|c| $m::vals(&c))), hit, |x| same(&x, &v)),
                1 => judge(catch(|| w.archetype_mut::<$A>().destroy(e).map(|c| $m::vals(&c))), hit, |x| same(&x, &v)),
                2 => judge(catch(|| w.archetype_mut::<$A>().destroy(d).map(|c| $m::vals(&c))), hit, |x| same(&x, &v)),
                _ => {
                    if d.archetype_id() != <$A as Archetype>::ARCHETYPE_ID {
                        return; // the dynamic handle may well be a live one
                    }
                    judge(catch(|| w.destroy(e.into_any())), hit, |_| true)
                }
            }
            if let Some(i) = hit {
                m.kill(i);
            }
        }
    };
}
dtyped!(dtyped_a, a, ArchA, 0);
dtyped!(dtyped_b, b, ArchB, 1);

fn danyway(w: &mut W, m: &mut Model, d: EntityDirectAny, hit: Option<usize>) {
    let h = hit.map(|i| m.at(i).h.any());
    judge(catch(|| if w.contains(d) { Some(()) } else { None }), hit, |_| true);
    judge(catch(|| w.to_direct(d)), hit, |x| x == d);
    judge(catch(|| ecs_find!(w, d, |e: &EntityAny, x: &EntityDirectAny| (*e, *x))), hit, |x| Some(x.0) == h && x.1 == d);
    judge(catch(|| ecs_find_borrow!(w, d, |e: &EntityAny| *e)), hit, |x| Some(x) == h);
    judge(catch(|| w.destroy(d)), hit, |_| true);
    if let Some(i) = hit {
        m.kill(i);
    }
}

/// Direct handles issued by another world (any archetype versions on both sides) or converted
/// between archetypes: accepted only when identical to the direct handle of a live entity here.
pub fn direct(steps: usize) {
    let mut w = with_sym_low(false, true, W::new);
    let mut m = Model::new();
    history(&mut w, &mut m, steps, 2);
    let mut w2 = with_sym_low(false, true, W::new);
    let mut m2 = Model::new();
    // the other world: n entities in one archetype, the last one issues the direct handle
    let k = pick("foreign", 2);
    let n = 1 + pick("n", 3);
    let mut i = 0;
    while i < n {
        create(&mut w2, &mut m2, k, [1, 2, 3]);
        i += 1;
    }
    let d = w2.to_direct(m2.at(n - 1).h.any()).unwrap();
    let mut hit = None;
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        if x.alive {
            let dx = w.to_direct(x.h.any());
            check(dx.is_some(), "to_direct refuses a live entity");
            if dx == Some(d) {
                check(hit.is_none(), "two live entities share a direct handle");
                cover("identical");
                hit = Some(i);
            }
        }
        i += 1;
    }
    match pick("api", 3) {
        0 => danyway(&mut w, &mut m, d, hit),
        1 => dtyped_a(&mut w, &mut m, d, hit),
        _ => dtyped_b(&mut w, &mut m, d, hit),
    }
    lookups(&mut w, &m);
    lens(&w, &m);
    reads(&mut w, &m, 0);
    cover("end");
}

/// Two worlds with their own histories: each rejects or accepts the other's handles by the bits alone.
pub fn foreign(steps: usize) {
    let ca = pick("cap", 2);
    let mut w = W::with_capacity(WCapacity { arch_a: ca, arch_b: 0, arch_c: 0 });
    let mut m = Model::new();
    history(&mut w, &mut m, steps, 2);
    let mut w2 = W::new();
    let mut m2 = Model::new();
    history(&mut w2, &mut m2, steps, 2);
    if m2.n == 0 {
        return;
    }
    let i = pick("foreign", m2.n);
    attack(&mut w, &mut m, m2.at(i).h.any());
    lookups(&mut w2, &m2);
    cover("end");
}
