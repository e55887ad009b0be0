//! No two create calls return equal handles, whatever the generations of the positions.
use crate::gen::with_sym;
use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

fn unique(m: &Model) {
    let n = m.n - 1;
    let new = m.at(n).h.any();
    let (k, v) = new.raw();
    let mut i = 0;
    while i < n {
        let (k2, v2) = m.at(i).h.any().raw();
        check(!(k == k2 && v == v2), "two create calls return equal handles");
        check(m.at(i).h.any() != new, "two create calls return equal handles");
        // a position at generation g has already issued the generations below g
        check(k != k2 || v > v2, "a position reissues one of its earlier generations");
        i += 1;
    }
    check(new.archetype_id() == ARCH_IDS[m.at(n).h.arch()], "a handle carries its archetype's id");
}
/// A creation through one of four calls.
pub fn make(w: &mut W, m: &mut Model, k: usize, how: usize) -> bool {
    let v = [1, 2, 3];
    let h = match (k, how) {
        (0, 0) => Some(H::A(a::create(w, v))),
        (0, 1) => Some(H::A(a::create_arch(w, v))),
        (0, 2) => a::create_within(w, v).ok().map(H::A),
        (0, _) => a::create_within_arch(w, v).ok().map(H::A),
        (1, 0) => Some(H::B(b::create(w, v))),
        (1, 1) => Some(H::B(b::create_arch(w, v))),
        (1, 2) => b::create_within(w, v).ok().map(H::B),
        (1, _) => b::create_within_arch(w, v).ok().map(H::B),
        (_, 0) => Some(H::C(c::create(w, v))),
        (_, 1) => Some(H::C(c::create_arch(w, v))),
        (_, 2) => c::create_within(w, v).ok().map(H::C),
        (_, _) => c::create_within_arch(w, v).ok().map(H::C),
    };
    match h {
        Some(h) => {
            m.add(h, v);
            unique(m);
            true
        }
        None => false,
    }
}
/// Destroys a live entity; false when the generation counter overflowed.
fn kill(w: &mut W, m: &mut Model, i: usize, kind: usize) -> bool {
    let x = m.at(i);
    let gen = x.h.any().raw().1;
    let r = catch(|| match x.h {
        H::A(h) => a::destroy(w, h, kind).is_some(),
        H::B(h) => b::destroy(w, h, kind).is_some(),
        H::C(h) => c::destroy(w, h, kind).is_some(),
    });
    match r {
        Some(r) => {
            check(r == x.alive, "destroy() succeeds <=> the entity is alive");
            m.kill(i);
            true
        }
        None => {
            cover("overflow");
            check(x.alive, "destroying a stale handle panics");
            check(gen == u32::MAX, "destroy() panics below the overflow boundary");
            false
        }
    }
}

/// Histories from any generations, in one or two archetypes.
pub fn gen(steps: usize, archs: usize) {
    let ca = pick("cap", 3);
    let mut w = with_sym(true, false, || W::with_capacity(WCapacity { arch_a: ca, arch_b: 1, arch_c: 1 }));
    let mut m = Model::new();
    let mut s = 0;
    while s < steps {
        let op = pick("op", archs + m.n);
        if op < archs {
            with_sym(true, false, || make(&mut w, &mut m, op, s % 4)); // growth: any generation as well
        } else if m.at(op - archs).alive && !kill(&mut w, &mut m, op - archs, s % 8) {
            // the position that overflowed is out of use; everything else goes on
            cover("overflow");
        }
        s += 1;
    }
    cover("end");
}

/// One position, reused again and again.
pub fn cycle(n: usize) {
    let k = pick("arch", 3);
    let keep = pick("keep", 3); // others alive meanwhile
    let mut w = with_sym(true, false, || W::with_capacity(WCapacity { arch_a: 4, arch_b: 4, arch_c: 4 }));
    let mut m = Model::new();
    let mut i = 0;
    while i < keep {
        make(&mut w, &mut m, k, i);
        i += 1;
    }
    let mut i = 0;
    while i < n {
        make(&mut w, &mut m, k, i % 4);
        let last = m.n - 1;
        let h = m.at(last).h.any();
        if !kill(&mut w, &mut m, last, i % 8) {
            // the entity is still there: fully present
            check(w.contains(h), "after an overflow panic the entity is still present");
            check(kill(&mut w, &mut m, last, i % 8) == false, "the overflow panics again");
            return;
        }
        check(!w.contains(h), "a destroyed entity's handle resolves");
        i += 1;
    }
    cover("end");
}

/// Handles issued during ecs_iter_destroy!-driven reuse, clears by clone, and growth.
pub fn churn(steps: usize) {
    let mut w = with_sym(true, false, || W::with_capacity(WCapacity { arch_a: 2, arch_b: 0, arch_c: 2 }));
    let mut m = Model::new();
    let mut s = 0;
    while s < steps {
        match pick("op", 4) {
            0 => {
                make(&mut w, &mut m, 0, s % 4);
            }
            1 => {
                make(&mut w, &mut m, 2, s % 4);
            }
            2 => w = w.clone(),
            _ => {
                let mm = &mut m;
                let r = catch(|| {
                    ecs_iter_destroy!(w, |h: &EntityAny, q: &Q| {
                        let mut i = 0;
                        while i < mm.n {
                            if mm.at(i).h.any() == *h {
                                mm.kill(i);
                            }
                            i += 1;
                        }
                        EcsStepDestroy::ContinueDestroy
                    })
                });
                if r.is_none() {
                    cover("overflow");
                    return;
                }
            }
        }
        s += 1;
    }
    cover("end");
}
