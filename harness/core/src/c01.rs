use crate::gen::with_sym;
use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

/// Histories of creations and destructions over all archetypes, all lookup paths after each step.
pub fn hist(steps: usize, caps: usize) {
    let ca = pick("cap", caps);
    let mut w = W::with_capacity(WCapacity { arch_a: ca, arch_b: 0, arch_c: ca });
    let mut m = Model::new();
    let mut s = 0;
    while s < steps {
        let op = pick("op", 3 + m.n);
        if op < 3 {
            let v = fresh_vals();
            create(&mut w, &mut m, op, v);
        } else {
            destroy(&mut w, &mut m, op - 3, s % 8);
        }
        lookups(&mut w, &m);
        lens(&w, &m);
        s += 1;
    }
    all_reads(&mut w, &m);
    cover("end");
}

/// As `hist` in one archetype (deeper), with every way to destroy.
pub fn one(steps: usize) {
    let k = pick("arch", 3);
    let ca = pick("cap", 2);
    let mut w = W::with_capacity(WCapacity { arch_a: ca, arch_b: ca, arch_c: ca });
    let mut m = Model::new();
    let mut s = 0;
    while s < steps {
        let op = pick("op", 1 + m.n);
        if op < 1 {
            let v = fresh_vals();
            create(&mut w, &mut m, k, v);
        } else {
            destroy(&mut w, &mut m, op - 1, (s + k) % 8);
        }
        s += 1;
        if s > 3 {
            lookups(&mut w, &m);
        }
    }
    lens(&w, &m);
    reads(&mut w, &m, 0);
    reads(&mut w, &m, 5);
    cover("end");
}

/// Longer histories without probing in between: fill, remove some, refill across growth.
pub fn bulk(n: usize, again: usize) {
    let k = pick("arch", 3);
    let n = 1 + pick("n", n);
    let mut w = W::new();
    let mut m = Model::new();
    let mut i = 0;
    while i < n {
        let v = fresh_vals();
        create(&mut w, &mut m, k, v);
        i += 1;
    }
    let i = pick("i", n);
    destroy(&mut w, &mut m, i, 1);
    let j = pick("j", n + 1);
    if j < n {
        destroy(&mut w, &mut m, j, 2);
    }
    let mut i = 0;
    let r = pick("again", again + 1);
    while i < r {
        let v = fresh_vals();
        create(&mut w, &mut m, k, v);
        i += 1;
    }
    lookups(&mut w, &m);
    reads(&mut w, &m, 1);
    reads(&mut w, &m, 4);
    lens(&w, &m);
    cover("end");
}

/// Histories mixing every kind of structural operation.
pub fn mix(steps: usize) {
    let mut w = W::with_capacity(WCapacity { arch_a: 1, arch_b: 0, arch_c: 2 });
    let mut m = Model::new();
    let mut s = 0;
    while s < steps {
        let op = pick("op", 8 + m.n);
        let v = fresh_vals();
        match op {
            0 | 1 | 2 => {
                create(&mut w, &mut m, op, v);
            }
            3 => {
                let full = a::len(&w) == a::capacity(&w);
                match a::create_within(&mut w, v) {
                    Ok(h) => {
                        check(!full, "create_within_capacity succeeds only below capacity");
                        m.add(H::A(h), v)
                    }
                    Err(r) => check(full && same(&r, &norm(0, v)), "create_within_capacity returns its argument when full"),
                }
            }
            4 => {
                let h = b::create_arch(&mut w, v);
                m.add(H::B(h), v);
            }
            5 => w = w.clone(),
            6 => {
                // destroy, in a loop over every archetype, those the decision picks
                let mut kill = [false; MAXE];
                let mm = &m;
                let kk = &mut kill;
                ecs_iter_destroy!(w, |e: &EntityAny| {
                    let mut i = 0;
                    while i < mm.n {
                        if mm.at(i).h.any() == *e {
                            break;
                        }
                        i += 1;
                    }
                    check(i < mm.n, "ecs_iter_destroy! visits an unknown entity");
                    if sym_bool("kill") {
                        kk[i] = true;
                        EcsStepDestroy::ContinueDestroy
                    } else {
                        EcsStepDestroy::Continue
                    }
                });
                let mut i = 0;
                while i < m.n {
                    if kill[i] {
                        check(m.at(i).alive, "ecs_iter_destroy! visits a dead entity");
                        m.kill(i);
                    }
                    i += 1;
                }
            }
            7 => {
                // destroy everything in archetype C through the archetype
                while w.arch_c.len() > 0 {
                    let e = w.arch_c.entities()[0];
                    check(w.arch_c.destroy(e).is_some(), "an entity listed by entities() can be destroyed");
                    let mut i = 0;
                    while i < m.n {
                        if m.at(i).h == H::C(e) {
                            check(m.at(i).alive, "entities() lists a destroyed entity");
                            m.kill(i);
                        }
                        i += 1;
                    }
                }
            }
            _ => destroy(&mut w, &mut m, op - 8, s % 8),
        }
        s += 1;
    }
    lookups(&mut w, &m);
    lens(&w, &m);
    reads(&mut w, &m, 0);
    reads(&mut w, &m, 18);
    cover("end");
}

/// Histories from arbitrary slot generations.
pub fn gen(steps: usize) {
    let k = pick("arch", 2);
    let ca = pick("cap", 3);
    let mut w = with_sym(true, false, || W::with_capacity(WCapacity { arch_a: ca, arch_b: ca, arch_c: 0 }));
    let mut m = Model::new();
    let mut s = 0;
    while s < steps {
        let op = pick("op", 1 + m.n);
        if op < 1 {
            let v = fresh_vals();
            create(&mut w, &mut m, k, v);
        } else {
            let i = op - 1;
            let x = m.at(i);
            let r = catch(|| match x.h {
                H::A(h) => a::destroy(&mut w, h, s % 8).is_some(),
                H::B(h) => b::destroy(&mut w, h, s % 8).is_some(),
                H::C(h) => c::destroy(&mut w, h, s % 8).is_some(),
            });
            match r {
                Some(r) => check(r == x.alive, "destroy() succeeds <=> the entity is alive"),
                None => {
                    cover("overflow");
                    check(x.alive, "destroying a stale handle panics");
                    check(x.h.any().raw().1 == u32::MAX, "destroy() panics below the overflow boundary");
                    return;
                }
            }
            m.kill(i);
        }
        s += 1;
        lookups(&mut w, &m);
    }
    reads(&mut w, &m, 0);
    cover("end");
}

/// Handles kept for any number of reuses of their positions.
pub fn ages(n: usize) {
    let mut t = crate::ages::ages(n);
    let w = &mut t.new;
    let mut i = 0;
    while i < n {
        let mut q = 0;
        while q < NREAD {
            let r = match t.before.at(i).h {
                H::A(h) => a::read(w, h, q).is_none(),
                H::B(h) => b::read(w, h, q).is_none(),
                H::C(h) => c::read(w, h, q).is_none(),
            };
            check(r, "an access path reaches another entity through a handle that is many reuses old");
            q += 1;
        }
        match t.before.at(i).h {
            H::A(h) => a::lookups(w, h, false),
            H::B(h) => b::lookups(w, h, false),
            H::C(h) => c::lookups(w, h, false),
        }
        let kind = pick("kind", 8);
        let r = match t.before.at(i).h {
            H::A(h) => a::destroy(w, h, kind).is_some(),
            H::B(h) => b::destroy(w, h, kind).is_some(),
            H::C(h) => c::destroy(w, h, kind).is_some(),
        };
        check(!r, "a handle that is many reuses old destroys another entity");
        i += 1;
    }
    lookups(w, &t.after);
    reads(w, &t.after, 0);
    cover("end");
}
