//! With wrapping_version, crossing the generation boundary neither panics nor breaks anything.
use crate::gen::with_sym;
use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

const MAXD: usize = 24;
struct Directs {
    d: [Option<(EntityDirectAny, usize, bool)>; MAXD],
    n: usize,
}
impl Directs {
    fn take(&mut self, w: &mut W, m: &Model, i: usize, how: usize) {
        let h = m.at(i).h.any();
        let d = if how % 2 == 0 { w.to_direct(h) } else { ecs_find!(w, h, |d: &EntityDirectAny| *d) };
        match d {
            Some(d) => {
                self.d[self.n] = Some((d, i, false));
                self.n += 1;
            }
            None => check(false, "a live entity has no direct handle"),
        }
    }
    fn removed(&mut self, m: &Model, arch: usize) {
        let mut i = 0;
        while i < self.n {
            if let Some(x) = &mut self.d[i] {
                if m.at(x.1).h.arch() == arch {
                    x.2 = true;
                }
            }
            i += 1;
        }
    }
    fn judge(&self, w: &mut W, m: &Model) {
        let mut i = 0;
        while i < self.n {
            if let Some((d, e, stale)) = self.d[i] {
                let f = ecs_find!(w, d, |h: &EntityAny| *h);
                check(w.contains(d) == f.is_some(), "a direct handle is accepted by one path only");
                if stale {
                    check(f.is_none(), "a direct handle survives a removal from its archetype");
                } else {
                    check(f == Some(m.at(e).h.any()), "a direct handle designates its own entity while nothing is removed");
                }
            }
            i += 1;
        }
    }
}

/// Any history from any generations and archetype versions.
pub fn wrap(steps: usize) {
    let base = live_allocs();
    let ca = pick("cap", 2);
    let mut w = with_sym(true, true, || W::with_capacity(WCapacity { arch_a: 2 * ca, arch_b: 0, arch_c: 1 }));
    let mut m = Model::new();
    let mut ds = Directs { d: [None; MAXD], n: 0 };
    let mut s = 0;
    while s < steps {
        let op = pick("op", 4 + m.n);
        if op < 2 {
            let v = fresh_vals();
            let h = with_sym(true, true, || create(&mut w, &mut m, op * 2, v)).any(); // growth: any generation as well
            let mut i = 0;
            while i + 1 < m.n {
                check(m.at(i).h.any() != h, "two create calls in a row of a few return equal handles");
                i += 1;
            }
            let (a, b) = h.raw();
            check(b != 0, "a handle has a zero generation");
            match EntityAny::from_raw((a, b)) {
                Ok(x) => check(x == h, "from_raw(raw(h)) == h"),
                Err(_) => check(false, "from_raw(raw(h)) is refused"),
            }
            let i = m.n - 1;
            ds.take(&mut w, &m, i, s);
        } else if op == 2 {
            w = w.clone();
        } else if op == 3 {
            let mm = &mut m;
            let dd = &mut ds;
            let r = catch(|| {
                ecs_iter_destroy!(w, |h: &EntityAny| {
                    let mut i = 0;
                    while i < mm.n {
                        if mm.at(i).alive && mm.at(i).h.any() == *h {
                            mm.kill(i);
                            dd.removed(mm, mm.at(i).h.arch());
                        }
                        i += 1;
                    }
                    EcsStepDestroy::ContinueDestroy
                })
            });
            check(r.is_some(), "ecs_iter_destroy! panics although generations wrap");
        } else {
            let x = m.at(op - 4);
            if x.alive && x.h.any().raw().1 == u32::MAX {
                cover("boundary");
            }
            let r = catch(|| match x.h {
                H::A(h) => a::destroy(&mut w, h, s % 8).is_some(),
                H::B(h) => b::destroy(&mut w, h, s % 8).is_some(),
                H::C(h) => c::destroy(&mut w, h, s % 8).is_some(),
            });
            check(r.is_some(), "destroy() panics although generations wrap");
            check(r == Some(x.alive), "destroy() succeeds <=> the entity is alive");
            if x.alive {
                m.kill(op - 4);
                ds.removed(&m, x.h.arch());
            }
        }
        lookups(&mut w, &m);
        ds.judge(&mut w, &m);
        lens(&w, &m);
        s += 1;
    }
    everything(&mut w, &m);
    drop(w);
    check(live_allocs() == base, "an allocation outlives the world");
    cover("end");
}

/// One position over the boundary and on.
pub fn cycle(n: usize) {
    let mut w = with_sym(true, true, || W::with_capacity(WCapacity { arch_a: 2, arch_b: 0, arch_c: 0 }));
    let mut m = Model::new();
    let v = fresh_vals();
    create(&mut w, &mut m, 0, v);
    let mut i = 0;
    while i < n {
        let v = fresh_vals();
        let h = create(&mut w, &mut m, 0, v).any();
        let mut j = 0;
        while j + 1 < m.n {
            check(m.at(j).h.any() != h, "two create calls in a row of a few return equal handles");
            j += 1;
        }
        if h.raw().1 == u32::MAX {
            cover("boundary");
        }
        let k = m.n - 1;
        let r = catch(|| destroy(&mut w, &mut m, k, i % 8));
        check(r.is_some(), "destroy() panics although generations wrap");
        lookups(&mut w, &m);
        i += 1;
    }
    everything(&mut w, &m);
    cover("end");
}
