//! A panic that leaves an operation leaves a consistent world: every other property still holds.
use crate::c04::*;
use crate::comps::*;
use crate::gen::with_sym;
use crate::rt::*;
use gecs::prelude::*;

fn fill(w: &mut V, m: &mut Model, n: [usize; 3]) {
    let mut k = 0;
    while k < 3 {
        let mut i = 0;
        while i < n[k] {
            create(w, m, k);
            i += 1;
        }
        k += 1;
    }
}
fn some(w: &mut V, m: &mut Model, max: usize) {
    let n = [pick("n0", max + 1), pick("n1", max + 1), pick("n2", max)];
    fill(w, m, n);
    if m.n > 1 && sym_bool("hole") {
        destroy(w, m, 0, 0);
    }
}
fn kill(m: &mut Model, i: usize) {
    m.e[i].as_mut().unwrap().alive = false;
}

/// The world is as the model says, by lookup, by iteration and by count.
pub fn same(w: &mut V, m: &Model) {
    shows(w, m);
    let mut n = [0; 3];
    let mut i = 0;
    while i < m.n {
        let x = m.at(i);
        check(w.contains(x.h) == x.alive, "contains() <=> alive");
        check(w.to_direct(x.h).is_some() == x.alive, "to_direct() <=> alive");
        n[x.k] += x.alive as usize;
        i += 1;
    }
    check(w.t_0.len() == n[0] && w.t_1.len() == n[1] && w.t_2.len() == n[2], "len() == number of live entities");
    let mut seen = [0u8; MAXE];
    let s = &mut seen;
    ecs_iter_borrow!(w, |h: &EntityAny| {
        let i = m.find(*h);
        s[i] += 1;
    });
    let mut i = 0;
    while i < m.n {
        check(seen[i] == m.at(i).alive as u8, "iteration presents each live entity exactly once");
        i += 1;
    }
    let mut total = 0;
    let t = &mut total;
    ecs_iter!(w, |d: &D| { *t += 1; d.get(); });
    check(total == n[0] + n[1], "iteration presents each live entity exactly once");
    for (h, d, x, e) in w.t_0.iter_mut() {
        check(d.get() ^ 1 == x.get() && d.get() ^ 2 == e.get(), "components of one entity belong together");
    }
}

/// No borrow is left behind.
fn free(w: &V) {
    let ok = catch(|| {
        drop(w.t_0.borrow_slice_mut::<D>());
        drop(w.t_0.borrow_slice_mut::<X>());
        drop(w.t_0.borrow_slice_mut::<E>());
        drop(w.t_1.borrow_slice_mut::<D>());
        drop(w.t_1.borrow_slice_mut::<Z>());
        drop(w.t_2.borrow_slice_mut::<E>());
    });
    check(ok.is_some(), "a borrow outlives the access that panicked");
}

/// The world can be used as ever, and dropped.
fn usable(mut w: V, mut m: Model) {
    free(&w);
    same(&mut w, &m);
    let n = m.n;
    create(&mut w, &mut m, 0);
    create(&mut w, &mut m, 1);
    if n > 0 {
        let i = pick("after", n);
        destroy(&mut w, &mut m, i, 2);
        create(&mut w, &mut m, 0);
    }
    balance(&m, 0, 0);
    same(&mut w, &m);
    let (mut w2, m2) = clone(&w, &m);
    same(&mut w2, &m2);
    #[cfg(feature = "events")]
    events(&w);
    drop(w2);
    drop(w);
    check(d_live() == 0, "a value is left behind after every world is gone");
    check(z_live() == 0, "a zero-sized value is left behind after every world is gone");
}
#[cfg(feature = "events")]
fn events(w: &V) {
    // an entity is alive <=> it was created once more often than destroyed
    let mut c = [0usize; 3];
    for h in w.iter_created() {
        c[h.archetype_id() as usize] += 1;
        let gone = w.iter_destroyed().filter(|x| *x == h).count();
        check(gone <= 1, "an entity is logged as destroyed twice");
        check(w.contains(*h) == (gone == 0), "logged as created and not destroyed <=> alive");
    }
    let mut d = [0usize; 3];
    for h in w.iter_destroyed() {
        d[h.archetype_id() as usize] += 1;
    }
    check(c[0] == d[0] + w.t_0.len() && c[1] == d[1] + w.t_1.len() && c[2] == d[2] + w.t_2.len(), "created - destroyed == len()");
}
fn leaks(base: u64) {
    check(live_allocs() == base, "an allocation is left behind");
    cover("end");
}

/// A query closure panics at any visit of any of the five macros.
pub fn closure(max: usize) {
    let base = live_allocs();
    {
        let mut w = V::new();
        let mut m = Model::new();
        some(&mut w, &mut m, max);
        let at = pick("at", 2 * max);
        let how = pick("macro", 8);
        let mut n = 0;
        let mut killed = [false; MAXE];
        let (nn, kk) = (&mut n, &mut killed);
        let mm = &m;
        let any = if m.n > 0 { Some(m.at(pick("entity", if how < 4 { m.n } else { 1 }))) } else { None };
        let r = catch(|| match how {
            0 => {
                if let Some(x) = any {
                    ecs_find!(w, x.h, |d: &mut D, h: &EntityAny| -> () { panic!("closure") });
                }
            }
            1 => {
                if let Some(x) = any {
                    ecs_find_borrow!(w, x.h, |d: &mut D, h: &EntityAny| -> () { panic!("closure") });
                }
            }
            2 => {
                if let Some(x) = any {
                    ecs_find_borrow!(w, x.h, |e: &E, h: &EntityAny| -> () { panic!("closure") });
                }
            }
            3 => {
                if let Some(x) = any {
                    if x.k == 0 {
                        ecs_find!(w, Entity::<T0>::from_any(x.h), |d: &mut D, x: &mut X, e: &mut E| -> () { panic!("closure") });
                    }
                }
            }
            4 => ecs_iter!(w, |d: &mut D| {
                if *nn == at {
                    panic!("closure");
                }
                *nn += 1;
            }),
            5 => ecs_iter_borrow!(w, |d: &mut D, h: &EntityAny| {
                if *nn == at {
                    panic!("closure");
                }
                *nn += 1;
            }),
            6 => ecs_iter_borrow!(w, |e: &mut E| {
                if *nn == at {
                    panic!("closure");
                }
                *nn += 1;
            }),
            _ => ecs_iter_destroy!(w, |h: &EntityAny| {
                if *nn == at {
                    panic!("closure");
                }
                *nn += 1;
                if sym_bool("kill") {
                    kk[mm.find(*h)] = true;
                    EcsStepDestroy::ContinueDestroy
                } else {
                    EcsStepDestroy::Continue
                }
            }),
        });
        if r.is_none() {
            cover("panicked");
        }
        let mut i = 0;
        while i < m.n {
            if killed[i] {
                kill(&mut m, i);
            }
            i += 1;
        }
        balance(&m, 0, 0);
        usable(w, m);
    }
    leaks(base);
}

/// The k-th clone of a component panics while the world is being cloned.
pub fn cloning(max: usize) {
    let base = live_allocs();
    {
        let mut w = V::new();
        let mut m = Model::new();
        some(&mut w, &mut m, max);
        let live = d_live();
        inject_clone(1 + pick("k", 4 * max + 1) as u32);
        let r = catch(|| w.clone());
        inject_clone(0);
        if panicked() {
            cover("panicked");
            check(r.is_none(), "a panic in Clone is swallowed");
            check(d_live() == live, "the clones made before the panic are dropped");
        }
        drop(r);
        balance(&m, 0, 0);
        usable(w, m);
    }
    leaks(base);
}

/// The k-th drop of a component panics inside destroy, an iter_destroy loop, or the world's drop.
pub fn dropping(max: usize) {
    let base = live_allocs();
    {
        let mut w = V::new();
        let mut m = Model::new();
        some(&mut w, &mut m, max);
        let how = pick("how", 5);
        let k = 1 + pick("k", 3 * max) as u32;
        match how {
            0 | 1 => {
                if m.n > 0 {
                    let i = pick("entity", m.n);
                    let x = m.at(i);
                    inject_drop(k);
                    let r = catch(|| {
                        if how == 0 {
                            w.destroy(x.h).is_some()
                        } else {
                            match w.to_direct(x.h) {
                                Some(d) => w.destroy(d).is_some(),
                                None => false,
                            }
                        }
                    });
                    inject_drop(0);
                    if let Some(r) = r {
                        check(r == x.alive, "destroy() succeeds <=> the entity is alive");
                    } else {
                        cover("panicked");
                    }
                    kill(&mut m, i);
                }
                balance(&m, 0, 0);
                usable(w, m);
            }
            2 | 3 => {
                let mut killed = [false; MAXE];
                let kk = &mut killed;
                let mm = &m;
                inject_drop(k);
                let r = catch(|| {
                    ecs_iter_destroy!(w, |h: &EntityAny, e: &E| {
                        kk[mm.find(*h)] = true;
                        if how == 2 { EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::BreakDestroy }
                    })
                });
                inject_drop(0);
                if r.is_none() {
                    cover("panicked");
                }
                let mut i = 0;
                while i < m.n {
                    if killed[i] {
                        kill(&mut m, i);
                    }
                    i += 1;
                }
                balance(&m, 0, 0);
                usable(w, m);
            }
            _ => {
                inject_drop(k);
                let r = catch(|| drop(w));
                inject_drop(0);
                if r.is_none() {
                    cover("panicked");
                }
                let mut i = 0;
                while i < m.n {
                    kill(&mut m, i);
                    i += 1;
                }
                balance(&m, 0, 0);
            }
        }
    }
    check(d_live() == 0, "a value is left behind after every world is gone");
    leaks(base);
}

/// Generation and archetype version overflows, by every destroy path.
pub fn overflow(max: usize) {
    let base = live_allocs();
    {
        let mut w = with_sym(true, true, || {
            let c = pick("cap", 2);
            V::with_capacity(VCapacity { t_0: 3 * c, t_1: 2, t_2: 2 })
        });
        let mut m = Model::new();
        let n = [1 + pick("n0", max), pick("n1", max), pick("n2", 2)];
        fill(&mut w, &mut m, n);
        let mut s = 0;
        while s < 2 {
            let i = pick("entity", m.n);
            let x = m.at(i);
            match pick("how", 3) {
                0 | 1 => {
                    let kind = pick("kind", 4);
                    let mut m2 = Model { e: m.e, n: m.n };
                    match catch(|| destroy(&mut w, &mut m2, i, kind)) {
                        Some(()) => m = m2,
                        None => {
                            cover("overflow");
                            check(x.alive, "destroying a stale handle panics");
                        }
                    }
                }
                _ => {
                    let mut last = None;
                    let (l, mm) = (&mut last, &mut m);
                    let r = catch(|| {
                        ecs_iter_destroy!(w, |h: &EntityAny| {
                            if let Some(i) = *l {
                                kill(mm, i); // the loop went on: it is gone
                            }
                            let i = mm.find(*h);
                            *l = Some(i);
                            EcsStepDestroy::ContinueDestroy
                        })
                    });
                    match (r, last) {
                        (Some(()), Some(i)) => kill(&mut m, i),
                        (None, _) => cover("overflow in loop"),
                        _ => {}
                    }
                }
            }
            balance(&m, 0, 0);
            free(&w);
            same(&mut w, &m);
            s += 1;
        }
        #[cfg(feature = "events")]
        events(&w);
        let (w2, m2) = clone(&w, &m);
        create(&mut w, &mut m, 0);
        same(&mut w, &m);
        drop(w2);
        balance(&m, 0, 0);
        drop(w);
        check(d_live() == 0 && z_live() == 0, "a value is left behind after every world is gone");
    }
    leaks(base);
}

/// Something convertible to components whose conversion panics; and running into the capacity limit.
struct Bad(D);
impl From<Bad> for T0Components {
    fn from(_: Bad) -> Self {
        panic!("into")
    }
}
pub fn creating(max: usize, limit: usize) {
    let base = live_allocs();
    {
        let mut w = V::new();
        let mut m = Model::new();
        let k = pick("arch", 3);
        let n = pick("n", max + 1);
        let mut i = 0;
        while i < n {
            if i < limit {
                create(&mut w, &mut m, k);
            } else {
                cover("limit");
                let live = d_live();
                let z = z_live();
                let r = catch(|| {
                    let v = sym32("v");
                    match (k, i % 2) {
                        (0, 0) => w.create::<T0>(t0(v)).into_any(),
                        (0, _) => w.t_0.create(t0(v)).into_any(),
                        (1, 0) => w.create::<T1>(t1(v)).into_any(),
                        (1, _) => w.t_1.create(t1(v)).into_any(),
                        (_, 0) => w.create::<T2>((E::mk(v),)).into_any(),
                        _ => w.t_2.create((E::mk(v),)).into_any(),
                    }
                });
                check(r.is_none(), "creating beyond the limit panics");
                check(d_live() == live && z_live() == z, "the components of a failed creation are dropped");
            }
            i += 1;
        }
        let r = catch(|| w.create::<T0>(Bad(D::mk(0))));
        check(r.is_none(), "a conversion that panics creates nothing");
        let r = catch(|| w.create_within_capacity::<T0>(Bad(D::mk(0))).is_ok());
        check(r.is_none(), "a conversion that panics creates nothing");
        balance(&m, 0, 0);
        free(&w);
        same(&mut w, &m);
        if n > 0 {
            let i = pick("destroy", m.n);
            destroy(&mut w, &mut m, i, 0);
            create(&mut w, &mut m, k);
            same(&mut w, &m);
        }
        let (mut w2, m2) = clone(&w, &m);
        same(&mut w2, &m2);
        drop(w);
        same(&mut w2, &m2);
        drop(w2);
        check(d_live() == 0 && z_live() == 0, "a value is left behind after every world is gone");
    }
    leaks(base);
}

/// Conflicting runtime borrows panic, and leave nothing behind.
pub fn conflict() {
    let base = live_allocs();
    {
        let mut w = V::new();
        let mut m = Model::new();
        fill(&mut w, &mut m, [2, 1, 1]);
        let h = Entity::<T0>::from_any(m.at(0).h);
        let any = m.at(1).h;
        let how = pick("how", 8);
        let r = catch(|| match how {
            0 => {
                ecs_find_borrow!(w, h, |d: &mut D| { ecs_find_borrow!(w, any, |d: &D| d.get()); });
            }
            1 => {
                ecs_iter_borrow!(w, |d: &D| { ecs_find_borrow!(w, h, |d: &mut D| d.set(7)); });
            }
            2 => {
                let g = w.t_0.borrow_slice::<X>();
                ecs_iter_borrow!(w, |x: &mut X, d: &D| { d.get(); });
                drop(g);
            }
            3 => {
                let b = w.borrow::<T0, _>(h).unwrap();
                let g = b.component_mut::<E>();
                let c = b.clone().component::<E>().get();
                drop(g);
            }
            4 => {
                let g = w.t_0.borrow_slice_mut::<D>();
                drop(w.clone());
                drop(g);
            }
            5 => {
                let g = w.t_1.borrow_slice_mut::<Z>();
                drop(w.clone());
                drop(g);
            }
            6 => {
                let g = w.t_0.borrow_slice_mut::<D>();
                ecs_iter_borrow!(w, |h: &EntityAny, d: &D| { d.get(); });
                drop(g);
            }
            _ => {
                ecs_iter_borrow!(w, |e: &mut E, h: &EntityAny| { drop(w.clone()); });
            }
        });
        check(r.is_none(), "a conflicting runtime borrow panics");
        balance(&m, 0, 0);
        usable(w, m);
    }
    leaks(base);
}
