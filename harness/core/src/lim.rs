//! The real capacity limit.
use crate::rt::*;
use gecs::prelude::*;

#[derive(Clone)]
pub struct B(pub u8);
ecs_world! {
    ecs_name!(Lim);
    #[archetype_id(250)]
    ecs_archetype!(Li, B);
}
/// Creation up to the real capacity limit `n` (2^24), in a world with room for `n - 3`; there, and with positions freed and reused there.
pub fn limit(n: usize) {
    let real = n == 1 << 24;
    let mut w = Lim::with_capacity(LimCapacity { li: n - 3 });
    const K: usize = 12;
    let at: [usize; K] = [0, 255, 65535, 65536, 65537, 1 << 20, 1 << 22, (1 << 23) - 1, 1 << 23, n - 4, n - 3, n - 1];
    let mut keep: [Option<Entity<Li>>; K] = [None; K];
    let mut j = 0;
    let mut i = 0;
    while i < n {
        let e = w.create::<Li>((B(i as u8),));
        if j < K && at[j] == i {
            keep[j] = Some(e);
        }
        while j < K && at[j] <= i {
            j += 1;
        }
        i += 1;
        if i == n - 3 {
            check(w.li.len() == i && w.li.capacity() >= i, "with_capacity(n) has room for n");
        }
    }
    check(w.li.len() == n && (!real || w.li.capacity() == n), "len() == number of live entities");
    let judge = |w: &mut Lim, keep: &[Option<Entity<Li>>; K]| {
        let mut j = 0;
        while j < K {
            if let Some(e) = keep[j] {
                check(w.contains(e) && w.contains(e.into_any()), "a handle is accepted <=> its entity is alive");
                let r = ecs_find!(w, e, |h: &Entity<_>, b: &B, d: &EntityDirect<_>| (*h, b.0, *d));
                check(matches!(r, Some((h, v, _)) if h == e && v == at[j] as u8), "a handle resolves to its own entity and components");
                if let Some((_, _, d)) = r {
                    check(ecs_find!(w, d, |h: &Entity<Li>| *h) == Some(e), "a direct handle resolves to its own entity");
                }
                check(EntityAny::from_raw(e.into_any().raw()) == Ok(e.into_any()) && e.archetype_id() == 250, "from_raw() after raw() is the identity");
            }
            j += 1;
        }
    };
    judge(&mut w, &keep);
    match w.create_within_capacity::<Li>((B(77),)) {
        Ok(_) => check(!real, "create_within_capacity() succeeds at capacity"),
        Err(c) => check(c.get::<B>().0 == 77, "a failed create_within_capacity() returns its argument"),
    }
    if real {
        check(catch(|| w.create::<Li>((B(78),))).is_none(), "create() at the limit panics");
        check(w.li.len() == n && w.li.capacity() == n, "a panic of create() at the limit changes the archetype");
        cover("limit");
    }
    judge(&mut w, &keep);
    // free one of them or two, and reuse
    let a = pick("a", K);
    if let Some(e) = keep[a] {
        check(w.destroy(e).is_some() && !w.contains(e), "a destroyed entity is unreachable");
        keep[a] = None;
        judge(&mut w, &keep);
        let b = pick("b", 3);
        let b = [0, 8, K - 1][b];
        if let Some(f) = keep[b] {
            check(w.destroy(f.into_any()).is_some(), "destroy() rejects a live entity");
            keep[b] = None;
            let g = w.create_within_capacity::<Li>((B(at[b] as u8),));
            check(g.is_ok(), "create_within_capacity() fails below capacity");
            keep[b] = g.ok();
            check(keep[b] != Some(f) && !w.contains(f) && !w.contains(e), "a handle is issued twice");
        }
        keep[a] = Some(w.create::<Li>((B(at[a] as u8),)));
        check(keep[a] != Some(e) && !w.contains(e), "a handle is issued twice");
        judge(&mut w, &keep);
    }
    cover("end");
}
