//! Handle conversions are lossless, type-faithful and consistent with Eq and Hash: for all handle values.
use crate::comps::*;
use crate::gen::with_sym_low;
use crate::rt::*;
use core::hash::{Hash, Hasher};
use gecs::error::EcsError;
use gecs::prelude::*;

ecs_world! {
    ecs_name!(F);
    ecs_archetype!(F0, P);
    #[archetype_id(255)]
    ecs_archetype!(F255, P, D);
    #[archetype_id(128)]
    ecs_archetype!(F128, Q);
    ecs_archetype!(F129, Q, P);
    #[archetype_id(1)]
    ecs_archetype!(F1, L);
}

/// Records everything that is fed to it.
struct Rec {
    v: [u64; 8],
    n: usize,
}
impl Rec {
    fn of<T: Hash>(t: &T) -> Rec {
        let mut r = Rec { v: [0; 8], n: 0 };
        t.hash(&mut r);
        r
    }
    fn same(&self, o: &Rec) -> bool {
        let mut ok = self.n == o.n;
        let mut i = 0;
        while i < 8 {
            ok &= self.v[i] == o.v[i];
            i += 1;
        }
        ok
    }
    fn put(&mut self, x: u64) {
        if self.n < 8 {
            self.v[self.n] = x;
        }
        self.n += 1;
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.v[0] ^ self.v[1] ^ self.v[2] ^ self.v[3]
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.put(b[i] as u64);
            i += 1;
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.put(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.put(x)
    }
    fn write_u8(&mut self, x: u8) {
        self.put(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.put(x as u64)
    }
}

/// Everything about one value of `EntityAny` with respect to archetype `A`.
fn any_to<A: Archetype>(h: EntityAny, is: bool) -> bool {
    let id = h.archetype_id();
    check((id == A::ARCHETYPE_ID) == is, "archetype_id() is that of the archetype that created the handle");
    let t: Result<Entity<A>, EcsError> = h.try_into();
    let f = catch(|| Entity::<A>::from_any(h));
    let u = catch(|| Entity::<A>::from_any_unchecked(h));
    check(t.is_ok() == is, "try_from() succeeds <=> the archetype id matches");
    check(f.is_some() == is, "from_any() panics <=> the archetype id does not match");
    if !is {
        check(t == Err(EcsError::InvalidEntityType), "try_from() fails with InvalidEntityType");
    }
    if let Some(u) = u {
        check(u.into_any() == h, "from_any_unchecked() keeps the handle");
    } else {
        check(!is, "from_any_unchecked() refuses a matching handle");
    }
    if is {
        let (t, f) = (t.unwrap(), f.unwrap());
        check(t == f && f == t, "conversions agree");
        check(t.into_any() == h && f.into_any() == h, "into_any() after try_from()/from_any() is the identity");
        check(EntityAny::from(t) == h, "From is into_any()");
        check(t.archetype_id() == id, "a typed handle reports its archetype's id");
        check(t.into_any().raw() == h.raw(), "raw() survives typing");
        let r: &EntityAny = (&t).into();
        check(*r == h, "a reference conversion keeps the handle");
        let mut m = t;
        let r: &mut EntityAny = (&mut m).into();
        check(*r == h, "a reference conversion keeps the handle");
        *r = h;
        check(m == t, "a reference conversion refers to the handle");
        let c = t.clone();
        check(c == t && Rec::of(&c).same(&Rec::of(&t)), "a copy is equal and hashes equally");
        check(Rec::of(&t).same(&Rec::of(&f)), "equal handles hash equally");
    }
    is
}
fn direct_to<A: Archetype>(h: EntityDirectAny, is: bool) {
    let id = h.archetype_id();
    check((id == A::ARCHETYPE_ID) == is, "archetype_id() is that of the archetype that created the handle");
    let t: Result<EntityDirect<A>, EcsError> = h.try_into();
    let f = catch(|| EntityDirect::<A>::from_any(h));
    let u = catch(|| EntityDirect::<A>::from_any_unchecked(h));
    check(t.is_ok() == is, "try_from() succeeds <=> the archetype id matches");
    check(f.is_some() == is, "from_any() panics <=> the archetype id does not match");
    if let Some(u) = u {
        check(u.into_any() == h, "from_any_unchecked() keeps the handle");
    } else {
        check(!is, "from_any_unchecked() refuses a matching handle");
    }
    if is {
        let (t, f) = (t.unwrap(), f.unwrap());
        check(t == f && f == t, "conversions agree");
        check(t.into_any() == h && f.into_any() == h, "into_any() after try_from()/from_any() is the identity");
        check(EntityDirectAny::from(t) == h, "From is into_any()");
        check(t.archetype_id() == id, "a typed handle reports its archetype's id");
        let r: &EntityDirectAny = (&t).into();
        check(*r == h, "a reference conversion keeps the handle");
        let mut m = t;
        let r: &mut EntityDirectAny = (&mut m).into();
        check(*r == h, "a reference conversion keeps the handle");
        *r = h;
        check(m == t, "a reference conversion refers to the handle");
        check(Rec::of(&t).same(&Rec::of(&f)), "equal handles hash equally");
    } else {
        check(t == Err(EcsError::InvalidEntityType), "try_from() fails with InvalidEntityType");
    }
}
const IDS: [u8; 5] = [0, 255, 128, 129, 1];
fn which(id: u8) -> Option<usize> {
    let mut i = 0;
    while i < 5 {
        if IDS[i] == id {
            return Some(i);
        }
        i += 1;
    }
    None
}
fn select(h: EntityAny) {
    let k = which(h.archetype_id());
    let bad = "a Select enum names the handle's own archetype";
    let (n, inner) = match SelectEntity::try_from(h) {
        Ok(SelectEntity::F0(e)) => (Some(0), e.into_any()),
        Ok(SelectEntity::F255(e)) => (Some(1), e.into_any()),
        Ok(SelectEntity::F128(e)) => (Some(2), e.into_any()),
        Ok(SelectEntity::F129(e)) => (Some(3), e.into_any()),
        Ok(SelectEntity::F1(e)) => (Some(4), e.into_any()),
        Err(e) => {
            check(e == EcsError::InvalidEntityType, "a Select enum refuses with InvalidEntityType");
            (None, h)
        }
    };
    check(n == k, bad);
    check(inner == h, "a Select enum carries the handle");
    let n = match SelectArchetype::try_from(h) {
        Ok(s) => {
            let n = arch_no(&s);
            check(s.archetype_id() == h.archetype_id(), "SelectArchetype reports the archetype's id");
            Some(n)
        }
        Err(e) => {
            check(e == EcsError::InvalidEntityType, "a Select enum refuses with InvalidEntityType");
            None
        }
    };
    check(n == k, bad);
}
fn arch_no(s: &SelectArchetype) -> usize {
    match s {
        SelectArchetype::F0 => 0,
        SelectArchetype::F255 => 1,
        SelectArchetype::F128 => 2,
        SelectArchetype::F129 => 3,
        SelectArchetype::F1 => 4,
    }
}
fn select_direct(h: EntityDirectAny) {
    let k = which(h.archetype_id());
    let (n, inner) = match SelectEntityDirect::try_from(h) {
        Ok(SelectEntityDirect::F0(e)) => (Some(0), e.into_any()),
        Ok(SelectEntityDirect::F255(e)) => (Some(1), e.into_any()),
        Ok(SelectEntityDirect::F128(e)) => (Some(2), e.into_any()),
        Ok(SelectEntityDirect::F129(e)) => (Some(3), e.into_any()),
        Ok(SelectEntityDirect::F1(e)) => (Some(4), e.into_any()),
        Err(e) => {
            check(e == EcsError::InvalidEntityType, "a Select enum refuses with InvalidEntityType");
            (None, h)
        }
    };
    check(n == k, "a Select enum names the handle's own archetype");
    check(inner == h, "a Select enum carries the handle");
}
fn ids() {
    check(
        F0::ARCHETYPE_ID == 0 && F255::ARCHETYPE_ID == 255 && F128::ARCHETYPE_ID == 128 && F129::ARCHETYPE_ID == 129 && F1::ARCHETYPE_ID == 1,
        "ARCHETYPE_ID follows the declaration",
    );
}
fn any(tag: &'static str) -> ((u32, u32), EntityAny) {
    let raw = (sym32(tag), sym32(tag));
    assume(raw.1 != 0);
    (raw, EntityAny::from_raw(raw).unwrap())
}

/// All 2^64 raw pairs.
pub fn raw() {
    ids();
    let raw = (sym32("key"), sym32("gen"));
    let r = EntityAny::from_raw(raw);
    check(r.is_err() == (raw.1 == 0), "from_raw() rejects exactly a zero generation");
    match r {
        Ok(h) => {
            check(h.raw() == raw, "raw() after from_raw() is the identity");
            check(EntityAny::from_raw(h.raw()) == Ok(h), "from_raw() after raw() is the identity");
            check(h.into_any() == h, "into_any() of an EntityAny is itself");
            let id = h.archetype_id();
            // the archetype id partitions all handle values
            let mut n = 0;
            n += any_to::<F0>(h, id == 0) as u32;
            n += any_to::<F255>(h, id == 255) as u32;
            n += any_to::<F128>(h, id == 128) as u32;
            n += any_to::<F129>(h, id == 129) as u32;
            n += any_to::<F1>(h, id == 1) as u32;
            check(n <= 1, "a handle belongs to one archetype");
            select(h);
            if n == 0 {
                cover("foreign");
            } else {
                cover("own");
            }
        }
        Err(e) => {
            check(e == EcsError::InvalidRawEntity, "from_raw() rejects with InvalidRawEntity");
            cover("zero");
        }
    }
}
/// All pairs of raw pairs.
pub fn eq_hash() {
    let ((k1, g1), a) = any("a");
    let ((k2, g2), b) = any("b");
    let same = k1 == k2 && g1 == g2;
    check((a == b) == same && (b == a) == same && (a != b) != same, "equality of handles is equality of their raw values");
    check(a == a, "equality is reflexive");
    if a == b {
        check(Rec::of(&a).same(&Rec::of(&b)), "equal handles hash equally");
        cover("equal");
    }
    if a.archetype_id() == F255::ARCHETYPE_ID && b.archetype_id() == F255::ARCHETYPE_ID {
        let (x, y) = (Entity::<F255>::from_any(a), Entity::<F255>::from_any(b));
        check((x == y) == same && (x != y) != same, "equality of typed handles is equality of their raw values");
        if x == y {
            check(Rec::of(&x).same(&Rec::of(&y)), "equal handles hash equally");
            cover("typed");
        }
    }
}
/// All direct handle values (but those with a zero word, which `live` reaches).
pub fn direct() {
    let (r1, a) = any("a");
    let (r2, b) = any("b");
    assume(r1.0 != 0 && r2.0 != 0);
    // two non-zero words: a valid direct handle whatever the order of its fields
    let (d, e): (EntityDirectAny, EntityDirectAny) = unsafe { (core::mem::transmute(a), core::mem::transmute(b)) };
    let same = a == b;
    check((d == e) == same && (e == d) == same && (d != e) != same, "equality of direct handles is equality of their values");
    check(d.into_any() == d, "into_any() of an EntityDirectAny is itself");
    if d == e {
        check(Rec::of(&d).same(&Rec::of(&e)), "equal handles hash equally");
    }
    if d.archetype_id() == 129 && e.archetype_id() == 129 {
        let (x, y) = (EntityDirect::<F129>::from_any(d), EntityDirect::<F129>::from_any(e));
        check((x == y) == same && (x != y) != same, "equality of typed handles is equality of their values");
        if x == y {
            check(Rec::of(&x).same(&Rec::of(&y)), "equal handles hash equally");
        }
    }
    let id = d.archetype_id();
    direct_to::<F0>(d, id == 0);
    direct_to::<F255>(d, id == 255);
    direct_to::<F128>(d, id == 128);
    direct_to::<F129>(d, id == 129);
    direct_to::<F1>(d, id == 1);
    select_direct(d);
    cover("end");
}
/// Archetype ids: all 256.
pub fn numbers() {
    let id = sym("id", 8) as u8;
    match SelectArchetype::try_from(id) {
        Ok(s) => {
            check(which(id) == Some(arch_no(&s)), "SelectArchetype names the archetype with that id");
            check(s.archetype_id() == id, "SelectArchetype reports the archetype's id");
            cover("known");
        }
        Err(e) => {
            check(which(id).is_none(), "SelectArchetype refuses an archetype's id");
            check(e == EcsError::InvalidEntityType, "a Select enum refuses with InvalidEntityType");
            cover("unknown");
        }
    }
}
/// Handles of live entities, for any generations and archetype versions.
pub fn live(n: usize, symgen: bool) {
    let mut w = if symgen { with_sym_low(true, true, || F::with_capacity(FCapacity { f_0: n, f_255: n, f_128: n, f_129: n, f_1: n })) } else { F::new() };
    let k = pick("arch", 5);
    macro_rules! go {
        ($A:ident, $no:expr, $mk:expr) => {{
            let mut all = [None; 40];
            let mut i = 0;
            while i < n {
                let e: Entity<$A> = w.create::<$A>($mk);
                all[i] = Some(e);
                i += 1;
            }
            if n > 1 && sym_bool("reuse") {
                w.destroy(all[0].unwrap());
                all[0] = Some(w.create::<$A>($mk));
            }
            let mut i = 0;
            while i < n {
                let e = all[i].unwrap();
                let d = w.to_direct(e).unwrap();
                let h = e.into_any();
                check(e.archetype_id() == $A::ARCHETYPE_ID && h.archetype_id() == $A::ARCHETYPE_ID, "archetype_id() is that of the archetype that created the handle");
                check(d.archetype_id() == $A::ARCHETYPE_ID && d.into_any().archetype_id() == $A::ARCHETYPE_ID, "archetype_id() is that of the archetype that created the handle");
                check(w.to_direct(h) == Some(d.into_any()), "typed and dynamic direct handles agree");
                any_to::<F0>(h, $no == 0);
                any_to::<F255>(h, $no == 1);
                any_to::<F128>(h, $no == 2);
                any_to::<F129>(h, $no == 3);
                any_to::<F1>(h, $no == 4);
                direct_to::<F0>(d.into_any(), $no == 0);
                direct_to::<F255>(d.into_any(), $no == 1);
                direct_to::<F128>(d.into_any(), $no == 2);
                direct_to::<F129>(d.into_any(), $no == 3);
                direct_to::<F1>(d.into_any(), $no == 4);
                check(EntityAny::from_raw(h.raw()) == Ok(h), "from_raw() after raw() is the identity");
                check(w.contains(EntityAny::from_raw(h.raw()).unwrap()), "a handle rebuilt from raw() resolves");
                check(w.contains(Entity::<$A>::from_any(e.into_any())), "a handle converted back and forth resolves");
                check(w.contains(EntityDirect::<$A>::from_any(d.into_any())), "a handle converted back and forth resolves");
                select(h);
                select_direct(d.into_any());
                check(arch_no(&SelectArchetype::from(e)) == $no && arch_no(&SelectArchetype::from(d)) == $no, "a Select enum names the handle's own archetype");
                match SelectEntity::from(e) { SelectEntity::$A(x) => check(x == e, "a Select enum carries the handle"), _ => check(false, "a Select enum names the handle's own archetype") }
                match SelectEntity::from(&e) { SelectEntity::$A(x) => check(x == e, "a Select enum carries the handle"), _ => check(false, "a Select enum names the handle's own archetype") }
                match SelectEntityDirect::from(d) { SelectEntityDirect::$A(x) => check(x == d, "a Select enum carries the handle"), _ => check(false, "a Select enum names the handle's own archetype") }
                match SelectEntityDirect::from(&d) { SelectEntityDirect::$A(x) => check(x == d, "a Select enum carries the handle"), _ => check(false, "a Select enum names the handle's own archetype") }
                let mut j = 0;
                while j < i {
                    let f = all[j].unwrap();
                    let g = w.to_direct(f).unwrap();
                    check(e != f && h != f.into_any(), "handles of distinct entities compare unequal");
                    check(d != g && d.into_any() != g.into_any(), "handles of distinct entities compare unequal");
                    j += 1;
                }
                i += 1;
            }
        }};
    }
    match k {
        0 => go!(F0, 0, (P(1),)),
        1 => go!(F255, 1, (P(1), D::mk(2))),
        2 => go!(F128, 2, (Q(1),)),
        3 => go!(F129, 3, (Q(1), P(2))),
        _ => go!(F1, 4, (L(1),)),
    }
    cover("end");
}
/// Entities of all archetypes at once: every two of them differ, in every representation.
pub fn across() {
    let mut w = with_sym_low(true, true, || F::with_capacity(FCapacity { f_0: 2, f_255: 2, f_128: 2, f_129: 2, f_1: 2 }));
    let mut h = [None; 10];
    let mut d = [None; 10];
    let mut i = 0;
    while i < 10 {
        let e = match i / 2 {
            0 => w.create::<F0>((P(1),)).into_any(),
            1 => w.create::<F255>((P(1), D::mk(2))).into_any(),
            2 => w.create::<F128>((Q(1),)).into_any(),
            3 => w.create::<F129>((Q(1), P(2))).into_any(),
            _ => w.create::<F1>((L(1),)).into_any(),
        };
        check(e.archetype_id() == IDS[i / 2], "archetype_id() is that of the archetype that created the handle");
        h[i] = Some(e);
        d[i] = Some(w.to_direct(e).unwrap());
        i += 1;
    }
    let mut i = 0;
    while i < 10 {
        let mut j = 0;
        while j < i {
            check(h[i] != h[j], "handles of distinct entities compare unequal");
            check(d[i] != d[j], "handles of distinct entities compare unequal");
            check(h[i].unwrap().raw() != h[j].unwrap().raw(), "handles of distinct entities have distinct raw values");
            j += 1;
        }
        i += 1;
    }
    cover("end");
}
/// Indices beyond 8 and 16 bits: handles of entities far out remain lossless and distinct.
pub fn far(n: usize) {
    let mut w = F::with_capacity(FCapacity { f_128: n, ..Default::default() });
    let mut keep: [Option<Entity<F128>>; 16] = [None; 16];
    const AT: [usize; 16] = [0, 1, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, 65537, 65791, 65792];
    let mut i = 0;
    while i < n {
        let e = w.create::<F128>((Q(i as u32),));
        let mut j = 0;
        while j < 16 {
            if AT[j] == i {
                keep[j] = Some(e);
            }
            j += 1;
        }
        i += 1;
    }
    let j = pick("which", 16);
    if let Some(e) = keep[j] {
        let h = e.into_any();
        check(h.archetype_id() == 128, "archetype_id() is that of the archetype that created the handle");
        check(Entity::<F128>::from_any(h) == e && EntityAny::from_raw(h.raw()) == Ok(h), "from_raw() after raw() is the identity");
        check(w.f_128.resolve(e) == Some(AT[j]), "a handle resolves to its own entity");
        let d = w.to_direct(e).unwrap();
        check(ecs_find!(w, d, |q: &Q| q.get()) == Some(AT[j] as u32), "a direct handle resolves to its own entity");
        check(ecs_find!(w, h, |q: &Q, x: &EntityDirect<_>| (q.get(), x.into_any())) == Some((AT[j] as u32, d.into_any())), "a handle resolves to its own entity");
        let mut k = 0;
        while k < j {
            if let Some(f) = keep[k] {
                check(f != e && f.into_any().raw() != h.raw(), "handles of distinct entities compare unequal");
                check(w.to_direct(f).unwrap() != d, "handles of distinct entities compare unequal");
            }
            k += 1;
        }
        // and relocated to there and back
        check(w.destroy(e).is_some() && !w.contains(h), "a destroyed entity is unreachable");
        let g = w.create::<F128>((Q(7),));
        check(g != e && !w.contains(e) && w.contains(g), "a reused position yields a new handle");
        let last = w.f_128.len() - 1;
        check(w.f_128.resolve(g) == Some(last), "a handle resolves to its own entity");
    }
    cover("end");
}
