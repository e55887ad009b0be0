//! The same world at two times far apart.
use crate::gen::with_fixed;
use crate::rt::*;
use crate::w::*;
use gecs::prelude::*;

/// One archetype's world at two times: `n` entities at generation `g` (archetype version `v`), and the world that
/// destroying all of them and creating them again `k` times leads to, for every `g`, `v` and `k` that do not overflow.
pub struct Ages {
    pub k: usize,
    pub old: W,
    pub before: Model,
    pub new: W,
    pub after: Model,
}
pub fn ages(n: usize) -> Ages {
    let arch = pick("arch", 3);
    let (g, v, k) = (sym32("g"), sym32("v"), sym32("cycles"));
    assume(g != 0 && v != 0 && k != 0);
    assume(g <= u32::MAX - k);
    assume(k as u64 * n as u64 + v as u64 + n as u64 <= u32::MAX as u64);
    let build = |g, v| {
        let mut w = with_fixed(g, v, || W::with_capacity(WCapacity { arch_a: n, arch_b: n, arch_c: n }));
        let mut m = Model::new();
        let mut i = 0;
        while i < n {
            create(&mut w, &mut m, arch, [i as u32 + 1, 2, 3]);
            i += 1;
        }
        (w, m)
    };
    let (old, before) = build(g, v);
    let (new, after) = build(g + k, v + k * n as u32);
    Ages { k: arch, old, before, new, after }
}
