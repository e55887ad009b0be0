//! Hash-consed bit-vector terms with aggressive local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    UDiv,
    URem,
    SDiv,
    SRem,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract, // a, b = low bit
    SExt,
}
pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub undef: bool,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vset: Vec<u32>, // interned var set per node
    map: FxMap<Node, u32>,
    pub vars: Vec<VarInfo>,
    var_by_name: HashMap<String, T>,
    sets: Vec<(Vec<u32>, bool)>, // (sorted var ids, contains undef)
    set_map: HashMap<Vec<u32>, u32>,
    union_memo: FxMap<(u32, u32), u32>,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            vset: vec![],
            map: Default::default(),
            vars: vec![],
            var_by_name: HashMap::new(),
            sets: vec![],
            set_map: HashMap::new(),
            union_memo: Default::default(),
        };
        a.set_intern(vec![]);
        a
    }
    fn set_intern(&mut self, v: Vec<u32>) -> u32 {
        if let Some(i) = self.set_map.get(&v) {
            return *i;
        }
        let u = v.iter().any(|x| self.vars[*x as usize].undef);
        self.sets.push((v.clone(), u));
        let id = (self.sets.len() - 1) as u32;
        self.set_map.insert(v, id);
        id
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(r) = self.union_memo.get(&k) {
            return *r;
        }
        let mut v = self.sets[a as usize].0.clone();
        v.extend_from_slice(&self.sets[b as usize].0);
        v.sort();
        v.dedup();
        let r = self.set_intern(v);
        self.union_memo.insert(k, r);
        r
    }
    pub fn vars_of(&self, t: T) -> &[u32] {
        &self.sets[self.vset[t as usize] as usize].0
    }
    pub fn has_undef(&self, t: T) -> bool {
        self.sets[self.vset[t as usize] as usize].1
    }
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w as u32
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32, k: u128) -> T {
        let n = Node { op, w: w as u8, a, b, c, k };
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let id = self.nodes.len() as u32;
        let vs = match op {
            Op::Const => 0,
            Op::Var => self.set_intern(vec![a]),
            Op::Not | Op::Extract | Op::SExt => self.vset[a as usize],
            Op::Ite => {
                let x = self.union(self.vset[a as usize], self.vset[b as usize]);
                self.union(x, self.vset[c as usize])
            }
            _ => self.union(self.vset[a as usize], self.vset[b as usize]),
        };
        self.nodes.push(n);
        self.vset.push(vs);
        self.map.insert(n, id);
        id
    }
    pub fn konst(&mut self, v: u128, w: u32) -> T {
        debug_assert!(w > 0 && w <= 128);
        self.mk(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn var(&mut self, name: &str, w: u32, undef: bool) -> T {
        if let Some(t) = self.var_by_name.get(name) {
            assert_eq!(self.w(*t), w, "variable {name} redeclared with another width");
            return *t;
        }
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w, undef });
        let t = self.mk(Op::Var, w, id, 0, 0, 0);
        self.var_by_name.insert(name.to_string(), t);
        t
    }
    fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    pub fn tru(&mut self) -> T {
        self.konst(1, 1)
    }
    pub fn fals(&mut self) -> T {
        self.konst(0, 1)
    }

    // ---- structure helpers -------------------------------------------------
    /// Low-to-high list of concat segments.
    fn segs(&self, t: T, out: &mut Vec<T>) {
        let n = self.n(t);
        if n.op == Op::Concat {
            self.segs(n.b, out);
            self.segs(n.a, out);
        } else {
            out.push(t);
        }
    }
    fn from_segs(&mut self, s: &[T]) -> T {
        let mut r = s[0];
        for x in &s[1..] {
            r = self.concat(*x, r);
        }
        r
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        // canonical: right-nested to the low side: Concat(top, rest)
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w as u32 + nl.w as u32;
        assert!(w <= 128);
        if let (Op::Const, Op::Const) = (nh.op, nl.op) {
            return self.konst((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Concat {
            let x = self.concat(nh.b, lo);
            return self.concat(nh.a, x);
        }
        // merge with the top segment of lo
        let (top, rest) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (lo, None) };
        let nt = self.n(top);
        let merged = match (nh.op, nt.op) {
            (Op::Const, Op::Const) => Some(self.konst((nh.k << nt.w) | nt.k, nh.w as u32 + nt.w as u32)),
            (Op::Extract, Op::Extract) if nh.a == nt.a && nh.b == nt.b + nt.w as u32 => {
                Some(self.extract(nh.a, nt.b, nh.w as u32 + nt.w as u32))
            }
            _ => None,
        };
        if let Some(m) = merged {
            return match rest {
                Some(r) => self.concat(m, r),
                None => m,
            };
        }
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn extract(&mut self, t: T, lo: u32, w: u32) -> T {
        let n = self.n(t);
        let tw = n.w as u32;
        assert!(lo + w <= tw && w > 0);
        if w == tw {
            return t;
        }
        match n.op {
            Op::Const => self.konst(n.k >> lo, w),
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    self.extract(n.a, lo, w)
                } else if lo < aw {
                    let x = if lo == 0 { n.a } else { self.extract(n.a, lo, aw - lo) };
                    self.sext(x, w)
                } else {
                    let s = self.extract(n.a, aw - 1, 1);
                    self.sext(s, w)
                }
            }
            Op::Ite => {
                let (cb, cc) = (self.as_const(n.b).is_some(), self.as_const(n.c).is_some());
                if cb || cc {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(Op::Extract, w, t, lo, 0, 0)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                }
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                if n.op == Op::Add {
                    self.add(x, y)
                } else {
                    self.mul(x, y)
                }
            }
            _ => self.mk(Op::Extract, w, t, lo, 0, 0),
        }
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let z = self.konst(0, w - tw);
        self.concat(z, t)
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let n = self.n(t);
        match n.op {
            Op::Const => self.konst(sext(n.k, tw) as u128, w),
            Op::Concat if self.as_const(n.a).map_or(false, |k| k >> (self.w(n.a) - 1) & 1 == 0) => self.zext(t, w),
            Op::SExt => self.sext(n.a, w),
            _ => self.mk(Op::SExt, w, t, 0, 0, 0),
        }
    }
    pub fn trunc(&mut self, t: T, w: u32) -> T {
        self.extract(t, 0, w)
    }

    // ---- arithmetic ----------------------------------------------------------
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        match (ca, cb) {
            (Some(x), Some(y)) => return self.konst(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Add {
                    if let Some(x) = self.as_const(n.b) {
                        let k = self.konst(x.wrapping_add(y), w);
                        return self.add(n.a, k);
                    }
                }
                if w == 1 {
                    return self.xor(a, b);
                }
                return self.mk(Op::Add, w, a, b, 0, 0);
            }
            _ => {}
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // pull constants outward
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Add && self.as_const(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.as_const(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // x + (-1 * x) = 0 ; (x + -y) + y
        let neg = |s: &Arena, t: T| -> Option<T> {
            let n = s.n(t);
            if n.op == Op::Mul && s.as_const(n.b) == Some(mask(w)) {
                Some(n.a)
            } else {
                None
            }
        };
        if neg(self, a) == Some(b) || neg(self, b) == Some(a) {
            return self.konst(0, w);
        }
        for (x, y) in [(a, b), (b, a)] {
            let n = self.n(x);
            if n.op == Op::Add {
                for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                    if neg(self, p) == Some(y) || neg(self, y) == Some(p) {
                        return q;
                    }
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn neg(&mut self, a: T) -> T {
        let w = self.w(a);
        let m1 = self.konst(mask(w), w);
        self.mul(a, m1)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(y) = self.as_const(b) {
            let k = self.konst((!y).wrapping_add(1), w);
            return self.add(a, k);
        }
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) => {
                if w == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    let k = y.trailing_zeros();
                    let lo = self.konst(0, k);
                    let hi = self.extract(a, 0, w - k);
                    return self.concat(hi, lo);
                }
                let n = self.n(a);
                if n.op == Op::Mul {
                    if let Some(x) = self.as_const(n.b) {
                        let k = self.konst(x.wrapping_mul(y), w);
                        return self.mul(n.a, k);
                    }
                }
                if n.op == Op::Add {
                    if y == mask(w) {
                        // -(p+q) = -p + -q
                        let p = self.mul(n.a, b);
                        let q = self.mul(n.b, b);
                        return self.add(p, q);
                    }
                    if let Some(x) = self.as_const(n.b) {
                        let p = self.mul(n.a, b);
                        let k = self.konst(x.wrapping_mul(y), w);
                        return self.add(p, k);
                    }
                }
                return self.mk(Op::Mul, w, a, b, 0, 0);
            }
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn div(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                let (sx, sy) = (sext(x, w), sext(y, w));
                let r = match op {
                    Op::UDiv => x / y,
                    Op::URem => x % y,
                    Op::SDiv => sx.wrapping_div(sy) as u128,
                    _ => sx.wrapping_rem(sy) as u128,
                };
                return self.konst(r, w);
            }
        }
        if let Some(y) = self.as_const(b) {
            if y.is_power_of_two() {
                let k = y.trailing_zeros();
                if op == Op::UDiv {
                    return self.lshr_c(a, k);
                }
                if op == Op::URem {
                    if k == 0 {
                        return self.konst(0, w);
                    }
                    let e = self.extract(a, 0, k);
                    return self.zext(e, w);
                }
            }
            if y == 1 {
                return if matches!(op, Op::SDiv) { a } else { self.konst(0, w) };
            }
        }
        self.mk(op, w, a, b, 0, 0)
    }
    fn lshr_c(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.konst(0, w);
        }
        let e = self.extract(a, k, w - k);
        self.zext(e, w)
    }
    pub fn shift(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            let k = k.min(w as u128) as u32;
            if k == 0 {
                return a;
            }
            match op {
                Op::Shl => {
                    if k >= w {
                        return self.konst(0, w);
                    }
                    let lo = self.konst(0, k);
                    let hi = self.extract(a, 0, w - k);
                    return self.concat(hi, lo);
                }
                Op::LShr => return self.lshr_c(a, k),
                _ => {
                    let k = k.min(w - 1);
                    let e = self.extract(a, k, w - k);
                    return self.sext(e, w);
                }
            }
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        self.mk(op, w, a, b, 0, 0)
    }

    // ---- bitwise ---------------------------------------------------------------
    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a);
        let w = n.w as u32;
        match n.op {
            Op::Const => self.konst(!n.k, w),
            Op::Not => n.a,
            _ => self.mk(Op::Not, w, a, 0, 0, 0),
        }
    }
    /// Try to do a bitwise op segment-wise; succeed only if every segment simplifies.
    fn seg_op(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if !(na.op == Op::Concat || nb.op == Op::Concat || na.op == Op::Const || nb.op == Op::Const) || w == 1 {
            return None;
        }
        // boundaries
        let mut bounds = vec![0u32, w];
        for t in [a, b] {
            let n = self.n(t);
            if n.op == Op::Const {
                let mut i = 1;
                while i < w {
                    if (n.k >> i) & 1 != (n.k >> (i - 1)) & 1 {
                        bounds.push(i);
                    }
                    i += 1;
                }
            } else {
                let mut s = vec![];
                self.segs(t, &mut s);
                let mut p = 0;
                for x in s {
                    // constant segments: split on runs
                    if let Some(k) = self.as_const(x) {
                        let xw = self.w(x);
                        for i in 1..xw {
                            if (k >> i) & 1 != (k >> (i - 1)) & 1 {
                                bounds.push(p + i);
                            }
                        }
                    }
                    p += self.w(x);
                    bounds.push(p);
                }
            }
        }
        bounds.sort();
        bounds.dedup();
        if bounds.len() > 17 {
            return None;
        }
        let mut out = vec![];
        for i in 0..bounds.len() - 1 {
            let (lo, sw) = (bounds[i], bounds[i + 1] - bounds[i]);
            if sw == w {
                return None;
            }
            let x = self.extract(a, lo, sw);
            let y = self.extract(b, lo, sw);
            let (cx, cy) = (self.as_const(x), self.as_const(y));
            let m = mask(sw);
            let r = match op {
                Op::And => match (cx, cy) {
                    (Some(0), _) | (_, Some(0)) => self.konst(0, sw),
                    (Some(k), _) if k == m => y,
                    (_, Some(k)) if k == m => x,
                    _ if x == y => x,
                    _ => return None,
                },
                Op::Or => match (cx, cy) {
                    (Some(0), _) => y,
                    (_, Some(0)) => x,
                    (Some(k), _) | (_, Some(k)) if k == m => self.konst(m, sw),
                    _ if x == y => x,
                    _ => return None,
                },
                _ => match (cx, cy) {
                    (Some(0), _) => y,
                    (_, Some(0)) => x,
                    (Some(k), _) if k == m => self.not(y),
                    (_, Some(k)) if k == m => self.not(x),
                    _ if x == y => self.konst(0, sw),
                    _ => return None,
                },
            };
            out.push(r);
        }
        Some(self.from_segs(&out))
    }
    fn comm(a: T, b: T) -> (T, T) {
        if a < b {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x & y, w);
        }
        if ca == Some(0) || cb == Some(0) {
            return self.konst(0, w);
        }
        if ca == Some(mask(w)) {
            return b;
        }
        if cb == Some(mask(w)) {
            return a;
        }
        if self.n(a).op == Op::Not && self.n(a).a == b || self.n(b).op == Op::Not && self.n(b).a == a {
            return self.konst(0, w);
        }
        if let Some(r) = self.seg_op(Op::And, a, b) {
            return r;
        }
        let (a, b) = Self::comm(a, b);
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x | y, w);
        }
        if ca == Some(mask(w)) || cb == Some(mask(w)) {
            return self.konst(mask(w), w);
        }
        if ca == Some(0) {
            return b;
        }
        if cb == Some(0) {
            return a;
        }
        if self.n(a).op == Op::Not && self.n(a).a == b || self.n(b).op == Op::Not && self.n(b).a == a {
            return self.konst(mask(w), w);
        }
        if let Some(r) = self.seg_op(Op::Or, a, b) {
            return r;
        }
        let (a, b) = Self::comm(a, b);
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(x ^ y, w);
        }
        if ca == Some(0) {
            return b;
        }
        if cb == Some(0) {
            return a;
        }
        if ca == Some(mask(w)) {
            return self.not(b);
        }
        if cb == Some(mask(w)) {
            return self.not(a);
        }
        if let Some(r) = self.seg_op(Op::Xor, a, b) {
            return r;
        }
        let (a, b) = Self::comm(a, b);
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        let n = self.n(c);
        if n.op == Op::Not {
            return self.ite(n.a, b, a);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    // ---- predicates --------------------------------------------------------------
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tru();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((x == y) as u128, 1);
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(k) = cb {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::Concat => {
                    let lw = self.w(na.b);
                    let kh = self.konst(k >> lw, w - lw);
                    let kl = self.konst(k, lw);
                    let h = self.eq(na.a, kh);
                    if self.as_const(h) == Some(0) {
                        return h;
                    }
                    let l = self.eq(na.b, kl);
                    return self.and(h, l);
                }
                Op::Add => {
                    if let Some(c) = self.as_const(na.b) {
                        let k2 = self.konst(k.wrapping_sub(c), w);
                        return self.eq(na.a, k2);
                    }
                }
                Op::Not => {
                    let k2 = self.konst(!k, w);
                    return self.eq(na.a, k2);
                }
                Op::Xor => {
                    if let Some(c) = self.as_const(na.a).or(self.as_const(na.b)) {
                        let o = if self.as_const(na.a).is_some() { na.b } else { na.a };
                        let k2 = self.konst(k ^ c, w);
                        return self.eq(o, k2);
                    }
                }
                Op::Ite => {
                    let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                Op::SExt => {
                    let aw = self.w(na.a);
                    let kk = self.konst(k, aw);
                    if sext(k & mask(aw), aw) as u128 & mask(w) == k {
                        return self.eq(na.a, kk);
                    }
                    return self.fals();
                }
                _ => {}
            }
            return self.mk(Op::Eq, 1, a, b, 0, 0);
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        if na.op == Op::Concat || nb.op == Op::Concat {
            // align and split
            let cut = if na.op == Op::Concat { self.w(na.b) } else { self.w(nb.b) };
            let (ah, al) = (self.extract(a, cut, w - cut), self.extract(a, 0, cut));
            let (bh, bl) = (self.extract(b, cut, w - cut), self.extract(b, 0, cut));
            // only worthwhile if one side simplifies to a constant comparison or structurally equal
            if (na.op == Op::Concat && nb.op == Op::Concat) || self.as_const(ah).is_some() || self.as_const(bh).is_some() || self.as_const(al).is_some() || self.as_const(bl).is_some() {
                let h = self.eq(ah, bh);
                if self.as_const(h) == Some(0) {
                    return h;
                }
                let l = self.eq(al, bl);
                return self.and(h, l);
            }
        }
        // x + c1 == y + c2
        let split = |s: &Arena, t: T| -> (T, u128) {
            let n = s.n(t);
            if n.op == Op::Add {
                if let Some(k) = s.as_const(n.b) {
                    return (n.a, k);
                }
            }
            (t, 0)
        };
        let (xa, ka) = split(self, a);
        let (xb, kb) = split(self, b);
        if ka != 0 || kb != 0 {
            if xa == xb {
                return self.konst((ka == kb) as u128, 1);
            }
            if ka != 0 && kb != 0 {
                let d = self.konst(ka.wrapping_sub(kb), w);
                let l = self.add(xa, d);
                return self.eq(l, xb);
            }
        }
        let (a, b) = Self::comm(a, b);
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fals();
        }
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((x < y) as u128, 1);
        }
        if cb == Some(0) || ca == Some(mask(w)) {
            return self.fals();
        }
        if cb == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if cb == Some(mask(w)) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        // strip common top segment
        let top = |s: &Arena, t: T| -> T {
            let n = s.n(t);
            if n.op == Op::Concat {
                n.a
            } else {
                t
            }
        };
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Concat || nb.op == Op::Concat {
            let tw = match (na.op == Op::Concat, nb.op == Op::Concat) {
                (true, true) => self.w(top(self, a)).min(self.w(top(self, b))),
                (true, false) => self.w(na.a),
                _ => self.w(nb.a),
            };
            let (ah, bh) = (self.extract(a, w - tw, tw), self.extract(b, w - tw, tw));
            if let (Some(x), Some(y)) = (self.as_const(ah), self.as_const(bh)) {
                if x != y {
                    return self.konst((x < y) as u128, 1);
                }
                let (al, bl) = (self.extract(a, 0, w - tw), self.extract(b, 0, w - tw));
                return self.ult(al, bl);
            }
            // low part of a is const and b const: (x ++ k1) < (k2h ++ k2l)
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.fals();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.konst((sext(x, w) < sext(y, w)) as u128, 1);
        }
        // both known non-negative -> unsigned
        let nonneg = |s: &mut Arena, t: T| {
            let e = s.extract(t, w - 1, 1);
            s.as_const(e) == Some(0)
        };
        if w > 1 && nonneg(self, a) && nonneg(self, b) {
            return self.ult(a, b);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn implies_or(&mut self, v: &[T]) -> T {
        let mut r = self.fals();
        for x in v {
            r = self.or(r, *x);
        }
        r
    }

    // ---- evaluation ----------------------------------------------------------------
    pub fn eval(&self, t: T, model: &[u128], memo: &mut FxMap<T, u128>) -> u128 {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(0) & mask(n.w as u32),
            _ => {}
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let w = n.w as u32;
        let a = self.eval(n.a, model, memo);
        let aw = self.w(n.a);
        let b = match n.op {
            Op::Not | Op::Extract | Op::SExt | Op::Ite => 0,
            _ => self.eval(n.b, model, memo),
        };
        let r = match n.op {
            Op::Add => a.wrapping_add(b),
            Op::Mul => a.wrapping_mul(b),
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Not => !a,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => (sext(a, w) >> b.min(w as u128 - 1)) as u128,
            // SMT-LIB semantics for division by zero
            Op::UDiv => {
                if b == 0 {
                    mask(w)
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        mask(w)
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
            Op::Ite => {
                if a != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::Concat => (a << self.w(n.b)) | b,
            Op::Extract => a >> n.b,
            Op::SExt => sext(a, aw) as u128,
            Op::Const | Op::Var => unreachable!(),
        } & mask(w);
        memo.insert(t, r);
        r
    }
    pub fn show(&self, t: T, d: usize) -> String {
        let n = self.n(t);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => self.vars[n.a as usize].name.clone(),
            Op::Extract => format!("{}[{}..{}]", self.show(n.a, d - 1), n.b + n.w as u32, n.b),
            Op::Not | Op::SExt => format!("({:?} {})", n.op, self.show(n.a, d - 1)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
