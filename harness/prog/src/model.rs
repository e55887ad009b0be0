//! The rules (matching, ids), the population, and the comparison.
use crate::gen::*;
use crate::rt::*;
use gecs::prelude::*;

/// What a component carries: whose it is, which type it is, and a value.
#[derive(Clone, Copy)]
pub struct Data {
    pub tag: u32,
    pub k: u32,
    pub v: u32,
}

pub struct DeclComp {
    pub comp: usize,
    pub on: bool,
    pub id: Option<u8>,
}
pub struct DeclArch {
    pub on: bool,
    pub id: Option<u8>,
    pub comps: &'static [DeclComp],
}
pub enum P {
    Comp(usize),
    OneOf(&'static [usize]),
    Ent(usize),
    Wild,
    Any,
    Dir(usize),
    DirWild,
    DirAny,
}
pub struct DeclParam {
    pub p: P,
    pub mutable: bool,
    pub on: bool,
}

pub const NE: usize = 2;
pub const NEVER: usize = 1 << 20;
pub const MA: usize = 6;
pub const MC: usize = 6;
pub const MP: usize = 4;

/// The discriminant rule: (archetype id, component ids), None for what is not there.
pub struct Ids {
    pub arch: [Option<u8>; MA],
    pub comp: [[Option<u8>; MC]; MA],
}
pub fn ids(d: &[DeclArch]) -> Ids {
    let mut r = Ids { arch: [None; MA], comp: [[None; MC]; MA] };
    let mut next = 0;
    for (i, a) in d.iter().enumerate() {
        if !a.on {
            continue;
        }
        let id = a.id.unwrap_or(next);
        r.arch[i] = Some(id);
        next = id.wrapping_add(1);
        let mut next = 0;
        for c in a.comps {
            if c.on {
                let id = c.id.unwrap_or(next);
                r.comp[i][c.comp] = Some(id);
                next = id.wrapping_add(1);
            }
        }
    }
    r
}
fn has(a: &DeclArch, c: usize) -> bool {
    let mut r = false;
    for x in a.comps {
        r |= x.on && x.comp == c;
    }
    r
}
/// The matching rule: what each parameter binds to (Some(component), or None for handles), if the archetype matches.
pub fn binding(d: &[DeclArch], a: usize, q: &[DeclParam]) -> Option<[Option<usize>; MP]> {
    if !d[a].on {
        return None;
    }
    let mut r = [None; MP];
    for (i, p) in q.iter().enumerate() {
        if !p.on {
            continue;
        }
        match &p.p {
            P::Comp(c) => {
                if !has(&d[a], *c) {
                    return None;
                }
                r[i] = Some(*c);
            }
            P::OneOf(s) => {
                let mut n = 0;
                for c in *s {
                    if has(&d[a], *c) {
                        n += 1;
                        r[i] = Some(*c);
                    }
                }
                if n != 1 {
                    return None;
                }
            }
            P::Ent(x) | P::Dir(x) => {
                if *x != a {
                    return None;
                }
            }
            _ => {}
        }
    }
    Some(r)
}

#[derive(Clone, Copy)]
pub enum Arg {
    Nothing,
    Comp { d: Data, id: Option<u8> },
    Ent(EntityAny),
    Dir(EntityDirectAny),
}
#[derive(Clone, Copy)]
pub struct Hit {
    pub arch: u8,
    pub arg: [Arg; MP],
}
pub struct Log {
    pub hits: Vec<Hit>,
    pub plan: usize,
    pub act: usize,
    pub result: Option<u32>,
}
impl Log {
    pub fn new() -> Self {
        Log { hits: Vec::new(), plan: NEVER, act: 0, result: None }
    }
    pub fn hit(&mut self, arch: u8) {
        self.hits.push(Hit { arch, arg: [Arg::Nothing; MP] });
    }
    fn put(&mut self, i: usize, a: Arg) {
        let n = self.hits.len();
        self.hits[n - 1].arg[i] = a;
    }
    pub fn comp(&mut self, i: usize, d: Data, id: Option<u8>) {
        self.put(i, Arg::Comp { d, id });
    }
    pub fn ent(&mut self, i: usize, e: EntityAny) {
        self.put(i, Arg::Ent(e));
    }
    pub fn dir(&mut self, i: usize, e: EntityDirectAny) {
        self.put(i, Arg::Dir(e));
    }
    pub fn n(&self) -> u32 {
        self.hits.len() as u32
    }
    pub fn step(&self) -> EcsStepDestroy {
        if self.hits.len() == self.plan + 1 {
            match self.act {
                0 => EcsStepDestroy::ContinueDestroy,
                1 => EcsStepDestroy::BreakDestroy,
                _ => EcsStepDestroy::Break,
            }
        } else {
            EcsStepDestroy::Continue
        }
    }
    pub fn iter_step(&self) -> EcsStep {
        if self.hits.len() == self.plan + 1 {
            EcsStep::Break
        } else {
            EcsStep::Continue
        }
    }
}

#[derive(Clone, Copy)]
pub enum Key {
    Any(EntityAny),
    Direct(EntityDirectAny),
    Typed(EntityAny),
    TypedDirect(EntityDirectAny),
}
pub trait Program {
    const DECL: &'static [DeclArch];
    const QUERIES: &'static [&'static [DeclParam]];
    fn build() -> Self;
    /// Creates an entity whose component c is mk(c).
    fn create(&mut self, a: usize, mk: &dyn Fn(usize) -> Data) -> EntityAny;
    fn read(&mut self, a: usize, e: EntityAny, out: &mut [Data; MC]) -> bool;
    fn destroy(&mut self, e: EntityAny) -> bool;
    fn direct(&self, e: EntityAny) -> Option<EntityDirectAny>;
    fn contains(&self, e: EntityAny) -> bool;
    fn size(&self, a: usize) -> usize;
    /// (MACROS order) 0 find, 1 find_borrow, 2 iter, 3 iter_borrow, 4 iter_destroy; false: this key has no such form
    fn query(&mut self, q: usize, m: usize, key: Option<Key>, log: &mut Log) -> bool;
    fn constants(f: &mut dyn FnMut(usize, Option<usize>, u8));
    fn select(&self, id: u8) -> Option<usize>;
    fn select_entity(&self, e: EntityAny) -> Option<usize>;
    fn select_direct(&self, e: EntityDirectAny) -> Option<usize>;
}

pub struct Pop<W> {
    pub w: W,
    pub e: [[Option<EntityAny>; NE]; MA],
    pub live: [[bool; NE]; MA],
    pub v: [[[u32; MC]; NE]; MA],
    /// An entity of this archetype was removed by a query none of whose parameters tells which one.
    pub blind: Option<usize>,
}
fn mark(a: usize, n: usize) -> u32 {
    (a as u32) << 8 | (n as u32) << 4
}
impl<W: Program> Pop<W> {
    pub fn new() -> Self {
        let w = W::build();
        let mut p = Pop { w, e: [[None; NE]; MA], live: [[false; NE]; MA], v: [[[0; MC]; NE]; MA], blind: None };
        for a in 0..W::DECL.len() {
            if W::DECL[a].on {
                for n in 0..NE {
                    let mut c = 0;
                    while c < MC {
                        p.v[a][n][c] = if has(&W::DECL[a], c) { sym32("v") } else { 0 };
                        c += 1;
                    }
                    let v = p.v[a][n];
                    p.e[a][n] = Some(p.w.create(a, &|c| Data { tag: mark(a, n), k: c as u32, v: v[c] }));
                    p.live[a][n] = true;
                }
            }
        }
        p
    }
    pub fn total(&self) -> usize {
        let mut n = 0;
        for a in 0..W::DECL.len() {
            for i in 0..NE {
                n += self.e[a][i].is_some() as usize;
            }
        }
        n
    }
    pub fn nth(&self, mut k: usize) -> (usize, usize) {
        for a in 0..W::DECL.len() {
            for i in 0..NE {
                if self.e[a][i].is_some() {
                    if k == 0 {
                        return (a, i);
                    }
                    k -= 1;
                }
            }
        }
        (0, 0)
    }
    pub fn remove(&mut self, a: usize, n: usize) {
        let e = self.e[a][n].unwrap();
        check(self.w.destroy(e), "destroy() of a live entity");
        self.live[a][n] = false;
    }
    /// All values, and nothing else, are where they belong.
    pub fn verify(&mut self) {
        for a in 0..W::DECL.len() {
            let mut n = 0;
            for i in 0..NE {
                if let Some(e) = self.e[a][i] {
                    let mut out = [Data { tag: 0, k: 0, v: 0 }; MC];
                    let there = self.w.read(a, e, &mut out);
                    check(there == self.live[a][i] && self.w.contains(e) == there, "an entity is there iff it was not destroyed");
                    if there {
                        n += 1;
                        for c in 0..MC {
                            if has(&W::DECL[a], c) {
                                check(out[c].tag == mark(a, i) && out[c].k == c as u32 && out[c].v == self.v[a][i][c], "a component holds what was written last");
                            }
                        }
                    }
                }
            }
            check(self.w.size(a) == n, "an archetype holds its entities and no others");
        }
    }
    /// Judges one call of the closure: which entity it was for.
    fn judge(&mut self, q: usize, hit: &Hit, dirs: bool, ids: &Ids) -> (usize, Option<usize>) {
        let d = W::DECL;
        let mut a = MA;
        for i in 0..d.len() {
            if ids.arch[i] == Some(hit.arch) {
                a = i;
            }
        }
        check(a < MA, "MatchedArchetype is one of the world's archetypes");
        let b = binding(d, a, W::QUERIES[q]);
        check(b.is_some(), "a query acts only on archetypes that satisfy all of its parameters");
        let b = match b {
            Some(b) => b,
            None => return (a, None),
        };
        let mut who: Option<usize> = None;
        for (i, p) in W::QUERIES[q].iter().enumerate() {
            let arg = hit.arg[i];
            if !p.on {
                check(matches!(arg, Arg::Nothing), "a disabled parameter is absent");
                continue;
            }
            let me = match arg {
                Arg::Comp { d, id } => {
                    let c = b[i].unwrap_or(MC);
                    check(c < MC && d.k == c as u32, "a parameter is bound to the column of its own type");
                    check(d.tag >> 8 == a as u32, "a parameter is bound to its own archetype's column");
                    if let Some(id) = id {
                        check(Some(id) == ids.comp[a][c], "ecs_component_id! in a query is the id in the matched archetype");
                    }
                    Some((d.tag >> 4 & 15) as usize)
                }
                Arg::Ent(e) => {
                    check(e.archetype_id() == hit.arch, "a handle given to the closure is of the matched archetype");
                    let mut r = None;
                    for n in 0..NE {
                        if self.e[a][n] == Some(e) {
                            r = Some(n);
                        }
                    }
                    check(r.is_some(), "a handle given to the closure is that of an entity of the archetype");
                    r
                }
                Arg::Dir(x) => {
                    check(x.archetype_id() == hit.arch, "a direct handle given to the closure is of the matched archetype");
                    let mut r = None;
                    for n in 0..NE {
                        if let (true, Some(e)) = (dirs, self.e[a][n]) {
                            if self.w.direct(e) == Some(x) {
                                r = Some(n);
                            }
                        }
                    }
                    check(!dirs || r.is_some(), "a direct handle given to the closure is that of an entity of the archetype");
                    r
                }
                Arg::Nothing => {
                    check(false, "an enabled parameter is passed");
                    None
                }
            };
            if me.is_some() {
                check(who.is_none() || who == me, "all parameters of one call belong to one entity");
                who = me;
            }
        }
        if let Some(n) = who {
            check(self.live[a][n], "the closure runs only for live entities");
            for (i, p) in W::QUERIES[q].iter().enumerate() {
                if let Arg::Comp { d, .. } = hit.arg[i] {
                    let c = b[i].unwrap_or(0);
                    check(d.v == self.v[a][n][c], "a parameter shows the value written last");
                }
            }
            for (i, p) in W::QUERIES[q].iter().enumerate() {
                if p.on && p.mutable {
                    let c = b[i].unwrap_or(0);
                    self.v[a][n][c] = self.v[a][n][c].wrapping_add(1);
                }
            }
        }
        (a, who)
    }
    pub fn find(&mut self, q: usize, m: usize, key: Key, target: Option<(usize, usize)>, ids: &Ids) {
        let mut log = Log::new();
        if !self.w.query(q, m, Some(key), &mut log) {
            return;
        }
        let want = match target {
            Some((a, n)) => self.live[a][n] && binding(W::DECL, a, W::QUERIES[q]).is_some(),
            None => false,
        };
        check(log.hits.len() == want as usize, "a find runs the closure once for a live entity of a matched archetype, and else not");
        check(log.result == if want { Some(1) } else { None }, "a find returns what the closure returned, or None");
        if want && log.hits.len() == 1 {
            let hit = log.hits[0];
            let (a, who) = self.judge(q, &hit, true, ids);
            check(target.map(|x| x.0) == Some(a), "a find acts on the archetype of its key");
            check(who.is_none() || target.map(|x| x.1) == who, "a find acts on the entity of its key");
        }
    }
    pub fn iter(&mut self, q: usize, m: usize, plan: usize, act: usize, ids: &Ids) {
        let mut log = Log::new();
        log.plan = plan;
        log.act = act;
        self.w.query(q, m, None, &mut log);
        let stops = m != 4 || act != 0;
        let ended = plan < log.hits.len() && stops;
        let mut seen = [[0u8; NE]; MA];
        let mut count = [0usize; MA];
        let mut gone = None;
        for j in 0..log.hits.len() {
            let hit = log.hits[j];
            let (a, who) = self.judge(q, &hit, m != 4, ids);
            if a < MA {
                count[a] += 1;
                if let Some(n) = who {
                    seen[a][n] += 1;
                    if m == 4 && j == plan && act < 2 {
                        gone = Some((a, n));
                    }
                } else if m == 4 && j == plan && act < 2 {
                    self.blind = Some(a);
                }
            }
        }
        check(!ended || log.hits.len() == plan + 1, "an iteration ends after Break");
        for a in 0..W::DECL.len() {
            let b = binding(W::DECL, a, W::QUERIES[q]).is_some();
            let mut all = 0;
            for n in 0..NE {
                check(seen[a][n] <= 1, "the closure runs at most once per entity");
                all += (b && self.live[a][n]) as usize;
            }
            if !ended {
                check(count[a] == all, "the closure runs once for every live entity of every matched archetype");
            } else {
                check(count[a] <= all, "the closure runs at most once for every live entity of every matched archetype");
            }
        }
        if let Some((a, n)) = gone {
            self.live[a][n] = false;
        }
    }
}

/// One of the program's queries, all five macros, every key kind, on any population.
pub fn run<W: Program>() {
    let base = live_allocs();
    {
        let ids = ids(W::DECL);
        let mut p: Pop<W> = with_sym_low(true, true, || Pop::new());
        let q = pick("query", W::QUERIES.len());
        let total = p.total();
        let k = pick("removed", total + 1);
        if k < total {
            let (a, n) = p.nth(k);
            p.remove(a, n);
            cover("removed");
        }
        match pick("part", 4) {
            0 => {
                // any 64-bit handle of the world's archetypes
                let raw = (sym32("raw0"), sym32("raw1"));
                assume(raw.1 != 0);
                let e = EntityAny::from_raw(raw).unwrap();
                let mut target = None;
                let mut known = false;
                for a in 0..W::DECL.len() {
                    if let Some(id) = ids.arch[a] {
                        if e.archetype_id() == id {
                            known = true;
                            for n in 0..NE {
                                if p.e[a][n] == Some(e) {
                                    target = Some((a, n));
                                }
                            }
                        }
                    }
                }
                if known {
                    let m = pick("find", 2);
                    // a handle that was never issued may also be refused by a panic
                    let done = catch(|| p.find(q, m, Key::Any(e), target, &ids)).is_some();
                    check(done || target.is_none(), "a find with an issued handle does not panic");
                    cover(if target.is_some() { "raw handle resolves" } else { "raw handle rejected" });
                    p.verify();
                }
            }
            1 => {
                for m in 0..2 {
                    for j in 0..total {
                        let (a, n) = p.nth(j);
                        let e = p.e[a][n].unwrap();
                        p.find(q, m, Key::Any(e), Some((a, n)), &ids);
                        p.find(q, m, Key::Typed(e), Some((a, n)), &ids);
                        if let Some(d) = p.w.direct(e) {
                            p.find(q, m, Key::Direct(d), Some((a, n)), &ids);
                            p.find(q, m, Key::TypedDirect(d), Some((a, n)), &ids);
                        }
                    }
                    p.verify();
                }
            }
            2 => {
                let plan = pick("plan", total + 1);
                for m in 2..4 {
                    p.iter(q, m, plan, 0, &ids);
                    p.iter(q, m, NEVER, 0, &ids);
                    p.verify();
                }
            }
            _ => {
                let plan = pick("plan", total + 1);
                let act = pick("act", 3);
                p.iter(q, 4, plan, act, &ids);
                // an entity that was removed without any parameter telling which one
                p.resync();
                p.verify();
                p.iter(q, 2, NEVER, 0, &ids);
                p.verify();
            }
        }
    }
    check(live_allocs() == base, "nothing leaked");
    cover("end");
}
impl<W: Program> Pop<W> {
    /// Queries none of whose parameters identify the entity: at most one may have been removed.
    fn resync(&mut self) {

        for a in 0..W::DECL.len() {
            for n in 0..NE {
                if let Some(e) = self.e[a][n] {
                    if self.blind == Some(a) && self.live[a][n] && !self.w.contains(e) {
                        self.live[a][n] = false;
                        self.blind = None;
                    }
                }
            }
        }
        check(self.blind.is_none(), "ecs_iter_destroy! destroys the entity it was told to");
    }
}

/// The constants, the handles' archetype_id() and the Select* conversions report the rule's ids.
pub fn run_ids<W: Program>() {
    let ids = ids(W::DECL);
    let mut seen = [[false; MC + 1]; MA];
    W::constants(&mut |a, c, id| match c {
        None => {
            check(ids.arch[a] == Some(id), "ARCHETYPE_ID follows the discriminant rule");
            seen[a][MC] = true;
        }
        Some(c) => {
            check(ids.comp[a][c] == Some(id), "COMPONENT_ID and ecs_component_id! follow the discriminant rule");
            seen[a][c] = true;
        }
    });
    for a in 0..W::DECL.len() {
        check(seen[a][MC] == ids.arch[a].is_some(), "the constants of all enabled archetypes were judged");
        for b in 0..a {
            check(ids.arch[a].is_none() || ids.arch[a] != ids.arch[b], "ids are distinct");
        }
    }
    let p: Pop<W> = with_sym_low(true, true, || Pop::new());
    let id = sym("id", 8) as u8;
    let mut want = None;
    for a in 0..W::DECL.len() {
        if ids.arch[a] == Some(id) {
            want = Some(a);
        }
    }
    check(p.w.select(id) == want, "SelectArchetype::try_from(id) reports the archetype of that id");
    for a in 0..W::DECL.len() {
        for n in 0..NE {
            if let Some(e) = p.e[a][n] {
                check(Some(e.archetype_id()) == ids.arch[a], "a handle's archetype_id() is its archetype's id");
                check(p.w.select_entity(e) == Some(a), "SelectEntity reports the archetype of the handle");
                let d = p.w.direct(e);
                check(d.is_some(), "to_direct() of a live entity");
                if let Some(d) = d {
                    check(Some(d.archetype_id()) == ids.arch[a], "a direct handle's archetype_id() is its archetype's id");
                    check(p.w.select_direct(d) == Some(a), "SelectEntityDirect reports the archetype of the handle");
                }
            }
        }
    }
    let raw = (sym32("raw0"), sym32("raw1"));
    if raw.1 != 0 {
        let e = EntityAny::from_raw(raw).unwrap();
        let mut want = None;
        for a in 0..W::DECL.len() {
            if ids.arch[a] == Some(e.archetype_id()) {
                want = Some(a);
            }
        }
        check(p.w.select_entity(e) == want, "SelectEntity reports the archetype of the handle");
        cover(if want.is_some() { "known" } else { "unknown" });
    }
    cover("end");
}
