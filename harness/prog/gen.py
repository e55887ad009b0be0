#!/usr/bin/env python3
"""Writes src/worlds.rs: client programs over worlds and queries of many shapes. The rules they are
judged by are in model.rs; this file only makes sure that every program is valid."""
import os, random

COMP = ["Co", "CoA", "CoAb", "ACo", "Ab", "B"]
SNAKE = ["co", "co_a", "co_ab", "a_co", "ab", "b"]
ARCH = ["Arch", "ArchA", "ArchAB", "AArch", "Zeta"]
ASNAKE = ["arch", "arch_a", "arch_ab", "a_arch", "zeta"]
# predicates and their truth under (p0, p1, p2)
PRED = {
    "all()": lambda f: True,
    "any()": lambda f: False,
    "not(any())": lambda f: True,
    "not(all())": lambda f: False,
    'feature = "p0"': lambda f: f[0],
    'feature = "p1"': lambda f: f[1],
    'feature = "p2"': lambda f: f[2],
    'not(feature = "p0")': lambda f: not f[0],
    'any(feature = "p0", feature = "p1")': lambda f: f[0] or f[1],
    'all(feature = "p1", not(feature = "p2"))': lambda f: f[1] and not f[2],
}
FEATS = [(0, 0, 0), (1, 0, 0), (0, 1, 1), (1, 1, 0), (0, 0, 1)]


class It:
    """An archetype, component or parameter: cfgs, id."""

    def __init__(self, what, *cfgs, id=None, mut=False):
        self.what, self.cfgs, self.id, self.mut = what, cfgs, id, mut

    def on(self, f):
        return all(PRED[c](f) for c in self.cfgs)

    def attrs(self):
        return "".join("#[cfg(%s)] " % c for c in self.cfgs)

    def cfg(self):
        return " && ".join("cfg!(%s)" % c for c in self.cfgs) or "true"


def match(world, q, f):
    """archetypes matched, or None if the query is not valid in this configuration"""
    out = []
    for (a, cs) in world:
        if not a.on(f):
            continue
        have = [c.what for c in cs if c.on(f)]
        b, ok = [], True
        for p in q:
            if not p.on(f):
                continue
            k, x = p.what
            if k == "comp":
                ok &= x in have
                b.append(x)
            elif k == "oneof":
                h = [c for c in x if c in have]
                if len(h) > 1:
                    return None
                ok &= len(h) == 1
                b += h
            elif k in ("ent", "dir"):
                ok &= x == a.what
        if ok:
            if len(set(b)) != len(b):
                return None
            out.append(a.what)
    return out or None


def ids_ok(items, f):
    nxt, seen = 0, set()
    for i in items:
        if i.on(f):
            v = i.id if i.id is not None else nxt
            if v in seen or v > 255:
                return False
            seen.add(v)
            nxt = v + 1
    return True


def valid_world(world, feats):
    for f in feats:
        if not ids_ok([a for a, _ in world], f):
            return False
        if not any(a.on(f) for a, _ in world):
            return False
        for a, cs in world:
            if a.on(f) and (not any(c.on(f) for c in cs) or not ids_ok(cs, f)):
                return False
    return True


def ptype(p):
    k, x = p.what
    m = "&mut " if p.mut else "&"
    return m + {"comp": lambda: COMP[x], "oneof": lambda: "OneOf<%s>" % ", ".join(COMP[c] for c in x), "ent": lambda: "Entity<%s>" % ARCH[x],
                "wild": lambda: "Entity<_>", "any": lambda: "EntityAny", "dir": lambda: "EntityDirect<%s>" % ARCH[x],
                "dirwild": lambda: "EntityDirect<_>", "dirany": lambda: "EntityDirectAny"}[k]()


def closure(q, ret, out):
    names = ["x", "y", "z", "u"]
    s = "|%s| %s{ " % (", ".join("%s%s: %s" % (p.attrs(), n, ptype(p)) for p, n in zip(q, names)), "-> u32 " if ret else "")
    s += "log.hit(MatchedArchetype::ARCHETYPE_ID); "
    for i, (p, n) in enumerate(zip(q, names)):
        k, x = p.what
        if k == "comp":
            t = "log.comp(%d, %s.0, Some(ecs_component_id!(%s)));" % (i, n, COMP[x])
        elif k == "oneof":
            t = "log.comp(%d, %s.0, None);" % (i, n)
        elif k in ("ent", "wild", "any"):
            t = "log.ent(%d, (*%s).into());" % (i, n)
        else:
            t = "log.dir(%d, (*%s).into());" % (i, n)
        s += p.attrs() + "{ " + t + " } "
        if p.mut:
            s += p.attrs() + "{ %s.0.v = %s.0.v.wrapping_add(1); } " % (n, n)
    return s + out + " }"


def emit(name, gate, world, queries, feats):
    o = []
    w = o.append
    w('#[cfg(feature = "%s")]\npub mod %s {\n    use crate::model::*;\n    use crate::rt::*;\n    use gecs::prelude::*;\n' % (gate, name))
    for c in range(len(COMP)):
        w("    pub struct %s(pub Data);\n" % COMP[c])
    w("    ecs_world! {\n        ecs_name!(Realm);\n")
    for a, cs in world:
        w("        %s%secs_archetype!(%s, %s);\n" % (a.attrs(), "#[archetype_id(%d)] " % a.id if a.id is not None else "", ARCH[a.what],
          ", ".join("%s%s%s" % (c.attrs(), "#[component_id(%d)] " % c.id if c.id is not None else "", COMP[c.what]) for c in cs)))
    w("    }\n    pub struct Prog(Realm);\n")

    def p(x):
        k, v = x.what
        t = {"comp": lambda: "P::Comp(%d)" % v, "oneof": lambda: "P::OneOf(&%s)" % list(v), "ent": lambda: "P::Ent(%d)" % pos[v], "wild": lambda: "P::Wild",
             "any": lambda: "P::Any", "dir": lambda: "P::Dir(%d)" % pos[v], "dirwild": lambda: "P::DirWild", "dirany": lambda: "P::DirAny"}[k]()
        return "DeclParam { p: %s, mutable: %s, on: %s }" % (t, str(x.mut).lower(), x.cfg())
    pos = {a.what: i for i, (a, _) in enumerate(world)}
    opt = lambda v: "None" if v is None else "Some(%d)" % v
    w("    impl Program for Prog {\n        const DECL: &'static [DeclArch] = &[\n")
    for a, cs in world:
        w("            DeclArch { on: %s, id: %s, comps: &[%s] },\n" % (a.cfg(), opt(a.id), ", ".join("DeclComp { comp: %d, on: %s, id: %s }" % (c.what, c.cfg(), opt(c.id)) for c in cs)))
    w("        ];\n        const QUERIES: &'static [&'static [DeclParam]] = &[\n")
    for q in queries:
        w("            &[%s],\n" % ", ".join(p(x) for x in q))
    w("        ];\n        fn build() -> Self { Prog(Realm::new()) }\n")

    def arms(f, other, key="a"):
        s = "match %s {\n" % key
        for i, (a, cs) in enumerate(world):
            s += "                %s%d => %s,\n" % (a.attrs(), i, f(i, a, cs))
        return s + "                _ => %s,\n            }" % other
    tup = lambda cs: "(%s,)" % ", ".join("%s%s(mk(%d))" % (c.attrs(), COMP[c.what], c.what) for c in cs)
    w("        fn create(&mut self, a: usize, mk: &dyn Fn(usize) -> Data) -> EntityAny {\n            %s\n        }\n" % arms(lambda i, a, cs: "self.0.create::<%s>(%s).into()" % (ARCH[a.what], tup(cs)) if i % 2 else "self.0.%s.create(%s).into()" % (ASNAKE[a.what], tup(cs)), "unreachable!()"))
    w("        fn read(&mut self, a: usize, e: EntityAny, out: &mut [Data; MC]) -> bool {\n            %s\n        }\n" % arms(
        lambda i, a, cs: "match Entity::<%s>::try_from(e) { Ok(e) => match self.0.view(e) { Some(v) => { %s true } None => false }, Err(_) => false }" % (
            ARCH[a.what], " ".join("%s{ out[%d] = v.component::<%s>().0; }" % (c.attrs(), c.what, COMP[c.what]) for c in cs)), "false"))
    w("        fn destroy(&mut self, e: EntityAny) -> bool { self.0.destroy(e).is_some() }\n        fn direct(&self, e: EntityAny) -> Option<EntityDirectAny> { self.0.to_direct(e) }\n        fn contains(&self, e: EntityAny) -> bool { self.0.contains(e) }\n")
    w("        fn size(&self, a: usize) -> usize {\n            %s\n        }\n" % arms(lambda i, a, cs: "self.0.archetype::<%s>().len()" % ARCH[a.what], "0"))
    w("        fn constants(f: &mut dyn FnMut(usize, Option<usize>, u8)) {\n")
    for i, (a, cs) in enumerate(world):
        w("            %s{\n                f(%d, None, %s::ARCHETYPE_ID);\n" % (a.attrs(), i, ARCH[a.what]))
        for c in cs:
            w("                %s{ f(%d, Some(%d), <%s as ArchetypeHas<%s>>::COMPONENT_ID); f(%d, Some(%d), ecs_component_id!(%s, %s)); }\n" % (c.attrs(), i, c.what, ARCH[a.what], COMP[c.what], i, c.what, COMP[c.what], ARCH[a.what]))
        w("            }\n")
    w("        }\n")
    for fn, arg, typ in (("select", "id: u8", "SelectArchetype"), ("select_entity", "id: EntityAny", "SelectEntity"), ("select_direct", "id: EntityDirectAny", "SelectEntityDirect")):
        pat = "" if typ == "SelectArchetype" else "(_)"
        w("        fn %s(&self, %s) -> Option<usize> {\n            match %s::try_from(id) {\n" % (fn, arg, typ))
        for i, (a, cs) in enumerate(world):
            w("                %sOk(%s::%s%s) => Some(%d),\n" % (a.attrs(), typ, ARCH[a.what], pat, i))
        w("                Err(_) => None,\n            }\n        }\n")
    w("        fn query(&mut self, q: usize, m: usize, key: Option<Key>, log: &mut Log) -> bool {\n            match q {\n")
    for i in range(len(queries)):
        w("                %d => self.q%d(m, key, log),\n" % (i, i))
    w("                _ => false,\n            }\n        }\n    }\n    impl Prog {\n")
    for i, q in enumerate(queries):
        w("        #[inline(never)]\n        fn q%d(&mut self, m: usize, key: Option<Key>, log: &mut Log) -> bool {\n            let w = &mut self.0;\n            match (m, key) {\n" % i)
        fc = closure(q, i % 2 == 0, "log.n()")
        for m, mac in ((0, "ecs_find"), (1, "ecs_find_borrow")):
            ww = "self.0" if (i + m) % 2 else "w"
            for k in ("Any", "Direct"):
                w("                (%d, Some(Key::%s(e))) => log.result = %s!(%s, e, %s),\n" % (m, k, mac, ww, fc))
            for k, sel in (("Typed", "SelectEntity"), ("TypedDirect", "SelectEntityDirect")):
                hit = [a for a, _ in world if all(a.what in (match(world, q, f) or []) or not a.on(f) for f in feats)][:1]
                miss = [a for a, _ in world if any(a.on(f) for f in feats) and not any(a.what in match(world, q, f) for f in feats)][:1]
                w("                (%d, Some(Key::%s(e))) => match %s::try_from(e) {\n" % (m, k, sel))
                for a in hit + miss:
                    w("                    %sOk(%s::%s(e)) => log.result = %s!(%s, e, %s),\n" % (a.attrs(), sel, ARCH[a.what], mac, ww, fc))
                w("                    _ => return false,\n                },\n")
        for m, mac in ((2, "ecs_iter"), (3, "ecs_iter_borrow"), (4, "ecs_iter_destroy")):
            step = "log.step()" if m == 4 else "log.iter_step()"
            w("                (%d, _) => %s!(%s, %s),\n" % (m, mac, "self.0" if (i + m) % 2 else "w", closure(q, False, step)))
        w("                _ => return false,\n            }\n            true\n        }\n")
    w("    }\n}\n")
    return "".join(o)


C, O = (lambda c, *cf, mut=False: It(("comp", c), *cf, mut=mut)), (lambda *s, mut=False: It(("oneof", s), mut=mut))
E, X = (lambda a, *cf: It(("ent", a), *cf)), (lambda k, *cf: It((k, None), *cf))
D = lambda a, *cf: It(("dir", a), *cf)


def W(*archs):
    return [(a if isinstance(a, It) else It(a), [c if isinstance(c, It) else It(c) for c in cs]) for a, cs in archs]


def rand_queries(rng, world, feats, n, cfgs=(), have=()):
    out, tries = list(have), 0
    seen = {repr([(p.what, p.cfgs, p.mut) for p in q]) for q in out}
    while len(out) < n and tries < 200000:
        tries += 1
        q = []
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4])):
            k = rng.choice(["comp"] * 5 + ["oneof"] * 4 + ["ent", "wild", "any", "dir", "dirwild", "dirany"])
            x = None
            if k == "comp":
                x = rng.randrange(len(COMP))
            elif k == "oneof":
                x = tuple(rng.sample(range(len(COMP)), rng.choice([1, 2, 2, 3, 3, 4])))
            elif k in ("ent", "dir"):
                x = rng.choice(world)[0].what
            q.append(It((k, x), *(rng.choice(cfgs) if cfgs else ()), mut=k in ("comp", "oneof") and rng.random() < .4))
        ms = [match(world, q, f) for f in feats]
        if any(m is None for m in ms):
            continue
        key = repr([(p.what, p.cfgs, p.mut) for p in q])
        # prefer queries that distinguish: not always every archetype
        if key in seen or (rng.random() < .7 and all(len(m) == sum(a.on(f) for a, _ in world) for m, f in zip(ms, feats))):
            continue
        if not cfgs and not any(p.what[0] in ("oneof", "comp", "ent", "dir") for p in q) and rng.random() < .9:
            continue
        seen.add(key)
        out.append(q)
    return out


ONE = [(0, 0, 0)]


def rand_world(rng, cfgs=(), feats=ONE, ids=False):
    while True:
        archs = rng.sample(range(len(ARCH)), rng.choice([3, 4, 4, 5]))
        cf = lambda: rng.choice(cfgs) if cfgs else ()
        rid = lambda hi: rng.choice([None, None, None, rng.randrange(0, hi), 255]) if ids else None
        w = [(It(a, *cf(), id=rid(20)), [It(c, *cf(), id=rid(9)) for c in rng.sample(range(len(COMP)), rng.choice([1, 2, 3, 3, 4]))]) for a in archs]
        if valid_world(w, feats):
            return w


def main():
    rng = random.Random(20240607)
    mods, entries = [], []

    def add(name, gate, world, queries, feats, what):
        assert valid_world(world, feats), name
        for q in queries:
            for f in feats:
                assert match(world, q, f), (name, [(p.what, p.cfgs) for p in q], f)
        mods.append(emit(name, gate, world, queries, feats))
        for e in what:
            entries.append((gate, "%s_%s" % (gate, name) + ("_ids" if e == "ids" else ""), "run%s::<%s::Prog>()" % ("_ids" if e == "ids" else "", name)))

    Q = lambda *ps: list(ps)
    # C05: overlapping component sets, declared in different orders
    w1 = W((0, (0, 1)), (1, (0, 2)), (2, (1, 2, 3)), (3, (0,)))
    q1 = [Q(C(0)), Q(C(1, mut=True), X("wild")), Q(O(2, 5), C(0)), Q(E(1), C(0, mut=True)), Q(O(0, 3, mut=True)), Q(X("any"), O(3, 5)), Q(D(2)), Q(X("dirany"), C(2)), Q(X("dirwild"), O(2, 4), X("wild"))]
    add("p1", "c05", w1, rand_queries(rng, w1, ONE, 18, have=q1), ONE, ["run"])
    w2 = W((4, (4, 1, 0)), (2, (0, 1, 4)), (1, (1,)), (0, (5, 3, 2, 4, 0)))
    q2 = [Q(C(0), C(4, mut=True)), Q(O(3, 1, mut=True)), Q(C(5), O(2,)), Q(E(2), C(0)), Q(C(1, mut=True), C(4, mut=True), C(0, mut=True))]
    add("p2", "c05", w2, rand_queries(rng, w2, ONE, 18, have=q2), ONE, ["run"])
    for i in (3, 4, 5, 6):
        w = rand_world(rng)
        add("p%d" % i, "c05", w, rand_queries(rng, w, ONE, 18), ONE, ["run"])
    # C15: explicit ids anywhere
    w = W((It(0, id=7), (0, It(1, id=9), 2)), (1, (It(3, id=0), 4)), (It(2, id=3), (It(5, id=255), It(0, id=2), 1)), (3, (1, 0)), (It(4, id=255), (It(2, id=1),)))
    q = [Q(C(0)), Q(X("any")), Q(O(1, 4)), Q(C(1, mut=True), X("dirany"))]
    add("d1", "c15", w, q, ONE, ["ids", "run"])
    for i in (2, 3, 4):
        w = rand_world(rng, ids=True)
        add("d%d" % i, "c15", w, rand_queries(rng, w, ONE, 5), ONE, ["ids", "run"])
    # C16: predicates anywhere
    CF = [(), (), ("all()",), ("any()",), ("not(any())",), ('feature = "p0"',), ('feature = "p1"',), ('feature = "p2"',), ('not(feature = "p0")',), ('feature = "p0"', 'feature = "p1"'),
          ("all()", 'feature = "p2"'), ('any(feature = "p0", feature = "p1")',), ('all(feature = "p1", not(feature = "p2"))',), ('feature = "p1"', "all()", 'feature = "p0"')]
    for i in range(1, 7):
        qs = []
        while len(qs) < 12:
            w = rand_world(rng, CF, FEATS, ids=i % 2 == 0)
            if len([1 for a, _ in w if a.cfgs]) < 2:
                continue
            qs = rand_queries(rng, w, FEATS, 14, cfgs=CF)
        add("g%d" % i, "c16", w, qs, FEATS, ["run", "ids"])
    head = "//! Written by gen.py.\nuse crate::model::*;\n\nentries! {\n"
    for g, n, b in entries:
        head += '    #[cfg(feature = "%s")]\n    %s => %s;\n' % (g, n, b)
    text = head + "}\n\n" + "\n".join(mods)
    try:
        if open(OUT).read() == text:
            return
    except OSError:
        pass
    with open(OUT + ".new", "w") as f:
        f.write(text)
    os.replace(OUT + ".new", OUT)


OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "worlds.rs")
main()
