//! Which archetypes a query acts on, and what its parameters bind to.
use crate::cases::program;
use crate::drive::*;
use crate::rt::*;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};

// names that are prefixes and suffixes of each other
pub const ARCH: [&str; 4] = ["Arch", "ArchA", "ArchAB", "AArch"];
pub const ARCH_SNAKE: [&str; 4] = ["arch", "arch_a", "arch_ab", "a_arch"];
pub const COMP: [&str; 5] = ["Co", "CoA", "CoAb", "ACo", "Ab"];
pub const COMP_SNAKE: [&str; 5] = ["co", "co_a", "co_ab", "a_co", "ab"];
pub const MACROS: [&str; 5] = ["ecs_iter", "ecs_find", "ecs_iter_borrow", "ecs_find_borrow", "ecs_iter_destroy"];

#[derive(Clone, PartialEq)]
pub enum P {
    Comp(usize),
    OneOf(Vec<usize>),
    Ent(usize),
    EntWild,
    EntAny,
    Dir(usize),
    DirWild,
    DirAny,
}
#[derive(Clone)]
pub struct Param {
    pub p: P,
    pub mutable: bool,
}
/// Per archetype, its components in order of declaration.
pub struct Decl {
    pub arch: Vec<Vec<usize>>,
}
impl Decl {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (i, a) in self.arch.iter().enumerate() {
            s.push_str("ecs_archetype!(");
            s.push_str(ARCH[i]);
            for c in a {
                s.push_str(", ");
                s.push_str(COMP[*c]);
            }
            s.push_str("); ");
        }
        s
    }
}
pub fn is_find(m: usize) -> bool {
    m == 1 || m == 3
}
pub fn param_type(p: &P, s: &mut String) {
    let gen = |s: &mut String, a: &str, b: &str| {
        s.push_str(a);
        s.push('<');
        s.push_str(b);
        s.push('>');
    };
    match p {
        P::Comp(c) => s.push_str(COMP[*c]),
        P::OneOf(l) => {
            s.push_str("OneOf<");
            for (i, c) in l.iter().enumerate() {
                if i > 0 {
                    s.push_str(", ");
                }
                s.push_str(COMP[*c]);
            }
            s.push('>');
        }
        P::Ent(a) => gen(s, "Entity", ARCH[*a]),
        P::EntWild => gen(s, "Entity", "_"),
        P::EntAny => s.push_str("EntityAny"),
        P::Dir(a) => gen(s, "EntityDirect", ARCH[*a]),
        P::DirWild => gen(s, "EntityDirect", "_"),
        P::DirAny => s.push_str("EntityDirectAny"),
    }
}
pub const Q: [&str; 6] = ["q0", "q1", "q2", "q3", "q4", "q5"];
pub fn params_text(ps: &[Param]) -> String {
    let mut s = String::from("|");
    for (i, p) in ps.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(Q[i]);
        s.push_str(if p.mutable { ": &mut " } else { ": &" });
        param_type(&p.p, &mut s);
    }
    s.push('|');
    s
}
pub fn query_text(m: usize, ps: &[Param], body: &str) -> String {
    let mut s = String::from(if is_find(m) { "w, e, " } else { "w, " });
    s.push_str(&params_text(ps));
    s.push(' ');
    s.push_str(body);
    s
}

/// What the parameter binds to in this archetype: the name of its type.
pub enum B {
    Comp(usize),
    Ent,
    EntAny,
    Dir,
    DirAny,
}
/// None: rejected. Otherwise per archetype what is bound, or None where the query does not act.
pub fn rule(d: &Decl, ps: &[Param]) -> Option<Vec<Option<Vec<B>>>> {
    let mut out = Vec::new();
    let mut any = false;
    for (i, a) in d.arch.iter().enumerate() {
        let mut on = true;
        let mut bs = Vec::new();
        for p in ps {
            match &p.p {
                P::Comp(c) => {
                    on &= a.contains(c);
                    bs.push(B::Comp(*c));
                }
                P::OneOf(l) => {
                    let mut n = 0;
                    for c in l {
                        if a.contains(c) {
                            n += 1;
                            bs.push(B::Comp(*c));
                        }
                    }
                    if n > 1 {
                        return None;
                    }
                    on &= n == 1;
                }
                P::Ent(x) => {
                    on &= *x == i;
                    bs.push(B::Ent);
                }
                P::Dir(x) => {
                    on &= *x == i;
                    bs.push(B::Dir);
                }
                P::EntWild => bs.push(B::Ent),
                P::DirWild => bs.push(B::Dir),
                P::EntAny => bs.push(B::EntAny),
                P::DirAny => bs.push(B::DirAny),
            }
        }
        any |= on;
        out.push(if on { Some(bs) } else { None });
    }
    if any {
        Some(out)
    } else {
        None
    }
}
/// The closure must be one the compiler accepts: no component bound mutably and once more.
pub fn borrowable(w: &[Option<Vec<B>>], ps: &[Param]) -> bool {
    for bs in w.iter().flatten() {
        for (i, b) in bs.iter().enumerate() {
            for (j, c) in bs.iter().enumerate() {
                if let (B::Comp(x), B::Comp(y)) = (b, c) {
                    if i != j && x == y && ps[i].mutable {
                        return false;
                    }
                }
            }
        }
    }
    true
}

// ---- what is decided ----------------------------------------------------------------------

pub struct World {
    pub decl: Decl,
    pub env: Env,
}
pub fn world(decl: Decl) -> World {
    let mut env = Env::new();
    let out = env.expand("ecs_world", parse(&decl.text()));
    check(out.ok(), "C05: a well-formed world declaration is rejected");
    World { decl, env }
}
impl World {
    /// `strict`: what every parameter binds to is read from the expansion too.
    pub fn query(&mut self, m: usize, ps: &[Param], strict: bool) {
        let want = rule(&self.decl, ps);
        if let Some(w) = &want {
            assume(borrowable(w, ps));
        }
        let d = &self.decl;
        program(if want.is_some() { "ok" } else { "rejected" }, || source(d, m, ps, None), || source(d, m, ps, Some(&want)), Vec::new);
        let out = self.env.expand(MACROS[m], parse(&query_text(m, ps, "{}")));
        let want = match want {
            None => {
                cover("rejected");
                check(!out.ok(), "C05: a query that matches no archetype, or whose OneOf matches two components of one, is accepted");
                return;
            }
            Some(w) => w,
        };
        cover("accepted");
        check(out.ok(), "C05: a query that matches an archetype is rejected");
        let ts = out.tokens();
        let mut words = Vec::new();
        flat(ts.clone(), &mut words);
        for i in 0..self.decl.arch.len() {
            let named = words.iter().any(|x| x == ARCH[i] || x == ARCH_SNAKE[i]);
            match &want[i] {
                Some(_) => check(named, "C05: an archetype that satisfies the query is left out"),
                None => check(!named, "C05: the query acts on an archetype that does not satisfy it"),
            }
        }
        if strict {
            let mut found = Vec::new();
            blocks(ts, &mut found);
            for i in 0..self.decl.arch.len() {
                let mut n = 0;
                let (mut entity, mut direct) = (0, 0);
                for b in found.iter() {
                    if b.arch == ARCH[i] {
                        n += 1;
                        if b.arm == ARCH[i] {
                            entity += 1;
                        } else if b.arm.len() > 6 && b.arm.ends_with("Direct") && &b.arm[..b.arm.len() - 6] == ARCH[i] {
                            direct += 1;
                        }
                        if let Some(w) = &want[i] {
                            judge(b, w, ps, i);
                        }
                    }
                }
                let times = if want[i].is_none() {
                    0
                } else if is_find(m) {
                    2
                } else {
                    1
                };
                check(n == times, "C05: the query does not visit a matching archetype exactly once");
                if is_find(m) && times > 0 {
                    check(entity == 1 && direct == 1, "C05: a find does not answer each kind of handle of a matching archetype");
                }
            }
        }
        cover("end");
    }
}
fn judge(b: &Block, want: &[B], ps: &[Param], arch: usize) {
    check(b.params.len() == want.len() && b.binds.len() == want.len(), "C05: the closure's parameters are not the query's");
    for (i, w) in want.iter().enumerate() {
        let p = &b.params[i];
        check(p.name == Q[i] && p.mutable == ps[i].mutable, "C05: the closure's parameters are not the query's");
        let one = |n: &str| p.ty.len() == 1 && p.ty[0] == n;
        let typed = |n: &str| p.ty.len() == 4 && p.ty[0] == n && (p.ty[2] == ARCH[arch] || p.ty[2] == "MatchedArchetype");
        let has = |n: &str| b.binds[i].iter().any(|x| x == n);
        let ok = match w {
            B::Comp(c) => one(COMP[*c]) && (has(COMP[*c]) || has(COMP_SNAKE[*c])),
            B::Ent => typed("Entity") && (has("entity") || has("entities")),
            B::EntAny => one("EntityAny") && (has("entity") || has("entities")),
            B::Dir => typed("EntityDirect") && has("new_entity_direct"),
            B::DirAny => one("EntityDirectAny") && has("new_entity_direct"),
        };
        check(ok, "C05: a parameter is not bound to the archetype's own column of its type");
        // and to no other column
        if let B::Comp(c) = w {
            for k in 0..COMP.len() {
                check(k == *c || !(has(COMP[k]) || has(COMP_SNAKE[k])), "C05: a parameter is bound to another component's column");
            }
        }
    }
}

// ---- reading the expansion ----------------------------------------------------------------

pub struct Arg {
    name: String,
    mutable: bool,
    ty: Vec<String>,
}
pub struct Block {
    arm: String,
    arch: String,
    params: Vec<Arg>,
    binds: Vec<Vec<String>>,
}
fn word(t: Option<&TokenTree>) -> String {
    match t {
        Some(TokenTree::Ident(i)) => i.to_string(),
        _ => String::new(),
    }
}
fn punct(t: Option<&TokenTree>, c: char) -> bool {
    match t {
        Some(TokenTree::Punct(p)) => p.as_char() == c,
        _ => false,
    }
}
/// The blocks that name their archetype `type MatchedArchetype = X;`.
fn blocks(ts: TokenStream, out: &mut Vec<Block>) {
    let ts = list(ts);
    for (i, t) in ts.iter().enumerate() {
        if let TokenTree::Group(g) = t {
            let mut arm = String::new();
            // `Total::X(..) => {`
            if i >= 4 && punct(ts.get(i - 1), '>') && punct(ts.get(i - 2), '=') {
                arm = word(ts.get(i - 4));
            }
            let l = list(g.stream());
            if word(l.get(0)) == "type" && word(l.get(1)) == "MatchedArchetype" {
                out.push(block(arm, &l));
            } else {
                blocks(g.stream(), out);
            }
        }
    }
}
fn block(arm: String, l: &[TokenTree]) -> Block {
    let mut b = Block { arm, arch: word(l.get(3)), params: Vec::new(), binds: Vec::new() };
    let mut i = 5;
    while i < l.len() && !punct(l.get(i), '|') {
        i += 1;
    }
    let mut j = i + 1;
    while j < l.len() && !punct(l.get(j), '|') {
        j += 1;
    }
    if j < l.len() {
        for p in split(&l[i + 1..j]) {
            let mut k = 0;
            while punct(p.get(k), '#') {
                k += 2;
            }
            let name = word(p.get(k));
            k += 3; // name : &
            let mutable = word(p.get(k)) == "mut";
            k += mutable as usize;
            let mut ty = Vec::new();
            flat(p[k.min(p.len())..].iter().cloned().collect(), &mut ty);
            b.params.push(Arg { name, mutable, ty });
        }
        if let Some(g) = call(&l[j + 1..]) {
            for a in split(&list(g.stream())) {
                let mut v = Vec::new();
                flat(a.into_iter().collect(), &mut v);
                b.binds.push(v);
            }
        }
    }
    b
}
fn call(l: &[TokenTree]) -> Option<Group> {
    for (i, t) in l.iter().enumerate() {
        if word(Some(t)) == "closure" {
            if let Some(TokenTree::Group(g)) = l.get(i + 1) {
                return Some(g.clone());
            }
        }
        if let TokenTree::Group(g) = t {
            if let Some(g) = call(&list(g.stream())) {
                return Some(g);
            }
        }
    }
    None
}
fn split(l: &[TokenTree]) -> Vec<Vec<TokenTree>> {
    let mut out = Vec::new();
    let mut cur = Vec::new();
    for t in l {
        if punct(Some(t), ',') {
            out.push(core::mem::take(&mut cur));
        } else {
            cur.push(t.clone());
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

// ---- picks --------------------------------------------------------------------------------

/// Every non-empty set of `pool` components, in order of declaration or reversed.
pub fn any_set(pool: usize, orders: bool) -> Vec<usize> {
    let bits = 1 + pick("set", (1 << pool) - 1);
    let mut v = Vec::new();
    for c in 0..pool {
        if bits & (1 << c) != 0 {
            v.push(c);
        }
    }
    if orders && v.len() > 1 && pick("reversed", 2) == 1 {
        v.reverse();
    }
    v
}
pub fn any_decl(archs: usize, pool: usize, orders: bool) -> Decl {
    let mut d = Decl { arch: Vec::new() };
    for _ in 0..archs {
        d.arch.push(any_set(pool, orders));
    }
    d
}
/// Any parameter over `pool` components and `archs` archetypes.
pub fn any_param(pool: usize, archs: usize, muts: bool) -> Param {
    let k = pick("kind", 8);
    let p = match k {
        0 => P::Comp(pick("comp", pool)),
        1 => {
            let v = any_set(pool, true);
            assume(v.len() > 1);
            P::OneOf(v)
        }
        2 => P::Ent(pick("arch", archs)),
        3 => P::EntWild,
        4 => P::EntAny,
        5 => P::Dir(pick("arch", archs)),
        6 => P::DirWild,
        _ => P::DirAny,
    };
    let mutable = k < 2 && muts && sym_bool("mut");
    Param { p, mutable }
}
/// The parameters that select: a component or OneOf (some mutable), a typed entity, a dynamic one.
pub fn few_params(pool: usize, archs: usize, at: usize) -> Param {
    let n = pick("param", pool + 4 + archs);
    let mutable = at % 2 == 0;
    if n < pool {
        return Param { p: P::Comp(n), mutable };
    }
    let n = n - pool;
    if n < archs {
        return Param { p: if (at + n) % 2 == 0 { P::Ent(n) } else { P::Dir(n) }, mutable: false };
    }
    match n - archs {
        0 => Param { p: P::OneOf(vec![0, 1]), mutable },
        1 => Param { p: P::OneOf(vec![pool - 1, 1]), mutable },
        2 => Param { p: P::OneOf((0..pool).rev().collect()), mutable },
        _ => Param { p: [P::EntWild, P::EntAny, P::DirWild, P::DirAny][at % 4].clone(), mutable: false },
    }
}
pub const SAMPLES: [&[&[usize]]; 6] = [
    &[&[0, 1], &[1, 2], &[2]],
    &[&[2, 1, 0], &[0], &[1]],
    &[&[3, 0], &[1, 3], &[2, 3, 0, 1]],
    &[&[2], &[2, 3], &[3]],
    &[&[0], &[1], &[2, 3]],
    &[&[1, 0], &[2, 0], &[3, 0]],
];
pub fn sample(i: usize) -> Decl {
    Decl { arch: SAMPLES[i].iter().map(|a| a.to_vec()).collect() }
}
/// Every world of `archs` archetypes over `pool` components; one parameter of every kind.
pub fn one(archs: usize, pool: usize, orders: bool, strict: bool) {
    let mut w = world(any_decl(archs, pool, orders));
    let p = any_param(pool, archs, true);
    w.query(pick("macro", 5), &[p], strict);
}
/// Worlds of three archetypes over four components; `n` parameters.
pub fn several(samples: usize, n: usize, macros: usize, strict: bool) {
    let mut w = world(sample(pick("world", samples)));
    let mut ps = Vec::new();
    for i in 0..n {
        ps.push(few_params(4, 3, i));
    }
    w.query(if macros == 1 { 0 } else { pick("macro", macros) }, &ps, strict);
}

// ---- the program --------------------------------------------------------------------------

#[cfg(lsym)]
pub fn source(d: &Decl, m: usize, ps: &[Param], want: Option<&Option<Vec<Option<Vec<B>>>>>) -> String {
    String::new()
}
/// The declaration alone, or with the query and what it must do.
#[cfg(not(lsym))]
pub fn source(d: &Decl, m: usize, ps: &[Param], want: Option<&Option<Vec<Option<Vec<B>>>>>) -> String {
    let mut s = String::from("#![allow(unused, dead_code)]\nuse gecs::prelude::*;\n");
    for c in COMP {
        s += &format!("pub struct {c}(u32);\n");
    }
    s += &format!("ecs_world! {{ {} }}\nfn main() {{\nlet mut w = EcsWorld::new();\nlet mut ents: Vec<EntityAny> = Vec::new();\n", d.text());
    for i in 0..d.arch.len() {
        for n in 0..2 {
            let vals: String = d.arch[i].iter().map(|c| format!("{}({}), ", COMP[*c], 100 * i + 10 * n + c)).collect();
            s += &format!("ents.push(w.create::<{}>(({vals})).into_any());\n", ARCH[i]);
        }
    }
    s += "let mut dirs: Vec<EntityDirectAny> = Vec::new();\nfor e in ents.iter() { dirs.push(w.to_direct(*e).unwrap()); }\n";
    s += "let mut log: Vec<Vec<u32>> = Vec::new();\n";
    if let Some(want) = want {
        let mut body = String::from("{ log.push(vec![");
        for (i, p) in ps.iter().enumerate() {
            body += &match p.p {
                P::Comp(_) | P::OneOf(_) => format!("q{i}.0, "),
                P::Ent(_) | P::EntWild => format!("ents.iter().position(|x| *x == q{i}.into_any()).unwrap() as u32, "),
                P::EntAny => format!("ents.iter().position(|x| *x == *q{i}).unwrap() as u32, "),
                P::Dir(_) | P::DirWild => format!("dirs.iter().position(|x| *x == q{i}.into_any()).unwrap() as u32, "),
                P::DirAny => format!("dirs.iter().position(|x| *x == *q{i}).unwrap() as u32, "),
            };
        }
        body += if m == 4 { "]); EcsStepDestroy::Continue }" } else { "]); }" };
        let call = format!("{}!({})", MACROS[m], query_text(m, ps, &body).replacen("w, ", "w, ", 1));
        if is_find(m) {
            s += "let mut found: Vec<bool> = Vec::new();\n";
            s += &format!("for e in ents.clone() {{ found.push({call}.is_some()); }}\nfor e in dirs.clone() {{ found.push({call}.is_some()); }}\n");
        } else {
            s += &format!("{call};\n");
        }
        if let Some(want) = want {
            let mut rows = String::new();
            let mut count = 0;
            let mut found = String::new();
            for (i, w) in want.iter().enumerate() {
                for n in 0..2 {
                    found += &format!("{}, ", w.is_some());
                    if let Some(w) = w {
                        let r: String = w
                            .iter()
                            .map(|b| match b {
                                B::Comp(c) => format!("{}, ", 100 * i + 10 * n + c),
                                _ => format!("{}, ", 2 * i + n),
                            })
                            .collect();
                        rows += &format!("vec![{r}], ");
                        count += 1;
                    }
                }
            }
            s += &format!("let mut want: Vec<Vec<u32>> = vec![{rows}];\n");
            if is_find(m) {
                s += &format!("assert_eq!(found, vec![{found}{found}]);\nlet mut twice = want.clone(); twice.extend(want.clone()); want = twice;\n");
            }
            s += "log.sort(); want.sort();\nassert_eq!(log, want);\n";
        }
    }
    s + "println!(\"fine\");\n}\n"
}
