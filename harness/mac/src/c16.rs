//! Declarations and queries with `#[cfg]`s against the same with the disabled items left out.
use crate::c05::{is_find, param_type, MACROS, P, Q};
use crate::c05::{ARCH, ARCH_SNAKE, COMP};
use crate::cases::program;
use crate::drive::*;
use crate::rt::*;
use proc_macro2::{TokenStream, TokenTree};

pub const PRED: [&str; 6] = [
    "feature = \"p0\"",
    "feature = \"p1\"",
    "not(feature = \"p0\")",
    "all(feature = \"p0\", not(feature = \"p1\"))",
    "any(feature = \"p1\", feature = \"p0\")",
    "feature = \"p2\"",
];
fn holds(p: usize) -> bool {
    match p {
        0 => truth(0),
        1 => truth(1),
        2 => !truth(0),
        3 => truth(0) && !truth(1),
        4 => truth(1) || truth(0),
        _ => truth(2),
    }
}
/// The predicates an item carries.
#[derive(Clone)]
pub struct Deco(Vec<usize>);
impl Deco {
    fn none() -> Deco {
        Deco(Vec::new())
    }
    fn any(of: &[&[usize]]) -> Deco {
        Deco(of[pick("cfg", of.len())].to_vec())
    }
    fn on(&self) -> bool {
        let mut on = true;
        for p in self.0.iter() {
            on &= holds(*p);
        }
        on
    }
    fn attrs(&self, s: &mut String) {
        for p in self.0.iter() {
            s.push_str("#[cfg(");
            s.push_str(PRED[*p]);
            s.push_str(")] ");
        }
    }
}
const TWO: &[&[usize]] = &[&[], &[1, 0]];
const THREE: &[&[usize]] = &[&[], &[0], &[1]];
const FOUR: &[&[usize]] = &[&[], &[0], &[1], &[1, 0]];
const EIGHT: &[&[usize]] = &[&[], &[0], &[1], &[2], &[0, 1], &[3], &[4], &[5, 0]];

pub struct Item {
    id: Option<&'static str>,
    deco: Deco,
}
pub struct Decl {
    arch: Vec<Item>,
    comp: Vec<Vec<(usize, Item)>>,
}
fn item(d: Deco) -> Item {
    Item { id: None, deco: d }
}
impl Decl {
    fn text(&self, decorated: bool) -> String {
        let mut s = String::new();
        for (i, a) in self.arch.iter().enumerate() {
            if !decorated && !a.deco.on() {
                continue;
            }
            a.write(decorated, "archetype_id", &mut s);
            s.push_str("ecs_archetype!(");
            s.push_str(ARCH[i]);
            for (c, it) in self.comp[i].iter() {
                if !decorated && !it.deco.on() {
                    continue;
                }
                s.push_str(", ");
                it.write(decorated, "component_id", &mut s);
                s.push_str(COMP[*c]);
            }
            s.push_str("); ");
        }
        s
    }
    /// At least one archetype is left, and at least one component in each.
    fn well_formed(&self) -> bool {
        let mut archs = 0;
        for (i, a) in self.arch.iter().enumerate() {
            if a.deco.on() {
                archs += 1;
                let mut comps = 0;
                for (_, c) in self.comp[i].iter() {
                    comps += c.deco.on() as usize;
                }
                if comps == 0 {
                    return false;
                }
            }
        }
        archs > 0
    }
}
impl Item {
    fn write(&self, decorated: bool, what: &str, s: &mut String) {
        if decorated {
            self.deco.attrs(s);
        }
        if let Some(id) = self.id {
            s.push_str("#[");
            s.push_str(what);
            s.push('(');
            s.push_str(id);
            s.push_str(")] ");
        }
    }
}
pub struct Query {
    m: usize,
    params: Vec<(P, bool, Deco)>,
}
impl Query {
    fn text(&self, decorated: bool, body: &str) -> String {
        let mut s = String::from(if is_find(self.m) { "w, e, |" } else { "w, |" });
        let mut first = true;
        for (i, (p, m, d)) in self.params.iter().enumerate() {
            if !decorated && !d.on() {
                continue;
            }
            if !first {
                s.push_str(", ");
            }
            first = false;
            if decorated {
                d.attrs(&mut s);
            }
            s.push_str(Q[i]);
            s.push_str(if *m { ": &mut " } else { ": &" });
            param_type(p, &mut s);
        }
        s.push_str("| ");
        s.push_str(body);
        s
    }
}

/// The tokens of an expansion with its `#[cfg]`s carried out, commas left out.
fn tokens(ts: TokenStream) -> Vec<TokenTree> {
    let ts = list(ts);
    let mut out = Vec::with_capacity(ts.len());
    let mut i = 0;
    while i < ts.len() {
        let mut comma = false;
        if let TokenTree::Punct(p) = &ts[i] {
            let c = p.as_char();
            comma = c == ',';
            if c == '#' {
                if let Some(TokenTree::Group(g)) = ts.get(i + 1) {
                    if let Some(c) = cfg_of(g) {
                        i += 2;
                        if !eval(&c) {
                            // the parameter or argument goes with it
                            while i < ts.len() {
                                if let TokenTree::Punct(p) = &ts[i] {
                                    if p.as_char() == ',' || p.as_char() == '|' {
                                        break;
                                    }
                                }
                                i += 1;
                            }
                        }
                        continue;
                    }
                }
            }
        }
        if !comma {
            out.push(ts[i].clone());
        }
        i += 1;
    }
    out
}
/// Token by token; the per-world hash does not count.
fn equal(a: TokenStream, b: TokenStream) -> bool {
    let (a, b) = (tokens(a), tokens(b));
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        let eq = match (&a[i], &b[i]) {
            (TokenTree::Group(x), TokenTree::Group(y)) => x.delimiter() == y.delimiter() && equal(x.stream(), y.stream()),
            (TokenTree::Ident(x), TokenTree::Ident(y)) => {
                x == y || {
                    let (x, y) = (x.to_string(), y.to_string());
                    x.starts_with("__expand_ecs_") && x.trim_end_matches(digit) == y.trim_end_matches(digit)
                }
            }
            (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
            (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
            _ => false,
        };
        if !eq {
            return false;
        }
    }
    true
}
fn digit(c: char) -> bool {
    c.is_ascii_digit()
}
fn same(a: Out, b: Out, what: &'static str, accepts: &'static str) {
    check(a.ok() == b.ok(), accepts);
    if a.ok() {
        check(equal(a.tokens(), b.tokens()), what);
        cover("expanded");
    } else {
        cover("rejected");
    }
}
fn judge(d: &Decl, qs: &[Query]) {
    assume(d.well_formed());
    program("same", || source(d, qs, false), || source(d, qs, true), features);
    let (mut e1, mut e2) = (Env::new(), Env::new());
    let a = e1.expand("ecs_world", parse(&d.text(true)));
    let b = e2.expand("ecs_world", parse(&d.text(false)));
    same(
        a,
        b,
        "C16: the world is not the one with the disabled items left out",
        "C16: the declaration is accepted or rejected otherwise than with the disabled items left out",
    );
    queries(&mut e1, &mut e2, d, qs);
    cover("end");
}
fn queries(e1: &mut Env, e2: &mut Env, d: &Decl, qs: &[Query]) {
    for q in qs {
        let a = e1.expand(MACROS[q.m], parse(&q.text(true, "{}")));
        let b = e2.expand(MACROS[q.m], parse(&q.text(false, "{}")));
        same(
            a,
            b,
            "C16: the query is not the one with the disabled parameters left out",
            "C16: the query is accepted or rejected otherwise than with the disabled items left out",
        );
    }
}
fn features() -> Vec<String> {
    let mut v = Vec::new();
    for (i, t) in truths().iter().enumerate() {
        if *t == 2 {
            v.push(["p0", "p1", "p2", "p3"][i].to_string());
        }
    }
    v
}

// ---- picks --------------------------------------------------------------------------------

/// Archetypes carry predicates; the second one an explicit id.
pub fn archetypes(n: usize, eight: bool) {
    let mut d = Decl { arch: Vec::new(), comp: Vec::new() };
    for i in 0..n {
        let mut a = item(Deco::any(if eight { EIGHT } else { FOUR }));
        if i == 1 {
            a.id = Some("7");
        }
        d.arch.push(a);
        d.comp.push(vec![(i, item(Deco::none()))]);
    }
    judge(&d, &[]);
}
pub fn components(n: usize, eight: bool) {
    let mut d = Decl { arch: vec![item(Deco::none()), item(Deco::none())], comp: vec![Vec::new(), vec![(0, item(Deco::none()))]] };
    for i in 0..n {
        let mut a = item(Deco::any(if eight { EIGHT } else { FOUR }));
        if i == 1 {
            a.id = Some("7");
        }
        d.comp[0].push((i, a));
    }
    judge(&d, &[]);
}
/// Predicates on archetypes and components, first seen in any order; the ids of one declaration.
pub fn mixed(of: usize) {
    let of: &[&[usize]] = [THREE, FOUR, EIGHT, TWO][of];
    let d = Decl {
        arch: vec![item(Deco::any(of)), item(Deco::any(of))],
        comp: vec![
            vec![(0, item(Deco::any(of))), (1, Item { id: Some("3"), deco: Deco::any(of) }), (2, item(Deco::none()))],
            vec![(1, item(Deco::any(of))), (0, item(Deco::none()))],
        ],
    };
    judge(&d, &[]);
}
fn plain_world() -> Decl {
    let n = || item(Deco::none());
    Decl {
        arch: vec![n(), n(), n()],
        comp: vec![vec![(0, n()), (1, n())], vec![(1, n()), (2, n())], vec![(3, n()), (0, n()), (2, n())]],
    }
}
fn any_kind(at: usize, all: bool) -> (P, bool) {
    match pick("kind", if all { 9 } else { 5 }) {
        0 => (P::Comp(at % 3), at == 0),
        1 => (P::Ent((at + 1) % 3), false),
        2 => (P::OneOf(if at % 2 == 0 { vec![0, 2] } else { vec![1, 3] }), at == 0), // the first is ambiguous in the third archetype
        3 => (P::OneOf(vec![1, 3]), at == 1),
        4 => (P::DirAny, false),
        5 => (P::Dir(2 - at % 3), false),
        6 => (P::EntAny, false),
        7 => (P::EntWild, false),
        _ => (P::DirWild, false),
    }
}
/// A world without predicates; every parameter of a query carries some.
pub fn params(n: usize, macros: usize, of: usize, all: bool) {
    let of: &[&[usize]] = [THREE, FOUR, EIGHT][of];
    let d = plain_world();
    let (mut e1, mut e2) = (Env::new(), Env::new());
    check(e1.expand("ecs_world", parse(&d.text(true))).ok(), "C16: a well-formed world declaration is rejected");
    check(e2.expand("ecs_world", parse(&d.text(false))).ok(), "C16: a well-formed world declaration is rejected");
    let mut q = Query { m: if macros == 1 { 0 } else { pick("macro", macros) }, params: Vec::new() };
    for i in 0..n {
        let (p, m) = any_kind(i, all);
        q.params.push((p, m, Deco::any(of)));
    }
    let qs = [q];
    program("same", || source(&d, &qs, false), || source(&d, &qs, true), features);
    queries(&mut e1, &mut e2, &d, &qs);
    cover("end");
}
/// Predicates in the declaration and in the query.
pub fn both(of: usize) {
    let of: &[&[usize]] = [THREE, FOUR, EIGHT, TWO][of];
    let n = || item(Deco::none());
    let d = Decl {
        arch: vec![n(), item(Deco::any(of)), n()],
        comp: vec![vec![(0, item(Deco::any(of))), (1, n())], vec![(1, n()), (2, n())], vec![(0, n()), (2, item(Deco::any(of)))]],
    };
    let q = Query {
        m: 0,
        params: vec![
            match pick("kind", 3) {
                0 => (P::Comp(0), true, Deco::any(of)),
                1 => (P::OneOf(vec![2, 0]), false, Deco::any(of)),
                _ => (P::Comp(2), false, Deco::any(of)),
            },
            (P::EntAny, false, Deco::none()),
        ],
    };
    judge(&d, &[q]);
}

// ---- the programs -------------------------------------------------------------------------

#[cfg(lsym)]
fn source(d: &Decl, qs: &[Query], decorated: bool) -> String {
    String::new()
}
/// Prints the ids of whatever is enabled and what the queries do.
#[cfg(not(lsym))]
fn source(d: &Decl, qs: &[Query], decorated: bool) -> String {
    let mut s = String::from("#![allow(unused, dead_code, unexpected_cfgs)]\nuse gecs::prelude::*;\n");
    for c in COMP {
        s += &format!("pub struct {c}(u32);\n");
    }
    s += &format!("ecs_world! {{ {} }}\nfn main() {{\nlet mut w = EcsWorld::new();\nlet mut ents: Vec<EntityAny> = Vec::new();\n", d.text(decorated));
    for i in 0..d.arch.len() {
        if !d.arch[i].deco.on() {
            continue;
        }
        s += &format!("println!(\"{} {{}}\", {}::ARCHETYPE_ID);\n", ARCH[i], ARCH[i]);
        for (c, it) in d.comp[i].iter() {
            if it.deco.on() {
                s += &format!("println!(\"  {} {{}}\", ecs_component_id!({}, {}));\n", COMP[*c], COMP[*c], ARCH[i]);
            }
        }
        for n in 0..2 {
            let vals: String =
                d.comp[i].iter().filter(|c| c.1.deco.on()).map(|c| format!("{}({}), ", COMP[c.0], 100 * i + 10 * n + c.0)).collect();
            s += &format!("ents.push(w.create::<{}>(({vals})).into_any());\n", ARCH[i]);
        }
        s += &format!("println!(\"  {{}}\", w.{}.len());\n", ARCH_SNAKE[i]);
    }
    s += "let mut dirs: Vec<EntityDirectAny> = Vec::new();\nfor e in ents.iter() { dirs.push(w.to_direct(*e).unwrap()); }\n";
    s += "let mut log: Vec<Vec<u32>> = Vec::new();\n";
    for q in qs {
        let mut body = String::from("{ log.push(vec![");
        for (i, (p, _, deco)) in q.params.iter().enumerate() {
            if !deco.on() {
                continue;
            }
            body += &match p {
                P::Comp(_) | P::OneOf(_) => format!("q{i}.0, "),
                P::Ent(_) | P::EntWild => format!("ents.iter().position(|x| *x == q{i}.into_any()).unwrap() as u32, "),
                P::EntAny => format!("ents.iter().position(|x| *x == *q{i}).unwrap() as u32, "),
                P::Dir(_) | P::DirWild => format!("dirs.iter().position(|x| *x == q{i}.into_any()).unwrap() as u32, "),
                P::DirAny => format!("dirs.iter().position(|x| *x == *q{i}).unwrap() as u32, "),
            };
        }
        body += if q.m == 4 { "]); EcsStepDestroy::Continue }" } else { "]); }" };
        let call = format!("{}!({})", MACROS[q.m], q.text(decorated, &body));
        if is_find(q.m) {
            s += &format!("for e in ents.clone() {{ println!(\"{{}}\", {call}.is_some()); }}\nfor e in dirs.clone() {{ println!(\"{{}}\", {call}.is_some()); }}\n");
        } else {
            s += &format!("{call};\n");
        }
        s += "println!(\"{log:?}\");\n";
    }
    s + "}\n"
}
