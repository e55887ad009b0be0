//! Archetype and component ids.
use crate::cases::program;
use crate::drive::*;
use crate::rt::*;
use proc_macro2::{Delimiter, TokenStream, TokenTree};

pub const ARCH: [&str; 6] = ["ArchA", "ArchB", "ArchC", "ArchD", "ArchE", "ArchF"];
pub const COMP: [&str; 6] = ["CompA", "CompB", "CompC", "CompD", "CompE", "CompF"];

/// How an item is written.
pub struct Item {
    /// decorated with `#[cfg(feature = "p0")]`, before or after the id
    cfg: usize,
    /// the digits of the explicit id
    id: Option<Vec<u8>>,
}
impl Item {
    /// `full`: any three digits, the attributes in any order; otherwise a digit alone or after "25".
    fn any(full: bool) -> Item {
        let how = pick("item", if full { 5 } else { 4 });
        let cfg = [0, 0, 1, 1, 2][how];
        let id = if how == 1 || how == 3 || how == 4 {
            let mut v = Vec::new();
            let mut free = 3; // leading zeros included
            if !full {
                free = 1;
                if pick("high", 2) == 1 {
                    v.extend(b"25");
                }
            }
            for _ in 0..free {
                let d = sym("digit", 8) as u8;
                assume((d >= b'0') & (d <= b'9'));
                v.push(d);
            }
            Some(v)
        } else {
            None
        };
        Item { cfg, id }
    }
    fn implicit() -> Item {
        Item { cfg: pick("cfg", 2), id: None }
    }
    fn plain() -> Item {
        Item { cfg: 0, id: None }
    }
    fn value(&self) -> Option<u32> {
        let mut n = 0u32;
        for d in self.id.as_ref()? {
            n = n * 10 + (*d - b'0') as u32;
        }
        Some(n)
    }
    fn on(&self) -> bool {
        self.cfg == 0 || truth(0)
    }
    fn attrs(&self, what: &str, out: &mut Vec<u8>) {
        if self.cfg == 1 {
            out.extend(b"#[cfg(feature = \"p0\")] ");
        }
        if let Some(d) = &self.id {
            out.extend(b"#[");
            out.extend(what.as_bytes());
            out.extend(b"(");
            for x in d {
                out.push(*x);
            }
            out.extend(b")] ");
        }
        if self.cfg == 2 {
            out.extend(b"#[cfg(feature = \"p0\")] ");
        }
    }
}

/// The discriminant rule: the id of every item, or None if the declaration must not compile.
fn rule(items: &[Item]) -> Option<Vec<Option<u32>>> {
    let mut last = None;
    let mut used: Vec<u32> = Vec::new();
    let mut out = Vec::new();
    for i in items {
        if !i.on() {
            out.push(None);
            continue;
        }
        let v = match (i.value(), last) {
            (Some(v), _) => v,
            (None, Some(l)) => l + 1,
            (None, None) => 0,
        };
        let mut bad = v > 255;
        for u in used.iter() {
            bad |= *u == v;
        }
        if bad {
            return None;
        }
        used.push(v);
        last = Some(v);
        out.push(Some(v));
    }
    Some(out)
}

struct World {
    arch: Vec<Item>,
    comp: Vec<Vec<Item>>,
}
impl World {
    fn text(&self, ids: bool) -> String {
        let mut s: Vec<u8> = Vec::new();
        for (i, a) in self.arch.iter().enumerate() {
            if ids {
                a.attrs("archetype_id", &mut s);
            }
            s.extend(b"ecs_archetype!(");
            s.extend(ARCH[i].as_bytes());
            for (j, c) in self.comp[i].iter().enumerate() {
                s.extend(b", ");
                if ids {
                    c.attrs("component_id", &mut s);
                }
                s.extend(COMP[j].as_bytes());
            }
            s.extend(b"); ");
        }
        unsafe { String::from_utf8_unchecked(s) }
    }
    fn judge(&self) {
        let p0 = {
            let mut any = false;
            for i in self.arch.iter() {
                any |= i.cfg != 0;
            }
            for l in self.comp.iter() {
                for i in l {
                    any |= i.cfg != 0;
                }
            }
            any && truth(0)
        };
        // a disabled item must still be a well-formed one
        let well_formed = |i: &Item, on: bool| match i.value() {
            Some(v) => assume(on | (v <= 255)),
            None => (),
        };
        for (k, a) in self.arch.iter().enumerate() {
            well_formed(a, a.on());
            for i in self.comp[k].iter() {
                well_formed(i, a.on() && i.on());
            }
        }
        // what the rule says
        let mut want_arch = rule(&self.arch);
        let mut want_comp = Vec::new();
        let mut enabled = 0;
        for (i, a) in self.arch.iter().enumerate() {
            if a.on() {
                enabled += 1;
                let r = rule(&self.comp[i]);
                match r {
                    Some(r) => {
                        let mut n = 0;
                        for x in r.iter() {
                            n += x.is_some() as usize;
                        }
                        assume(n > 0); // an archetype has at least one component
                        want_comp.push(r);
                    }
                    None => want_arch = None,
                }
            } else {
                want_comp.push(Vec::new());
            }
        }
        assume(enabled > 0);
        program(
            if want_arch.is_some() { "ok" } else { "rejected" },
            || self.source(false, None),
            || self.source(true, want_arch.as_ref().map(|w| (w, &want_comp))),
            || if p0 { vec!["p0".to_string()] } else { vec![] },
        );
        let text = self.text(true);
        let mut env = Env::new();
        let out = env.expand("ecs_world", parse(&text));
        let want = match want_arch {
            None => {
                cover("rejected");
                check(!out.ok(), "C15: a declaration that duplicates an id or counts past 255 is accepted");
                return;
            }
            Some(w) => w,
        };
        cover("accepted");
        check(out.ok(), "C15: a declaration whose ids are distinct and at most 255 is rejected");
        let got = consts(out.tokens());
        for (i, w) in want.iter().enumerate() {
            let g = find(&got, "ARCHETYPE_ID", ARCH[i], None);
            match w {
                Some(w) => {
                    check(g.is_some(), "C15: no ARCHETYPE_ID found for an archetype");
                    check(g.unwrap_or(9999) == *w, "C15: ARCHETYPE_ID is not the one the discriminant rule gives");
                }
                None => check(g.is_none(), "C15: a disabled archetype has an ARCHETYPE_ID"),
            }
            for (j, c) in want_comp[i].iter().enumerate() {
                let g = find(&got, "COMPONENT_ID", ARCH[i], Some(COMP[j]));
                match c {
                    Some(c) => {
                        check(g.is_some(), "C15: no COMPONENT_ID found for a component");
                        check(g.unwrap_or(9999) == *c, "C15: COMPONENT_ID is not the one the discriminant rule gives");
                    }
                    None => check(g.is_none(), "C15: a disabled component has a COMPONENT_ID"),
                }
            }
        }
        cover("end");
    }
    #[cfg(lsym)]
    fn source(&self, ids: bool, want: Option<(&Vec<Option<u32>>, &Vec<Vec<Option<u32>>>)>) -> String {
        String::new()
    }
    #[cfg(not(lsym))]
    fn source(&self, ids: bool, want: Option<(&Vec<Option<u32>>, &Vec<Vec<Option<u32>>>)>) -> String {
        let mut s = String::from("#![allow(unused, dead_code)]\nuse gecs::prelude::*;\n");
        let used = self.comp.iter().map(|c| c.len()).max().unwrap();
        for c in &COMP[..used] {
            s += &format!("pub struct {c}(u32);\n");
        }
        s += &format!("ecs_world! {{ {} }}\nfn main() {{\n", self.text(ids));
        if let Some((a, c)) = want {
            s += "let mut w = EcsWorld::new();\n";
            for (i, a) in a.iter().enumerate() {
                let Some(id) = a else { continue };
                let n = ARCH[i];
                s += &format!("assert_eq!({n}::ARCHETYPE_ID, {id});\n");
                let mut vals = String::new();
                for (j, c) in c[i].iter().enumerate() {
                    let Some(cid) = c else { continue };
                    let m = COMP[j];
                    s += &format!("assert_eq!(<{n} as ArchetypeHas<{m}>>::COMPONENT_ID, {cid});\nassert_eq!(ecs_component_id!({m}, {n}), {cid});\n");
                    vals += &format!("{m}({}), ", 10 * i + j);
                }
                s += &format!("let e = w.create::<{n}>(({vals}));\nassert_eq!(e.archetype_id(), {id});\nassert_eq!(e.into_any().archetype_id(), {id});\n");
                s += &format!("assert!(matches!(SelectEntity::try_from(e.into_any()), Ok(SelectEntity::{n}(_))));\nassert!(matches!(SelectArchetype::try_from({id}u8), Ok(SelectArchetype::{n})));\n");
            }
            s += "println!(\"fine\");\n";
        }
        s + "}\n"
    }
}

/// One item with every id of three digits, and one after it.
pub fn alone(what: usize) {
    let mut w = World { arch: Vec::new(), comp: Vec::new() };
    if what == 0 {
        w.arch.push(Item::any(true));
        w.arch.push(Item::plain());
        w.comp.push(vec![Item::plain()]);
        w.comp.push(vec![Item::plain()]);
    } else {
        w.arch.push(Item::plain());
        w.comp.push(vec![Item::any(true), Item::plain()]);
    }
    w.judge();
}
/// The last `few` are not given explicit ids.
pub fn archetypes(n: usize, full: usize, few: usize) {
    let mut w = World { arch: Vec::new(), comp: Vec::new() };
    for i in 0..n {
        w.arch.push(if i + few < n { Item::any(i < full) } else { Item::implicit() });
        w.comp.push(vec![Item::plain()]);
    }
    w.judge();
}
pub fn components(n: usize, full: usize, few: usize) {
    let mut w = World { arch: vec![Item::plain()], comp: vec![Vec::new()] };
    for i in 0..n {
        w.comp[0].push(if i + few < n { Item::any(i < full) } else { Item::implicit() });
    }
    w.judge();
}
/// Two archetypes with two components each: the scopes are separate.
pub fn both(full: bool) {
    let mut w = World { arch: Vec::new(), comp: Vec::new() };
    for i in 0..2 {
        w.arch.push(if full { Item::any(false) } else { [Item::implicit, Item::plain][i]() });
        w.comp.push(vec![Item::plain(), Item::any(false)]);
    }
    w.judge();
}

// ---- reading the expansion ----------------------------------------------------------------

/// `const NAME: T = VALUE;` in `impl HEADER { .. }`
pub struct Const {
    header: Vec<String>,
    name: String,
    value: Option<u32>,
}
fn number(s: &str) -> Option<u32> {
    let s = s.as_bytes();
    let mut end = s.len();
    if end > 2 && s[end - 2] == b'u' && s[end - 1] == b'8' {
        end -= 2;
    }
    // no branch on the digits themselves: whatever is not a digit spoils the value
    let mut n = 0u32;
    let mut i = 0;
    while i < end {
        n = n.wrapping_mul(10).wrapping_add(s[i].wrapping_sub(b'0') as u32);
        i += 1;
    }
    if end > 0 {
        Some(n)
    } else {
        None
    }
}
pub fn consts(ts: TokenStream) -> Vec<Const> {
    let mut out = Vec::new();
    walk(ts, &mut out);
    out
}
fn walk(ts: TokenStream, out: &mut Vec<Const>) {
    let ts = list(ts);
    let mut start = 0;
    let mut i = 0;
    while i < ts.len() {
        match &ts[i] {
            TokenTree::Punct(p) if p.as_char() == ';' => start = i + 1,
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let mut is_impl = false;
                let mut is_mod = false;
                for t in &ts[start..i] {
                    if let TokenTree::Ident(n) = t {
                        is_impl |= *n == "impl";
                        is_mod |= *n == "mod";
                    }
                }
                if is_impl {
                    let mut header = Vec::new();
                    for t in &ts[start..i] {
                        if let TokenTree::Ident(n) = t {
                            header.push(n.to_string());
                        }
                    }
                    body(g.stream(), &header, out);
                } else if is_mod {
                    walk(g.stream(), out);
                }
                start = i + 1;
            }
            _ => (),
        }
        i += 1;
    }
}
fn body(ts: TokenStream, header: &[String], out: &mut Vec<Const>) {
    let ts = list(ts);
    let mut i = 0;
    while i + 5 < ts.len() {
        if let (TokenTree::Ident(c), TokenTree::Ident(n), TokenTree::Literal(v)) = (&ts[i], &ts[i + 1], &ts[i + 5]) {
            if *c == "const" {
                out.push(Const { header: header.to_vec(), name: n.to_string(), value: number(&v.to_string()) });
            }
        }
        i += 1;
    }
}
fn find(all: &[Const], name: &str, arch: &str, comp: Option<&str>) -> Option<u32> {
    for c in all {
        if c.name == name && c.header.last().map(|h| h == arch) == Some(true) {
            match comp {
                Some(k) => {
                    if c.header.iter().any(|h| h == k) {
                        return c.value;
                    }
                }
                None => return c.value,
            }
        }
    }
    None
}
/// One concrete declaration (cost measurements, smoke test).
pub fn probe() {
    let mut w = World { arch: Vec::new(), comp: Vec::new() };
    for _ in 0..3 {
        w.arch.push(Item::plain());
        w.comp.push(vec![Item::plain(), Item::plain()]);
    }
    w.judge();
}
