//! No token of any expansion is one that `#![forbid(unsafe_code)]` refuses; handle parameters are never mutable.
use crate::c05::*;
use crate::cases::program;
use crate::drive::*;
use crate::rt::*;
use proc_macro2::{TokenStream, TokenTree};

/// What the lint `unsafe_code` refuses, and whatever would switch it off.
const WORDS: [&str; 8] = ["unsafe", "unsafe_code", "no_mangle", "export_name", "link_section", "global_asm", "naked", "asm"];
fn clean(ts: TokenStream) -> bool {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                if !clean(g.stream()) {
                    return false;
                }
            }
            TokenTree::Ident(i) => {
                for w in WORDS {
                    if i == w {
                        return false;
                    }
                }
            }
            _ => {}
        }
    }
    true
}
fn world(d: &Decl) -> Env {
    let mut env = Env::new();
    let out = env.expand("ecs_world", parse(&d.text()));
    if out.ok() {
        check(clean(out.tokens()), "C18: the expansion of a world declaration contains code that forbid(unsafe_code) refuses");
        cover("world");
    }
    env
}
fn forbid(s: String) -> String {
    let mut r = String::from("#![forbid(unsafe_code)]\n");
    r.push_str(&s);
    r
}
/// Every world of `archs` archetypes over `pool` components.
pub fn worlds(archs: usize, pool: usize) {
    let d = any_decl(archs, pool, true);
    program("forbid", || source(&d, 0, &[], None), || forbid(source(&d, 0, &[], None)), Vec::new);
    world(&d);
    cover("end");
}
/// Every query of `n` parameters over a world of three archetypes.
pub fn queries(samples: usize, n: usize, macros: usize) {
    let d = sample(pick("world", samples));
    program("forbid", || source(&d, 0, &[], None), || forbid(source(&d, 0, &[], None)), Vec::new);
    let mut env = world(&d);
    let m = if macros == 1 { 0 } else { pick("macro", macros) };
    let mut ps = Vec::new();
    for i in 0..n {
        ps.push(if n == 1 { any_param(4, 3, true) } else { few_params(4, 3, i) });
    }
    let want = rule(&d, &ps);
    match &want {
        None => assume(false),
        Some(w) => assume(borrowable(w, &ps)),
    }
    program("forbid", || source(&d, m, &ps, Some(&want)), || forbid(source(&d, m, &ps, Some(&want))), Vec::new);
    let out = env.expand(MACROS[m], parse(&query_text(m, &ps, "{}")));
    if out.ok() {
        check(clean(out.tokens()), "C18: the expansion of a query contains code that forbid(unsafe_code) refuses");
        cover("query");
    }
    cover("end");
}
/// A handle parameter declared `&mut`, among `n` parameters.
pub fn mutable(n: usize) {
    let d = sample(pick("world", 2));
    let mut env = world(&d);
    let m = pick("macro", 5);
    let at = pick("at", n);
    let (mut good, mut bad) = (Vec::new(), Vec::new());
    for i in 0..n {
        if i == at {
            let p = match pick("handle", 6) {
                0 => P::Ent(pick("arch", 3)),
                1 => P::EntWild,
                2 => P::EntAny,
                3 => P::Dir(pick("arch", 3)),
                4 => P::DirWild,
                _ => P::DirAny,
            };
            good.push(Param { p: p.clone(), mutable: false });
            bad.push(Param { p, mutable: true });
        } else {
            let p = few_params(4, 3, i);
            good.push(p.clone());
            bad.push(p);
        }
    }
    let want = rule(&d, &good);
    match &want {
        None => assume(false),
        Some(w) => assume(borrowable(w, &good)),
    }
    program("rejected", || source(&d, m, &good, Some(&want)), || source(&d, m, &bad, Some(&want)), Vec::new);
    check(!env.expand(MACROS[m], parse(&query_text(m, &bad, "{}"))).ok(), "C18: a query with a mutable handle parameter is accepted");
    cover("rejected");
    cover("end");
}
