//! Drives the macro crate the way the compiler does: the generated `macro_rules!` chains are expanded,
//! `#[cfg]`s on them are evaluated under a symbolic assignment, and invocations go to the real functions.
use crate::rt::*;
use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};

pub struct Env {
    defs: Vec<(String, Vec<TokenTree>)>,
    aliases: Vec<(String, String)>,
}
pub enum Out {
    Tokens(TokenStream),
    Rejected,
}
impl Out {
    pub fn ok(&self) -> bool {
        match self {
            Out::Tokens(_) => true,
            Out::Rejected => false,
        }
    }
    pub fn tokens(self) -> TokenStream {
        match self {
            Out::Tokens(t) => t,
            Out::Rejected => TokenStream::new(),
        }
    }
}

// ---- predicates ---------------------------------------------------------------------------

pub const NP: usize = 4;
static mut TRUTH: [u8; NP] = [0; NP];
/// The truth of `feature = "pN"`, decided when first asked for.
pub fn truth(n: usize) -> bool {
    unsafe {
        if TRUTH[n] == 0 {
            TRUTH[n] = 1 + sym_bool(["p0", "p1", "p2", "p3"][n]) as u8;
        }
        TRUTH[n] == 2
    }
}
/// Which of them have been asked for, and their values.
pub fn truths() -> [u8; NP] {
    unsafe { TRUTH }
}
fn is_ident(t: &TokenTree, s: &str) -> bool {
    match t {
        TokenTree::Ident(i) => *i == s,
        _ => false,
    }
}
fn is_punct(t: &TokenTree, c: char) -> bool {
    match t {
        TokenTree::Punct(p) => p.as_char() == c,
        _ => false,
    }
}
fn at<'a>(ts: &'a [TokenTree], i: usize) -> Option<&'a TokenTree> {
    ts.get(i)
}
fn punct_at(ts: &[TokenTree], i: usize, c: char) -> bool {
    match ts.get(i) {
        Some(t) => is_punct(t, c),
        None => false,
    }
}
fn ident_at(ts: &[TokenTree], i: usize) -> Option<String> {
    match ts.get(i) {
        Some(TokenTree::Ident(i)) => Some(i.to_string()),
        _ => None,
    }
}
fn group_at(ts: &[TokenTree], i: usize) -> Option<&Group> {
    match ts.get(i) {
        Some(TokenTree::Group(g)) => Some(g),
        _ => None,
    }
}
pub fn list(ts: TokenStream) -> Vec<TokenTree> {
    ts.into_iter().collect()
}

pub fn eval(ts: &[TokenTree]) -> bool {
    let name = ident_at(ts, 0).unwrap();
    if name == "feature" {
        // feature = "pN"
        let s = ts[2].to_string();
        let n = s.as_bytes()[2] - b'0';
        return truth(n as usize);
    }
    let g = list(group_at(ts, 1).unwrap().stream());
    let (mut all, mut any) = (true, false);
    let mut first = true;
    let mut s = 0;
    let mut i = 0;
    while i <= g.len() {
        if i == g.len() || is_punct(&g[i], ',') {
            if i > s {
                let v = eval(&g[s..i]);
                all &= v;
                any |= v;
            }
            s = i + 1;
        }
        i += 1;
    }
    if name == "not" {
        !all
    } else if name == "all" {
        all
    } else {
        any
    }
}
/// The predicate of `[cfg(..)]`.
pub fn cfg_of(g: &Group) -> Option<Vec<TokenTree>> {
    let ts = list(g.stream());
    if g.delimiter() == Delimiter::Bracket && ts.len() == 2 && is_ident(&ts[0], "cfg") {
        Some(list(group_at(&ts, 1)?.stream()))
    } else {
        None
    }
}

// ---- macro_rules --------------------------------------------------------------------------

enum Pat {
    Tok(TokenTree),
    Group(Delimiter, Vec<Pat>),
    Var(String, String),
    Rep(Vec<Pat>, Option<TokenTree>, char),
}
#[derive(Clone)]
enum Bind {
    One(Vec<TokenTree>),
    Many(Vec<Binds>),
}
type Binds = Vec<(String, Bind)>;

fn pats(ts: &[TokenTree], matcher: bool) -> Vec<Pat> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < ts.len() {
        if is_punct(&ts[i], '$') {
            if let Some(g) = group_at(ts, i + 1) {
                let inner = pats(&list(g.stream()), matcher);
                i += 2;
                let mut sep = None;
                let op = |t: &TokenTree| is_punct(t, '*') || is_punct(t, '+') || is_punct(t, '?');
                if !op(&ts[i]) {
                    sep = Some(ts[i].clone());
                    i += 1;
                }
                let c = if is_punct(&ts[i], '*') { '*' } else if is_punct(&ts[i], '+') { '+' } else { '?' };
                out.push(Pat::Rep(inner, sep, c));
                i += 1;
                continue;
            }
            if let Some(name) = ident_at(ts, i + 1) {
                if name == "crate" {
                    i += 1; // `$crate` stays a path segment
                    continue;
                }
                if matcher {
                    out.push(Pat::Var(name, ident_at(ts, i + 3).unwrap()));
                    i += 4;
                } else {
                    out.push(Pat::Var(name, String::new()));
                    i += 2;
                }
                continue;
            }
        }
        match &ts[i] {
            TokenTree::Group(g) => out.push(Pat::Group(g.delimiter(), pats(&list(g.stream()), matcher))),
            t => out.push(Pat::Tok(t.clone())),
        }
        i += 1;
    }
    out
}
fn same_token(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(a), TokenTree::Ident(b)) => a == b,
        (TokenTree::Punct(a), TokenTree::Punct(b)) => a.as_char() == b.as_char(),
        (TokenTree::Literal(a), TokenTree::Literal(b)) => a.to_string() == b.to_string(),
        _ => false,
    }
}
/// Matches `ps` from `ts[i..]`; the position after the match.
fn matches(ps: &[Pat], ts: &[TokenTree], mut i: usize, b: &mut Binds) -> Option<usize> {
    for p in ps {
        match p {
            Pat::Tok(t) => {
                if i >= ts.len() || !same_token(t, &ts[i]) {
                    return None;
                }
                i += 1;
            }
            Pat::Group(d, inner) => {
                let g = group_at(ts, i)?;
                if g.delimiter() != *d {
                    return None;
                }
                let l = list(g.stream());
                if matches(inner, &l, 0, b)? != l.len() {
                    return None;
                }
                i += 1;
            }
            Pat::Var(n, frag) => {
                let s = i;
                if frag == "expr" || frag == "ty" || frag == "path" {
                    while i < ts.len() && !is_punct(&ts[i], ',') && !is_punct(&ts[i], ';') {
                        i += 1;
                    }
                } else if i < ts.len() {
                    i += 1;
                }
                if i == s {
                    return None;
                }
                b.push((n.clone(), Bind::One(ts[s..i].to_vec())));
            }
            Pat::Rep(inner, sep, op) => {
                let mut rounds = Vec::new();
                let mut first = true;
                loop {
                    if i >= ts.len() {
                        break;
                    }
                    let mut j = i;
                    if !first {
                        if let Some(s) = sep {
                            if !same_token(s, &ts[j]) {
                                break;
                            }
                            j += 1;
                        }
                    }
                    let mut bb = Vec::new();
                    match matches(inner, ts, j, &mut bb) {
                        Some(k) if k > i => {
                            rounds.push(bb);
                            i = k;
                        }
                        _ => break,
                    }
                    first = false;
                    if *op == '?' {
                        break;
                    }
                }
                if *op == '+' && rounds.is_empty() {
                    return None;
                }
                b.push((String::new(), Bind::Many(rounds)));
                // the rounds are found again by the names they bind
            }
        }
    }
    Some(i)
}
fn names(ps: &[Pat], out: &mut Vec<String>) {
    for p in ps {
        match p {
            Pat::Var(n, _) => out.push(n.clone()),
            Pat::Group(_, i) | Pat::Rep(i, _, _) => names(i, out),
            Pat::Tok(_) => (),
        }
    }
}
fn lookup<'a>(b: &'a [&'a Binds], n: &str) -> Option<&'a [TokenTree]> {
    for l in b {
        for (k, v) in l.iter() {
            if let Bind::One(v) = v {
                if k == n {
                    return Some(v);
                }
            }
        }
    }
    None
}
fn rounds<'a>(b: &'a [&'a Binds], vars: &[String]) -> Option<&'a Vec<Binds>> {
    for l in b {
        for (k, v) in l.iter() {
            if let Bind::Many(rs) = v {
                if let Some(r) = rs.first() {
                    if r.iter().any(|(n, _)| vars.contains(n)) {
                        return Some(rs);
                    }
                }
            }
        }
    }
    None
}
fn transcribe(ps: &[Pat], b: &[&Binds], out: &mut Vec<TokenTree>) {
    for p in ps {
        match p {
            Pat::Tok(t) => out.push(t.clone()),
            Pat::Group(d, i) => {
                let mut v = Vec::new();
                transcribe(i, b, &mut v);
                out.push(TokenTree::Group(Group::new(*d, v.into_iter().collect())));
            }
            Pat::Var(n, _) => match lookup(b, n) {
                Some(v) => out.extend(v.iter().cloned()),
                None => (),
            },
            Pat::Rep(i, sep, _) => {
                let mut vars = Vec::new();
                names(i, &mut vars);
                if let Some(rs) = rounds(b, &vars) {
                    let mut first = true;
                    for r in rs {
                        if !first {
                            if let Some(s) = sep {
                                out.push(s.clone());
                            }
                        }
                        first = false;
                        let mut scope: Vec<&Binds> = vec![r];
                        scope.extend(b.iter().cloned());
                        transcribe(i, &scope, out);
                    }
                }
            }
        }
    }
}
/// One application of a `macro_rules!` macro.
fn apply(body: &[TokenTree], args: &[TokenTree]) -> Option<Vec<TokenTree>> {
    let mut i = 0;
    while i < body.len() {
        let m = list(group_at(body, i)?.stream());
        // `=>`
        let t = list(group_at(body, i + 3)?.stream());
        let ps = pats(&m, true);
        let mut b = Vec::new();
        if let Some(n) = matches(&ps, args, 0, &mut b) {
            if n == args.len() {
                let mut out = Vec::new();
                transcribe(&pats(&t, false), &[&b], &mut out);
                return Some(out);
            }
        }
        i += 4;
        if punct_at(body, i, ';') {
            i += 1;
        }
    }
    None
}

// ---- items --------------------------------------------------------------------------------

impl Env {
    pub fn new() -> Env {
        Env { defs: Vec::new(), aliases: Vec::new() }
    }
    fn def(&self, n: &str) -> Option<&Vec<TokenTree>> {
        self.defs.iter().rev().find(|d| d.0 == n).map(|d| &d.1)
    }
    fn alias<'a>(&'a self, n: &'a str) -> &'a str {
        match self.aliases.iter().rev().find(|a| a.0 == n) {
            Some(a) => &a.1,
            None => n,
        }
    }
    /// `macro_rules!` definitions and `use A as B`; anything else is left alone. Returns the macro to expand
    /// next, if the stream is a step of a chain.
    fn scan(&mut self, ts: &[TokenTree]) -> Option<(String, Vec<TokenTree>)> {
        let mut on = true;
        let mut i = 0;
        while i < ts.len() {
            if is_punct(&ts[i], '#') {
                if let Some(g) = group_at(ts, i + 1) {
                    if let Some(p) = cfg_of(g) {
                        on &= eval(&p);
                    }
                    i += 2;
                    continue;
                }
            }
            if let Some(n) = ident_at(ts, i) {
                if n == "macro_rules" && punct_at(ts, i + 1, '!') {
                    let name = ident_at(ts, i + 2)?;
                    if on {
                        let body = list(group_at(ts, i + 3)?.stream());
                        self.defs.push((name, body));
                    }
                    i += 4;
                    if punct_at(ts, i, ';') {
                        i += 1;
                    }
                    on = true;
                    continue;
                }
                if n == "mod" {
                    if let Some(g) = group_at(ts, i + 2) {
                        if on {
                            if let Some(r) = self.scan(&list(g.stream())) {
                                return Some(r);
                            }
                        }
                    }
                    i += 3;
                    on = true;
                    continue;
                }
                if n == "use" {
                    let s = i;
                    while i < ts.len() && !is_punct(&ts[i], ';') {
                        i += 1;
                    }
                    if i >= 3 && i - 2 > s && is_ident(&ts[i - 2], "as") {
                        if let (Some(a), Some(b)) = (ident_at(ts, i - 3), ident_at(ts, i - 1)) {
                            self.aliases.push((b, a));
                        }
                    }
                    on = true;
                    continue;
                }
                if punct_at(ts, i + 1, '!') {
                    if let Some(g) = group_at(ts, i + 2) {
                        let n = self.alias(&n).to_string();
                        if on && (self.def(&n).is_some() || table(&n).is_some()) {
                            return Some((n, list(g.stream())));
                        }
                        i += 3;
                        continue;
                    }
                }
            }
            i += 1;
        }
        // a block around the chain
        if ts.len() == 1 {
            if let Some(g) = group_at(ts, 0) {
                let l = list(g.stream());
                return self.scan(&l);
            }
        }
        None
    }
    /// Expands `name!(args)` to the end.
    pub fn expand(&mut self, name: &str, args: TokenStream) -> Out {
        let keep = (self.defs.len(), self.aliases.len());
        let mut name = self.alias(name).to_string();
        let mut args = list(args);
        let mut steps = 0;
        loop {
            steps += 1;
            if steps > 40 {
                return Out::Rejected; // recursion limit
            }
            let out = if let Some(body) = self.def(&name) {
                match apply(body, &args) {
                    Some(o) => o,
                    None => return Out::Rejected,
                }
            } else if let Some(f) = table(&name) {
                let a: TokenStream = args.iter().cloned().collect();
                match catch(move || f(a)) {
                    Some(o) => list(o),
                    None => return Out::Rejected, // a panicking macro is a compile error
                }
            } else {
                return Out::Rejected;
            };
            if is_error(&out) {
                return Out::Rejected;
            }
            let n = self.defs.len();
            match self.scan(&out) {
                Some((n, a)) => {
                    name = n;
                    args = a;
                }
                None => {
                    if name.contains("world") {
                        // the world's own macros stay defined
                    } else {
                        self.defs.truncate(keep.0);
                        self.aliases.truncate(keep.1);
                    }
                    return Out::Tokens(out.into_iter().collect());
                }
            }
        }
    }
}
fn is_error(ts: &[TokenTree]) -> bool {
    let mut i = 0;
    while i < ts.len() && i < 8 {
        if is_ident(&ts[i], "compile_error") {
            return true;
        }
        i += 1;
    }
    false
}
fn table(n: &str) -> Option<fn(TokenStream) -> TokenStream> {
    crate::PROC_MACROS.iter().find(|f| f.0 == n).map(|f| f.1)
}
pub fn parse(s: &str) -> TokenStream {
    match s.parse() {
        Ok(t) => t,
        Err(_) => panic!("{}", s),
    }
}
/// All tokens in order, groups opened.
pub fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() != Delimiter::None {
                    out.push(a.to_string());
                }
                flat(g.stream(), out);
                if g.delimiter() != Delimiter::None {
                    out.push(b.to_string());
                }
            }
            TokenTree::Ident(i) => out.push(i.to_string()),
            TokenTree::Punct(p) => {
                let mut b = [0; 4];
                out.push(p.as_char().encode_utf8(&mut b).to_string());
            }
            TokenTree::Literal(l) => out.push(l.to_string()),
        }
    }
}
