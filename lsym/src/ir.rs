//! Parser for textual LLVM IR (the subset rustc emits) and decoding into a compact register form.
//! First-class aggregates are flattened: every register holds one scalar (iN or ptr).
use crate::term::{Arena, FxMap};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Unsupported(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    C(u64),
    T(u32),
}

#[derive(Clone, Copy, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
pub const NUW: u8 = 1;
pub const NSW: u8 = 2;
pub const EXACT: u8 = 4;

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(O),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bin, w: u32, d: u32, a: O, b: O, fl: u8 },
    ICmp { p: Pred, w: u32, d: u32, a: O, b: O },
    Select { d: u32, c: O, ab: Box<[(O, O, u32)]> },
    ZExt { d: u32, a: O, from: u32, to: u32 },
    SExt { d: u32, a: O, from: u32, to: u32 },
    Trunc { d: u32, a: O, from: u32, to: u32 },
    Load { d: u32, p: O, leaves: Box<[(u64, u32)]>, align: u64 },
    Store { p: O, leaves: Box<[(u64, u32, O)]>, align: u64 },
    Gep { d: u32, p: O, off: i64, idx: Box<[(O, u32, i64)]>, inb: bool },
    Alloca { d: u32, size: u64, align: u64 },
    Mov { ms: Box<[(u32, O)]> },
    Call { f: Callee, args: Box<[O]>, d: u32, nret: u32, retw: Box<[u32]>, inv: Option<(u32, u32)> },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { v: O, w: u32, def: u32, cases: Box<[(u64, u32)]> },
    Ret(Box<[O]>),
    Unreachable,
    LandingPad { d: u32 },
    Resume(O, O),
    CmpXchg { d: u32, p: O, old: O, new: O, w: u32 },
    AtomicRmw { d: u32, op: u8, p: O, v: O, w: u32 },
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, FxMap<u32, Vec<O>>)>, // base reg, pred -> operands
    pub ins: Vec<I>,
}
pub struct Func {
    pub name: String,
    pub params: Vec<(u32, u32)>, // flattened (reg, width)
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub noreturn: bool,
    pub nounwind: bool,
    pub nret: u32,
    pub retw: Vec<u32>,
    body: Option<(usize, usize)>,
    head: String,
}
pub struct Global {
    pub name: String,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub external: bool,
    pub init: Vec<(u64, Init)>,
    pub addr: u64,
}
pub enum Init {
    Bytes(Vec<u8>),
    Val(u32, u64),
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    types: HashMap<String, Ty>,
    attrs: HashMap<u32, String>,
    lines: Vec<String>,
}
pub const FUNC_BASE: u64 = 0x1_0000_0000;
pub const GLOB_BASE: u64 = 0x100_0000_0000;

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
enum Tk {
    W(String),
    L(String),
    G(String),
    N(String),
    S(Vec<u8>),
    C(Vec<u8>),
    P(char),
    A(u32),
    M,
}
fn unq(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1] != b'\\' {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
fn lex(s: &str) -> Vec<Tk> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8(unq(&b[i + 2..j])).unwrap();
                    i = j + 1;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && isw(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tk::L(name) } else { Tk::G(name) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tk::C(unq(&b[i + 2..j])));
                i = j + 1;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tk::S(unq(&b[i + 1..j])));
                i = j + 1;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                out.push(Tk::A(s[i + 1..j].parse().unwrap_or(0)));
                i = j;
            }
            b'!' => {
                out.push(Tk::M);
                i += 1;
                while i < b.len() && isw(b[i]) {
                    i += 1;
                }
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && isw(b[j]) {
                    j += 1;
                }
                out.push(Tk::N(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && isw(b[j]) {
                    j += 1;
                }
                out.push(Tk::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tk::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub fn size_align(t: &Ty) -> (u64, u64) {
    match t {
        Ty::Int(w) => match w {
            0..=8 => (1, 1),
            9..=16 => (2, 2),
            17..=32 => (4, 4),
            33..=64 => (8, 8),
            _ => (16, 16),
        },
        Ty::Ptr => (8, 8),
        Ty::Void => (0, 1),
        Ty::Arr(n, t) => {
            let (s, a) = size_align(t);
            (s * n, a)
        }
        Ty::Struct(f, packed) => {
            let (mut o, mut ma) = (0u64, 1u64);
            for t in f.iter() {
                let (s, a) = size_align(t);
                let a = if *packed { 1 } else { a };
                o = (o + a - 1) / a * a + s;
                ma = ma.max(a);
            }
            ((o + ma - 1) / ma * ma, ma)
        }
        Ty::Unsupported(_) => (0, 1),
    }
}
pub fn leaves(t: &Ty, base: u64, out: &mut Vec<(u64, u32)>) {
    match t {
        Ty::Int(w) => out.push((base, *w)),
        Ty::Ptr => out.push((base, 64)),
        Ty::Void => {}
        Ty::Arr(n, t) => {
            let s = size_align(t).0;
            for i in 0..*n {
                leaves(t, base + i * s, out);
            }
        }
        Ty::Struct(f, packed) => {
            let mut o = 0;
            for t in f.iter() {
                let (s, a) = size_align(t);
                let a = if *packed { 1 } else { a };
                o = (o + a - 1) / a * a;
                leaves(t, base + o, out);
                o += s;
            }
        }
        Ty::Unsupported(_) => {}
    }
}
fn lv(t: &Ty) -> Vec<(u64, u32)> {
    let mut v = vec![];
    leaves(t, 0, &mut v);
    v
}
fn has_unsup(t: &Ty) -> bool {
    match t {
        Ty::Unsupported(_) => true,
        Ty::Arr(_, t) => has_unsup(t),
        Ty::Struct(f, _) => f.iter().any(has_unsup),
        _ => false,
    }
}
fn field(t: &Ty, i: u64) -> (u64, Ty, usize) {
    // (byte offset, type, index of its first leaf)
    match t {
        Ty::Arr(_, e) => (size_align(e).0 * i, (**e).clone(), lv(e).len() * i as usize),
        Ty::Struct(f, packed) => {
            let (mut o, mut l) = (0, 0);
            for (k, t) in f.iter().enumerate() {
                let (s, a) = size_align(t);
                let a = if *packed { 1 } else { a };
                o = (o + a - 1) / a * a;
                if k as u64 == i {
                    return (o, t.clone(), l);
                }
                o += s;
                l += lv(t).len();
            }
            panic!("field index")
        }
        _ => panic!("field of scalar"),
    }
}

type R<X> = Result<X, String>;

struct P<'a> {
    t: &'a [Tk],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tk> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tk> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end of line")?;
        self.i += 1;
        Ok(t)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tk::W(x)) if x == w)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tk::P(x)) if *x == c)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        let r = self.is_w(w);
        if r {
            self.i += 1
        }
        r
    }
    fn eat_p(&mut self, c: char) -> bool {
        let r = self.is_p(c);
        if r {
            self.i += 1
        }
        r
    }
    fn expect_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected '{c}' got {:?}", self.peek()))
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            Tk::N(n) => n.parse::<u64>().map_err(|e| format!("{n}: {e}")),
            t => Err(format!("expected number got {t:?}")),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        if self.eat_p('(') {
            let mut d = 1;
            while d > 0 {
                match self.next()? {
                    Tk::P('(') => d += 1,
                    Tk::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
        Ok(())
    }
}

impl Module {
    pub fn parse(text: &str, ar: &mut Arena) -> R<Module> {
        let mut m = Module {
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            types: HashMap::new(),
            attrs: HashMap::new(),
            lines: vec![],
        };
        let lines: Vec<&str> = text.lines().collect();
        let mut tdefs: Vec<(String, String)> = vec![];
        let mut gl: Vec<String> = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let def = l.starts_with("define ");
                let mut body = None;
                if def {
                    let st = i + 1;
                    let mut j = st;
                    while lines[j] != "}" {
                        j += 1;
                    }
                    // join multi-line instructions
                    let a = m.lines.len();
                    let mut k = st;
                    while k < j {
                        let mut s = lines[k].to_string();
                        let t = s.trim_start();
                        if t.starts_with("switch ") && !t.contains(']') {
                            while !lines[k].contains(']') {
                                k += 1;
                                s.push(' ');
                                s.push_str(lines[k].trim());
                            }
                        } else if (t.starts_with("invoke ") || t.contains(" = invoke ")) && k + 1 < j {
                            k += 1;
                            s.push(' ');
                            s.push_str(lines[k].trim());
                        } else if t.contains(" = landingpad ") {
                            while k + 1 < j && {
                                let n = lines[k + 1].trim_start();
                                n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter")
                            } {
                                k += 1;
                                s.push(' ');
                                s.push_str(lines[k].trim());
                            }
                        }
                        if !s.trim().is_empty() {
                            m.lines.push(s);
                        }
                        k += 1;
                    }
                    body = Some((a, m.lines.len()));
                    i = j;
                }
                let p = l.find('@').ok_or("function without name")?;
                let tk = lex(&l[p..]);
                let name = match &tk[0] {
                    Tk::G(n) => n.clone(),
                    _ => return Err("function name".into()),
                };
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(Func { name, params: vec![], nregs: 0, blocks: vec![], defined: def, noreturn: false, nounwind: false, nret: 0, retw: vec![], body, head: l.to_string() });
            } else if l.starts_with('%') && l.contains(" = type ") {
                let p = l.find(" = type ").unwrap();
                if let Tk::L(n) = &lex(&l[..p])[0] {
                    tdefs.push((n.clone(), l[p + 8..].to_string()));
                }
            } else if l.starts_with('@') {
                gl.push(l.to_string());
            } else if l.starts_with("attributes #") {
                let tk = lex(l);
                if let Tk::A(n) = tk[1] {
                    m.attrs.insert(n, l.to_string());
                }
            }
            i += 1;
        }
        // named types may refer to each other in any order
        let mut pending = tdefs;
        let mut progress = true;
        while !pending.is_empty() && progress {
            progress = false;
            let mut rest = vec![];
            for (n, s) in pending {
                let tk = lex(&s);
                let mut p = P { t: &tk, i: 0 };
                match m.ty(&mut p) {
                    Ok(t) => {
                        m.types.insert(n, t);
                        progress = true;
                    }
                    Err(_) => rest.push((n, s)),
                }
            }
            pending = rest;
        }
        for (n, s) in pending {
            m.types.insert(n, Ty::Unsupported(s));
        }
        // globals: addresses first, then initialisers
        let mut addr = GLOB_BASE;
        let mut parsed = vec![];
        for l in &gl {
            let tk = lex(l);
            let name = match &tk[0] {
                Tk::G(n) => n.clone(),
                _ => continue,
            };
            let mut p = P { t: &tk, i: 2 };
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            loop {
                match p.peek() {
                    Some(Tk::W(w)) if w == "constant" => {
                        constant = true;
                        p.i += 1;
                        break;
                    }
                    Some(Tk::W(w)) if w == "global" => {
                        p.i += 1;
                        break;
                    }
                    Some(Tk::W(w)) if w == "alias" => {
                        alias = true;
                        p.i += 1;
                        break;
                    }
                    Some(Tk::W(w)) if w == "external" || w == "extern_weak" => {
                        external = true;
                        p.i += 1;
                    }
                    Some(Tk::W(_)) => {
                        p.i += 1;
                        p.skip_parens()?;
                    }
                    _ => break,
                }
            }
            if alias {
                // @a = ... alias ty, ptr @target
                let mut target = None;
                for t in &tk[p.i..] {
                    if let Tk::G(n) = t {
                        target = Some(n.clone());
                    }
                }
                if let Some(t) = target {
                    if let Some(f) = m.fidx.get(&t).copied() {
                        m.fidx.insert(name, f);
                    }
                }
                continue;
            }
            let t = m.ty(&mut p)?;
            let (size, ta) = size_align(&t);
            let mut align = ta;
            for k in p.i..tk.len() {
                if tk[k] == Tk::W("align".into()) {
                    if let Some(Tk::N(n)) = tk.get(k + 1) {
                        align = n.parse().unwrap_or(ta);
                    }
                }
            }
            addr = place(addr, align);
            let id = m.globals.len() as u32;
            m.gidx.insert(name.clone(), id);
            m.globals.push(Global { name, size, align, constant, external, init: vec![], addr });
            addr += size + 4096;
            let pi = p.i;
            parsed.push((id, tk, pi, t));
        }
        for (id, tk, pi, t) in parsed {
            if m.globals[id as usize].external {
                continue;
            }
            let mut p = P { t: &tk, i: pi };
            let mut init = vec![];
            m.init(&mut p, &t, 0, &mut init, ar)?;
            m.globals[id as usize].init = init;
        }
        // function headers
        for f in 0..m.funcs.len() {
            let h = m.funcs[f].head.clone();
            let p = h.find('@').unwrap();
            let tk0 = lex(&h[..p]);
            // return type: last parseable type in the prefix
            let mut p0 = P { t: &tk0, i: 1 };
            let mut rt = Ty::Void;
            while p0.peek().is_some() {
                let sv = p0.i;
                match m.ty(&mut p0) {
                    Ok(t) => rt = t,
                    Err(_) => {
                        p0.i = sv + 1;
                        let _ = p0.skip_parens();
                        if let Some(Tk::N(_)) = p0.peek() {
                            p0.i += 1;
                        }
                    }
                }
            }
            let tk = lex(&h[p..]);
            let fun = &mut m.funcs[f];
            fun.retw = lv(&rt).iter().map(|x| x.1).collect();
            fun.nret = fun.retw.len() as u32;
            let mut d = 0;
            let mut after = false;
            for t in &tk {
                match t {
                    Tk::P('(') => d += 1,
                    Tk::P(')') => {
                        d -= 1;
                        if d == 0 {
                            after = true;
                        }
                    }
                    Tk::A(n) if after => {
                        if let Some(a) = m.attrs.get(n) {
                            let ws: Vec<&str> = a.split_whitespace().collect();
                            fun.noreturn |= ws.contains(&"noreturn");
                            fun.nounwind |= ws.contains(&"nounwind");
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(m)
    }

    fn ty(&self, p: &mut P) -> R<Ty> {
        let t = match p.next()? {
            Tk::W(w) => {
                if w == "ptr" {
                    if p.eat_w("addrspace") {
                        p.skip_parens()?;
                    }
                    Ty::Ptr
                } else if w == "void" {
                    Ty::Void
                } else if w == "float" {
                    Ty::Int(32)
                } else if w == "double" {
                    Ty::Int(64)
                } else if w == "half" {
                    Ty::Int(16)
                } else if let Some(n) = w.strip_prefix('i').and_then(|n| n.parse::<u32>().ok()) {
                    if n > 128 {
                        return Ok(Ty::Unsupported(w));
                    }
                    Ty::Int(n)
                } else if w == "metadata" || w == "token" || w == "fp128" || w == "x86_fp80" {
                    Ty::Unsupported(w)
                } else {
                    return Err(format!("type {w}"));
                }
            }
            Tk::L(n) => self.types.get(&n).cloned().ok_or(format!("unknown type %{n}"))?,
            Tk::P('[') => {
                let n = p.num()?;
                if !p.eat_w("x") {
                    return Err("array type".into());
                }
                let t = self.ty(p)?;
                p.expect_p(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tk::P('{') => {
                let mut v = vec![];
                while !p.eat_p('}') {
                    v.push(self.ty(p)?);
                    p.eat_p(',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            Tk::P('<') => {
                if p.eat_p('{') {
                    let mut v = vec![];
                    while !p.eat_p('}') {
                        v.push(self.ty(p)?);
                        p.eat_p(',');
                    }
                    p.expect_p('>')?;
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let _ = p.num()?;
                    p.eat_w("x");
                    let _ = self.ty(p)?;
                    p.expect_p('>')?;
                    Ty::Unsupported("vector".into())
                }
            }
            t => return Err(format!("type token {t:?}")),
        };
        Ok(t)
    }

    pub fn func_addr(id: u32) -> u64 {
        FUNC_BASE + (id as u64 + 1) * 16
    }
    fn global_addr(&self, n: &str) -> R<u64> {
        if let Some(f) = self.fidx.get(n) {
            return Ok(Self::func_addr(*f));
        }
        if let Some(g) = self.gidx.get(n) {
            return Ok(self.globals[*g as usize].addr);
        }
        Err(format!("unknown global @{n}"))
    }

    fn init(&self, p: &mut P, t: &Ty, off: u64, out: &mut Vec<(u64, Init)>, ar: &mut Arena) -> R<()> {
        match p.peek() {
            Some(Tk::C(b)) => {
                out.push((off, Init::Bytes(b.clone())));
                p.i += 1;
                return Ok(());
            }
            Some(Tk::W(w)) if w == "zeroinitializer" => {
                out.push((off, Init::Bytes(vec![0; size_align(t).0 as usize])));
                p.i += 1;
                return Ok(());
            }
            Some(Tk::W(w)) if w == "undef" || w == "poison" => {
                p.i += 1;
                return Ok(());
            }
            _ => {}
        }
        match t {
            Ty::Arr(n, e) => {
                p.expect_p('[')?;
                for k in 0..*n {
                    let et = self.ty(p)?;
                    self.init(p, &et, off + k * size_align(e).0, out, ar)?;
                    p.eat_p(',');
                }
                p.expect_p(']')
            }
            Ty::Struct(f, packed) => {
                if *packed {
                    p.expect_p('<')?;
                }
                p.expect_p('{')?;
                for k in 0..f.len() {
                    let et = self.ty(p)?;
                    let (o, _, _) = field(t, k as u64);
                    self.init(p, &et, off + o, out, ar)?;
                    p.eat_p(',');
                }
                p.expect_p('}')?;
                if *packed {
                    p.expect_p('>')?;
                }
                Ok(())
            }
            _ => {
                let v = self.konst(p, t, ar)?;
                if v.len() != 1 {
                    return Err("global initialiser".into());
                }
                match v[0] {
                    V::C(x) => out.push((off, Init::Val(size_align(t).0 as u32, x))),
                    V::T(x) => {
                        if let Some(k) = ar.as_const(x) {
                            out.push((off, Init::Bytes(k.to_le_bytes()[..size_align(t).0 as usize].to_vec())))
                        }
                    }
                }
                Ok(())
            }
        }
    }

    fn undef(ar: &mut Arena, w: u32) -> V {
        V::T(ar.var(&format!("undef!{w}"), w, true))
    }

    /// Parse a constant of type t into its flattened scalars.
    fn konst(&self, p: &mut P, t: &Ty, ar: &mut Arena) -> R<Vec<V>> {
        let ls = lv(t);
        match p.next()? {
            Tk::N(n) => {
                let w = ls[0].1;
                if n.starts_with("0x") {
                    return Ok(vec![V::C(u64::from_str_radix(&n[2..], 16).map_err(|e| e.to_string())?)]);
                }
                if n.contains('.') || n.contains('e') {
                    // floating constant: only used opaquely
                    let f: f64 = n.parse().map_err(|_| format!("number {n}"))?;
                    return Ok(vec![V::C(if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() })]);
                }
                let v: i128 = if let Ok(v) = n.parse::<i128>() { v } else { n.parse::<u128>().map_err(|e| format!("{n}: {e}"))? as i128 };
                if w <= 64 {
                    Ok(vec![V::C((v as u128 & crate::term::mask(w)) as u64)])
                } else {
                    Ok(vec![V::T(ar.konst(v as u128, w))])
                }
            }
            Tk::W(w) => match w.as_str() {
                "true" => Ok(vec![V::C(1)]),
                "false" | "null" => Ok(vec![V::C(0)]),
                "undef" | "poison" => Ok(ls.iter().map(|x| Self::undef(ar, x.1)).collect()),
                "zeroinitializer" => Ok(ls.iter().map(|x| if x.1 > 64 { V::T(ar.konst(0, x.1)) } else { V::C(0) }).collect()),
                "getelementptr" => {
                    while let Some(Tk::W(w)) = p.peek() {
                        if ["inbounds", "nuw", "nusw"].contains(&w.as_str()) {
                            p.i += 1;
                        } else {
                            break;
                        }
                    }
                    p.expect_p('(')?;
                    let st = self.ty(p)?;
                    p.expect_p(',')?;
                    let pt = self.ty(p)?;
                    let b = self.konst(p, &pt, ar)?;
                    let mut cur = st.clone();
                    let mut first = true;
                    let mut o = 0i64;
                    while p.eat_p(',') {
                        let it = self.ty(p)?;
                        let v = self.konst(p, &it, ar)?;
                        let w = lv(&it)[0].1;
                        let k = match v[0] {
                            V::C(k) => crate::term::sext(k as u128, w) as i64,
                            _ => return Err("symbolic constant gep".into()),
                        };
                        if first {
                            o += k * size_align(&cur).0 as i64;
                            first = false;
                        } else {
                            let (fo, ft, _) = field(&cur, k as u64);
                            o += fo as i64;
                            cur = ft;
                        }
                    }
                    p.expect_p(')')?;
                    match b[0] {
                        V::C(x) => Ok(vec![V::C(x.wrapping_add(o as u64))]),
                        _ => Err("gep base".into()),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" => {
                    p.expect_p('(')?;
                    let ft = self.ty(p)?;
                    let v = self.konst(p, &ft, ar)?;
                    if !p.eat_w("to") {
                        return Err("cast".into());
                    }
                    let tt = self.ty(p)?;
                    p.expect_p(')')?;
                    let w = lv(&tt)[0].1;
                    match v[0] {
                        V::C(x) => Ok(vec![V::C((x as u128 & crate::term::mask(w)) as u64)]),
                        x => Ok(vec![x]),
                    }
                }
                "add" | "sub" => {
                    while let Some(Tk::W(_)) = p.peek() {
                        p.i += 1;
                    }
                    p.expect_p('(')?;
                    let a = self.ty(p)?;
                    let x = self.konst(p, &a, ar)?;
                    p.expect_p(',')?;
                    let b = self.ty(p)?;
                    let y = self.konst(p, &b, ar)?;
                    p.expect_p(')')?;
                    match (x[0], y[0]) {
                        (V::C(x), V::C(y)) => Ok(vec![V::C(if w == "add" { x.wrapping_add(y) } else { x.wrapping_sub(y) })]),
                        _ => Err("constant expression".into()),
                    }
                }
                _ => Err(format!("constant {w}")),
            },
            Tk::G(n) => Ok(vec![V::C(self.global_addr(&n)?)]),
            Tk::P('{') | Tk::P('[') => {
                let mut v = vec![];
                while !(p.eat_p('}') || p.eat_p(']')) {
                    let et = self.ty(p)?;
                    v.extend(self.konst(p, &et, ar)?);
                    p.eat_p(',');
                }
                Ok(v)
            }
            Tk::P('<') => {
                p.expect_p('{')?;
                let mut v = vec![];
                while !p.eat_p('}') {
                    let et = self.ty(p)?;
                    v.extend(self.konst(p, &et, ar)?);
                    p.eat_p(',');
                }
                p.expect_p('>')?;
                Ok(v)
            }
            Tk::C(b) => Ok(b.iter().map(|x| V::C(*x as u64)).collect()),
            t => Err(format!("constant token {t:?}")),
        }
    }

    /// Decode a function body on first use.
    pub fn decode(&mut self, f: u32, ar: &mut Arena) -> R<()> {
        let fi = f as usize;
        if !self.funcs[fi].blocks.is_empty() || !self.funcs[fi].defined {
            return Ok(());
        }
        let (a, b) = self.funcs[fi].body.unwrap();
        let mut cx = Cx { regs: HashMap::new(), n: 0, labels: HashMap::new() };
        // parameters
        let head = self.funcs[fi].head.clone();
        let pos = head.find('@').unwrap();
        let tk = lex(&head[pos..]);
        let mut p = P { t: &tk, i: 1 };
        p.expect_p('(')?;
        let mut params = vec![];
        while !p.eat_p(')') {
            if p.eat_p('.') {
                continue;
            }
            let t = self.ty(&mut p)?;
            skip_attrs(&mut p)?;
            if has_unsup(&t) {
                return Err(format!("unsupported parameter type in {}", self.funcs[fi].name));
            }
            if let Tk::L(n) = p.next()? {
                let ls = lv(&t);
                let r = cx.reg(&n, ls.len());
                for (k, l) in ls.iter().enumerate() {
                    params.push((r + k as u32, l.1));
                }
            } else {
                return Err("parameter name".into());
            }
            p.eat_p(',');
        }
        // labels
        let mut blocks: Vec<Block> = vec![];
        let mut starts = vec![];
        for li in a..b {
            let l = &self.lines[li];
            if !l.starts_with(' ') {
                let name = if l.starts_with('"') {
                    let e = l[1..].find('"').unwrap();
                    String::from_utf8(unq(l[1..1 + e].as_bytes())).unwrap()
                } else {
                    l[..l.find(':').ok_or("label")?].to_string()
                };
                cx.labels.insert(name.clone(), blocks.len() as u32);
                blocks.push(Block { name, phis: vec![], ins: vec![] });
                starts.push(li + 1);
            } else if blocks.is_empty() {
                cx.labels.insert("".into(), 0);
                blocks.push(Block { name: "entry".into(), phis: vec![], ins: vec![] });
                starts.push(li);
            }
        }
        for bi in 0..blocks.len() {
            let e = if bi + 1 < starts.len() { starts[bi + 1] - 1 } else { b };
            for li in starts[bi]..e {
                let line = self.lines[li].clone();
                let tk = lex(&line);
                let mut p = P { t: &tk, i: 0 };
                match self.inst(&mut p, &mut cx, &mut blocks[bi], ar) {
                    Ok(()) => {}
                    Err(er) => blocks[bi].ins.push(I::Unsupported(format!("{er}: {}", line.trim()))),
                }
            }
        }
        let fun = &mut self.funcs[fi];
        fun.params = params;
        fun.nregs = cx.n;
        fun.blocks = blocks;
        Ok(())
    }

    fn val(&self, p: &mut P, t: &Ty, cx: &mut Cx, ar: &mut Arena) -> R<Vec<O>> {
        if has_unsup(t) {
            return Err("unsupported type".into());
        }
        if let Some(Tk::L(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            let k = lv(t).len();
            let r = cx.reg(&n, k);
            return Ok((0..k as u32).map(|x| O::R(r + x)).collect());
        }
        Ok(self.konst(p, t, ar)?.into_iter().map(O::K).collect())
    }
    fn tv(&self, p: &mut P, cx: &mut Cx, ar: &mut Arena) -> R<(Ty, Vec<O>)> {
        let t = self.ty(p)?;
        let v = self.val(p, &t, cx, ar)?;
        Ok((t, v))
    }
    fn label(&self, p: &mut P, cx: &Cx) -> R<u32> {
        if !p.eat_w("label") {
            return Err("label".into());
        }
        match p.next()? {
            Tk::L(n) => cx.labels.get(&n).copied().ok_or(format!("label {n}")),
            _ => Err("label".into()),
        }
    }

    fn inst(&self, p: &mut P, cx: &mut Cx, blk: &mut Block, ar: &mut Arena) -> R<()> {
        let mut dst: Option<String> = None;
        if let Some(Tk::L(n)) = p.peek() {
            dst = Some(n.clone());
            p.i += 1;
            p.expect_p('=')?;
        }
        let op = match p.next()? {
            Tk::W(w) => w,
            Tk::A(_) => {
                return Ok(()); // #dbg records
            }
            t => return Err(format!("instruction {t:?}")),
        };
        let dn = |cx: &mut Cx, k: usize| -> u32 {
            match &dst {
                Some(n) => cx.reg(n, k),
                None => 0,
            }
        };
        let bin = |s: &str| -> Option<Bin> {
            Some(match s {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                _ => return None,
            })
        };
        if let Some(b) = bin(&op) {
            let mut fl = 0;
            while let Some(Tk::W(w)) = p.peek() {
                match w.as_str() {
                    "nuw" => fl |= NUW,
                    "nsw" => fl |= NSW,
                    "exact" => fl |= EXACT,
                    "disjoint" => {}
                    _ => break,
                }
                p.i += 1;
            }
            let t = self.ty(p)?;
            let w = match t {
                Ty::Int(w) => w,
                _ => return Err("non-integer arithmetic".into()),
            };
            let a = self.val(p, &t, cx, ar)?[0];
            p.expect_p(',')?;
            let c = self.val(p, &t, cx, ar)?[0];
            let d = dn(cx, 1);
            blk.ins.push(I::Bin { op: b, w, d, a, b: c, fl });
            return Ok(());
        }
        match op.as_str() {
            "icmp" => {
                p.eat_w("samesign");
                let pr = match p.next()? {
                    Tk::W(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => return Err("icmp".into()),
                    },
                    _ => return Err("icmp".into()),
                };
                let t = self.ty(p)?;
                let w = match t {
                    Ty::Int(w) => w,
                    Ty::Ptr => 64,
                    _ => return Err("icmp type".into()),
                };
                let a = self.val(p, &t, cx, ar)?[0];
                p.expect_p(',')?;
                let b = self.val(p, &t, cx, ar)?[0];
                let d = dn(cx, 1);
                blk.ins.push(I::ICmp { p: pr, w, d, a, b });
            }
            "select" => {
                let (_, c) = self.tv(p, cx, ar)?;
                p.expect_p(',')?;
                let (t, a) = self.tv(p, cx, ar)?;
                p.expect_p(',')?;
                let (_, b) = self.tv(p, cx, ar)?;
                let ls = lv(&t);
                let d = dn(cx, ls.len());
                let ab: Vec<_> = (0..ls.len()).map(|k| (a[k], b[k], ls[k].1)).collect();
                blk.ins.push(I::Select { d, c: c[0], ab: ab.into() });
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "freeze" | "addrspacecast" => {
                while let Some(Tk::W(w)) = p.peek() {
                    if ["nneg", "nuw", "nsw"].contains(&w.as_str()) {
                        p.i += 1;
                    } else {
                        break;
                    }
                }
                let (ft, a) = self.tv(p, cx, ar)?;
                if op == "freeze" {
                    let d = dn(cx, a.len());
                    blk.ins.push(I::Mov { ms: a.iter().enumerate().map(|(k, o)| (d + k as u32, *o)).collect() });
                    return Ok(());
                }
                if !p.eat_w("to") {
                    return Err("cast".into());
                }
                let tt = self.ty(p)?;
                if has_unsup(&tt) {
                    return Err("unsupported cast type".into());
                }
                let (from, to) = (lv(&ft)[0].1, lv(&tt)[0].1);
                let d = dn(cx, 1);
                blk.ins.push(if from == to {
                    I::Mov { ms: vec![(d, a[0])].into() }
                } else if op == "sext" {
                    I::SExt { d, a: a[0], from, to }
                } else if from < to {
                    I::ZExt { d, a: a[0], from, to }
                } else {
                    I::Trunc { d, a: a[0], from, to }
                });
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = self.ty(p)?;
                let (mut size, mut align) = size_align(&t);
                if has_unsup(&t) {
                    return Err("unsupported alloca type".into());
                }
                while p.eat_p(',') {
                    if p.eat_w("align") {
                        align = p.num()?;
                    } else {
                        let it = self.ty(p)?;
                        match self.konst(p, &it, ar)?[0] {
                            V::C(k) => size *= k,
                            _ => return Err("dynamic alloca".into()),
                        }
                    }
                }
                let d = dn(cx, 1);
                blk.ins.push(I::Alloca { d, size, align });
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let t = self.ty(p)?;
                if has_unsup(&t) {
                    return Err("unsupported load type".into());
                }
                p.expect_p(',')?;
                let (_, q) = self.tv(p, cx, ar)?;
                let ls = lv(&t);
                let align = find_align(p).unwrap_or(size_align(&t).1);
                let d = dn(cx, ls.len());
                blk.ins.push(I::Load { d, p: q[0], leaves: ls.into(), align });
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let (t, v) = self.tv(p, cx, ar)?;
                p.expect_p(',')?;
                let (_, q) = self.tv(p, cx, ar)?;
                let align = find_align(p).unwrap_or(size_align(&t).1);
                let ls: Vec<_> = lv(&t).iter().zip(v).map(|(l, o)| (l.0, l.1, o)).collect();
                blk.ins.push(I::Store { p: q[0], leaves: ls.into(), align });
            }
            "fence" => blk.ins.push(I::Nop),
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let (_, q) = self.tv(p, cx, ar)?;
                p.expect_p(',')?;
                let (t, o) = self.tv(p, cx, ar)?;
                p.expect_p(',')?;
                let (_, n) = self.tv(p, cx, ar)?;
                let d = dn(cx, 2);
                blk.ins.push(I::CmpXchg { d, p: q[0], old: o[0], new: n[0], w: lv(&t)[0].1 });
            }
            "atomicrmw" => {
                p.eat_w("volatile");
                let o = match p.next()? {
                    Tk::W(w) => match w.as_str() {
                        "add" => 0,
                        "sub" => 1,
                        "xchg" => 2,
                        "or" => 3,
                        "and" => 4,
                        _ => return Err(format!("atomicrmw {w}")),
                    },
                    _ => return Err("atomicrmw".into()),
                };
                let (_, q) = self.tv(p, cx, ar)?;
                p.expect_p(',')?;
                let (t, v) = self.tv(p, cx, ar)?;
                let d = dn(cx, 1);
                blk.ins.push(I::AtomicRmw { d, op: o, p: q[0], v: v[0], w: lv(&t)[0].1 });
            }
            "getelementptr" => {
                let mut inb = false;
                while let Some(Tk::W(w)) = p.peek() {
                    match w.as_str() {
                        "inbounds" => inb = true,
                        "nuw" | "nusw" => {}
                        _ => break,
                    }
                    p.i += 1;
                }
                let st = self.ty(p)?;
                p.expect_p(',')?;
                let (_, base) = self.tv(p, cx, ar)?;
                let mut cur = st;
                let mut first = true;
                let mut off = 0i64;
                let mut idx = vec![];
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(Tk::M)) {
                        break;
                    }
                    let (it, v) = self.tv(p, cx, ar)?;
                    let w = lv(&it)[0].1;
                    let (scale, nt) = if first {
                        (size_align(&cur).0 as i64, cur.clone())
                    } else {
                        match &cur {
                            Ty::Arr(_, e) => (size_align(e).0 as i64, (**e).clone()),
                            Ty::Struct(..) => {
                                let k = match v[0] {
                                    O::K(V::C(k)) => k,
                                    _ => return Err("struct gep".into()),
                                };
                                let (fo, ft, _) = field(&cur, k);
                                off += fo as i64;
                                cur = ft;
                                continue;
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    };
                    match v[0] {
                        O::K(V::C(k)) => off += crate::term::sext(k as u128, w) as i64 * scale,
                        o => idx.push((o, w, scale)),
                    }
                    cur = nt;
                    first = false;
                }
                let d = dn(cx, 1);
                blk.ins.push(I::Gep { d, p: base[0], off, idx: idx.into(), inb });
            }
            "extractvalue" => {
                let (mut t, v) = self.tv(p, cx, ar)?;
                let mut l = 0;
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(Tk::M)) {
                        break;
                    }
                    let k = p.num()?;
                    let (_, ft, fl) = field(&t, k);
                    l += fl;
                    t = ft;
                }
                let n = lv(&t).len();
                let d = dn(cx, n);
                blk.ins.push(I::Mov { ms: (0..n).map(|k| (d + k as u32, v[l + k])).collect() });
            }
            "insertvalue" => {
                let (t, v) = self.tv(p, cx, ar)?;
                p.expect_p(',')?;
                let (_, e) = self.tv(p, cx, ar)?;
                let mut l = 0;
                let mut cur = t.clone();
                while p.eat_p(',') {
                    if matches!(p.peek(), Some(Tk::M)) {
                        break;
                    }
                    let k = p.num()?;
                    let (_, ft, fl) = field(&cur, k);
                    l += fl;
                    cur = ft;
                }
                let n = v.len();
                let d = dn(cx, n);
                blk.ins.push(I::Mov { ms: (0..n).map(|k| (d + k as u32, if k >= l && k < l + e.len() { e[k - l] } else { v[k] })).collect() });
            }
            "phi" => {
                let t = self.ty(p)?;
                let n = lv(&t).len();
                let d = dn(cx, n);
                let mut map: FxMap<u32, Vec<O>> = Default::default();
                loop {
                    p.expect_p('[')?;
                    let v = self.val(p, &t, cx, ar)?;
                    p.expect_p(',')?;
                    let l = match p.next()? {
                        Tk::L(n) => *cx.labels.get(&n).or(cx.labels.get("")).ok_or(format!("label {n}"))?,
                        _ => return Err("phi".into()),
                    };
                    p.expect_p(']')?;
                    map.insert(l, v);
                    if !p.eat_p(',') || matches!(p.peek(), Some(Tk::M)) {
                        break;
                    }
                }
                blk.phis.push((d, map));
            }
            "br" => {
                if p.is_w("label") {
                    let l = self.label(p, cx)?;
                    blk.ins.push(I::Br(l));
                } else {
                    let (_, c) = self.tv(p, cx, ar)?;
                    p.expect_p(',')?;
                    let a = self.label(p, cx)?;
                    p.expect_p(',')?;
                    let b = self.label(p, cx)?;
                    blk.ins.push(I::CondBr(c[0], a, b));
                }
            }
            "switch" => {
                let (t, v) = self.tv(p, cx, ar)?;
                let w = lv(&t)[0].1;
                p.expect_p(',')?;
                let def = self.label(p, cx)?;
                p.expect_p('[')?;
                let mut cases = vec![];
                while !p.eat_p(']') {
                    let (_, k) = self.tv(p, cx, ar)?;
                    p.expect_p(',')?;
                    let l = self.label(p, cx)?;
                    match k[0] {
                        O::K(V::C(k)) => cases.push((k, l)),
                        _ => return Err("wide switch".into()),
                    }
                }
                blk.ins.push(I::Switch { v: v[0], w, def, cases: cases.into() });
            }
            "ret" => {
                let t = self.ty(p)?;
                let v = if t == Ty::Void { vec![] } else { self.val(p, &t, cx, ar)? };
                blk.ins.push(I::Ret(v.into()));
            }
            "unreachable" => blk.ins.push(I::Unreachable),
            "landingpad" => {
                let d = dn(cx, 2);
                blk.ins.push(I::LandingPad { d });
            }
            "resume" => {
                let (_, v) = self.tv(p, cx, ar)?;
                blk.ins.push(I::Resume(v[0], v[1]));
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                if op.ends_with("tail") {
                    if !p.eat_w("call") {
                        return Err("tail call".into());
                    }
                }
                // calling convention / fast-math / return attributes
                let mut rt = None;
                while rt.is_none() {
                    let sv = p.i;
                    match self.ty(p) {
                        Ok(t) => rt = Some(t),
                        Err(_) => {
                            p.i = sv + 1;
                            p.skip_parens()?;
                            if let Some(Tk::N(_)) = p.peek() {
                                p.i += 1; // align N
                            }
                        }
                    }
                }
                let rt = rt.unwrap();
                if p.is_p('(') {
                    // function type (varargs)
                    p.skip_parens()?;
                }
                let callee = match p.next()? {
                    Tk::G(n) => match self.fidx.get(&n) {
                        Some(f) => Callee::Func(*f),
                        None => return Err(format!("unknown function @{n}")),
                    },
                    Tk::L(n) => Callee::Ind(O::R(cx.reg(&n, 1))),
                    Tk::W(w) if w == "asm" => return Err("inline assembly".into()),
                    t => return Err(format!("callee {t:?}")),
                };
                if let Callee::Func(f) = callee {
                    let n = &self.funcs[f as usize].name;
                    if n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") {
                        blk.ins.push(I::Nop);
                        return Ok(());
                    }
                }
                p.expect_p('(')?;
                let mut args = vec![];
                while !p.eat_p(')') {
                    let t = self.ty(p)?;
                    if has_unsup(&t) {
                        return Err("unsupported argument type".into());
                    }
                    skip_attrs(p)?;
                    args.extend(self.val(p, &t, cx, ar)?);
                    p.eat_p(',');
                }
                if has_unsup(&rt) {
                    return Err("unsupported return type".into());
                }
                let ls = lv(&rt);
                let d = dn(cx, ls.len());
                let mut inv = None;
                if op == "invoke" {
                    while !p.is_w("to") {
                        p.next()?;
                    }
                    p.i += 1;
                    let n = self.label(p, cx)?;
                    if !p.eat_w("unwind") {
                        return Err("invoke".into());
                    }
                    let u = self.label(p, cx)?;
                    inv = Some((n, u));
                }
                blk.ins.push(I::Call { f: callee, args: args.into(), d, nret: ls.len() as u32, retw: ls.iter().map(|x| x.1).collect(), inv });
            }
            _ => return Err(format!("unsupported instruction {op}")),
        }
        Ok(())
    }
}

/// Place the next object so that it is aligned to `align` but to nothing stricter.
pub fn place(addr: u64, align: u64) -> u64 {
    let a = align.max(1);
    let x = (addr + 2 * a - 1) / (2 * a) * (2 * a);
    x + a
}

fn find_align(p: &P) -> Option<u64> {
    for k in p.i..p.t.len() {
        if p.t[k] == Tk::W("align".into()) {
            if let Some(Tk::N(n)) = p.t.get(k + 1) {
                return n.parse().ok();
            }
        }
    }
    None
}
fn skip_attrs(p: &mut P) -> R<()> {
    const CONSTS: [&str; 14] = ["true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "add", "sub", "trunc", "addrspacecast"];
    loop {
        match p.peek() {
            Some(Tk::W(w)) if !CONSTS.contains(&w.as_str()) => {
                let al = w == "align";
                if w == "byval" || w == "inalloca" {
                    return Err("byval argument".into());
                }
                p.i += 1;
                if al {
                    if p.is_p('(') {
                        p.skip_parens()?;
                    } else {
                        p.i += 1;
                    }
                } else {
                    p.skip_parens()?;
                }
            }
            Some(Tk::S(_)) => {
                p.i += 1;
                if p.eat_p('=') {
                    p.i += 1;
                }
            }
            _ => return Ok(()),
        }
    }
}

struct Cx {
    regs: HashMap<String, (u32, usize)>,
    n: u32,
    labels: HashMap<String, u32>,
}
impl Cx {
    fn reg(&mut self, n: &str, k: usize) -> u32 {
        if let Some((r, kk)) = self.regs.get(n) {
            debug_assert_eq!(*kk, k, "register {n} used with another shape");
            return *r;
        }
        let r = self.n;
        self.n += k as u32;
        self.regs.insert(n.to_string(), (r, k));
        r
    }
}
