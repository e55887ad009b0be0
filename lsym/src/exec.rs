//! The symbolic interpreter.
use crate::ir::*;
use crate::term::{mask, sext, Arena, FxMap, Op, T};
use crate::z3;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::ffi::CString;
use std::rc::Rc;
use std::time::{Duration, Instant};

pub const HEAP_BASE: u64 = 0x2000_0000_0000;
pub const STACK_BASE: u64 = 0x4000_0000_0000;
const GAP: u64 = 1 << 20;

// cells: one u64 per byte
const CK: u64 = 3 << 62;
const C_UNINIT: u64 = 1 << 62;
const C_SYM: u64 = 2 << 62; // term << 8 | byte index

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub align: u64,
    pub ro: bool,
    pub data: Vec<u64>,
}

#[derive(Clone)]
struct Frame {
    f: u32,
    bb: u32,
    ip: u32,
    base: u32,
    stack_mark: u32,
    // call site in this frame (for returns): destination register and normal/unwind targets
    ret_d: u32,
    ret_n: u32,
    inv: Option<(u32, u32)>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<V>,
    heap: Vec<(u64, Rc<Obj>)>,
    /// how many of them are freed (size 0, kept until they are many)
    dead: usize,
    stack: Vec<(u64, Rc<Obj>)>,
    globs: BTreeMap<u32, Rc<Obj>>,
    next_heap: u64,
    next_stack: u64,
    pc: Vec<T>,
    model: Rc<Vec<u128>>,
    counters: BTreeMap<Rc<str>, u32>,
    exc: Option<(u64, u64)>,
    pub steps: u64,
    forks: u32,
    notes: Vec<String>,
    no_abort: bool,
    obs: Vec<V>,
    nchecks: u32,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub model: Vec<(String, u128, u32)>,
}

pub enum End {
    Done,
    Killed,
    Aborted(String),
    Violation(Violation),
    Error(String),
    Bound(String),
    /// put back unfinished (sharing out the work)
    Paused,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub killed: u64,
    pub aborted: u64,
    pub forks: u64,
    pub steps: u64,
    pub queries: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_cached: u64,
    pub q_us: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub max_steps: u64,
}

pub struct Opts {
    pub max_steps: u64,
    pub max_alloc: u64,
    pub rlimit: u32,
    pub deadline: Option<Instant>,
    pub gep_check: bool,
    pub samples: usize,
    pub seed: u64,
}

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    ctx: z3::Ctx,
    solver: z3::Solver,
    z3memo: FxMap<T, z3::Ast>,
    cache: HashMap<Vec<T>, Option<Rc<Vec<(u32, u128)>>>>,
    memo: FxMap<T, u128>,
    memo_model: *const Vec<u128>,
    memo_keep: Option<Rc<Vec<u128>>>,
    base_globs: Vec<Rc<Obj>>,
    pub work: VecDeque<State>,
    pub st: Stats,
    pub opts: Opts,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    prof: HashMap<u32, u64>,
    pub ends: BTreeMap<String, u64>,
    pub executed: Vec<bool>,
    intr: Vec<Intr>,
    undef_n: u32,
    vtable_addr: u64,
    freed: Rc<Obj>,
    pub slice: bool,
    pub rng: u64,
    pub samples: Vec<Vec<String>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Intr {
    None,
    Sym,
    Assume,
    Check,
    Cover,
    Live,
    Conc,
    Print,
    Use,
    Note,
    Obs,
    NoAbort,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    AllocShim,
    AllocErr,
    MemCpy,
    MemSet,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    CtPop,
    Ctlz,
    Cttz,
    BSwap,
    FShl,
    FShr,
    Expect,
    LlAssume,
    Trap,
    PtrMask,
    Abs,
    IsConst,
    PanicCleanup,
    Throw,
    NoUnwindPanic,
    MemCmp,
    SCmp,
    UCmp,
    ColdPath,
    First,
    Zero,
    RandKeys,
    One,
    WideMul,
    Hash,
    KeyCreate,
    Malloc,
    Free,
}

fn classify(f: &Func) -> Intr {
    let n = f.name.as_str();
    match n {
        "lsym_sym" => return Intr::Sym,
        "lsym_assume" => return Intr::Assume,
        "lsym_check" => return Intr::Check,
        "lsym_cover" => return Intr::Cover,
        "lsym_live_allocs" => return Intr::Live,
        "lsym_concretize" => return Intr::Conc,
        "lsym_print" => return Intr::Print,
        "lsym_use" => return Intr::Use,
        "lsym_note" => return Intr::Note,
        "lsym_observe" => return Intr::Obs,
        "lsym_no_abort" => return Intr::NoAbort,
        "memcmp" | "bcmp" => return Intr::MemCmp,
        "memcpy" | "memmove" => return Intr::MemCpy,
        "abort" => return Intr::Trap,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" => return Intr::Zero,
        "pthread_key_create" => return Intr::KeyCreate,
        "gettid" => return Intr::One,
        "malloc" => return Intr::Malloc,
        "free" => return Intr::Free,
        _ => {}
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let s = |x: &str| r.starts_with(x);
        return if s("memcpy.") || s("memmove.") {
            Intr::MemCpy
        } else if s("memset.") {
            Intr::MemSet
        } else if s("uadd.with") {
            Intr::UAddO
        } else if s("usub.with") {
            Intr::USubO
        } else if s("umul.with") {
            Intr::UMulO
        } else if s("sadd.with") {
            Intr::SAddO
        } else if s("ssub.with") {
            Intr::SSubO
        } else if s("smul.with") {
            Intr::SMulO
        } else if s("umin.") {
            Intr::UMin
        } else if s("umax.") {
            Intr::UMax
        } else if s("smin.") {
            Intr::SMin
        } else if s("smax.") {
            Intr::SMax
        } else if s("uadd.sat") {
            Intr::UAddSat
        } else if s("usub.sat") {
            Intr::USubSat
        } else if s("ctpop.") {
            Intr::CtPop
        } else if s("ctlz.") {
            Intr::Ctlz
        } else if s("cttz.") {
            Intr::Cttz
        } else if s("bswap.") {
            Intr::BSwap
        } else if s("fshl.") {
            Intr::FShl
        } else if s("fshr.") {
            Intr::FShr
        } else if s("expect.") {
            Intr::Expect
        } else if s("assume") {
            Intr::LlAssume
        } else if s("trap") || s("ubsantrap") {
            Intr::Trap
        } else if s("ptrmask.") {
            Intr::PtrMask
        } else if s("abs.") {
            Intr::Abs
        } else if s("is.constant") {
            Intr::IsConst
        } else if s("threadlocal.address") {
            Intr::First
        } else if s("scmp.") {
            Intr::SCmp
        } else if s("ucmp.") {
            Intr::UCmp
        } else {
            Intr::None
        };
    }
    if f.defined {
        // std compiled along with the code: panics unwind without being formatted or printed, and
        // every key hashes alike (any hash function is as good as another to a hash map's user)
        if f.noreturn && (n.contains("4core9panicking") || n.contains("3std9panicking")) {
            return if f.nounwind { Intr::NoUnwindPanic } else { Intr::Throw };
        }
        if n.contains("random13DefaultHasherNt") || n.contains("13DefaultHasher") && !n.contains("4Hash4hash") {
            if ["6Hasher6finish", "6Hasher5write", "6Hasher9write_str", "6Hasher8write_u8"].iter().any(|x| n.contains(x)) {
                return Intr::Zero;
            }
        }
        if let Some((_, t)) = n.split_once("4core3ptr9drop_glueNt") {
            // token streams are not freed: nothing depends on it
            if let Some((_, t)) = t.split_once("_11proc_macro2") {
                let t = t.strip_prefix("8fallback").unwrap_or(t).trim_start_matches("NtB4_");
                if t.starts_with("11TokenStreamE") || t.starts_with("9TokenTreeE") {
                    return Intr::Zero;
                }
            }
        }
        if n.contains("4xxh38xxh3_128") {
            return Intr::Hash; // only makes generated macro names unique
        }
        if n.contains("4core3numo16carrying_mul_add") {
            return Intr::WideMul;
        }
        if n.ends_with("19hashmap_random_keys") {
            return Intr::RandKeys;
        }
        if n.contains("18handle_alloc_error") {
            return Intr::AllocErr;
        }
        if n.contains("3std9panicking") && n.ends_with("7cleanup") {
            return Intr::PanicCleanup;
        }
        return Intr::None;
    }
    if n.contains("___rustc") {
        if n.ends_with("12___rust_alloc") {
            return Intr::Alloc;
        }
        if n.ends_with("19___rust_alloc_zeroed") {
            return Intr::AllocZeroed;
        }
        if n.ends_with("14___rust_dealloc") {
            return Intr::Dealloc;
        }
        if n.ends_with("14___rust_realloc") {
            return Intr::Realloc;
        }
        if n.contains("no_alloc_shim") {
            return Intr::AllocShim;
        }
    }
    if n.contains("18handle_alloc_error") {
        return Intr::AllocErr;
    }
    if n.contains("3std9panicking") && n.ends_with("7cleanup") {
        return Intr::PanicCleanup;
    }
    if f.noreturn && n.starts_with("_R") {
        return if f.nounwind { Intr::NoUnwindPanic } else { Intr::Throw };
    }
    Intr::None
}

/// Approximate readable path from a v0-mangled name.
const PROFILE: bool = option_env!("LSYM_PROFILE").is_some();
pub fn pretty(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let s = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if s + k <= b.len() && k > 0 {
                out.push(n[s..s + k].to_string());
                i = s + k;
                continue;
            }
        } else if b[i] == b's' || b[i] == b'B' || b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // disambiguators / back references end with '_'
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) && j - i < 14 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

enum Flow {
    Next,
    Jumped,
    End(End),
    /// re-execute the same instruction (constraints changed)
    Again,
}
type X<A> = Result<A, End>;

impl Exec {
    pub fn new(text: &str, opts: Opts) -> Result<Exec, String> {
        let mut ar = Arena::new();
        let m = Module::parse(text, &mut ar)?;
        let ctx = z3::mk_ctx();
        let solver = z3::mk_solver(ctx, opts.rlimit);
        let mut base_globs = vec![];
        for g in &m.globals {
            let mut data = vec![C_UNINIT; g.size as usize];
            for (o, i) in &g.init {
                match i {
                    Init::Bytes(b) => {
                        for (k, x) in b.iter().enumerate() {
                            data[*o as usize + k] = *x as u64;
                        }
                    }
                    Init::Val(n, v) => {
                        for k in 0..*n as usize {
                            data[*o as usize + k] = (v >> (8 * k)) & 0xff;
                        }
                    }
                }
            }
            base_globs.push(Rc::new(Obj { size: g.size, align: g.align, ro: g.constant, data }));
        }
        let intr = m.funcs.iter().map(classify).collect();
        let n = m.funcs.len();
        // fake vtable for panic payloads: drop = null, size = 0, align = 1
        let mut vdata = vec![0u64; 24];
        vdata[16] = 1;
        let rng = opts.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let mut ex = Exec {
            m,
            ar,
            ctx,
            solver,
            z3memo: Default::default(),
            cache: HashMap::new(),
            memo: Default::default(),
            memo_model: std::ptr::null(),
            memo_keep: None,
            base_globs,
            work: VecDeque::new(),
            st: Stats::default(),
            opts,
            covers: BTreeMap::new(),
            checks: BTreeMap::new(),
            prof: HashMap::new(),
            ends: BTreeMap::new(),
            executed: vec![false; n],
            intr,
            undef_n: 0,
            vtable_addr: 0,
            slice: false,
            freed: Rc::new(Obj { size: 0, align: 0, ro: true, data: vec![] }),
            rng,
            samples: vec![],
        };
        let last = ex.m.globals.last().map(|g| g.addr + g.size).unwrap_or(GLOB_BASE);
        ex.vtable_addr = place(last + 8192, 8);
        ex.m.globals.push(Global { name: "lsym.vtable".into(), size: 24, align: 8, constant: true, external: false, init: vec![], addr: ex.vtable_addr });
        ex.base_globs.push(Rc::new(Obj { size: 24, align: 8, ro: true, data: vdata }));
        Ok(ex)
    }

    pub fn start(&mut self, entry: &str) -> Result<State, String> {
        let f = *self.m.fidx.get(entry).ok_or(format!("no entry @{entry}"))?;
        self.m.decode(f, &mut self.ar)?;
        if !self.m.funcs[f as usize].params.is_empty() {
            return Err("entry takes parameters".into());
        }
        self.executed[f as usize] = true;
        let n = self.m.funcs[f as usize].nregs as usize;
        Ok(State {
            frames: vec![Frame { f, bb: 0, ip: 0, base: 0, stack_mark: 0, ret_d: 0, ret_n: 0, inv: None }],
            regs: vec![V::C(0); n],
            heap: vec![],
            dead: 0,
            stack: vec![],
            globs: BTreeMap::new(),
            next_heap: HEAP_BASE,
            next_stack: STACK_BASE,
            pc: vec![],
            model: Rc::new(vec![]),
            counters: BTreeMap::new(),
            exc: None,
            steps: 0,
            forks: 0,
            notes: vec![],
            no_abort: false,
            obs: vec![],
            nchecks: 0,
        })
    }

    // ------------------------------------------------------------- solver
    fn to_z3(&mut self, t: T) -> z3::Ast {
        if let Some(a) = self.z3memo.get(&t) {
            return *a;
        }
        let n = self.ar.nodes[t as usize];
        let c = self.ctx;
        let w = n.w as u32;
        unsafe {
            // Bool sort for width 1, bit-vectors otherwise
            let r = match n.op {
                Op::Const => {
                    if w == 1 {
                        if n.k == 1 {
                            z3::Z3_mk_true(c)
                        } else {
                            z3::Z3_mk_false(c)
                        }
                    } else {
                        let s = CString::new(n.k.to_string()).unwrap();
                        z3::Z3_mk_numeral(c, s.as_ptr(), z3::Z3_mk_bv_sort(c, w))
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("v{}", n.a)).unwrap();
                    let y = z3::Z3_mk_string_symbol(c, s.as_ptr());
                    let so = if w == 1 { z3::Z3_mk_bool_sort(c) } else { z3::Z3_mk_bv_sort(c, w) };
                    z3::Z3_mk_const(c, y, so)
                }
                Op::Not => {
                    let a = self.to_z3(n.a);
                    if w == 1 {
                        z3::Z3_mk_not(c, a)
                    } else {
                        z3::Z3_mk_bvnot(c, a)
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.to_z3(n.a), self.to_z3(n.b), self.to_z3(n.c));
                    z3::Z3_mk_ite(c, a, b, d)
                }
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let v = [self.to_z3(n.a), self.to_z3(n.b)];
                    match n.op {
                        Op::And => z3::Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => z3::Z3_mk_or(c, 2, v.as_ptr()),
                        _ => z3::Z3_mk_xor(c, v[0], v[1]),
                    }
                }
                Op::Eq => {
                    let (a, b) = (self.to_z3(n.a), self.to_z3(n.b));
                    z3::Z3_mk_eq(c, a, b)
                }
                Op::Extract => {
                    let a = self.to_bv(n.a);
                    let e = z3::Z3_mk_extract(c, n.b + w - 1, n.b, a);
                    if w == 1 {
                        let one = z3::Z3_mk_unsigned_int64(c, 1, z3::Z3_mk_bv_sort(c, 1));
                        z3::Z3_mk_eq(c, e, one)
                    } else {
                        e
                    }
                }
                Op::SExt => {
                    let a = self.to_bv(n.a);
                    z3::Z3_mk_sign_ext(c, w - self.ar.w(n.a), a)
                }
                _ => {
                    let (a, b) = (self.to_bv(n.a), self.to_bv(n.b));
                    let r = match n.op {
                        Op::Add => z3::Z3_mk_bvadd(c, a, b),
                        Op::Mul => z3::Z3_mk_bvmul(c, a, b),
                        Op::And => z3::Z3_mk_bvand(c, a, b),
                        Op::Or => z3::Z3_mk_bvor(c, a, b),
                        Op::Xor => z3::Z3_mk_bvxor(c, a, b),
                        Op::Shl => z3::Z3_mk_bvshl(c, a, b),
                        Op::LShr => z3::Z3_mk_bvlshr(c, a, b),
                        Op::AShr => z3::Z3_mk_bvashr(c, a, b),
                        Op::UDiv => z3::Z3_mk_bvudiv(c, a, b),
                        Op::URem => z3::Z3_mk_bvurem(c, a, b),
                        Op::SDiv => z3::Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => z3::Z3_mk_bvsrem(c, a, b),
                        Op::Ult => z3::Z3_mk_bvult(c, a, b),
                        Op::Slt => z3::Z3_mk_bvslt(c, a, b),
                        Op::Concat => z3::Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    };
                    if w == 1 && !matches!(n.op, Op::Ult | Op::Slt) {
                        let one = z3::Z3_mk_unsigned_int64(c, 1, z3::Z3_mk_bv_sort(c, 1));
                        z3::Z3_mk_eq(c, r, one)
                    } else {
                        r
                    }
                }
            };
            self.z3memo.insert(t, r);
            r
        }
    }
    fn to_bv(&mut self, t: T) -> z3::Ast {
        let a = self.to_z3(t);
        if self.ar.w(t) == 1 {
            unsafe {
                let s = z3::Z3_mk_bv_sort(self.ctx, 1);
                let one = z3::Z3_mk_unsigned_int64(self.ctx, 1, s);
                let zero = z3::Z3_mk_unsigned_int64(self.ctx, 0, s);
                z3::Z3_mk_ite(self.ctx, a, one, zero)
            }
        } else {
            a
        }
    }

    /// Is pc ∧ cond satisfiable?  Some(model) / None.
    fn sat(&mut self, st: &State, cond: T) -> X<Option<Rc<Vec<u128>>>> {
        if let Some(k) = self.ar.as_const(cond) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        let neg = self.ar.not(cond);
        if st.pc.contains(&neg) {
            return Ok(None);
        }
        // independence slicing
        let mut vars: Vec<u32> = self.ar.vars_of(cond).to_vec();
        let mut slice = vec![cond];
        let mut rest: Vec<T> = st.pc.clone();
        loop {
            let mut changed = false;
            let mut keep = vec![];
            for c in rest {
                let vs = self.ar.vars_of(c);
                if vs.iter().any(|v| vars.contains(v)) {
                    for v in vs {
                        if !vars.contains(v) {
                            vars.push(*v);
                        }
                    }
                    slice.push(c);
                    changed = true;
                } else {
                    keep.push(c);
                }
            }
            rest = keep;
            if !changed {
                break;
            }
        }
        slice.sort();
        slice.dedup();
        let res = if let Some(r) = self.cache.get(&slice) {
            self.st.q_cached += 1;
            r.clone()
        } else {
            let t0 = Instant::now();
            let asts: Vec<z3::Ast> = slice.iter().map(|t| self.to_z3(*t)).collect();
            let r = unsafe {
                z3::Z3_solver_push(self.ctx, self.solver);
                for a in &asts {
                    z3::Z3_solver_assert(self.ctx, self.solver, *a);
                }
                let r = z3::Z3_solver_check(self.ctx, self.solver);
                let out = if r == 1 {
                    let m = z3::Z3_solver_get_model(self.ctx, self.solver);
                    z3::Z3_model_inc_ref(self.ctx, m);
                    let mut vals = vec![];
                    for v in &vars {
                        let name = self.ar.vars[*v as usize].name.clone();
                        let w = self.ar.vars[*v as usize].w;
                        let undef = self.ar.vars[*v as usize].undef;
                        let vt = self.ar.var(&name, w, undef);
                        let za = self.to_z3(vt);
                        let mut o = std::ptr::null_mut();
                        if !z3::Z3_model_eval(self.ctx, m, za, true, &mut o) {
                            return Err(End::Error("z3 model evaluation failed".into()));
                        }
                        let val = if w == 1 {
                            (z3::Z3_get_bool_value(self.ctx, o) == 1) as u128
                        } else {
                            let mut x = 0u64;
                            if z3::Z3_get_numeral_uint64(self.ctx, o, &mut x) {
                                x as u128
                            } else {
                                let s = std::ffi::CStr::from_ptr(z3::Z3_get_numeral_string(self.ctx, o)).to_string_lossy().to_string();
                                s.parse::<u128>().map_err(|e| End::Error(format!("z3 numeral {s}: {e}")))?
                            }
                        };
                        vals.push((*v, val));
                    }
                    z3::Z3_model_dec_ref(self.ctx, m);
                    Ok(Some(Rc::new(vals)))
                } else if r == -1 {
                    Ok(None)
                } else {
                    Err(())
                };
                z3::Z3_solver_pop(self.ctx, self.solver, 1);
                out
            };
            self.st.queries += 1;
            self.st.q_us += t0.elapsed().as_micros() as u64;
            if PROFILE {
                let f: Vec<String> = st.frames.iter().rev().take(2).map(|f| pretty(&self.m.funcs[f.f as usize].name)).collect();
                println!("QUERY {} {} {} {}", t0.elapsed().as_micros(), matches!(r, Ok(Some(_))), slice.len(), f.join(" < "));
            }
            let r = match r {
                Ok(r) => r,
                Err(()) => return Err(End::Bound("solver returned unknown (resource limit)".into())),
            };
            if r.is_some() {
                self.st.q_sat += 1
            } else {
                self.st.q_unsat += 1
            }
            self.cache.insert(slice.clone(), r.clone());
            r
        };
        Ok(match res {
            None => None,
            Some(vals) => {
                let mut m = (*st.model).clone();
                for (v, x) in vals.iter() {
                    if m.len() <= *v as usize {
                        m.resize(*v as usize + 1, 0);
                    }
                    m[*v as usize] = *x;
                }
                Some(Rc::new(m))
            }
        })
    }
    fn eval(&mut self, st: &State, t: T) -> u128 {
        if let Some(k) = self.ar.as_const(t) {
            return k;
        }
        let p = Rc::as_ptr(&st.model);
        if p != self.memo_model {
            self.memo.clear();
            self.memo_model = p;
            self.memo_keep = Some(st.model.clone());
        }
        let mut memo = std::mem::take(&mut self.memo);
        let r = self.ar.eval(t, &st.model, &mut memo);
        self.memo = memo;
        r
    }
    fn violation(&mut self, st: &State, model: &Rc<Vec<u128>>, kind: &str, msg: String) -> End {
        let mut trace = vec![];
        for f in st.frames.iter().rev() {
            trace.push(format!("{} [{}]", pretty(&self.m.funcs[f.f as usize].name), self.m.funcs[f.f as usize].blocks[f.bb as usize].name));
        }
        for n in &st.notes {
            trace.push(format!("note: {n}"));
        }
        let mv = self.model_of(st, model);
        End::Violation(Violation { kind: kind.into(), msg, trace, model: mv })
    }
    fn model_of(&self, st: &State, model: &Rc<Vec<u128>>) -> Vec<(String, u128, u32)> {
        let mut mv = vec![];
        for (i, v) in self.ar.vars.iter().enumerate() {
            if !v.undef {
                // only variables this path has created
                let (tag, n) = match v.name.rsplit_once('#') {
                    Some((t, n)) => (t, n.parse::<u32>().unwrap_or(0)),
                    None => continue,
                };
                if st.counters.get(tag).map_or(false, |c| n < *c) {
                    mv.push((v.name.clone(), model.get(i).copied().unwrap_or(0), v.w));
                }
            }
        }
        mv
    }
    fn ub(&mut self, st: &State, msg: String) -> End {
        let m = st.model.clone();
        self.violation(st, &m, "undefined-behaviour", msg)
    }

    /// Decide a symbolic boolean on this path; forks the other side (re-executing the current instruction).
    fn decide(&mut self, st: &mut State, t: T) -> X<bool> {
        if let Some(k) = self.ar.as_const(t) {
            return Ok(k == 1);
        }
        if self.ar.has_undef(t) {
            return Err(self.ub(st, "control flow depends on an uninitialised value".into()));
        }
        let b = self.eval(st, t) == 1;
        let nt = self.ar.not(t);
        let (mine, other) = if b { (t, nt) } else { (nt, t) };
        if let Some(m) = self.sat(st, other)? {
            let mut o = st.clone();
            o.pc.push(other);
            o.model = m;
            o.forks += 1;
            self.st.forks += 1;
            if PROFILE {
                let f: Vec<String> = st.frames.iter().rev().take(4).map(|f| pretty(&self.m.funcs[f.f as usize].name)).collect();
                println!("FORK {}", f.join(" < "));
            }
            self.work.push_back(o);
            st.pc.push(mine);
            st.forks += 1;
        }
        Ok(b)
    }
    /// Make a value concrete by forking over all its feasible values.
    fn concrete(&mut self, st: &mut State, v: V) -> X<u64> {
        match v {
            V::C(c) => Ok(c),
            V::T(t) => {
                if let Some(k) = self.ar.as_const(t) {
                    return Ok(k as u64);
                }
                let k = self.eval(st, t);
                let w = self.ar.w(t);
                let kt = self.ar.konst(k, w);
                let e = self.ar.eq(t, kt);
                if self.decide(st, e)? {
                    Ok(k as u64)
                } else {
                    Err(End::Error("concretisation".into()))
                }
            }
        }
    }

    // ------------------------------------------------------------- values
    fn t(&mut self, v: V, w: u32) -> T {
        match v {
            V::C(c) => self.ar.konst(c as u128, w),
            V::T(t) => t,
        }
    }
    fn v(&self, t: T) -> V {
        if self.ar.w(t) <= 64 {
            if let Some(k) = self.ar.as_const(t) {
                return V::C(k as u64);
            }
        }
        V::T(t)
    }
    fn fresh_undef(&mut self, w: u32) -> T {
        self.undef_n += 1;
        let n = format!("undef!{}!{}", self.undef_n, w);
        self.ar.var(&n, w, true)
    }

    // ------------------------------------------------------------- memory
    fn find<'a>(&'a self, st: &'a State, addr: u64) -> Option<(u8, usize, u64, &'a Rc<Obj>)> {
        if addr >= STACK_BASE {
            let i = st.stack.partition_point(|x| x.0 <= addr);
            if i == 0 {
                return None;
            }
            let (a, o) = &st.stack[i - 1];
            Some((1, i - 1, addr - a, o))
        } else if addr >= HEAP_BASE {
            let i = st.heap.partition_point(|x| x.0 <= addr);
            if i == 0 {
                return None;
            }
            let (a, o) = &st.heap[i - 1];
            Some((0, i - 1, addr - a, o))
        } else if addr >= GLOB_BASE {
            let i = self.m.globals.partition_point(|g| g.addr <= addr);
            if i == 0 {
                return None;
            }
            let o = st.globs.get(&(i as u32 - 1)).unwrap_or(&self.base_globs[i - 1]);
            Some((2, i - 1, addr - self.m.globals[i - 1].addr, o))
        } else {
            None
        }
    }
    fn describe(&self, st: &State, addr: u64) -> String {
        match self.find(st, addr) {
            Some((k, i, off, o)) => format!(
                "address {addr:#x} ({} object of {} bytes, offset {}{})",
                ["heap", "stack", "global"][k as usize],
                o.size,
                off,
                if off >= o.size { ", beyond its end or freed" } else { "" }
            ) + &(if k == 2 { format!(" @{}", self.m.globals[i].name) } else { String::new() }),
            None => format!("address {addr:#x} (no object)"),
        }
    }
    fn check_access(&mut self, st: &State, addr: u64, n: u64, align: u64, write: bool) -> X<(u8, usize, u64)> {
        if align > 1 && addr % align != 0 {
            let d = self.describe(st, addr);
            return Err(self.ub(st, format!("misaligned access (need {align}): {d}")));
        }
        let r = match self.find(st, addr) {
            Some((k, i, off, o)) if off + n <= o.size => {
                if write && o.ro {
                    None
                } else {
                    Some((k, i, off))
                }
            }
            _ => None,
        };
        match r {
            Some((k, i, _)) if k == 2 && self.m.globals[i].external => Err(End::Error(format!("access to external global @{}", self.m.globals[i].name))),
            Some(r) => Ok(r),
            None => {
                let d = self.describe(st, addr);
                Err(self.ub(st, format!("invalid {} of {n} bytes at {d}", if write { "write" } else { "read" })))
            }
        }
    }
    fn obj<'a>(&'a self, st: &'a State, k: u8, i: usize) -> &'a Rc<Obj> {
        match k {
            0 => &st.heap[i].1,
            1 => &st.stack[i].1,
            _ => st.globs.get(&(i as u32)).unwrap_or(&self.base_globs[i]),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, k: u8, i: usize) -> &'a mut Obj {
        match k {
            0 => Rc::make_mut(&mut st.heap[i].1),
            1 => Rc::make_mut(&mut st.stack[i].1),
            _ => {
                let b = &self.base_globs[i];
                Rc::make_mut(st.globs.entry(i as u32).or_insert_with(|| b.clone()))
            }
        }
    }
    /// Resolve a possibly symbolic address to a concrete one (forking), checking bounds for all values.
    fn addr(&mut self, st: &mut State, p: V, n: u64) -> X<u64> {
        let t = match p {
            V::C(a) => return Ok(a),
            V::T(t) => t,
        };
        if let Some(k) = self.ar.as_const(t) {
            return Ok(k as u64);
        }
        if self.ar.has_undef(t) {
            return Err(self.ub(st, "address depends on an uninitialised value".into()));
        }
        let a = self.eval(st, t) as u64;
        // in-object condition for the object this value falls into
        let inb = match self.find(st, a) {
            Some((_, _, off, o)) if off + n <= o.size => Some((a - off, o.size)),
            _ => None,
        };
        let (base, size) = match inb {
            Some(x) => x,
            None => {
                let d = self.describe(st, a);
                return Err(self.ub(st, format!("access of {n} bytes at {d} (symbolic address)")));
            }
        };
        let bt = self.ar.konst(base as u128, 64);
        let off = self.ar.sub(t, bt);
        let lim = self.ar.konst((size - n + 1) as u128, 64);
        let inside = self.ar.ult(off, lim);
        self.decide(st, inside)?; // the outside case is forked and re-executed (and reported there)
        self.concrete(st, V::T(t))
    }
    /// A byte of a small constant table at a symbolic position: one term instead of a fork per position.
    fn table_load(&mut self, st: &mut State, t: T) -> X<Option<V>> {
        if self.ar.as_const(t).is_some() || self.ar.has_undef(t) {
            return Ok(None);
        }
        let a = self.eval(st, t) as u64;
        let (base, bytes) = match self.find(st, a) {
            Some((_, _, off, o)) if off < o.size && o.ro && o.size <= 1024 && o.data.iter().all(|c| c & CK == 0) => {
                (a - off, o.data.iter().map(|c| *c as u8).collect::<Vec<u8>>())
            }
            _ => return Ok(None),
        };
        let bt = self.ar.konst(base as u128, 64);
        let off = self.ar.sub(t, bt);
        let lim = self.ar.konst(bytes.len() as u128, 64);
        let inside = self.ar.ult(off, lim);
        self.decide(st, inside)?; // outside: forked, re-executed and reported there
        let mut bits = 0;
        while (1usize << bits) < bytes.len() {
            bits += 1;
        }
        let mut level: Vec<T> = Vec::new();
        for k in 0..1usize << bits {
            level.push(self.ar.konst(bytes.get(k).copied().unwrap_or(0) as u128, 8));
        }
        for b in 0..bits {
            let x = self.ar.extract(off, b, 1);
            let one = self.ar.konst(1, 1);
            let c = self.ar.eq(x, one);
            let mut next = Vec::new();
            for p in level.chunks(2) {
                next.push(if p[0] == p[1] { p[0] } else { self.ar.ite(c, p[1], p[0]) });
            }
            level = next;
        }
        Ok(Some(self.v(level[0])))
    }
    fn load(&mut self, st: &State, addr: u64, w: u32, align: u64) -> X<V> {
        let n = (w as u64 + 7) / 8;
        let (k, i, off) = self.check_access(st, addr, n, align, false)?;
        let off = off as usize;
        let o = self.obj(st, k, i);
        let cells = &o.data[off..off + n as usize];
        // fast path: all concrete
        let mut acc: u64 = 0;
        let mut kinds = 0u64;
        if n <= 8 {
            for (j, c) in cells.iter().enumerate() {
                kinds |= c & CK;
                acc |= (c & 0xff) << (8 * j);
            }
            if kinds == 0 {
                return Ok(V::C(if w < 64 { acc & mask(w) as u64 } else { acc }));
            }
        }
        let cells: Vec<u64> = cells.to_vec();
        // whole-term fast path
        if cells[0] & CK == C_SYM {
            let t0 = ((cells[0] >> 8) & 0xffff_ffff) as u32;
            let tw = self.ar.w(t0);
            if cells[0] & 0xff == 0 && (tw + 7) / 8 == n as u32 && cells.iter().enumerate().all(|(j, c)| *c == (C_SYM | (t0 as u64) << 8 | j as u64)) {
                if tw == w {
                    return Ok(self.v(t0));
                }
            }
        }
        let mut r: Option<T> = None;
        let mut j = 0;
        while j < cells.len() {
            let c = cells[j];
            let (piece, adv) = match c & CK {
                0 => (self.ar.konst((c & 0xff) as u128, 8), 1),
                C_UNINIT => {
                    // one undef variable per run of uninitialised bytes
                    let mut e = j + 1;
                    while e < cells.len() && cells[e] & CK == C_UNINIT {
                        e += 1;
                    }
                    (self.fresh_undef(8 * (e - j) as u32), e - j)
                }
                _ => {
                    let t = ((c >> 8) & 0xffff_ffff) as u32;
                    let b = (c & 0xff) as u32;
                    (self.byte_of(t, b), 1)
                }
            };
            r = Some(match r {
                None => piece,
                Some(x) => self.ar.concat(piece, x),
            });
            j += adv;
        }
        let mut r = r.unwrap();
        if self.ar.w(r) > w {
            r = self.ar.trunc(r, w);
        }
        Ok(self.v(r))
    }
    fn byte_of(&mut self, t: T, b: u32) -> T {
        let w = self.ar.w(t);
        let lo = b * 8;
        if lo + 8 <= w {
            self.ar.extract(t, lo, 8)
        } else {
            let e = self.ar.extract(t, lo, w - lo);
            self.ar.zext(e, 8)
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, w: u32, v: V, align: u64) -> X<()> {
        let n = (w as u64 + 7) / 8;
        let (k, i, off) = self.check_access(st, addr, n, align, true)?;
        let off = off as usize;
        let pure_undef = match v {
            V::T(t) => self.ar.nodes[t as usize].op == Op::Var && self.ar.has_undef(t),
            _ => false,
        };
        let wide = match v {
            V::T(t) => self.ar.as_const(t),
            _ => None,
        };
        let o = self.obj_mut(st, k, i);
        match v {
            V::C(c) => {
                for j in 0..n as usize {
                    o.data[off + j] = (c >> (8 * j)) & 0xff;
                }
            }
            V::T(_) if wide.is_some() => {
                for j in 0..n as usize {
                    o.data[off + j] = ((wide.unwrap() >> (8 * j)) & 0xff) as u64;
                }
            }
            V::T(_) if pure_undef => {
                for j in 0..n as usize {
                    o.data[off + j] = C_UNINIT;
                }
            }
            V::T(t) => {
                for j in 0..n as usize {
                    o.data[off + j] = C_SYM | (t as u64) << 8 | j as u64;
                }
                // keep concrete / uninitialised bytes of a mixed value precise
                if self.ar.nodes[t as usize].op == Op::Concat {
                    for j in 0..n as u32 {
                        let b = self.byte_of(t, j);
                        let cell = if let Some(k) = self.ar.as_const(b) {
                            k as u64
                        } else if self.ar.has_undef(b) && matches!(self.ar.nodes[b as usize].op, Op::Var | Op::Extract) && self.is_undef_var(b) {
                            C_UNINIT
                        } else {
                            continue;
                        };
                        self.obj_mut(st, k, i).data[off + j as usize] = cell;
                    }
                }
            }
        }
        Ok(())
    }
    fn is_undef_var(&self, t: T) -> bool {
        let n = self.ar.nodes[t as usize];
        match n.op {
            Op::Var => self.ar.has_undef(t),
            Op::Extract => self.is_undef_var(n.a),
            _ => false,
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        let a = place(st.next_heap, align);
        st.next_heap = a + size + GAP;
        let data = vec![if zero { 0 } else { C_UNINIT }; size as usize];
        st.heap.push((a, Rc::new(Obj { size, align, ro: false, data })));
        a
    }
    fn release(&self, st: &mut State, i: usize) {
        st.heap[i].1 = self.freed.clone();
        st.dead += 1;
        if st.dead > 64 && st.dead * 2 > st.heap.len() {
            st.heap.retain(|x| x.1.size > 0);
            st.dead = 0;
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (sk, si, so) = self.check_access(st, s, n, 1, false)?;
        let (dk, di, dof) = self.check_access(st, d, n, 1, true)?;
        let src: Vec<u64> = self.obj(st, sk, si).data[so as usize..(so + n) as usize].to_vec();
        self.obj_mut(st, dk, di).data[dof as usize..(dof + n) as usize].copy_from_slice(&src);
        Ok(())
    }
    fn cstr(&mut self, st: &mut State, p: V, n: V) -> X<String> {
        let a = self.concrete(st, p)?;
        let n = self.concrete(st, n)?;
        let mut b = vec![];
        for i in 0..n {
            match self.load(st, a + i, 8, 1)? {
                V::C(c) => b.push(c as u8),
                _ => return Err(End::Error("symbolic string".into())),
            }
        }
        Ok(String::from_utf8_lossy(&b).to_string())
    }

    // ------------------------------------------------------------- running
    fn o(&self, st: &State, base: u32, o: O) -> V {
        match o {
            O::R(r) => st.regs[(base + r) as usize],
            O::K(v) => v,
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let base = fr.base;
        let f = fr.f;
        fr.bb = to;
        fr.ip = 0;
        let phis = &self.m.funcs[f as usize].blocks[to as usize].phis;
        match phis.len() {
            0 => {}
            1 => {
                let (d, map) = &phis[0];
                let ops = &map[&from];
                if ops.len() == 1 {
                    let v = self.o(st, base, ops[0]);
                    let d = *d;
                    st.regs[(base + d) as usize] = v;
                } else {
                    let vs: Vec<V> = ops.iter().map(|o| self.o(st, base, *o)).collect();
                    let d = *d;
                    for (k, v) in vs.into_iter().enumerate() {
                        st.regs[(base + d) as usize + k] = v;
                    }
                }
            }
            _ => {
                let mut out: Vec<(u32, V)> = vec![];
                for (d, map) in phis {
                    for (k, o) in map[&from].iter().enumerate() {
                        out.push((d + k as u32, self.o(st, base, *o)));
                    }
                }
                for (d, v) in out {
                    st.regs[(base + d) as usize] = v;
                }
            }
        }
    }
    /// Pop frames until an invoke catches.
    fn unwind(&mut self, st: &mut State) -> Flow {
        loop {
            let fr = st.frames.pop().unwrap();
            st.stack.truncate(fr.stack_mark as usize);
            st.regs.truncate(fr.base as usize);
            match st.frames.last() {
                None => {
                    // put it back for the trace
                    let m = st.model.clone();
                    return Flow::End(self.violation(st, &m, "panic", "a panic escaped the harness".into()));
                }
                Some(c) => {
                    if let Some((_, u)) = c.inv {
                        self.jump(st, u);
                        return Flow::Jumped;
                    }
                    if self.m.funcs[c.f as usize].nounwind {
                        let m = st.model.clone();
                        return Flow::End(self.violation(st, &m, "abort", "unwinding out of a nounwind function aborts the process".into()));
                    }
                }
            }
        }
    }
    fn throw(&mut self, st: &mut State, inv: Option<(u32, u32)>) -> Flow {
        let a = self.alloc(st, 8, 8, true);
        // exception objects are owned by the runtime: keep them out of the heap accounting
        let (_, o) = st.heap.pop().unwrap();
        let _ = o;
        st.exc = Some((a, 1));
        if let Some((_, u)) = inv {
            self.jump(st, u);
            return Flow::Jumped;
        }
        self.unwind(st)
    }
    fn do_ret(&mut self, st: &mut State, vals: &[V]) -> Flow {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.stack_mark as usize);
        st.regs.truncate(fr.base as usize);
        match st.frames.last() {
            None => Flow::End(End::Done),
            Some(c) => {
                let (base, d, inv) = (c.base, c.ret_d, c.inv);
                for (k, v) in vals.iter().enumerate() {
                    if (k as u32) < c.ret_n {
                        st.regs[(base + d) as usize + k] = *v;
                    }
                }
                match inv {
                    Some((n, _)) => self.jump(st, n),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                Flow::Jumped
            }
        }
    }

    pub fn run(&mut self, mut st: State) -> End {
        self.st.paths += 1;
        let s0 = st.steps;
        let r = self.run_inner(&mut st);
        if let End::Paused = r {
            self.st.paths -= 1;
            self.st.steps += st.steps - s0;
            self.work.push_back(st);
            return r;
        }
        if PROFILE {
            let mut v: Vec<_> = self.prof.drain().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1));
            for (f, n) in v.iter().take(120) {
                println!("PROF {n} {}", pretty(&self.m.funcs[*f as usize].name));
            }
        }
        self.st.steps += st.steps - s0;
        self.st.max_steps = self.st.max_steps.max(st.steps);
        let k = match &r {
            End::Done => {
                self.st.done += 1;
                self.sample(&st);
                "completed".to_string()
            }
            End::Killed => {
                self.st.killed += 1;
                "infeasible (assume)".into()
            }
            End::Aborted(s) => {
                self.st.aborted += 1;
                format!("process abort: {s}")
            }
            End::Violation(_) => "violation".into(),
            End::Error(_) => "engine error".into(),
            End::Bound(_) => "bound exceeded".into(),
            End::Paused => unreachable!(),
        };
        *self.ends.entry(k).or_default() += 1;
        r
    }
    /// Reservoir sample of completed paths: a concrete assignment and what the path observed under it.
    fn sample(&mut self, st: &State) {
        let k = self.opts.samples;
        if k == 0 {
            return;
        }
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.samples.len() < k {
            self.samples.len()
        } else {
            let r = (self.rng % self.st.done.max(1)) as usize;
            if r >= k {
                return;
            }
            r
        };
        let m = st.model.clone();
        let mut v = vec![st.nchecks.to_string()];
        let mut h: u64 = 0xcbf29ce484222325;
        for o in &st.obs {
            let x = match *o {
                V::C(c) => c,
                V::T(t) => {
                    if self.ar.has_undef(t) {
                        return;
                    }
                    self.eval(st, t) as u64
                }
            };
            for b in x.to_le_bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        v.push(format!("{}", h));
        v.push(st.obs.len().to_string());
        for (n, x, w) in self.model_of(st, &m) {
            v.push(format!("{n}={x}:{w}"));
        }
        if slot < self.samples.len() {
            self.samples[slot] = v;
        } else {
            self.samples.push(v);
        }
    }
    fn run_inner(&mut self, st: &mut State) -> End {
        let mut tick = 0u32;
        if self.opts.deadline.is_some_and(|d| Instant::now() > d) {
            return End::Bound("time limit".into());
        }
        loop {
            st.steps += 1;
            tick += 1;
            if PROFILE && tick & 0x3ff == 0 {
                let mut seen = std::collections::HashSet::new();
                for f in st.frames.iter() {
                    if seen.insert(f.f) {
                        *self.prof.entry(f.f).or_insert(0) += 1;
                    }
                }
            }
            if tick & 0xffff == 0 {
                if self.slice {
                    return End::Paused;
                }
                if st.steps > self.opts.max_steps {
                    let m = st.model.clone();
                        return self.violation(st, &m, "hang", format!("the path is longer than {} instructions", self.opts.max_steps));
                }
                if let Some(d) = self.opts.deadline {
                    if Instant::now() > d {
                        return End::Bound("time limit".into());
                    }
                }
            }
            match self.step(st) {
                Ok(Flow::Next) => st.frames.last_mut().unwrap().ip += 1,
                Ok(Flow::Jumped) | Ok(Flow::Again) => {}
                Ok(Flow::End(e)) => return e,
                Err(e) => return e,
            }
        }
    }

    #[inline(never)]
    fn step(&mut self, st: &mut State) -> X<Flow> {
        let (f, bb, ip, base) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.bb, fr.ip, fr.base)
        };
        // SAFETY: blocks of decoded functions are never moved or changed while executing
        let ins: &I = unsafe { &*(&self.m.funcs[f as usize].blocks[bb as usize].ins[ip as usize] as *const I) };
        macro_rules! o {
            ($x:expr) => {
                match $x {
                    O::R(r) => st.regs[(base + r) as usize],
                    O::K(v) => v,
                }
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.regs[(base + $d) as usize] = v;
            }};
        }
        match ins {
            I::Bin { op, w, d, a, b, fl } => {
                let (a, b) = (o!(*a), o!(*b));
                let r = self.bin(st, *op, *w, a, b, *fl)?;
                set!(*d, r);
            }
            I::ICmp { p, w, d, a, b } => {
                let (a, b) = (o!(*a), o!(*b));
                let r = self.icmp(*p, *w, a, b);
                set!(*d, r);
            }
            I::Select { d, c, ab } => match o!(*c) {
                V::C(c) => {
                    for (k, (a, b, _)) in ab.iter().enumerate() {
                        let v = if c & 1 != 0 { o!(*a) } else { o!(*b) };
                        set!(*d + k as u32, v);
                    }
                }
                V::T(c) => {
                    let mut out = vec![];
                    for (a, b, w) in ab.iter() {
                        let (a, b) = (o!(*a), o!(*b));
                        let (x, y) = (self.t(a, *w), self.t(b, *w));
                        if !self.ar.has_undef(c) && (self.ar.has_undef(x) || self.ar.has_undef(y)) {
                            // a value that is uninitialised on one side only: one path per side
                            let first = self.decide(st, c)?;
                            out.clear();
                            for (a, b, _) in ab.iter() {
                                out.push(if first { o!(*a) } else { o!(*b) });
                            }
                            break;
                        }
                        let r = self.ar.ite(c, x, y);
                        out.push(self.v(r));
                    }
                    for (k, v) in out.into_iter().enumerate() {
                        set!(*d + k as u32, v);
                    }
                }
            },
            I::ZExt { d, a, from, to } => match o!(*a) {
                V::C(c) if *to <= 64 => set!(*d, V::C(c)),
                v => {
                    let t = self.t(v, *from);
                    let r = self.ar.zext(t, *to);
                    set!(*d, self.v(r))
                }
            },
            I::SExt { d, a, from, to } => {
                let v = o!(*a);
                match v {
                    V::C(c) if *to <= 64 => set!(*d, V::C((sext(c as u128, *from) as u128 & mask(*to)) as u64)),
                    v => {
                        let t = self.t(v, *from);
                        let r = self.ar.sext(t, *to);
                        set!(*d, self.v(r))
                    }
                }
            }
            I::Trunc { d, a, from, to } => match o!(*a) {
                V::C(c) => set!(*d, V::C(c & mask(*to) as u64)),
                v => {
                    let t = self.t(v, *from);
                    let r = self.ar.trunc(t, *to);
                    set!(*d, self.v(r))
                }
            },
            I::Mov { ms } => {
                if ms.len() == 1 {
                    set!(ms[0].0, o!(ms[0].1));
                } else {
                    for (d, x) in ms.iter() {
                        set!(*d, o!(*x));
                    }
                }
            }
            I::Load { d, p, leaves, align } => {
                let total = leaves.iter().map(|l| l.0 + (l.1 as u64 + 7) / 8).max().unwrap_or(0);
                if total == 0 {
                    return Ok(Flow::Next);
                }
                let p = o!(*p);
                if leaves.len() == 1 && leaves[0] == (0, 8) {
                    if let V::T(t) = p {
                        if let Some(v) = self.table_load(st, t)? {
                            set!(*d, v);
                            return Ok(Flow::Next);
                        }
                    }
                }
                let a = self.addr(st, p, total)?;
                for (k, (off, w)) in leaves.iter().enumerate() {
                    let v = self.load(st, a + off, *w, if k == 0 { *align } else { 1 })?;
                    set!(*d + k as u32, v);
                }
            }
            I::Store { p, leaves, align } => {
                let total = leaves.iter().map(|l| l.0 + (l.1 as u64 + 7) / 8).max().unwrap_or(0);
                if total == 0 {
                    return Ok(Flow::Next);
                }
                let p = o!(*p);
                let a = self.addr(st, p, total)?;
                for (k, (off, w, v)) in leaves.iter().enumerate() {
                    let v = o!(*v);
                    self.store(st, a + off, *w, v, if k == 0 { *align } else { 1 })?;
                }
            }
            I::Gep { d, p, off, idx, inb } => {
                let b = o!(*p);
                let mut conc = *off;
                let mut acc: Option<T> = None;
                for (x, w, scale) in idx.iter() {
                    match o!(*x) {
                        V::C(c) => conc = conc.wrapping_add((sext(c as u128, *w) as i64).wrapping_mul(*scale)),
                        V::T(t) => {
                            let t = if *w < 64 { self.ar.sext(t, 64) } else { t };
                            let s = self.ar.konst(*scale as u128, 64);
                            let m = self.ar.mul(t, s);
                            acc = Some(match acc {
                                None => m,
                                Some(a) => self.ar.add(a, m),
                            });
                        }
                    }
                }
                match (b, acc) {
                    (V::C(b), None) => {
                        let r = b.wrapping_add(conc as u64);
                        if *inb && conc != 0 && self.opts.gep_check {
                            let ok = match self.find(st, b) {
                                Some((_, _, off, o)) if off <= o.size => {
                                    let n = off as i64 + conc;
                                    n >= 0 && n as u64 <= o.size
                                }
                                _ => false,
                            };
                            if !ok {
                                let de = self.describe(st, b);
                                return Err(self.ub(st, format!("out-of-bounds pointer arithmetic: offset {conc} from {de}")));
                            }
                        }
                        set!(*d, V::C(r));
                    }
                    (b, acc) => {
                        let bt = self.t(b, 64);
                        let k = self.ar.konst(conc as u128, 64);
                        let mut r = self.ar.add(bt, k);
                        if let Some(a) = acc {
                            r = self.ar.add(r, a);
                        }
                        set!(*d, self.v(r));
                    }
                }
            }
            I::Alloca { d, size, align } => {
                let a = place(st.next_stack, *align);
                st.next_stack = a + size + GAP;
                st.stack.push((a, Rc::new(Obj { size: *size, align: *align, ro: false, data: vec![C_UNINIT; *size as usize] })));
                set!(*d, V::C(a));
            }
            I::Br(l) => {
                self.jump(st, *l);
                return Ok(Flow::Jumped);
            }
            I::CondBr(c, a, b) => {
                let t = match o!(*c) {
                    V::C(c) => c & 1 == 1,
                    V::T(t) => self.decide(st, t)?,
                };
                self.jump(st, if t { *a } else { *b });
                return Ok(Flow::Jumped);
            }
            I::Switch { v, w, def, cases } => {
                let to = match o!(*v) {
                    V::C(c) => cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def),
                    V::T(t) => {
                        if self.ar.has_undef(t) {
                            return Err(self.ub(st, "switch on an uninitialised value".into()));
                        }
                        let k = self.eval(st, t) as u64;
                        let to = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def);
                        // condition for reaching `to`
                        let mut c = self.ar.fals();
                        if to == *def {
                            for (x, l) in cases.iter() {
                                if *l != to {
                                    let kt = self.ar.konst(*x as u128, *w);
                                    let e = self.ar.eq(t, kt);
                                    c = self.ar.or(c, e);
                                }
                            }
                            c = self.ar.not(c);
                        } else {
                            for (x, l) in cases.iter() {
                                if *l == to {
                                    let kt = self.ar.konst(*x as u128, *w);
                                    let e = self.ar.eq(t, kt);
                                    c = self.ar.or(c, e);
                                }
                            }
                        }
                        self.decide(st, c)?;
                        to
                    }
                };
                self.jump(st, to);
                return Ok(Flow::Jumped);
            }
            I::Ret(vs) => {
                if vs.len() == 1 {
                    let v = o!(vs[0]);
                    return Ok(self.do_ret(st, &[v]));
                }
                let vals: Vec<V> = vs.iter().map(|x| o!(*x)).collect();
                return Ok(self.do_ret(st, &vals));
            }
            I::Unreachable => return Err(self.ub(st, "reached code marked unreachable".into())),
            I::LandingPad { d } => {
                let (a, s) = st.exc.ok_or(End::Error("landingpad without exception".into()))?;
                set!(*d, V::C(a));
                set!(*d + 1, V::C(s));
            }
            I::Resume(a, b) => {
                if let (V::C(a), V::C(b)) = (o!(*a), o!(*b)) {
                    st.exc = Some((a, b));
                }
                return Ok(self.unwind(st));
            }
            I::CmpXchg { d, p, old, new, w } => {
                let (p, old, new) = (o!(*p), o!(*old), o!(*new));
                let a = self.addr(st, p, (*w as u64 + 7) / 8)?;
                let cur = self.load(st, a, *w, 1)?;
                let e = self.icmp(Pred::Eq, *w, cur, old);
                let b = match e {
                    V::C(c) => c == 1,
                    V::T(t) => self.decide(st, t)?,
                };
                if b {
                    self.store(st, a, *w, new, 1)?;
                }
                set!(*d, cur);
                set!(*d + 1, V::C(b as u64));
            }
            I::AtomicRmw { d, op, p, v, w } => {
                let (p, v) = (o!(*p), o!(*v));
                let a = self.addr(st, p, (*w as u64 + 7) / 8)?;
                let cur = self.load(st, a, *w, 1)?;
                let n = match op {
                    0 => self.bin(st, Bin::Add, *w, cur, v, 0)?,
                    1 => self.bin(st, Bin::Sub, *w, cur, v, 0)?,
                    2 => v,
                    3 => self.bin(st, Bin::Or, *w, cur, v, 0)?,
                    _ => self.bin(st, Bin::And, *w, cur, v, 0)?,
                };
                self.store(st, a, *w, n, 1)?;
                set!(*d, cur);
            }
            I::Nop => {}
            I::Unsupported(s) => return Err(End::Error(format!("unsupported: {s} (in {})", self.m.funcs[f as usize].name))),
            I::Call { f: callee, args, d, nret, retw, inv } => {
                let target = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ind(x) => {
                        let v = o!(*x);
                        let a = self.concrete(st, v)?;
                        let n = self.m.funcs.len() as u64;
                        if a < FUNC_BASE + 16 || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 > n {
                            let de = self.describe(st, a);
                            return Err(self.ub(st, format!("call through an invalid function pointer: {de}")));
                        }
                        ((a - FUNC_BASE) / 16 - 1) as u32
                    }
                };
                let k = self.intr[target as usize];
                if k != Intr::None {
                    let av: Vec<V> = args.iter().map(|x| o!(*x)).collect();
                    return self.intrinsic(st, k, target, &av, base, *d, *nret, retw, *inv);
                }
                if !self.m.funcs[target as usize].defined {
                    return Err(End::Error(format!("call to unknown external function {} ({})", self.m.funcs[target as usize].name, pretty(&self.m.funcs[target as usize].name))));
                }
                if self.m.funcs[target as usize].blocks.is_empty() {
                    self.m.decode(target, &mut self.ar).map_err(End::Error)?;
                }
                self.executed[target as usize] = true;
                if st.frames.len() > 400 {
                    return Err(End::Bound("call depth 400".into()));
                }
                let fun = &self.m.funcs[target as usize];
                if fun.params.len() != args.len() {
                    return Err(End::Error(format!("argument count mismatch calling {}", fun.name)));
                }
                let nb = st.regs.len() as u32;
                {
                    let fr = st.frames.last_mut().unwrap();
                    fr.ret_d = *d;
                    fr.ret_n = *nret;
                    fr.inv = *inv;
                }
                st.regs.resize((nb + fun.nregs) as usize, V::C(0));
                for (k, a) in args.iter().enumerate() {
                    let v = match a {
                        O::R(r) => st.regs[(base + r) as usize],
                        O::K(v) => *v,
                    };
                    st.regs[(nb + fun.params[k].0) as usize] = v;
                }
                let mark = st.stack.len() as u32;
                st.frames.push(Frame { f: target, bb: 0, ip: 0, base: nb, stack_mark: mark, ret_d: 0, ret_n: 0, inv: None });
                return Ok(Flow::Jumped);
            }
        }
        Ok(Flow::Next)
    }

    fn bin(&mut self, st: &mut State, op: Bin, w: u32, a: V, b: V, fl: u8) -> X<V> {
        // optimised code computes values it may not use: their flags only matter where they are used
        let fl = if self.opts.gep_check { fl } else { 0 };
        if let (V::C(x), V::C(y)) = (a, b) {
            let m = mask(w) as u64;
            let r = match op {
                Bin::Add => {
                    if fl & NUW != 0 && (x as u128 + y as u128) > mask(w) {
                        return Err(self.ub(st, "unchecked addition overflows".into()));
                    }
                    x.wrapping_add(y)
                }
                Bin::Sub => {
                    if fl & NUW != 0 && y > x {
                        return Err(self.ub(st, "unchecked subtraction underflows".into()));
                    }
                    x.wrapping_sub(y)
                }
                Bin::Mul => {
                    if fl & NUW != 0 && (x as u128 * y as u128) > mask(w) {
                        return Err(self.ub(st, "unchecked multiplication overflows".into()));
                    }
                    x.wrapping_mul(y)
                }
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                Bin::Shl => {
                    if y >= w as u64 {
                        return Err(self.ub(st, "shift amount out of range".into()));
                    }
                    x << y
                }
                Bin::LShr => {
                    if y >= w as u64 {
                        return Err(self.ub(st, "shift amount out of range".into()));
                    }
                    x >> y
                }
                Bin::AShr => {
                    if y >= w as u64 {
                        return Err(self.ub(st, "shift amount out of range".into()));
                    }
                    (sext(x as u128, w) >> y) as u64
                }
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                    if y == 0 {
                        return Err(self.ub(st, "division by zero".into()));
                    }
                    let (sx, sy) = (sext(x as u128, w), sext(y as u128, w));
                    match op {
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => (sx / sy) as u64,
                        _ => (sx % sy) as u64,
                    }
                }
            };
            return Ok(V::C(r & m));
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let chk = |s: &mut Exec, st: &mut State, bad: T, msg: &str| -> X<()> {
            if s.ar.as_const(bad) == Some(0) || s.ar.has_undef(bad) {
                return Ok(());
            }
            if let Some(m) = s.sat(st, bad)? {
                return Err(s.violation(st, &m, "undefined-behaviour", msg.into()));
            }
            Ok(())
        };
        let r = match op {
            Bin::Add => {
                let r = self.ar.add(x, y);
                if fl & NUW != 0 {
                    let bad = self.ar.ult(r, x);
                    chk(self, st, bad, "unchecked addition overflows")?;
                }
                r
            }
            Bin::Sub => {
                if fl & NUW != 0 {
                    let bad = self.ar.ult(x, y);
                    chk(self, st, bad, "unchecked subtraction underflows")?;
                }
                self.ar.sub(x, y)
            }
            Bin::Mul => self.ar.mul(x, y),
            Bin::And => self.ar.and(x, y),
            Bin::Or => self.ar.or(x, y),
            Bin::Xor => self.ar.xor(x, y),
            Bin::Shl | Bin::LShr | Bin::AShr => {
                let lim = self.ar.konst(w as u128, w.max(8));
                let yy = if w < 8 { self.ar.zext(y, 8) } else { y };
                let ok = self.ar.ult(yy, lim);
                let bad = self.ar.not(ok);
                chk(self, st, bad, "shift amount out of range")?;
                self.ar.shift(
                    match op {
                        Bin::Shl => Op::Shl,
                        Bin::LShr => Op::LShr,
                        _ => Op::AShr,
                    },
                    x,
                    y,
                )
            }
            _ => {
                let z = self.ar.konst(0, w);
                let bad = self.ar.eq(y, z);
                chk(self, st, bad, "division by zero")?;
                self.ar.div(
                    match op {
                        Bin::UDiv => Op::UDiv,
                        Bin::URem => Op::URem,
                        Bin::SDiv => Op::SDiv,
                        _ => Op::SRem,
                    },
                    x,
                    y,
                )
            }
        };
        Ok(self.v(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (sx, sy) = if w == 64 { (x as i64, y as i64) } else { (sext(x as u128, w) as i64, sext(y as u128, w) as i64) };
            return V::C(match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            } as u64);
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let e = ar.eq(x, y);
                ar.not(e)
            }
            Pred::Ult => ar.ult(x, y),
            Pred::Ugt => ar.ult(y, x),
            Pred::Ule => ar.ule(x, y),
            Pred::Uge => ar.ule(y, x),
            Pred::Slt => ar.slt(x, y),
            Pred::Sgt => ar.slt(y, x),
            Pred::Sle => {
                let e = ar.slt(y, x);
                ar.not(e)
            }
            Pred::Sge => {
                let e = ar.slt(x, y);
                ar.not(e)
            }
        };
        self.v(r)
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, target: u32, a: &[V], base: u32, d: u32, _nret: u32, retw: &[u32], inv: Option<(u32, u32)>) -> X<Flow> {
        let w = retw.first().copied().unwrap_or(0);
        macro_rules! ret {
            ($($v:expr),*) => {{
                let mut _i = 0;
                $( let v: V = $v; st.regs[(base + d) as usize + _i] = v; _i += 1; )*
                match inv {
                    Some((n, _)) => { self.jump(st, n); return Ok(Flow::Jumped) }
                    None => return Ok(Flow::Next),
                }
            }};
        }
        match k {
            Intr::None => unreachable!(),
            Intr::Sym => {
                let tag = self.cstr(st, a[0], a[1])?;
                let bits = self.concrete(st, a[2])? as u32;
                let c = st.counters.entry(Rc::from(tag.as_str())).or_insert(0);
                let name = format!("{tag}#{c}");
                *c += 1;
                let t = self.ar.var(&name, bits, false);
                let r = self.ar.zext(t, 64);
                let r = self.v(r);
                ret!(r)
            }
            Intr::Assume => match a[0] {
                V::C(c) => {
                    if c & 1 == 0 {
                        return Ok(Flow::End(End::Killed));
                    }
                    ret!()
                }
                V::T(t) => {
                    if self.ar.has_undef(t) {
                        return Err(self.ub(st, "assumption over an uninitialised value".into()));
                    }
                    if self.eval(st, t) == 1 {
                        st.pc.push(t);
                        ret!()
                    }
                    match self.sat(st, t)? {
                        Some(m) => {
                            st.pc.push(t);
                            st.model = m;
                            ret!()
                        }
                        None => Ok(Flow::End(End::Killed)),
                    }
                }
            },
            Intr::Check => {
                let msg = self.cstr(st, a[1], a[2])?;
                self.st.checks += 1;
                st.nchecks += 1;
                *self.checks.entry(msg.clone()).or_default() += 1;
                match a[0] {
                    V::C(c) => {
                        if c & 1 == 0 {
                            let m = st.model.clone();
                            return Err(self.violation(st, &m, "assertion", msg));
                        }
                    }
                    V::T(t) => {
                        self.st.checks_sym += 1;
                        if self.ar.has_undef(t) {
                            return Err(self.ub(st, format!("assertion depends on an uninitialised value: {msg}")));
                        }
                        let n = self.ar.not(t);
                        if let Some(m) = self.sat(st, n)? {
                            return Err(self.violation(st, &m, "assertion", msg));
                        }
                    }
                }
                ret!()
            }
            Intr::Cover => {
                let msg = self.cstr(st, a[0], a[1])?;
                *self.covers.entry(msg).or_default() += 1;
                ret!()
            }
            Intr::Note => {
                let msg = self.cstr(st, a[0], a[1])?;
                let v = match a[2] {
                    V::C(c) => format!("{c}"),
                    V::T(t) => self.ar.show(t, 6),
                };
                st.notes.push(format!("{msg} {v}"));
                ret!()
            }
            Intr::NoAbort => {
                st.no_abort = self.concrete(st, a[0])? != 0;
                ret!()
            }
            Intr::Obs => {
                st.obs.push(a[0]);
                ret!()
            }
            Intr::Live => {
                let n = (st.heap.len() - st.dead) as u64;
                ret!(V::C(n))
            }
            Intr::Conc => {
                let c = self.concrete(st, a[0])?;
                ret!(V::C(c))
            }
            Intr::Print => {
                let s = match a[0] {
                    V::C(c) => format!("{c:#x}"),
                    V::T(t) => self.ar.show(t, 12),
                };
                eprintln!("lsym_print: {s}");
                ret!()
            }
            Intr::Use => {
                let p = self.concrete(st, a[0])?;
                let n = self.concrete(st, a[1])?;
                for i in 0..n {
                    if let V::T(t) = self.load(st, p + i, 8, 1)? {
                        if self.ar.has_undef(t) {
                            return Err(self.ub(st, "an uninitialised value is exposed".into()));
                        }
                    }
                }
                ret!()
            }
            Intr::AllocShim | Intr::ColdPath => ret!(),
            Intr::Alloc | Intr::AllocZeroed => {
                // a symbolic size: fork "larger than the limit" off first, then enumerate
                if let V::T(t) = a[0] {
                    let lim = self.ar.konst(self.opts.max_alloc as u128 + 1, 64);
                    let small = self.ar.ult(t, lim);
                    if !self.decide(st, small)? {
                        ret!(V::C(0)) // modelled as an allocation failure
                    }
                }
                let size = self.concrete(st, a[0])?;
                let align = self.concrete(st, a[1])?;
                if size == 0 || align == 0 || !align.is_power_of_two() {
                    return Err(self.ub(st, format!("allocation with size {size} align {align}")));
                }
                if size > self.opts.max_alloc {
                    ret!(V::C(0))
                }
                let p = self.alloc(st, size, align, k == Intr::AllocZeroed);
                ret!(V::C(p))
            }
            Intr::Dealloc => {
                let p = self.concrete(st, a[0])?;
                let size = self.concrete(st, a[1])?;
                let align = self.concrete(st, a[2])?;
                match st.heap.binary_search_by_key(&p, |x| x.0) {
                    Ok(i) if st.heap[i].1.size > 0 => {
                        let (os, oa) = (st.heap[i].1.size, st.heap[i].1.align);
                        if os != size || oa != align {
                            return Err(self.ub(st, format!("deallocation with wrong layout (size {size} align {align}, allocated with size {os} align {oa})")));
                        }
                        self.release(st, i);
                    }
                    _ => {
                        let de = self.describe(st, p);
                        return Err(self.ub(st, format!("invalid or double free of {de}")));
                    }
                }
                ret!()
            }
            Intr::Realloc => {
                if let V::T(t) = a[3] {
                    let lim = self.ar.konst(self.opts.max_alloc as u128 + 1, 64);
                    let small = self.ar.ult(t, lim);
                    if !self.decide(st, small)? {
                        ret!(V::C(0))
                    }
                }
                let p = self.concrete(st, a[0])?;
                let size = self.concrete(st, a[1])?;
                let align = self.concrete(st, a[2])?;
                let ns = self.concrete(st, a[3])?;
                if ns == 0 {
                    return Err(self.ub(st, "realloc to size 0".into()));
                }
                if ns > self.opts.max_alloc {
                    ret!(V::C(0))
                }
                match st.heap.binary_search_by_key(&p, |x| x.0) {
                    Ok(i) if st.heap[i].1.size > 0 => {
                        let (os, oa) = (st.heap[i].1.size, st.heap[i].1.align);
                        if os != size || oa != align {
                            return Err(self.ub(st, format!("realloc with wrong layout (size {size} align {align}, allocated with size {os} align {oa})")));
                        }
                        let q = self.alloc(st, ns, align, false);
                        let c = size.min(ns) as usize;
                        let src: Vec<u64> = st.heap[i].1.data[..c].to_vec();
                        let l = st.heap.len() - 1;
                        Rc::make_mut(&mut st.heap[l].1).data[..c].copy_from_slice(&src);
                        self.release(st, i);
                        ret!(V::C(q))
                    }
                    _ => {
                        let de = self.describe(st, p);
                        Err(self.ub(st, format!("realloc of {de}")))
                    }
                }
            }
            Intr::AllocErr if st.no_abort => {
                let m = st.model.clone();
                Err(self.violation(st, &m, "assertion", "an allocation that must not be attempted".into()))
            }
            Intr::AllocErr => Ok(Flow::End(End::Aborted("allocation failure".into()))),
            Intr::Throw => {
                st.notes.push(format!("panic: {}", pretty(&self.m.funcs[target as usize].name)));
                Ok(self.throw(st, inv))
            }
            Intr::NoUnwindPanic => {
                let n = pretty(&self.m.funcs[target as usize].name);
                if n.contains("panic_in_cleanup") || n.contains("panic_cannot_unwind") {
                    let m = st.model.clone();
                    return Err(self.violation(st, &m, "abort", format!("the process aborts: {n}")));
                }
                Err(self.ub(st, format!("non-unwinding panic (library undefined-behaviour check): {n}")))
            }
            Intr::PanicCleanup => {
                let vt = self.vtable_addr;
                ret!(V::C(1), V::C(vt))
            }
            Intr::Trap => {
                let m = st.model.clone();
                Err(self.violation(st, &m, "abort", "the process aborts".into()))
            }
            Intr::MemCpy => {
                let n = self.concrete(st, a[2])?;
                let dd = self.addr(st, a[0], n)?;
                let ss = self.addr(st, a[1], n)?;
                self.copy(st, dd, ss, n)?;
                if w == 64 {
                    ret!(V::C(dd))
                }
                ret!()
            }
            Intr::MemSet => {
                let n = self.concrete(st, a[2])?;
                let dd = self.addr(st, a[0], n)?;
                for i in 0..n {
                    self.store(st, dd + i, 8, a[1], 1)?;
                }
                ret!()
            }
            Intr::MemCmp => {
                let n = self.concrete(st, a[2])?;
                let x = self.addr(st, a[0], n)?;
                let y = self.addr(st, a[1], n)?;
                for i in 0..n {
                    let (p, q) = (self.load(st, x + i, 8, 1)?, self.load(st, y + i, 8, 1)?);
                    let e = match self.icmp(Pred::Eq, 8, p, q) {
                        V::C(c) => c == 1,
                        V::T(t) => self.decide(st, t)?,
                    };
                    if !e {
                        let lt = match self.icmp(Pred::Ult, 8, p, q) {
                            V::C(c) => c == 1,
                            V::T(t) => self.decide(st, t)?,
                        };
                        ret!(V::C(if lt { 0xffff_ffff } else { 1 }))
                    }
                }
                ret!(V::C(0))
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if let (V::C(x), V::C(y)) = (a[0], a[1]) {
                    let m = mask(w);
                    let (sx, sy) = (sext(x as u128, w), sext(y as u128, w));
                    let (r, o) = match k {
                        Intr::UAddO => {
                            let r = x as u128 + y as u128;
                            (r, r > m)
                        }
                        Intr::USubO => ((x as u128).wrapping_sub(y as u128), x < y),
                        Intr::UMulO => {
                            let r = x as u128 * y as u128;
                            (r, r > m)
                        }
                        _ => {
                            let r = match k {
                                Intr::SAddO => sx + sy,
                                Intr::SSubO => sx - sy,
                                _ => sx * sy,
                            };
                            (r as u128, sext(r as u128 & m, w) != r)
                        }
                    };
                    ret!(V::C((r & m) as u64), V::C(o as u64))
                }
                let (x, y) = (self.t(a[0], w), self.t(a[1], w));
                let (r, o) = match k {
                    Intr::UAddO => {
                        let r = self.ar.add(x, y);
                        // for a constant addend: x + c overflows iff x > MAX - c
                        let o = if let Some(c) = self.ar.as_const(y) {
                            let l = self.ar.konst(mask(w) - c, w);
                            self.ar.ult(l, x)
                        } else {
                            self.ar.ult(r, x)
                        };
                        (r, o)
                    }
                    Intr::USubO => {
                        let r = self.ar.sub(x, y);
                        let o = self.ar.ult(x, y);
                        (r, o)
                    }
                    _ => {
                        if 2 * w > 128 {
                            let (Some(p), Some(q)) = (self.ar.as_const(x), self.ar.as_const(y)) else {
                                let (r, o) = match k {
                                    Intr::UMulO => {
                                        // x * c overflows iff x > MAX / c
                                        let (x, c) = match (self.ar.as_const(x), self.ar.as_const(y)) {
                                            (Some(c), None) => (y, c),
                                            (None, Some(c)) => (x, c),
                                            _ => return Err(End::Error("wide overflow check".into())),
                                        };
                                        let kc = self.ar.konst(c, w);
                                        let r = self.ar.mul(x, kc);
                                        let o = if c == 0 {
                                            self.ar.konst(0, 1)
                                        } else {
                                            let l = self.ar.konst(mask(w) / c, w);
                                            self.ar.ult(l, x)
                                        };
                                        (r, o)
                                    }
                                    _ => return Err(End::Error("wide overflow check".into())),
                                };
                                let (r, o) = (self.v(r), self.v(o));
                                ret!(r, o);
                            };
                            let (sp, sq) = (p as i128, q as i128);
                            let (r, o) = match k {
                                Intr::SAddO => {
                                    let r = sp.overflowing_add(sq);
                                    (r.0 as u128, r.1)
                                }
                                Intr::SSubO => {
                                    let r = sp.overflowing_sub(sq);
                                    (r.0 as u128, r.1)
                                }
                                Intr::SMulO => {
                                    let r = sp.overflowing_mul(sq);
                                    (r.0 as u128, r.1)
                                }
                                _ => p.overflowing_mul(q),
                            };
                            if w != 128 {
                                return Err(End::Error("wide overflow check".into()));
                            }
                            let r = self.ar.konst(r, w);
                            let r = self.v(r);
                            ret!(r, V::C(o as u64))
                        }
                        let ext = |s: &mut Arena, t: T| if matches!(k, Intr::UMulO) { s.zext(t, 2 * w) } else { s.sext(t, 2 * w) };
                        let (xx, yy) = (ext(&mut self.ar, x), ext(&mut self.ar, y));
                        let full = match k {
                            Intr::SAddO => self.ar.add(xx, yy),
                            Intr::SSubO => self.ar.sub(xx, yy),
                            _ => self.ar.mul(xx, yy),
                        };
                        let lo = self.ar.trunc(full, w);
                        let back = ext(&mut self.ar, lo);
                        let e = self.ar.eq(full, back);
                        (lo, self.ar.not(e))
                    }
                };
                let (r, o) = (self.v(r), self.v(o));
                ret!(r, o)
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let p = match k {
                    Intr::UMin => Pred::Ult,
                    Intr::UMax => Pred::Ugt,
                    Intr::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                match self.icmp(p, w, a[0], a[1]) {
                    V::C(c) => ret!(if c == 1 { a[0] } else { a[1] }),
                    V::T(c) => {
                        let (x, y) = (self.t(a[0], w), self.t(a[1], w));
                        let r = self.ar.ite(c, x, y);
                        let r = self.v(r);
                        ret!(r)
                    }
                }
            }
            Intr::UAddSat | Intr::USubSat => {
                let (x, y) = (self.t(a[0], w), self.t(a[1], w));
                let r = if k == Intr::UAddSat {
                    let s = self.ar.add(x, y);
                    let o = self.ar.ult(s, x);
                    let m = self.ar.konst(mask(w), w);
                    self.ar.ite(o, m, s)
                } else {
                    let s = self.ar.sub(x, y);
                    let o = self.ar.ult(x, y);
                    let z = self.ar.konst(0, w);
                    self.ar.ite(o, z, s)
                };
                let r = self.v(r);
                ret!(r)
            }
            Intr::CtPop => {
                if let V::C(c) = a[0] {
                    ret!(V::C(c.count_ones() as u64))
                }
                let t = self.t(a[0], w);
                let mut r = self.ar.konst(0, w);
                for i in 0..w {
                    let b = self.ar.extract(t, i, 1);
                    let z = self.ar.zext(b, w);
                    r = self.ar.add(r, z);
                }
                let r = self.v(r);
                ret!(r)
            }
            Intr::Ctlz | Intr::Cttz => {
                let c = self.concrete(st, a[0])?;
                let r = if c == 0 {
                    w as u64
                } else if k == Intr::Cttz {
                    c.trailing_zeros() as u64
                } else {
                    (c.leading_zeros() - (64 - w)) as u64
                };
                ret!(V::C(r))
            }
            Intr::BSwap => {
                let t = self.t(a[0], w);
                let mut r = self.ar.extract(t, 0, 8);
                for i in 1..w / 8 {
                    let b = self.ar.extract(t, i * 8, 8);
                    r = self.ar.concat(r, b);
                }
                let r = self.v(r);
                ret!(r)
            }
            Intr::FShl | Intr::FShr => {
                let s = (self.concrete(st, a[2])? % w as u64) as u32;
                let (x, y) = (self.t(a[0], w), self.t(a[1], w));
                let r = if k == Intr::FShl {
                    if s == 0 {
                        x
                    } else {
                        let h = self.ar.extract(x, 0, w - s);
                        let l = self.ar.extract(y, w - s, s);
                        self.ar.concat(h, l)
                    }
                } else if s == 0 {
                    y
                } else {
                    let h = self.ar.extract(x, 0, s);
                    let l = self.ar.extract(y, s, w - s);
                    self.ar.concat(h, l)
                };
                let r = self.v(r);
                ret!(r)
            }
            Intr::Expect | Intr::First => ret!(a[0]),
            Intr::Zero if retw.is_empty() => ret!(),
            Intr::Zero => ret!(V::C(0)),
            Intr::Malloc => {
                let size = self.concrete(st, a[0])?;
                if size > self.opts.max_alloc {
                    ret!(V::C(0))
                }
                let p = self.alloc(st, size.max(1), 16, false);
                ret!(V::C(p))
            }
            Intr::Free => {
                let p = self.concrete(st, a[0])?;
                match st.heap.binary_search_by_key(&p, |x| x.0) {
                    Ok(i) if st.heap[i].1.size > 0 => {
                        self.release(st, i);
                    }
                    Err(_) if p == 0 => {}
                    _ => {
                        let de = self.describe(st, p);
                        return Err(self.ub(st, format!("invalid or double free of {de}")));
                    }
                }
                ret!()
            }
            Intr::KeyCreate => {
                let p = self.addr(st, a[0], 4)?;
                self.store(st, p, 32, V::C(1), 4)?;
                ret!(V::C(0))
            }
            Intr::Hash => {
                let r = self.ar.konst(7, w);
                let r = self.v(r);
                ret!(r)
            }
            Intr::WideMul => {
                // u128::carrying_mul_add, of constants only
                let mut k = [0u128; 4];
                for i in 0..4 {
                    let t = self.t(a[i + 1], 128);
                    match self.ar.as_const(t) {
                        Some(c) => k[i] = c,
                        None => return Err(End::Error("symbolic u128::carrying_mul_add".into())),
                    }
                }
                let (a0, a1, b0, b1) = (k[0] as u64 as u128, k[0] >> 64, k[1] as u64 as u128, k[1] >> 64);
                let ll = a0 * b0;
                let m1 = a1 * b0 + (ll >> 64);
                let m2 = a0 * b1 + (m1 as u64 as u128);
                let mut hi = a1 * b1 + (m1 >> 64) + (m2 >> 64);
                let mut lo = (m2 << 64) | (ll as u64 as u128);
                for c in [k[2], k[3]] {
                    let (r, o) = lo.overflowing_add(c);
                    lo = r;
                    hi += o as u128;
                }
                let p = self.addr(st, a[0], 32)?;
                for (off, x) in [(0, lo), (16, hi)] {
                    for half in 0..2 {
                        self.store(st, p + off + 8 * half, 64, V::C((x >> (64 * half)) as u64), 8)?;
                    }
                }
                ret!()
            }
            Intr::One => ret!(V::C(1)),
            Intr::RandKeys => ret!(V::C(1), V::C(2)),
            Intr::LlAssume => {
                let b = match a[0] {
                    V::C(c) => c & 1 == 1,
                    V::T(t) => self.decide(st, t)?,
                };
                if !b {
                    return Err(self.ub(st, "assumption promised to the compiler is false".into()));
                }
                ret!()
            }
            Intr::PtrMask => {
                let r = self.bin(st, Bin::And, 64, a[0], a[1], 0)?;
                ret!(r)
            }
            Intr::Abs => {
                let t = self.t(a[0], w);
                let z = self.ar.konst(0, w);
                let n = self.ar.sub(z, t);
                let c = self.ar.slt(t, z);
                let r = self.ar.ite(c, n, t);
                let r = self.v(r);
                ret!(r)
            }
            Intr::IsConst => ret!(V::C(0)),
            Intr::SCmp | Intr::UCmp => {
                // three-way comparison; operand width is not the result width
                let ow = match (a[0], a[1]) {
                    (V::T(t), _) | (_, V::T(t)) => self.ar.w(t),
                    _ => 64,
                };
                let n = &self.m.funcs[target as usize].name;
                let ow = n.rsplit('.').next().and_then(|s| s.strip_prefix('i')).and_then(|s| s.parse().ok()).unwrap_or(ow);
                let p = if k == Intr::SCmp { Pred::Slt } else { Pred::Ult };
                let lt = self.icmp(p, ow, a[0], a[1]);
                let gt = self.icmp(p, ow, a[1], a[0]);
                let (l, g) = (self.t(lt, 1), self.t(gt, 1));
                let (m1, p1, z) = (self.ar.konst(mask(w), w), self.ar.konst(1, w), self.ar.konst(0, w));
                let i = self.ar.ite(g, p1, z);
                let r = self.ar.ite(l, m1, i);
                let r = self.v(r);
                ret!(r)
            }
        }
    }
}
pub fn dur_ms(d: Duration) -> f64 {
    d.as_micros() as f64 / 1000.0
}
