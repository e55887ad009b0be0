//! lsym: symbolic execution of LLVM IR with z3.
mod exec;
mod ir;
mod term;
mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, ...) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Result of one worker in a line-based text form (merged by the parent).
#[derive(Default)]
struct Res {
    stats: Stats,
    covers: BTreeMap<String, u64>,
    checks: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    funcs: Vec<u32>,
    errors: Vec<String>,
    bounds: Vec<String>,
    samples: Vec<Vec<String>>,
    viols: Vec<Vec<String>>, // kind, msg, trace..., "model", entries
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\t', "\\t").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

impl Res {
    fn take(ex: &Exec) -> Res {
        let mut r = Res::default();
        r.stats = ex.st.clone();
        r.covers = ex.covers.clone();
        r.checks = ex.checks.clone();
        r.ends = ex.ends.clone();
        r.samples = ex.samples.clone();
        r.funcs = ex.executed.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32).collect();
        r
    }
    fn end(&mut self, e: End) -> bool {
        match e {
            End::Violation(v) => {
                let mut x = vec![v.kind, v.msg, v.trace.len().to_string()];
                x.extend(v.trace);
                for (n, k, w) in v.model {
                    x.push(format!("{n}={k}:{w}"));
                }
                self.viols.push(x);
                true
            }
            End::Error(s) => {
                if self.errors.len() < 5 {
                    self.errors.push(s);
                }
                true
            }
            End::Bound(s) => {
                if self.bounds.len() < 5 {
                    self.bounds.push(s);
                }
                true
            }
            _ => false,
        }
    }
    fn ser(&self) -> String {
        let mut o = String::new();
        let s = &self.stats;
        let _ = writeln!(
            o,
            "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
            s.paths, s.done, s.killed, s.aborted, s.forks, s.steps, s.queries, s.q_sat, s.q_unsat, s.q_cached, s.q_us, s.checks, s.checks_sym, s.max_steps
        );
        for (t, m) in [("C", &self.covers), ("K", &self.checks), ("E", &self.ends)] {
            for (k, v) in m {
                let _ = writeln!(o, "{t}\t{}\t{v}", esc(k));
            }
        }
        let _ = writeln!(o, "F\t{}", self.funcs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\t"));
        for e in &self.errors {
            let _ = writeln!(o, "X\t{}", esc(e));
        }
        for e in &self.bounds {
            let _ = writeln!(o, "B\t{}", esc(e));
        }
        for v in &self.samples {
            let _ = writeln!(o, "P\t{}", v.iter().map(|x| esc(x)).collect::<Vec<_>>().join("\t"));
        }
        for v in &self.viols {
            let _ = writeln!(o, "V\t{}", v.iter().map(|x| esc(x)).collect::<Vec<_>>().join("\t"));
        }
        o.push_str("END\n");
        o
    }
    fn merge(&mut self, text: &str) -> bool {
        for l in text.lines() {
            let f: Vec<String> = l.split('\t').map(unesc).collect();
            match f[0].as_str() {
                "S" => {
                    let n: Vec<u64> = f[1..].iter().map(|x| x.parse().unwrap()).collect();
                    let s = &mut self.stats;
                    s.paths += n[0];
                    s.done += n[1];
                    s.killed += n[2];
                    s.aborted += n[3];
                    s.forks += n[4];
                    s.steps += n[5];
                    s.queries += n[6];
                    s.q_sat += n[7];
                    s.q_unsat += n[8];
                    s.q_cached += n[9];
                    s.q_us += n[10];
                    s.checks += n[11];
                    s.checks_sym += n[12];
                    s.max_steps = s.max_steps.max(n[13]);
                }
                "C" => *self.covers.entry(f[1].clone()).or_default() += f[2].parse::<u64>().unwrap(),
                "K" => *self.checks.entry(f[1].clone()).or_default() += f[2].parse::<u64>().unwrap(),
                "E" => *self.ends.entry(f[1].clone()).or_default() += f[2].parse::<u64>().unwrap(),
                "F" => self.funcs.extend(f[1..].iter().filter_map(|x| x.parse::<u32>().ok())),
                "X" => self.errors.push(f[1].clone()),
                "B" => self.bounds.push(f[1].clone()),
                "P" => self.samples.push(f[1..].to_vec()),
                "V" => self.viols.push(f[1..].to_vec()),
                "END" => return true,
                _ => {}
            }
        }
        false
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut jobs = 8usize;
    let mut timeout = 600.0f64;
    let mut max_steps = 50_000_000u64;
    let mut rlimit = 100_000_000u32;
    let mut max_alloc = 1u64 << 16;
    let mut gep = true;
    let mut samples = 0usize;
    let mut seed = 1u64;
    let mut i = 1;
    while i < a.len() {
        let o = a[i].clone();
        if o == "--no-gep-check" {
            gep = false;
        } else if let Some(_) = o.strip_prefix("--") {
            i += 1;
            let v = a.get(i).cloned().unwrap_or_default();
            match o.as_str() {
                "--entry" => entry = v,
                "--out" => out = v,
                "--jobs" => jobs = v.parse().unwrap(),
                "--timeout" => timeout = v.parse().unwrap(),
                "--max-steps" => max_steps = v.parse().unwrap(),
                "--rlimit" => rlimit = v.parse().unwrap(),
                "--samples" => samples = v.parse().unwrap(),
                "--seed" => seed = v.parse().unwrap(),
                "--max-alloc" => max_alloc = v.parse().unwrap(),
                _ => panic!("unknown option {o}"),
            }
        } else {
            file = o;
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read IR");
    let opts = Opts { max_steps, max_alloc, rlimit, deadline: Some(t0 + Duration::from_secs_f64(timeout)), gep_check: gep, samples, seed };
    let mut ex = match Exec::new(&text, opts) {
        Ok(e) => e,
        Err(e) => {
            eprintln!("lsym: {e}");
            std::process::exit(2)
        }
    };
    drop(text);
    let s = match ex.start(&entry) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("lsym: {e}");
            std::process::exit(2)
        }
    };
    ex.work.push_back(s);
    let mut total = Res::default();
    let mut stop = false;
    // phase 1: breadth-first until there is enough to share out
    let goal = if jobs > 1 { jobs * 16 } else { usize::MAX };
    let t1 = Instant::now();
    ex.slice = jobs > 1;
    while let Some(s) = if jobs > 1 { ex.work.pop_front() } else { ex.work.pop_back() } {
        let e = ex.run(s);
        if total.end(e) {
            stop = true;
            break;
        }
        if ex.work.len() >= goal || (jobs > 1 && t1.elapsed().as_secs() >= 4 && ex.work.len() > 1) {
            break;
        }
    }
    ex.slice = false;
    let seq = t1.elapsed();
    if stop || ex.work.is_empty() {
        let r = Res::take(&ex);
        total.merge(&r.ser());
    } else {
        // phase 2: forked workers
        let base = Res::take(&ex);
        total.merge(&base.ser());
        let states: Vec<State> = ex.work.drain(..).collect();
        let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut std::sync::atomic::AtomicU64;
        let (ctr, halt) = unsafe { (&*sh, &*sh.add(1)) };
        let tmp = format!("{}/lsym.{}", std::env::temp_dir().display(), std::process::id());
        let mut pids = vec![];
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9u64) }; // die with the parent
                ex.st = Stats::default();
                ex.covers.clear();
                ex.checks.clear();
                ex.ends.clear();
                ex.samples.clear();
                ex.rng = ex.rng.wrapping_mul(6364136223846793005).wrapping_add(j as u64 * 2 + 1);
                let mut r = Res::default();
                use std::sync::atomic::Ordering::SeqCst;
                'outer: loop {
                    let k = ctr.fetch_add(1, SeqCst) as usize;
                    if k >= states.len() {
                        break;
                    }
                    ex.work.push_back(states[k].clone());
                    while let Some(s) = ex.work.pop_back() {
                        if halt.load(SeqCst) != 0 {
                            break 'outer;
                        }
                        let e = ex.run(s);
                        if r.end(e) {
                            halt.store(1, SeqCst);
                            break 'outer;
                        }
                    }
                }
                let mut t = Res::take(&ex);
                t.errors = r.errors;
                t.bounds = r.bounds;
                t.viols = r.viols;
                std::fs::write(format!("{tmp}.{j}"), t.ser()).expect("worker result");
                unsafe { _exit(0) }
            }
            if pid < 0 {
                total.errors.push("fork failed".into());
            }
            pids.push(pid);
        }
        for (j, p) in pids.iter().enumerate() {
            let mut st = 0;
            unsafe { waitpid(*p, &mut st, 0) };
            let f = format!("{tmp}.{j}");
            match std::fs::read_to_string(&f) {
                Ok(t) if st == 0 => {
                    if !total.merge(&t) {
                        total.errors.push("truncated worker result".into());
                    }
                }
                _ => total.errors.push(format!("worker {j} ended abnormally (status {st:#x})")),
            }
            let _ = std::fs::remove_file(&f);
        }
    }
    total.funcs.sort();
    total.funcs.dedup();
    // report
    let wall = t0.elapsed();
    let s = &total.stats;
    let mut o = String::from("{\n");
    let verdict = if !total.viols.is_empty() {
        "violation"
    } else if !total.errors.is_empty() {
        "error"
    } else if !total.bounds.is_empty() {
        "bound"
    } else {
        "holds"
    };
    let _ = write!(o, "\"verdict\": {}, \"entry\": {}, \"wall_s\": {:.3}, \"sequential_s\": {:.3}, \"z3\": {},\n", js(verdict), js(&entry), wall.as_secs_f64(), seq.as_secs_f64(), js(&z3::version()));
    let _ = write!(
        o,
        "\"paths\": {}, \"completed\": {}, \"assumed_away\": {}, \"aborted\": {}, \"forks\": {}, \"instructions\": {}, \"longest_path\": {},\n",
        s.paths, s.done, s.killed, s.aborted, s.forks, s.steps, s.max_steps
    );
    let _ = write!(
        o,
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"cached\": {}, \"solver_s\": {:.3}, \"assertions\": {}, \"symbolic_assertions\": {},\n",
        s.queries,
        s.q_sat,
        s.q_unsat,
        s.q_cached,
        s.q_us as f64 / 1e6,
        s.checks,
        s.checks_sym
    );
    for (n, m) in [("covers", &total.covers), ("checks", &total.checks), ("ends", &total.ends)] {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        let _ = write!(o, "\"{n}\": {{{}}},\n", v.join(", "));
    }
    let fns: Vec<String> = total.funcs.iter().map(|f| js(&pretty(&ex.m.funcs[*f as usize].name))).collect();
    let _ = write!(o, "\"functions\": [{}],\n", fns.join(", "));
    let _ = write!(o, "\"errors\": [{}],\n", total.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = write!(o, "\"bounds\": [{}],\n", total.bounds.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let ents = |xs: &[String]| -> String {
        xs.iter()
            .map(|x| {
                let (a, b) = x.rsplit_once('=').unwrap();
                let (b, _) = b.split_once(':').unwrap();
                format!("{}: {}", js(a), js(b))
            })
            .collect::<Vec<_>>()
            .join(", ")
    };
    let ss: Vec<String> = total
        .samples
        .iter()
        .map(|v| format!("{{\"checks\": {}, \"hash\": {}, \"observations\": {}, \"model\": {{{}}}}}", v[0], js(&v[1]), v[2], ents(&v[3..])))
        .collect();
    let _ = write!(o, "\"samples\": [{}],\n", ss.join(",\n"));
    let vs: Vec<String> = total
        .viols
        .iter()
        .map(|v| {
            let n: usize = v[2].parse().unwrap();
            let tr: Vec<String> = v[3..3 + n].iter().map(|x| js(x)).collect();
            let mo: Vec<String> = v[3 + n..]
                .iter()
                .map(|x| {
                    let (a, b) = x.rsplit_once('=').unwrap();
                    let (b, _) = b.split_once(':').unwrap();
                    format!("{}: {}", js(a), js(b))
                })
                .collect();
            format!("{{\"kind\": {}, \"msg\": {}, \"trace\": [{}], \"model\": {{{}}}}}", js(&v[0]), js(&v[1]), tr.join(", "), mo.join(", "))
        })
        .collect();
    let _ = write!(o, "\"violations\": [{}]\n}}\n", vs.join(",\n"));
    if out.is_empty() {
        print!("{o}");
    } else {
        std::fs::write(&out, &o).expect("write report");
    }
    std::process::exit(match verdict {
        "holds" => 0,
        "violation" => 1,
        _ => 2,
    });
}
