"""Driver of the solver-based checks: builds the encoding from /repo, runs lsym, replays, reports."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GECS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TRIPLE = "x86_64-unknown-linux-gnu"
STABLE, NIGHTLY = "stable", "nightly"
JOBS = min(8, os.cpu_count() or 1)
_lock = threading.Lock()


class Broken(Exception):
    """The check itself cannot give an answer."""


class BuildFailed(Broken):
    """The harness does not compile against the current tree."""

    def __init__(self, cfg, text):
        Broken.__init__(self, text)
        self.cfg = cfg


def log(*a):
    with _lock:
        print("[%7.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()
QUICK = 720  # seconds of a quick check after which what is left is cut short, and reported as truncated


def sh(cmd, env=None, cwd=None, timeout=None, ok=True):
    e = dict(os.environ)
    e.update({"CARGO_TERM_COLOR": "never", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0"})
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as x:
        if ok:
            raise Broken("timeout: " + " ".join(cmd))
        return None
    if ok and p.returncode != 0:
        raise Broken("%s failed (%d)\n%s\n%s" % (" ".join(cmd), p.returncode, p.stdout[-3000:], p.stderr[-6000:]))
    return p


def ensure_lsym():
    out = os.path.join(BUILD, "lsym")
    sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "lsym"),
       env={"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": out})
    return os.path.join(out, "release", "lsym")


_sysroot = None


def llvm_bin():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", "--print", "sysroot"], env={"RUSTUP_TOOLCHAIN": NIGHTLY}).stdout.strip()
    return os.path.join(_sysroot, "lib", "rustlib", TRIPLE, "bin")


class Config:
    """One build configuration of the crate under test and its harness."""

    def __init__(self, name, crate="core", features=(), debug=True, cfgs=(), hook=(), buildstd=False, triple=TRIPLE, passes="sroa"):
        self.name, self.crate, self.features, self.debug, self.cfgs, self.hook = name, crate, features, debug, cfgs, hook
        self.buildstd, self.triple, self.passes = buildstd, triple, passes

    def dir(self):
        return os.path.join(VERIF, "harness", self.crate)

    def feat(self):
        return ["--features", ",".join(self.features)] if self.features else []

    def flags(self):
        return ["--cfg=" + c for c in tuple(self.hook) + tuple(self.cfgs)]

    def what(self):
        return "%s: features [%s], debug assertions and overflow checks %s%s" % (
            self.name, ",".join(self.features), "on" if self.debug else "off",
            ", cfg " + ",".join(self.hook) if self.hook else "")


CARGO_LOCK = threading.Lock()


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def fresh_target(td, cfg):
    """cargo's freshness test goes by file times; ours goes by content: drop stale gecs builds."""
    mark, h = os.path.join(td, "tree.sha256"), tree_hash()
    try:
        if open(mark).read() == h:
            return
    except OSError:
        pass
    if os.path.isdir(td):
        for extra in ([], ["--target", cfg.triple], ["--release"]):
            sh(["cargo", "clean", "--offline", "-q"] + (["-p", "hmac"] if cfg.crate == "mac" else ["-p", "gecs", "-p", "gecs_macros"]) + extra, cwd=cfg.dir(),
               env={"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": td}, ok=False)
    os.makedirs(td, exist_ok=True)
    with open(mark, "w") as f:
        f.write(h)


def lockfile(crate_dir):
    """The harness crates resolve exactly what /repo resolves."""
    src, dst = os.path.join(REPO, "Cargo.lock"), os.path.join(crate_dir, "Cargo.lock")
    if not os.path.exists(dst) and os.path.exists(src):
        shutil.copy(src, dst)


def build_ir(cfg):
    """/repo's current source + harness -> one textual LLVM module."""
    out = os.path.join(BUILD, "ir", cfg.name + ".ll")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    td = os.path.join(BUILD, "t-ir" if cfg.crate != "mac" else "t-ir-mac")
    prepare(cfg)
    rf = ["-Awarnings", "--emit=llvm-bc,link", "--cfg=lsym", "-Cno-prepopulate-passes", "-Zshare-generics=no",
          "-Zmir-opt-level=0", "-Ccodegen-units=1"] + cfg.flags()
    if cfg.crate == "mac":
        rf.append("-Zub-checks=no")
    if not cfg.debug:
        rf += ["-Cdebug-assertions=off", "-Coverflow-checks=off"]
    # a fresh hash on every run: the encoding always comes from the current working tree
    with CARGO_LOCK:
        lockfile(cfg.dir())
        fresh_target(td, cfg)
        cmd = ["cargo", "build", "--lib", "--offline", "-q", "--target", cfg.triple, "--message-format=json"] + cfg.feat()
        if cfg.buildstd:
            cmd.append("-Zbuild-std=std,panic_unwind")
        p = sh(cmd, cwd=cfg.dir(), env={"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": td, "RUSTFLAGS": " ".join(rf)}, ok=False)
        if p.returncode != 0:
            msgs = []
            for l in p.stdout.splitlines():
                try:
                    m = json.loads(l)
                    if m.get("reason") == "compiler-message":
                        msgs.append(m["message"].get("rendered") or "")
                except ValueError:
                    pass
            raise BuildFailed(cfg, "building the encoding of %s failed\n%s\n%s" % (cfg.name, "".join(msgs)[-6000:], p.stderr[-3000:]))
        bcs = []
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-artifact" or "proc-macro" in m["target"]["kind"] or "custom-build" in m["target"]["kind"]:
                continue
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    b = os.path.join(os.path.dirname(f), os.path.basename(f)[3:-5] + ".bc")
                    if os.path.exists(b) and "/" + cfg.triple + "/" in b and not re.match(r"(test|panic_abort)-", os.path.basename(b)):
                        bcs.append(b)
        if not bcs:
            raise Broken("no bitcode produced for " + cfg.name)
        B = llvm_bin()
        sh([B + "/llvm-link"] + bcs + ["-o", out + ".all.bc"])
    nm = sh([B + "/llvm-nm", "--defined-only", "--extern-only", out + ".all.bc"]).stdout
    names = [l.split()[-1] for l in nm.splitlines() if l.strip()]
    names = [n for n in names if not n.startswith("_R") and not n.startswith("rust_") and not n.startswith("__") and not n.startswith("_Z")]
    if cfg.buildstd:
        names = [n for n in names if re.match(r"^(c\d\d|h)_", n)]
    if cfg.crate == "mac":
        # inlining for speed, except of what the executor replaces by a model (exec.rs, `intrinsic`)
        every = sh([B + "/llvm-nm", "--defined-only", out + ".all.bc"]).stdout.split()
        keep = sorted({n for n in every if re.search(r"hashmap_random_keys|13DefaultHasher.*6Hasher|xxh38xxh3_128|carrying_mul_add|9panicking|handle_alloc_error|9drop_glue.*11proc_macro2", n)})
        with open(out + ".args", "w") as f:
            for n in keep:
                f.write("-force-attribute=%s:noinline\n-force-remove-attribute=%s:alwaysinline\n" % (n, n))
        sh([B + "/opt", "@" + out + ".args", "-passes=internalize,globaldce,forceattrs,cgscc(inline,function(%s)),globaldce" % cfg.passes,
            "-inline-threshold=25", "-inlinehint-threshold=25", "-internalize-public-api-list=" + ",".join(names), out + ".all.bc", "-o", out + ".bc"])
    else:
        sh([B + "/opt", "-passes=internalize,globaldce,function(%s)" % cfg.passes, "-internalize-public-api-list=" + ",".join(names),
            out + ".all.bc", "-o", out + ".bc"])
    sh([B + "/llvm-dis", out + ".bc", "-o", out])
    os.remove(out + ".all.bc")
    os.remove(out + ".bc")
    return out


ADMIT_LOCK = threading.Lock()
ADMITTED = {}


def admit(cfg):
    """Which of the unsound client programs does the compiler admit? (dict: how many it refused, per reason; who is left)"""
    key = tuple(cfg.features)
    if key in ADMITTED:
        return ADMITTED[key]
    import importlib.util
    spec = importlib.util.spec_from_file_location("env_gen", os.path.join(cfg.dir(), "gen.py"))
    gen = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(gen)
    events = "events" in cfg.features
    d = os.path.join(BUILD, "admit")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[workspace]\n[package]\nname = "admit"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\ngecs = { path = "%s"%s }\n' % (
            REPO, ", features = [%s]" % ", ".join('"%s"' % x for x in cfg.features) if cfg.features else ""))
    lockfile(d)
    td = os.path.join(BUILD, "t-admit")
    reasons, texts = {}, dict(gen.pairs(events))

    def compile(names):
        text, lines = gen.admission_lib(set(names), events)
        with open(os.path.join(d, "src", "lib.rs"), "w") as f:
            f.write(text)
        p = sh(["cargo", "check", "--offline", "-q", "--message-format=json"], cwd=d, ok=False,
               env={"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": td, "RUSTFLAGS": "-Awarnings"})
        hit = {}
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error" or m["target"]["name"] != "admit":
                continue
            at = []
            for sp in m["message"]["spans"]:
                while sp:
                    if sp["file_name"].endswith("src/lib.rs") and not sp["file_name"].startswith(REPO):
                        at.append(sp["line_start"])
                    sp = (sp.get("expansion") or {}).get("span")
            for n, (lo, hi) in lines.items():
                if any(lo <= x <= hi for x in at):
                    hit[n] = (m["message"].get("code") or {}).get("code") or m["message"]["message"][:50]
        return p.returncode == 0, hit, p.stderr

    fresh_target(td, cfg)
    left = list(texts)
    while left:
        ok, hit, err = compile(left)
        if ok:
            break
        if not hit:
            # nothing to tell them apart by: one by one
            alone = []
            for n in left:
                ok, _, err = compile([n])
                if ok:
                    alone.append(n)
                else:
                    reasons["alone"] = reasons.get("alone", 0) + 1
            left = alone
            break
        for n in hit.values():
            reasons[n] = reasons.get(n, 0) + 1
        left = [n for n in left if n not in hit]
    gen.write_lib(left, events, os.path.join(cfg.dir(), "src"))
    ADMITTED[key] = {"programs": len(texts), "refused": reasons, "admitted": left, "text": {n: texts[n] for n in left}}
    log("%d unsound client programs: %d refused by the compiler, admitted: %s" % (len(texts), sum(reasons.values()), " ".join(left[:20]) or "none"))
    return ADMITTED[key]


def prepare(cfg):
    if cfg.crate == "env":
        with ADMIT_LOCK:
            admit(cfg)
    if cfg.crate == "prog":
        with CARGO_LOCK:
            sh([sys.executable, "gen.py"], cwd=cfg.dir())
    if cfg.crate == "mac":
        import importlib.util
        spec = importlib.util.spec_from_file_location("gen_lib", os.path.join(cfg.dir(), "gen_lib.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        with CARGO_LOCK:
            m.write(REPO, cfg.dir())


def build_native(cfg):
    """The same harness and the same /repo, compiled by the stable toolchain: the replay target."""
    td = os.path.join(BUILD, "t-native-" + cfg.name)
    prof = [] if cfg.debug else ["--release"]
    lockfile(cfg.dir())
    prepare(cfg)
    fresh_target(td, cfg)
    sh(["cargo", "build", "--bin", "hreplay", "--offline", "-q"] + prof + cfg.feat(), cwd=cfg.dir(),
       env={"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": td, "RUSTFLAGS": " ".join(["-Awarnings"] + cfg.flags())})
    return os.path.join(td, "debug" if cfg.debug else "release", "hreplay")


def miri(cfg, entry, inline, timeout=400):
    td = os.path.join(BUILD, "t-miri-" + cfg.name)
    prof = [] if cfg.debug else ["--release"]
    fresh_target(td, cfg)
    p = sh(["cargo", "miri", "run", "--bin", "hreplay", "--offline", "-q"] + prof + cfg.feat() + ["--", entry, "inline:" + inline],
           cwd=cfg.dir(), timeout=timeout, ok=False,
           env={"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": td, "RUSTFLAGS": " ".join(["-Awarnings"] + cfg.flags()),
                "MIRIFLAGS": "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"})
    return p


class Run:
    """One symbolic execution: an entry of a configuration, with its stated bounds."""

    def __init__(self, cfg, entry, bound="", timeout=300, max_alloc=65536, max_steps=20_000_000, covers=(), samples=2, no_gep=False, rlimit=None, loose=None, jobs=None):
        self.jobs, self.rlimit, self.loose = jobs or JOBS, rlimit, loose
        self.cfg, self.entry, self.bound, self.timeout = cfg, entry, bound, timeout
        self.max_alloc, self.max_steps, self.covers, self.samples, self.no_gep = max_alloc, max_steps, covers, samples, no_gep


def assignment(model):
    return "\n".join("%s=%s" % (k, v) for k, v in model.items())


def replay(run, native, v, prop, n):
    """Replays a counterexample on the real code. Returns (confirmed, how, path)."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s-%s-%s-%d" % (prop, run.cfg.name, run.entry, n))
    with open(base + ".vals", "w") as f:
        f.write(assignment(v["model"]) + "\n")
    how, ok = "", False
    inline = assignment(v["model"]).replace("\n", ",")
    try:
        p = subprocess.run([native, run.entry, base + ".vals"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, errors="replace")
        o = p.stdout
        if p.returncode == 1 and "CHECK-FAILED" in o:
            ok, how = True, "native replay: " + [l for l in o.splitlines() if "CHECK-FAILED" in l][0]
        elif p.returncode < 0 or p.returncode in (134, 139):
            ok, how = True, "native replay: killed by signal %d: %s" % (-p.returncode, p.stderr.strip()[-300:])
        elif p.returncode == 101:
            ok, how = True, "native replay: panicked"
        elif v["kind"] == "panic" and p.returncode != 0:
            ok, how = True, "native replay: exit %d" % p.returncode
        else:
            how = "native replay: exit %d %s" % (p.returncode, o.strip()[-200:])
    except subprocess.TimeoutExpired:
        ok, how = True, "native replay: does not terminate within 60 s"
    if not ok:
        p = miri(run.cfg, run.entry, inline)
        if p is None:
            how += "; miri: timeout"
        elif "Undefined Behavior" in p.stderr:
            ok = True
            how = "miri: " + "".join(l for l in p.stderr.splitlines() if "Undefined Behavior" in l)[:300]
        elif "CHECK-FAILED" in p.stdout or "abnormal termination" in p.stderr:
            ok, how = True, "miri: " + (p.stdout + p.stderr)[-300:]
        else:
            how += "; miri: exit %d %s" % (p.returncode, (p.stdout + p.stderr)[-300:])
    program = None
    if run.entry == "c18_unsound":
        a = ADMITTED[tuple(run.cfg.features)]
        program = a["text"][a["admitted"][min(int(v["model"].get("case#0", 0)), len(a["admitted"]) - 1)]]
    with open(base + ".json", "w") as f:
        json.dump({"property": prop, "config": run.cfg.what(), "entry": run.entry, "kind": v["kind"], "message": v["msg"], "program": program,
                   "trace": v["trace"], "assignment": v["model"], "confirmed": ok, "replay": how,
                   "how_to_replay": "python3 %s/run.py replay %s.json" % (VERIF, base), "cfg": run.cfg.name}, f, indent=1)
    return ok, how, base + ".json"


def program(text, features):
    """Compiles and runs a client program of /repo's crate. (exit code of the build, of the run, its output)"""
    d = os.path.join(BUILD, "program")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[workspace]\n[package]\nname = "program"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\ngecs = { path = "%s" }\n'
                '[features]\np0 = []\np1 = []\np2 = []\np3 = []\n[profile.dev]\ndebug = false\nincremental = false\n' % REPO)
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(text)
    lockfile(d)
    env = {"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": os.path.join(BUILD, "t-program"), "RUSTFLAGS": "-Awarnings"}
    args = ["--features", ",".join(features)] if features else []
    with CARGO_LOCK:
        b = sh(["cargo", "build", "--offline", "-q"] + args, cwd=d, env=env, ok=False, timeout=300)
    if b is None or b.returncode != 0:
        return 1, None, b.stderr if b else "timeout"
    try:
        r = subprocess.run([os.path.join(BUILD, "t-program", "debug", "program")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, errors="replace")
        return 0, r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 0, -1, "does not end"


def unsafe_words(features):
    """What forbid(unsafe_code) refuses, in rustc's own expansion of the client program just compiled."""
    with CARGO_LOCK:
        p = sh(["cargo", "rustc", "--offline", "-q"] + (["--features", ",".join(features)] if features else []) + ["--", "-Zunpretty=expanded"],
               cwd=os.path.join(BUILD, "program"), ok=False, timeout=300,
               env={"RUSTUP_TOOLCHAIN": NIGHTLY, "CARGO_TARGET_DIR": os.path.join(BUILD, "t-expanded"), "RUSTFLAGS": "-Awarnings"})
    if p is None or p.returncode != 0:
        return []
    t = re.sub(r'//[^\n]*|#\[doc = r?#*".*?"#*\]|"(?:[^"\\\\]|\\\\.)*"', " ", p.stdout, flags=re.S)
    t = re.sub(r"unsafe impl[^{;]*TrivialClone", " ", t)
    t = t.replace("#![forbid(unsafe_code)]", " ")
    return [l.strip()[:120] for l in t.splitlines() if re.search(r"\b(unsafe|unsafe_code|no_mangle|export_name|link_section|global_asm|naked)\b", l)]


def confirm_program(run, native, v, prop, n):
    """A candidate found in the macro code is a violation only if the real compiler agrees, on a whole program."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s-%s-%s-%d" % (prop, run.cfg.name, run.entry, n))
    with open(base + ".vals", "w") as f:
        f.write(assignment(v["model"]) + "\n")
    ok, how, case = False, "", None
    try:
        p = subprocess.run([native, run.entry, base + ".vals"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, errors="replace")
        cases = [l[5:] for l in p.stdout.splitlines() if l.startswith("CASE ")]
        if not cases:
            how = "no program for this path (%s)" % p.stdout.strip()[-200:]
        else:
            case = json.loads(cases[-1])
    except subprocess.TimeoutExpired:
        how = "the native run does not end"
    if case:
        b0, r0, o0 = program(case["base"], case["features"])
        b1, r1, o1 = program(case["program"], case["features"])
        if case["expect"] == "same":
            if (b0, r0) != (b1, r1) or (b0 == 0 and o0 != o1):
                ok = True
                how = "the program with the attributes %s, the one with the disabled items left out %s" % tuple(
                    ("does not compile: " + o.strip()[:300]) if b else "compiles, exit %s: %s" % (r, o.strip()[-300:]) for b, r, o in ((b1, r1, o1), (b0, r0, o0)))
            else:
                how = "both programs behave the same"
        elif b0 != 0:
            how = "the declaration alone does not compile: " + o0.strip()[:300]
        elif case["expect"] == "forbid":
            # rustc does not apply the lint to what comes out of a foreign macro: its own expansion is read instead
            words = unsafe_words(case["features"]) if b1 == 0 else []
            ok = b1 != 0 or bool(words)
            how = "the program under forbid(unsafe_code) %s" % ("must compile, but: " + o1.strip()[:400] if b1 else "compiles, and rustc's expansion of it contains: %s" % (", ".join(words[:5]) or "nothing it forbids"))
        elif case["expect"] == "ok":
            ok = b1 != 0 or r1 != 0
            how = "the program %s" % ("must compile, but: " + o1.strip()[:400] if b1 else "compiles, exit %s: %s" % (r1, o1.strip()[-400:]))
        else:
            ok = b1 == 0
            how = "the program must be rejected, and %s" % ("compiles" if ok else "is")
    with open(base + ".json", "w") as f:
        json.dump({"property": prop, "config": run.cfg.what(), "entry": run.entry, "kind": v["kind"], "message": v["msg"], "trace": v["trace"],
                   "assignment": v["model"], "case": case, "confirmed": ok, "replay": how,
                   "how_to_replay": "python3 %s/run.py replay %s.json" % (VERIF, base), "cfg": run.cfg.name}, f, indent=1)
    return ok, how, base + ".json"


def run_lsym(lsym, run, ll, seed):
    rep = os.path.join(BUILD, "rep-%s-%s.json" % (run.cfg.name, run.entry))
    if os.path.exists(rep):
        os.remove(rep)
    cmd = [lsym, ll, "--entry", run.entry, "--jobs", str(run.jobs), "--timeout", str(run.timeout), "--max-steps", str(run.max_steps),
           "--max-alloc", str(run.max_alloc), "--samples", str(run.samples), "--seed", str(seed), "--out", rep]
    if run.no_gep:
        cmd.append("--no-gep-check")
    if run.rlimit is not None:
        cmd += ["--rlimit", str(run.rlimit)]
    p = sh(cmd, ok=False, timeout=run.timeout + 120)
    if p is None or not os.path.exists(rep):
        raise Broken("lsym gave no report for %s: %s" % (run.entry, p.stderr[-2000:] if p else "timeout"))
    with open(rep) as f:
        return json.load(f)


def validate(run, native, samples):
    """Completed symbolic paths against the compiled code: same number of checks, same observations."""
    good, bad = 0, []
    for i, s in enumerate(samples):
        f = os.path.join(BUILD, "val-%s-%s-%d.vals" % (run.cfg.name, run.entry, i))
        with open(f, "w") as h:
            h.write(assignment(s["model"]) + "\n")
        try:
            p = subprocess.run([native, run.entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, errors="replace")
            want = "REPLAY-OK checks=%d hash=%s observations=%d" % (s["checks"], s["hash"], s["observations"])
            if p.returncode == 0 and want in p.stdout:
                good += 1
            else:
                bad.append("%s %s: symbolic path says `%s`, native run exit %d says `%s`" % (run.cfg.name, run.entry, want, p.returncode, p.stdout.strip()[-200:]))
        except subprocess.TimeoutExpired:
            bad.append("%s: native run did not end" % run.entry)
        os.remove(f)
    return good, bad


def feature_build(cfg):
    """Does a client program fail to compile only because a crate feature is switched on? (real compiler, stable)"""
    if not cfg.features and cfg.crate != "env":
        return None
    env = {"RUSTUP_TOOLCHAIN": STABLE, "CARGO_TARGET_DIR": os.path.join(BUILD, "t-feat")}
    try:
        with CARGO_LOCK:
            plain = sh(["cargo", "build", "--offline", "-q"] + (["-p", "gecs"] + cfg.feat() if cfg.crate == "env" else ["--lib"]), cwd=cfg.dir(), env=env, ok=False)
            if plain.returncode != 0:
                return None
            p = sh(["cargo", "build", "--lib", "--offline", "-q"] + cfg.feat(), cwd=cfg.dir(), env=env, ok=False)
    finally:
        shutil.rmtree(os.path.join(BUILD, "t-feat"), ignore_errors=True)
    if p.returncode == 0 or "error" not in p.stderr:
        return None
    if cfg.crate in ("prog", "env"):
        return "the valid client programs of %s [%s] do not compile" % (cfg.dir(), ",".join(cfg.features))
    return "the client program %s compiles without, but not with the features [%s], which promise to accept it" % (cfg.dir(), ",".join(cfg.features))


def known_findings():
    f = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) check=\"([^\"]*)\" entry=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop, tier, runs, meta):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rc = 0
    problems, viols, cov = [], 0, []
    totals = {k: 0 for k in ("paths", "completed", "assumed_away", "aborted", "forks", "instructions", "queries", "sat", "unsat", "cached", "assertions", "symbolic_assertions")}
    solver_s, funcs, samples_out, validated, truncated, checks = 0.0, set(), [], 0, [], {}
    os.makedirs(BUILD, exist_ok=True)
    lsym = ensure_lsym()
    cfgs = {}
    for r in runs:
        cfgs.setdefault(r.cfg.name, r.cfg)
    runs = list(runs)
    notes, extra = [], {}
    ex = cf.ThreadPoolExecutor(4)
    ir = {n: ex.submit(build_ir, c) for n, c in cfgs.items()}
    nat = {n: ex.submit(build_native, c) for n, c in cfgs.items()}
    try:
        while runs:
            r = runs.pop(0)
            mac = r.cfg.crate == "mac"
            if tier == "quick":
                left = QUICK - (time.time() - t0)
                if left < 15:
                    truncated.append("%s: not run, the time of a quick check was used up" % r.entry)
                    continue
                r.timeout = min(r.timeout, int(left))
            try:
                ll = ir[r.cfg.name].result()
                native = nat[r.cfg.name].result() if mac else None
            except Broken as x:
                if not mac:
                    raise
                # the macro crate's inside has changed beyond what drives it: its programs still decide
                log("the macro crate cannot be driven as a library: " + str(x)[:1500])
                notes.append("%s not run: the macro crate does not build as a library" % r.entry)
                continue
            rep = run_lsym(lsym, r, ll, seed)
            for k in totals:
                totals[k] += rep[k]
            solver_s += rep["solver_s"]
            for k, v in rep["checks"].items():
                checks[k] = checks.get(k, 0) + v
            funcs |= {f for f in rep["functions"] if "gecs" in f or "::archetype" in f or re.match(r"hmac::(data|generate|parse|_)", f)}
            log("%s %s: %s, %d paths, %d instructions, %d assertions (%d sent to the solver), %d queries, %.1f s (solver %.1f s)" % (
                r.cfg.name, r.entry, rep["verdict"], rep["paths"], rep["instructions"], rep["assertions"], rep["symbolic_assertions"],
                rep["queries"], rep["wall_s"], rep["solver_s"]))
            if r.cfg.crate == "env":
                extra["client_programs"] = {k: v for k, v in ADMITTED[tuple(r.cfg.features)].items() if k != "text"}
            e = {"config": r.cfg.what(), "entry": r.entry, "bound": r.bound, "verdict": rep["verdict"], "paths": rep["paths"],
                 "wall_s": rep["wall_s"], "covers": rep["covers"]}
            cov.append(e)
            if mac:
                sure = False
                for v in rep["violations"][:4]:
                    ok, how, path = confirm_program(r, native, v, prop, viols)
                    viols += 1
                    log("%s: %s" % (v["kind"], v["msg"]))
                    log(how)
                    if ok:
                        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                        rc, sure = 1, True
                        break
                    notes.append("%s: a candidate (%s) is none on a whole program: %s" % (r.entry, v["msg"], how[:200]))
                if sure:
                    break
                if rep["violations"] or rep["errors"]:
                    notes += ["%s: %s" % (r.entry, x) for x in rep["errors"]]
                    e["not_decided"] = True
                    if r.loose:
                        runs.insert(0, Run(r.cfg, r.loose, r.bound + " (only acceptance and the archetypes named)", r.timeout, r.max_alloc, r.max_steps,
                                           (), r.samples, r.no_gep, r.rlimit))
                    continue
            for v in rep["violations"]:
                native = nat[r.cfg.name].result()
                ok, how, path = replay(r, native, v, prop, viols)
                viols += 1
                log("%s: %s" % (v["kind"], v["msg"]))
                for t in v["trace"][:12]:
                    log("   ", t)
                if ok:
                    log(how)
                    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                    rc = 1
                    break
                problems.append("counterexample not reproduced on the real code (%s: %s; %s) %s" % (v["kind"], v["msg"], how, path))
            if rep["errors"]:
                problems += ["%s %s: %s" % (r.cfg.name, r.entry, x) for x in rep["errors"]]
            if rep["bounds"]:
                e["truncated"] = rep["bounds"]
                truncated.append("%s: %s" % (r.entry, rep["bounds"][0]))
            if rc:
                break
            if rep["verdict"] == "holds":
                for c in r.covers:
                    if not rep["covers"].get(c):
                        problems.append("%s %s: the scenario `%s` was never reached (vacuous)" % (r.cfg.name, r.entry, c))
                if rep["completed"] == 0:
                    problems.append("%s: no path completed" % r.entry)
            if rep["samples"]:
                g, bad = validate(r, nat[r.cfg.name].result(), rep["samples"])
                validated += g
                problems += bad
                for s in rep["samples"][:2]:
                    samples_out.append({"entry": r.entry, "config": r.cfg.name, "assignment": dict(list(s["model"].items())[:40]), "assertions": s["checks"]})
    except BuildFailed as x:
        how = feature_build(x.cfg) if meta.get("features") or x.cfg.crate in ("prog", "env") else None
        if how:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-build-%s.json" % (prop, x.cfg.name))
            with open(path, "w") as f:
                json.dump({"property": prop, "config": x.cfg.what(), "kind": "build", "message": how, "compiler": str(x)[-6000:],
                           "how_to_replay": "cargo build --lib --offline " + " ".join(x.cfg.feat()) + " (in %s)" % x.cfg.dir()}, f, indent=1)
            log(how)
            log(str(x)[-1500:])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            rc = 1
        else:
            problems.append(str(x))
    except Broken as x:
        problems.append(str(x))
    ex.shutdown(wait=True, cancel_futures=True)
    if rc == 0 and problems:
        rc = 2
    for p in problems:
        log("PROBLEM:", p)
    for k in known_findings():
        if k[0] == prop and rc == 0:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[3]), flush=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "states": totals["paths"], "transitions": totals["instructions"], "traces_validated_against_impl": validated,
            "samples": samples_out[:12] or ["(no completed path)"],
            "explanation": meta["explain"],
            "runs": cov, "totals": totals, "solver_seconds": round(solver_s, 3), "solver": "z3 4.8.12 (bit-vectors)",
            "distinct_assertions": checks,
            "functions_encoded": sorted(funcs)[:400], "functions_encoded_count": len(funcs),
            **extra, "notes": notes, "truncated": truncated, "exhaustive": not truncated and not notes and rc == 0,
        },
        "assumptions": meta["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %s in %.1f s" % (prop, tier, {0: "holds within the bounds", 1: "VIOLATED", 2: "NO ANSWER"}[rc], time.time() - t0))
    return rc
