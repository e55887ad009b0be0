"""Writes gen/lib.rs: /repo's macro crate as an ordinary library, with this harness next to it."""
import os, re, sys


def write(repo, here):
    src = os.path.join(repo, "macros", "src")
    t = open(os.path.join(src, "lib.rs")).read()
    procs = re.findall(r"#\[proc_macro\]\s*(?:(?:#\[[^\]]*\]|//[^\n]*\n)\s*)*pub fn (\w+)\s*\(", t)
    t = re.sub(r"#!\[[^\]]*\]", "", t)
    t = re.sub(r"(?m)^\s*//!.*$", "", t)
    t = re.sub(r"#\[proc_macro\]", "", t)
    t = re.sub(r"(?m)^\s*extern crate proc_macro2?;", "", t)

    def module(m):
        for p in (m.group(2) + ".rs", m.group(2) + "/mod.rs"):
            if os.path.exists(os.path.join(src, p)):
                return '#[path = "%s"]\n%smod %s;' % (os.path.join(src, p), m.group(1) or "", m.group(2))
        return m.group(0)

    t = re.sub(r"(?m)^((?:pub(?:\([^)]*\))? )?)mod (\w+)\s*;", module, t)
    out = """// Written by gen_lib.py on every run.
#![cfg_attr(lsym, feature(core_intrinsics))]
#![allow(internal_features, unexpected_cfgs, dead_code, unused_macros, unused_imports, static_mut_refs, unused_variables, unused_mut)]
#[path = "%s/../common/rt.rs"]
#[macro_use]
pub mod rt;
#[path = "%s/src/drive.rs"]
pub mod drive;
#[path = "%s/src/cases.rs"]
pub mod cases;
#[path = "%s/src/c05.rs"]
pub mod c05;
#[path = "%s/src/c15.rs"]
pub mod c15;
#[path = "%s/src/c16.rs"]
pub mod c16;
#[path = "%s/src/c18.rs"]
pub mod c18;
extern crate pmshim as proc_macro;
include!("%s/src/entries.rs");
pub static PROC_MACROS: &[(&str, fn(TokenStream) -> TokenStream)] = &[%s];

%s
""" % (here, here, here, here, here, here, here, here, "".join('("%s", %s), ' % (p, p) for p in procs), t)
    d = os.path.join(here, "gen")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "lib.rs")
    try:
        if open(f).read() == out:
            return procs
    except OSError:
        pass
    with open(f, "w") as h:
        h.write(out)
    return procs


if __name__ == "__main__":
    print(write(sys.argv[1], os.path.dirname(os.path.abspath(__file__))))
