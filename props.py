"""Which symbolic executions decide which property, and within which bounds."""
from vlib import Config, Run

G, S = ("gecs_verif",), ("gecs_verif", "gecs_verif_small")
CONFIGS = {}
for base, feats in (("", ()), ("e", ("events",)), ("w", ("wrapping",)), ("c", ("c32",)), ("a", ("events", "wrapping", "c32"))):
    for hook, cfgs in (("", ()), ("g", G), ("s", S)):
        for name, dbg in (("dev", True), ("rel", False)):
            n = name + base + hook
            CONFIGS[n] = Config(n, features=feats, debug=dbg, hook=cfgs)
CONFIGS["mac"] = Config("mac", crate="mac", buildstd=True, triple="riscv64gc-unknown-linux-gnu", passes="sroa,early-cse,simplifycfg")
for n, dbg in (("d", True), ("r", False)):
    for c, feats in (("05", ("c05",)), ("15", ("c15",)), ("16", ("c16",)), ("16a", ("c16", "p0")), ("16b", ("c16", "p1", "p2")), ("16c", ("c16", "p0", "p1")), ("16d", ("c16", "p2"))):
        CONFIGS["prog" + n + c] = Config("prog" + n + c, crate="prog", features=feats, debug=dbg, hook=G)
CONFIGS["env"] = Config("env", crate="env", features=("events",), debug=True)
CONFIGS["envr"] = Config("envr", crate="env", features=("events",), debug=False)
CONFIGS["envp"] = Config("envp", crate="env", debug=True)
CONFIGS["enva"] = Config("enva", crate="env", features=("events", "wrapping_version", "32_components"), debug=True)
CONFIGS["wide"] = Config("wide", crate="wide", debug=True)
CONFIGS["wider"] = Config("wider", crate="wide", debug=False)
CONFIGS["widec"] = Config("widec", crate="wide", features=("c32",), debug=True)
CONFIGS["widecr"] = Config("widecr", crate="wide", features=("c32",), debug=False)

ASSUME = [
    "rustc's lowering of the crate and harness to unoptimised LLVM IR (nightly, x86_64), and the executor's semantics of that IR; cross-checked on every run by replaying sampled completed paths on natively compiled code (stable), which must make the same number of assertions and the same observations",
    "single-threaded execution; allocations up to the stated size succeed, larger ones fail (the process aborts, which counts as no violation)",
    "component types are those of the harness (plain, 1..64 bytes, over-aligned, zero-sized, heap-backed, drop-tracked); other component types are outside the bounds",
]
HOOK = "cfg(gecs_verif): the initial generation of every slot and the initial archetype version are symbolic (all of 1..=u32::MAX, or up to u32::MAX-16 where the history must not overflow), standing for any number of earlier reuses"
SMALL = "cfg(gecs_verif_small): the capacity limit is 5 instead of 2^24, so that the limit is reached within the bound"

# entry -> (bound, covers)
E = {}


def d(name, bound, *covers):
    E[name] = (bound, covers or ("end",))


# C01
H3 = "world of 3 archetypes (ids 3,4,200; 3/3/1 columns incl. over-aligned and zero-sized), initial capacity 0..2 symbolic; every op, archetype, target and key kind symbolic; component values symbolic; after every step every handle ever issued is tried through every lookup path"
for n in (4, 5, 6):
    d("c01_hist%d" % n, "%d operations (create / destroy by any of 8 key kinds); %s" % (n, H3))
for n in (6, 7):
    d("c01_one%d" % n, "%d operations in one archetype; %s" % (n, H3))
d("c01_bulk", "9 creations, any subset of up to 4 removed, refilled over a growth boundary")
d("c01_bulk_deep", "17 creations, any subset of up to 8 removed, refilled over a growth boundary")
for n in (4, 5):
    d("c01_mix%d" % n, "%d operations of any kind (create, create_within_capacity, destroy, ecs_iter_destroy!, clone)" % n)
for n in (4, 5, 6):
    d("c01_gen%d" % n, "%d operations from arbitrary slot generations" % n)
AGES = "%d entities at any generation and archetype version, and the same world after any number of rounds of destroying and creating all of them (up to 2^32): "
d("c01_ages", AGES % 2 + "the handles of then by every lookup, read and destroy path")
d("c01_ages4", AGES % 4 + "the handles of then by every lookup, read and destroy path")
d("c09_ages", AGES % 2 + "the direct handles of then, by every path")
d("c09_ages4", AGES % 4 + "the direct handles of then, by every path")
# C02
d("c02_rw", "2+2 entities, each of 12 write paths x each of 21 read paths, values symbolic")
d("c02_rw_deep", "4+3 entities, each of 12 write paths x each of 21 read paths, values symbolic")
for n in (2, 3, 4):
    d("c02_keep%d" % n, "%d structural operations (create, destroy, grow, relocate, clone) on other entities, all read paths" % n)
d("c02_comps", "the Components struct and the values destroy hands back, all values")
d("c02_orders", "queries naming subsets of the columns in any order")
# C03
for n in (2, 3, 4):
    d("c03_raw%d" % n, "all 2^64 raw handle values against every API, after any %d operations" % n)
for n in (2, 3):
    d("c03_gen%d" % n, "all 2^64 raw handle values, after any %d operations from arbitrary slot generations" % n)
    d("c03_direct%d" % n, "direct handles of another world / archetype with arbitrary archetype versions, %d operations" % n)
    d("c03_foreign%d" % n, "two worlds with any %d operations each, every handle of either tried on the other" % n)
# C04
for n, k in ((3, 3), (4, 4), (5, 3)):
    d("c04_hist%d" % n, "%d operations, drop-tracked, heap-backed and zero-sized components, initial capacity < %d, clone, drop in either order" % (n, k))
d("c04_grow7", "7 creations over growth, every destroy path, world and clone dropped in either order")
d("c04_grow15", "15 creations over growth, every destroy path, world and clone dropped in either order")
E["c04_hist4"] = (E["c04_hist4"][0], ("full", "end"))
# C06
for n in (3, 4, 5):
    d("c06_hist%d" % n, "%d operations, then each of 16 query forms and every archetype iterator/slice accessor, Break after any number of items" % n, "break", "end")
d("c06_fill", "up to 3+3+3 entities with removals, all iteration forms, Break anywhere", "break", "end")
d("c06_fill_deep", "up to 7+3+3 entities with removals, all iteration forms, Break anywhere", "break", "end")
d("c06_writes", "up to 4 entities per archetype; values written while iterating, symbolic")
# C07
for n, b in (("2b", "2 operations, loop, then another loop"), ("3", "3 operations, then a loop"), ("3b", "3 operations, loop, then another loop"), ("4", "4 operations, then a loop"), ("4b", "4 operations, loop, then another loop")):
    d("c07_hist" + n, b + "; every closure answer symbolic, every handle and value judged afterwards", "direct", "end")
d("c07_fill4", "4 entities, any subset destroyed, stopping anywhere", "direct", "end")
d("c07_fill6", "6 entities, any subset destroyed, stopping anywhere", "direct", "end")
# C08
d("c08_gen5", "5 operations from arbitrary generations (including u32::MAX)", "overflow", "end")
d("c08_gen6", "6 operations from arbitrary generations (including u32::MAX)", "overflow", "end")
d("c08_cycle", "8 destroy/reuse cycles of one position from any generation", "overflow", "end")
d("c08_churn", "6 rounds of reuse through ecs_iter_destroy!, clone and growth")
d("c08_churn8", "8 rounds of reuse through ecs_iter_destroy!, clone and growth")
# C09
for n in (3, 4, 5):
    d("c09_hist%d" % n, "%d operations, direct handles taken at any time by every path, from arbitrary archetype versions" % n, "fresh", "stale", "end")
d("c09_one", "4 entities, a direct handle of each, one structural change", "end")
d("c09_one7", "7 entities, a direct handle of each, one structural change", "end")
# C10
for n in (2, 3):
    d("c10_closure%d" % n, "a closure of any query macro panics at any visit, up to %d entities per archetype; then the world is used further, cloned and dropped" % n, "panicked", "end")
    d("c10_cloning%d" % n, "the k-th component Clone panics (any k), up to %d entities per archetype" % n, "panicked", "end")
    d("c10_dropping%d" % n, "the k-th component Drop panics (any k) in destroy, ecs_iter_destroy! or world drop, up to %d entities per archetype" % n, "panicked", "end")
    d("c10_overflow%d" % n, "generation/archetype-version overflow from arbitrary versions by every destroy path, up to %d entities" % n, "overflow", "overflow in loop", "end")
d("c10_overflow1", "generation/archetype-version overflow from arbitrary versions by every destroy path, 1..2 entities", "overflow", "end")
d("c10_limit5", "create at and beyond the capacity limit", "limit", "end")
d("c10_creating", "component conversions that panic")
d("c10_conflict", "conflicting runtime borrows of 8 kinds")
# C11
for n in (1, 2):
    d("c11_nested%d" % n, "accesses of 30 kinds (ecs_find_borrow!, ecs_iter_borrow!, Borrow::component(_mut), borrow_slice(_mut), clone; 5 columns of 2 archetypes) nested %d deep, each possibly ended by unwinding; every column probed shared and mutably inside and after" % (n + 1), "granted", "refused", "end")
d("c11_between3", "3 structural operations between borrows, some unwinding")
d("c11_between4", "4 structural operations between borrows, some unwinding")
# C12
for n, k in ((3, 2), (4, 2), (5, 1), (6, 1)):
    d("c12_hist%d" % n, "%d operations over 3 archetypes with initial capacities 0..%d, every operation, target and key kind symbolic" % (n, k), "full", "end")
d("c12_reuse", "capacity 0..4 requested and up to 3 creations; filled, up to 3 positions freed in any order, refilled", "full", "end")
d("c12_reuse2", "capacity 0..3 requested and up to 3 creations; twice filled, up to 2 positions freed, refilled", "full", "end")
d("c12_reuse_deep", "capacity 0..6 requested and up to 7 creations; filled, up to 4 positions freed, refilled", "full", "end")
d("c12_limit7", "up to 7 creations with the limit at 5, positions freed and reused at the limit", "limit", "full", "end")
d("c12_roomy", "with_capacity(n) for every n <= the limit; those whose arrays fit the allocation bound are filled completely", "full", "end")
d("c12_real", "creation up to the real limit of 16,777,216 entities of one archetype with room for 3 fewer; 12 handles judged there; create() beyond it; any of the 12 freed, one of 3 others freed and reused, the limit reached again", "limit", "end")
d("c12_beyond", "with_capacity(n) for every n above the limit up to usize::MAX")
# C13
d("c13_pre2", "3 entities and 2 operations, clone, 1 operation on either side, refill both to capacity, drop either first")
d("c13_pre3", "3 operations, clone, 1 operation on either side, refill both, drop either first")
d("c13_post2", "4 entities and 1 operation, clone, 2 operations on either side, refill both, drop either first")
d("c13_deep", "2 entities and 3 operations, clone, 2 operations on either side, refill both, drop either first")
d("c13_gen", "4 entities and 1 operation from arbitrary versions, clone, 1 operation, refill both")
d("c13_gen2", "4 entities and 2 operations from arbitrary versions, clone, 1 operation, refill both")
d("c13_holes4", "4 entities, any removals in any order, clone_from, clone of the clone, refill")
d("c13_holes5", "5 entities, any removals in any order, clone_from, clone of the clone, refill")
# C14
d("c14_raw", "all 2^64 raw pairs: from_raw/raw/typed/reference/Select conversions", "own", "foreign", "zero")
d("c14_eq", "all pairs of raw pairs (2^128): Eq and Hash", "equal", "typed")
d("c14_direct", "all pairs of direct handle values with non-zero words: conversions, Eq, Hash, Select")
d("c14_numbers", "all 256 archetype ids", "known", "unknown")
d("c14_live3", "handles of 3 live entities per archetype from arbitrary versions")
d("c14_live33", "handles of 33 live entities per archetype")
d("c14_far", "handles of 65,800 live entities, judged at 16 indices around the byte boundaries")
d("c14_across", "entities of 5 archetypes from arbitrary versions, pairwise")
# C17
d("c17_hist3", "3 operations of every kind on 3 archetypes, logs compared after each", "full", "stale", "end")
d("c17_seed2", "4 entities, optionally cleared, then 2 operations of every kind", "full", "stale", "end")
d("c17_seed3", "3 entities, optionally cleared, then 3 operations of every kind", "full", "stale", "end")
d("c17_hist4", "4 operations of every kind on 2 archetypes", "full", "stale", "end")
d("c17_hist5", "5 operations of every kind on 1 archetype", "full", "stale", "end")
d("c17_gen", "3 entities, then 2 operations, from arbitrary versions", "full", "stale", "end")
d("c17_unions", "0..2 events in each of 3 archetypes' logs, every position of the world-level iterators", "end")
d("c17_unions3", "0..3 events in each of 3 archetypes' logs, every position of the world-level iterators", "end")

# larger populations, judged per property
for p in ("c01", "c02", "c04", "c06", "c07", "c08", "c09", "c12", "c13", "c17"):
    d(p + "_big", "12 or 40 entities in each of 2 archetypes (484-byte and tracked columns; 1-byte, 67-byte and zero-sized columns), initial capacity 0 or 33; one of 7 bulk removals (any key kind, loops, loop with a break); cloned or not; refilled to capacity and beyond")
    d(p + "_big_any", "3..70 entities in each of 2 archetypes, initial capacity 0..33; one of 7 bulk removals or any single one; cloned or not; refilled to capacity and beyond")
    d(p + "_big_wide", "300 entities in each of 2 archetypes; one of 4 bulk removals; cloned or not; refilled to capacity and beyond")
    d(p + "_far", "65,800 entities (concrete values) in an archetype with room for 66,000; one of 6 removals (loops, with Break at each of 18 positions around the byte boundaries; single ones at those), then judged, iterated in each of 8 forms, cloned, refilled, as far as the property needs it")
    d(p + "_far_grown", "as the former, having grown from capacity 0 to 131,070, with two thirds destroyed one by one")
BIG = {"max_alloc": 4_000_000, "max_steps": 1_000_000_000}


def R(cfg, *entries, **kw):
    out = []
    for e in entries:
        b, c = E[e]
        out.append(Run(CONFIGS[cfg], e, b, covers=c, **kw))
    return out


DEEP = {"timeout": 1500}
PROPS = {}


def prop(pid, level, explain, assumptions, quick, thorough):
    PROPS[pid] = {"level": level, "explain": explain, "assumptions": ASSUME + assumptions, "quick": quick, "thorough": thorough}


def mc(pid, what, quick, thorough, assumptions=()):
    prop(pid, "model_checking",
         "Symbolic execution of the real crate (rustc's LLVM IR, regenerated from /repo on this run) with z3 deciding every symbolic branch and assertion; "
         "states = execution paths, transitions = instructions. " + what + " Holds for all values within the bounds listed per run; nothing is claimed outside them.",
         list(assumptions), quick, thorough)


mc("C01", "Oracle: a list of issued handles with an alive flag, in the harness.",
   lambda: R("dev", "c01_big", "c01_big_wide", "c01_far", **BIG) + R("rel", "c01_big", **BIG) + R("dev", "c01_hist5", "c01_one6", "c01_bulk", "c01_mix4") + R("devg", "c01_gen5", "c01_ages") + R("relg", "c01_ages") + R("rel", "c01_hist4"),
   lambda: R("dev", "c01_big_any", "c01_big_wide", "c01_far_grown", timeout=1500, **BIG) + R("rel", "c01_far", timeout=1500, **BIG) + R("rel", "c01_big_any", timeout=1500, **BIG) + R("dev", "c01_hist6", "c01_one7", "c01_bulk_deep", "c01_mix5", **DEEP) + R("devg", "c01_gen6", "c01_ages4", **DEEP) + R("relg", "c01_ages4", **DEEP) + R("rel", "c01_hist5", "c01_mix4", **DEEP),
   [HOOK])
mc("C02", "Oracle: a shadow copy of every entity's component values.",
   lambda: R("dev", "c02_big", "c02_big_wide", "c02_far", **BIG) + R("rel", "c02_big", **BIG) + R("dev", "c02_rw", "c02_keep2", "c02_comps", "c02_orders") + R("rel", "c02_keep2", "c02_orders"),
   lambda: R("dev", "c02_big_any", "c02_big_wide", "c02_far_grown", timeout=1500, **BIG) + R("rel", "c02_far", timeout=1500, **BIG) + R("rel", "c02_big_any", timeout=1500, **BIG) + R("dev", "c02_rw_deep", "c02_keep3", "c02_keep4", "c02_comps", "c02_orders", **DEEP) + R("rel", "c02_rw", "c02_keep3", **DEEP))
mc("C03", "Oracle: a handle may only be accepted if it is bit-identical to that of a live entity; the executor reports every invalid memory access, read of uninitialised memory and other undefined behaviour.",
   lambda: R("dev", "c03_raw3", "c03_foreign2") + R("rel", "c03_raw3") + R("devg", "c03_gen3", "c03_direct3") + R("relg", "c03_gen3", "c03_direct3"),
   lambda: R("dev", "c03_raw4", "c03_foreign3", **DEEP) + R("rel", "c03_raw4", "c03_foreign3", **DEEP) + R("devg", "c03_gen3", "c03_direct3") + R("relg", "c03_gen3", "c03_direct3"),
   [HOOK])
mc("C04", "Oracle: a registry of every tracked value (created, live, dropped, cloned), plus the executor's own allocation table.",
   lambda: R("dev", "c04_big", "c04_big_wide", "c04_far", **BIG) + R("rel", "c04_big", **BIG) + R("dev", "c04_hist4", "c04_grow7") + R("rel", "c04_hist4", "c04_grow7"),
   lambda: R("dev", "c04_big_any", "c04_big_wide", "c04_far_grown", timeout=1500, **BIG) + R("rel", "c04_far", timeout=1500, **BIG) + R("rel", "c04_big_any", timeout=1500, **BIG) + R("dev", "c04_hist5", "c04_grow15", **DEEP) + R("rel", "c04_hist5", "c04_grow15", **DEEP))
mc("C06", "Oracle: the set of live entities with their values.",
   lambda: R("dev", "c06_big", "c06_big_wide", "c06_far", **BIG) + R("rel", "c06_big", **BIG) + R("dev", "c06_hist4", "c06_fill", "c06_writes") + R("rel", "c06_hist4", "c06_fill"),
   lambda: R("dev", "c06_big_any", "c06_big_wide", "c06_far_grown", timeout=1500, **BIG) + R("rel", "c06_far", timeout=1500, **BIG) + R("rel", "c06_big_any", timeout=1500, **BIG) + R("dev", "c06_hist5", "c06_fill_deep", "c06_writes", **DEEP) + R("rel", "c06_hist5", "c06_fill_deep", **DEEP))
mc("C07", "Oracle: the set of entities alive at the start and the closure's answers.",
   lambda: R("devg", "c07_big", "c07_big_wide", "c07_far", **BIG) + R("devg", "c07_hist3", "c07_hist2b", "c07_fill4") + R("rel", "c07_hist3", "c07_fill6"),
   lambda: R("devg", "c07_big_any", "c07_big_wide", "c07_far_grown", timeout=1500, **BIG) + R("rel", "c07_far", timeout=1500, **BIG) + R("rel", "c07_big_any", timeout=1500, **BIG) + R("devg", "c07_hist3b", "c07_hist4", "c07_fill6", **DEEP) + R("rel", "c07_hist3b", "c07_hist4", **DEEP))
mc("C08", "Oracle: every handle ever issued, pairwise different; a panic instead of a reissue.",
   lambda: R("devg", "c08_big", "c08_big_wide", "c08_far", **BIG) + R("devg", "c08_gen6", "c08_cycle", "c08_churn") + R("relg", "c08_gen6", "c08_cycle"),
   lambda: R("devg", "c08_big_any", "c08_big_wide", "c08_far_grown", timeout=1500, **BIG) + R("relg", "c08_far", timeout=1500, **BIG) + R("relg", "c08_big_any", timeout=1500, **BIG) + R("devg", "c08_gen6", "c08_cycle", "c08_churn8", **DEEP) + R("relg", "c08_gen6", "c08_cycle", "c08_churn8", **DEEP), [HOOK])
mc("C09", "Oracle: for each issued direct handle, its entity and whether a removal happened since.",
   lambda: R("devg", "c09_big", "c09_big_wide", "c09_far", **BIG) + R("devg", "c09_hist4", "c09_one", "c09_ages") + R("relg", "c09_hist3", "c09_one7", "c09_ages"),
   lambda: R("devg", "c09_big_any", "c09_big_wide", "c09_far_grown", timeout=1500, **BIG) + R("relg", "c09_far", timeout=1500, **BIG) + R("relg", "c09_big_any", timeout=1500, **BIG) + R("devg", "c09_hist5", "c09_one7", "c09_ages4", **DEEP) + R("relg", "c09_hist5", "c09_one7", "c09_ages4", **DEEP), [HOOK])
mc("C10", "Oracle: after the panic is caught, the world equals the model again (lookup, iteration, counts, value balance, borrow state), can be used, cloned and dropped, and nothing leaked.",
   lambda: R("deveg", "c10_overflow1") + R("releg", "c10_overflow1") + R("dev", "c10_closure2", "c10_cloning2", "c10_dropping2", "c10_creating", "c10_conflict") + R("devg", "c10_overflow1") + R("relg", "c10_overflow1") + R("devs", "c10_limit5") + R("reles", "c10_limit5"),
   lambda: R("deveg", "c10_overflow2", **DEEP) + R("dev", "c10_closure3", "c10_cloning3", "c10_dropping3", "c10_creating", "c10_conflict", **DEEP) + R("devg", "c10_overflow2", **DEEP) + R("releg", "c10_overflow2", **DEEP)
   + R("devs", "c10_limit5") + R("reles", "c10_limit5") + R("rele", "c10_closure2", "c10_dropping2", **DEEP), [HOOK, SMALL])
mc("C11", "Oracle: per column, the borrows in force.",
   lambda: R("dev", "c11_nested1", "c11_between4") + R("rel", "c11_nested1"),
   lambda: R("dev", "c11_nested2", "c11_between4", **DEEP) + R("rel", "c11_nested2", **DEEP))
mc("C12", "Oracle: the number of live entities; array addresses (no reallocation).",
   lambda: R("dev", "c12_big", "c12_big_wide", "c12_far", **BIG) + R("rel", "c12_big", **BIG) + R("dev", "c12_hist3", "c12_reuse", "c12_beyond") + R("dev", "c12_roomy", max_alloc=128) + R("devs", "c12_limit7", "c12_beyond", "c12_roomy") + R("rels", "c12_limit7") + R("rel", "c12_reuse", "c12_beyond"),
   lambda: R("dev", "c12_big_any", "c12_big_wide", "c12_far_grown", timeout=1500, **BIG) + R("rel", "c12_far", timeout=1500, **BIG) + R("rel", "c12_big_any", timeout=1500, **BIG) + R("dev", "c12_hist4", "c12_hist5", "c12_reuse2", "c12_reuse_deep", "c12_beyond", **DEEP) + R("dev", "c12_roomy", max_alloc=200) + R("devs", "c12_limit7", "c12_hist4", "c12_beyond", "c12_roomy", **DEEP)
   + R("rel", "c12_reuse2", "c12_hist4", "c12_beyond", **DEEP) + R("rels", "c12_limit7", "c12_beyond", **DEEP) + R("rel", "c12_real", timeout=1700, max_alloc=400_000_000, max_steps=60_000_000_000, jobs=1), [SMALL])
mc("C13", "Oracle: the complete list of answers (lengths, capacities, storage order, every handle and direct handle, values, events) of original and clone.",
   lambda: R("dev", "c13_big", "c13_big_wide", "c13_far", **BIG) + R("deve", "c13_big", **BIG) + R("dev", "c13_pre2", "c13_holes4") + R("devg", "c13_gen") + R("deve", "c13_pre2"),
   lambda: R("dev", "c13_big_any", "c13_big_wide", "c13_far_grown", timeout=1500, **BIG) + R("rel", "c13_far", timeout=1500, **BIG) + R("deve", "c13_big_any", timeout=1500, **BIG) + R("dev", "c13_pre3", "c13_post2", "c13_deep", "c13_holes5", **DEEP) + R("devg", "c13_gen2", **DEEP) + R("deve", "c13_post2", **DEEP) + R("relg", "c13_gen2", **DEEP), [HOOK])
mc("C14", "Oracle: identity of the two words of a handle, and the declared archetype ids. c14_raw, c14_eq, c14_direct and c14_numbers quantify over all values of their domain: no bound but the world declaration.",
   lambda: R("devg", "c14_raw", "c14_eq", "c14_direct", "c14_numbers", "c14_live3", "c14_live33", "c14_across") + R("relg", "c14_raw", "c14_eq", "c14_direct", "c14_numbers", "c14_live3")
   + R("dev", "c14_far", max_alloc=4_000_000, max_steps=1_000_000_000),
   lambda: R("devg", "c14_raw", "c14_eq", "c14_direct", "c14_numbers", "c14_live3", "c14_live33", "c14_across") + R("relg", "c14_raw", "c14_eq", "c14_direct", "c14_numbers", "c14_live3", "c14_live33", "c14_across")
   + R("dev", "c14_far", max_alloc=4_000_000, max_steps=1_000_000_000) + R("rel", "c14_far", max_alloc=4_000_000, max_steps=1_000_000_000), [HOOK])
mc("C17", "Oracle: per archetype, the creations and destructions since its last clear.",
   lambda: R("deve", "c17_big", "c17_big_wide", "c17_far", **BIG) + R("deve", "c17_hist3", "c17_seed2", "c17_unions") + R("rele", "c17_hist3", "c17_unions3") + R("deveg", "c17_gen", "c10_overflow1"),
   lambda: R("deve", "c17_big_any", "c17_big_wide", "c17_far_grown", timeout=1500, **BIG) + R("rele", "c17_far", timeout=1500, **BIG) + R("rele", "c17_big_any", timeout=1500, **BIG) + R("deve", "c17_hist4", "c17_seed3", "c17_hist5", "c17_unions3", **DEEP) + R("rele", "c17_hist4", "c17_seed2", "c17_unions3", **DEEP) + R("deveg", "c17_gen", "c10_overflow2", **DEEP), [HOOK])

for n in (3, 4, 5):
    d("c19_wrap%d" % n, "wrapping_version: %d operations of any kind from arbitrary generations and archetype versions, over the boundary; every handle and direct handle judged after each" % n, "boundary", "end")
d("c19_cycle", "wrapping_version: 5 reuses of one position from any generation, over the boundary", "boundary", "end")
d("c19_narrow", "archetypes of each of 1..16 components: every column through every access path")
d("c19_wide", "archetypes of each of 17..32 components: every column through every access path")
BIGS = ["c01_big", "c02_big", "c04_big", "c06_big", "c07_big", "c08_big", "c09_big", "c12_big", "c13_big"]
CORE = ["c01_hist4", "c02_keep2", "c03_raw2", "c04_hist3", "c06_hist3", "c07_hist2b", "c09_one", "c12_reuse", "c13_holes4", "c14_raw"]
CORE2 = ["c01_mix4", "c02_rw", "c03_foreign2", "c04_hist4", "c06_fill", "c07_fill4", "c09_hist3", "c10_closure2", "c10_dropping2", "c11_nested1", "c12_hist3", "c13_pre2", "c14_eq"]
mc("C19", "Every property's harness is built under each feature combination and profile and must give the same verdict; wrapping_version and 32_components have their own scenarios.",
   lambda: R("widec", "c19_narrow", "c19_wide") + R("devag", "c19_wrap4", "c19_cycle", "c01_gen4") + R("relwg", "c19_wrap3", "c19_cycle") + R("deve", "c17_big", *BIGS, **BIG) + R("deve", *CORE)
   + R("rela", *BIGS, **BIG) + R("rela", *CORE),
   lambda: R("widec", "c19_narrow", "c19_wide") + R("widecr", "c19_narrow", "c19_wide") + R("wide", "c19_narrow") + R("wider", "c19_narrow") + R("devag", "c19_wrap5", "c19_cycle", **DEEP) + R("relwg", "c19_wrap5", "c19_cycle", **DEEP)
   + sum((R(c, *BIGS, **BIG) + R(c, *CORE) + R(c, *CORE2, **DEEP) for c in ("deve", "rele", "devw", "relw", "devc", "relc", "deva", "rela")), []), [HOOK])
PROPS["C19"]["features"] = True

# the macro crate, run as a library
NAMES = "names that are prefixes and suffixes of each other; every path through the real macro functions (parsing, cfg chain, serialised world description, matching, code generation)"
d("c15_arch1", "2 archetypes, the first with no id or any explicit id of three digits (000..999), cfg before or after it")
d("c15_arch2", "2 archetypes, the first with any explicit id of three digits (000..999), the second with any of 0..9, 250..259; each possibly under a cfg, true or false", "accepted", "rejected", "end")
for n, f, what in (("3", "", "the last without"), ("3", "_full", "all"), ("4", "", "the last two without")):
    b = "%s %%s, %s an explicit id: any of 0..9, 250..259 (1 or 3 digits symbolic), in any arrangement; each possibly under a cfg, true or false" % (n, what)
    d("c15_arch" + n + f, b % "archetypes", "accepted", "rejected", "end")
    d("c15_comp" + n + f, b % "components", "accepted", "rejected", "end")
d("c15_comp1", "2 components, the first with no id or any explicit id of three digits (000..999), cfg before or after it")
d("c15_comp2", "2 components, the first with any explicit id of three digits (000..999), the second with any of 0..9, 250..259; each possibly under a cfg, true or false", "accepted", "rejected", "end")
d("c15_both", "2 archetypes, the first under a cfg or not, of 2 components each, the second component with or without explicit id and cfg", "accepted", "rejected", "end")
d("c15_both_full", "2 archetypes of 2 components each; archetypes and second components with or without explicit id and cfg", "accepted", "rejected", "end")
AR = ("accepted", "rejected", "end")
d("c05_one2", "every world of 2 archetypes over 3 components, one parameter of any of 8 kinds (OneOf of any subset, either order), & or &mut, all 5 macros; " + NAMES, *AR)
d("c05_one3", "every world of 3 archetypes over 3 components, one parameter of any kind, all 5 macros; " + NAMES, *AR)
d("c05_one2_wide", "every world of 2 archetypes over 4 components declared in either order, one parameter of any kind, all 5 macros; " + NAMES, *AR)
d("c05_two3", "6 worlds of 3 archetypes over 4 components, 2 parameters of any kind in any order, all 5 macros; " + NAMES, *AR)
d("c05_three3", "3 worlds of 3 archetypes over 4 components, 3 parameters of any kind in any order; " + NAMES, *AR)
d("c05_three6", "6 worlds of 3 archetypes over 4 components, 3 parameters of any kind in any order, all 5 macros; " + NAMES, *AR)
TRUTH = "all truth assignments of the predicates"
for n, k in (("", "none, p0, p1, both"), ("_more", "8 combinations of 6 predicates")):
    d("c16_arch3" + n, "3 archetypes each under cfgs (%s), one explicit id; %s" % (k, TRUTH))
    d("c16_comp3" + n, "3 components each under cfgs (%s), one explicit id; %s" % (k, TRUTH))
d("c16_mixed2", "2 archetypes and 3 of their components each under no cfg or two; " + TRUTH)
d("c16_mixed3", "2 archetypes and 3 of their components each under none, p0 or p1; " + TRUTH)
d("c16_mixed4", "2 archetypes and 3 of their components each under none, p0, p1 or both; " + TRUTH)
d("c16_params1", "1 query parameter of 9 kinds under 8 combinations of predicates, all 5 macros; " + TRUTH)
d("c16_params2", "2 query parameters of 5 kinds, each under none, p0 or p1, all 5 macros; " + TRUTH)
d("c16_params2_more", "2 query parameters of 9 kinds, each under none, p0, p1 or both, all 5 macros; " + TRUTH)
d("c16_params3", "3 query parameters of 5 kinds, each under none, p0 or p1; " + TRUTH)
d("c16_params3_more", "3 query parameters of 9 kinds, each under none, p0, p1 or both; " + TRUTH)
d("c16_both2", "an archetype, two components and a query parameter each under no cfg or two; " + TRUTH)
d("c16_both3", "an archetype, two components and a query parameter each under none, p0 or p1; " + TRUTH)
POP = "2 entities of every archetype from arbitrary slot generations and archetype versions, any one removed; every live and removed entity by every key kind (EntityAny, Entity<A>, EntityDirectAny, EntityDirect<A>) and all 2^64 raw handle values; Break or a removal at any visit; values symbolic"
for i in range(1, 7):
    d("c05_p%d" % i, "a compiled program: a world of 3 to 5 archetypes over 6 components, 18 queries of 1..4 parameters of every kind x 5 macros; " + POP, "removed", "raw handle resolves", "raw handle rejected", "end")
    d("c16_g%d" % i, "a compiled program: a world of 3 to 5 archetypes over 6 components and 12 queries of 1..4 parameters x 5 macros, everything under 0..3 of 10 predicates; " + POP, "removed", "raw handle resolves", "raw handle rejected", "end")
    d("c16_g%d_ids" % i, "the constants, ecs_component_id!, archetype_id() of every handle, Select* of all 2^64 handle values and all 256 ids", "known", "unknown", "end")
for i in range(1, 5):
    d("c15_d%d" % i, "a compiled program: a world of 3 to 5 archetypes with explicit ids anywhere, 4 or 5 queries x 5 macros; " + POP, "removed", "raw handle resolves", "raw handle rejected", "end")
    d("c15_d%d_ids" % i, "the constants, ecs_component_id!, archetype_id() of every handle, Select* of all 2^64 handle values and all 256 ids", "known", "unknown", "end")
G5 = ["c05_p%d" % i for i in range(1, 7)]
G15 = ["c15_d%d" % i for i in range(1, 5)] + ["c15_d%d_ids" % i for i in range(1, 5)]
G16 = ["c16_g%d" % i for i in range(1, 7)] + ["c16_g%d_ids" % i for i in range(1, 7)]
BIGP = {"max_steps": 1_000_000_000}
MAC = {"max_alloc": 4_000_000, "max_steps": 2_000_000_000, "no_gep": True, "rlimit": 0}


def M(*entries, **kw):
    out = R("mac", *entries, **dict(MAC, **kw))
    for r in out:
        if r.entry in ("c05_one2", "c05_two3", "c05_three3"):
            r.loose = r.entry + "_loose"
    return out


MACRO = [
    "the macro crate is compiled as an ordinary library (its lib.rs with the proc_macro attributes taken off, proc_macro replaced by proc-macro2's own implementation, parse_macro_input! by a plain function of the same meaning); macro_rules! matching and #[cfg] evaluation between its expansions are done by the harness; a violation is reported only after the real compiler has confirmed it on a complete program",
    "hashing is modelled (std's DefaultHasher, xxh3) as a function of the bytes hashed",
]
mc("C05", "Oracle: the matching rule over the declared component sets. Compiled programs over fixed worlds and queries are executed on symbolic populations and keys; for all declarations and queries within the bounds, the macro functions themselves are executed, and which archetypes an expansion acts on, and what each parameter binds to, is read from the tokens they produce.",
   lambda: R("progd05", *G5[:4], **BIGP) + R("progr05", *G5[4:], **BIGP) + M("c05_one2", "c05_two3", "c05_three3"),
   lambda: R("progd05", *G5, **BIGP) + R("progr05", *G5, **BIGP) + M("c05_one2", "c05_one3", "c05_one2_wide", "c05_two3", "c05_three6", **DEEP), MACRO)
mc("C15", "Oracle: the enum-discriminant rule, for all declarations within the bounds (the macro functions executed), and for what compiled programs report.",
   lambda: R("progd15", *G15, **BIGP) + R("progr15", "c15_d1_ids", **BIGP) + M("c15_arch1", "c15_arch3", "c15_comp3", "c15_both"),
   lambda: R("progd15", *G15, **BIGP) + R("progr15", *G15, **BIGP) + M("c15_arch2", "c15_arch3_full", "c15_arch4", "c15_comp2", "c15_comp3_full", "c15_comp4", "c15_both_full", **DEEP), MACRO)
mc("C16", "Oracle: the expansion of the same declaration and query with the disabled items left out and the attributes of the others removed.",
   lambda: R("progd16", *G16, **BIGP) + R("progd16a", *G16, **BIGP) + R("progd16b", *G16, **BIGP) + R("progr16c", *G16, **BIGP) + M("c16_arch3", "c16_comp3", "c16_mixed2", "c16_params1", "c16_params2", "c16_both2"),
   lambda: sum((R("prog" + d + c, *G16, **BIGP) for d in "dr" for c in ("16", "16a", "16b", "16c", "16d")), []) + M("c16_arch3_more", "c16_comp3_more", "c16_mixed3", "c16_mixed4", "c16_params1", "c16_params2_more", "c16_params3_more", "c16_both3", **DEEP), MACRO)

# C18
FORBID = "no token of the expansion is one that forbid(unsafe_code) refuses or that would switch it off"
d("c18_worlds", "every world of 2 archetypes over 2 components: " + FORBID, "world", "end")
d("c18_worlds_more", "every world of 3 archetypes over 3 components: " + FORBID, "world", "end")
d("c18_query1", "3 worlds, one parameter of any kind, all 5 macros: " + FORBID, "query", "end")
d("c18_query1_more", "6 worlds, one parameter of any kind, all 5 macros: " + FORBID, "query", "end")
d("c18_query2", "2 worlds, 2 parameters of any kind in any order, all 5 macros: " + FORBID, "query", "end")
d("c18_query3", "3 worlds, 3 parameters of any kind in any order: " + FORBID, "query", "end")
for n in (1, 2, 3):
    d("c18_mut%d" % n, "one of 6 kinds of handle parameter declared &mut at any of %d places, the others of any kind, all 5 macros: the macro refuses" % n, "rejected", "end")
TWIN = "component values symbolic; compiled under forbid(unsafe_code); the same program with the steps swapped must be refused by the compiler, or be executed itself (c18_unsound)"
d("c18_hold", "each of 50 ways to refer to a component, an entity or an archetype, ended before each of 24 changes of the world; " + TWIN)
d("c18_solo", "95 programs with two paths to a value, used in turns, and queries of several parameters; " + TWIN)
d("c18_event", "4 ways to read an event log, ended before each of 24 changes of the world; " + TWIN)
d("c18_unsound", "every unsound program of the corpus that the compiler admits: no path reads freed memory or sees two mutable paths to one value (a panic is fine)")
d("c18_traits", "every handle, world, archetype, view, slice struct, borrow, iterator and iterator item, over component types that are Send or not and Sync or not: the constants the compiler settles")
ENV = ["c18_traits", "c18_unsound", "c18_hold", "c18_solo"]
mc("C18", "The macro crate is executed over symbolic declarations and queries, and every token of every expansion is judged. For the borrow envelope, a corpus of unsound programs and their sound twins: "
   "which of the unsound ones exist at all is the compiler's decision; those that it admits are executed symbolically, and are a violation if any value or any path shows the unsoundness; so are the twins, which must show none. "
   "Send and Sync are constants that the compiler settles, read off the generated code.",
   lambda: R("env", *ENV, "c18_event", **BIGP) + M("c18_worlds", "c18_query1", "c18_query2", "c18_mut1", "c18_mut2"),
   lambda: R("env", *ENV, "c18_event", **BIGP) + R("envr", *ENV, "c18_event", **BIGP) + R("envp", *ENV, **BIGP) + R("enva", *ENV, "c18_event", **BIGP)
   + M("c18_worlds", "c18_worlds_more", "c18_query1_more", "c18_query2", "c18_query3", "c18_mut1", "c18_mut2", "c18_mut3", **DEEP),
   MACRO + ["the corpus of unsound programs: 50 ways to hold a reference x 24 changes (and the same through a shared reference to the world), and 95 programs with two paths to one value; a program outside the corpus is outside the bounds",
            "rustc's borrow checker and trait solver: an unsound program that it refuses does not exist",
            "a program that compiles and panics (two mutable accesses in one ecs_find_borrow!/ecs_iter_borrow!) is sound"])
