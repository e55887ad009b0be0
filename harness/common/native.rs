//! Native side of the harness vocabulary: replays one concrete assignment against the real code.
//! Usage: hreplay ENTRY FILE   (FILE: lines `tag#n=value`)
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

struct Counting;
static LIVE: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, SeqCst);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

// fixed-size tables, so that the replayer itself never allocates while the entry runs
const MAXV: usize = 4096;
static mut VALS: Vec<(String, u64)> = Vec::new();
static mut COUNT: [(&str, u32); 256] = [("", 0); 256];
static CHECKS: AtomicU64 = AtomicU64::new(0);
static OBS: AtomicU64 = AtomicU64::new(0);
static HASH: AtomicU64 = AtomicU64::new(0xcbf29ce484222325);

fn text(p: *const u8, n: usize) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn lsym_sym(p: *const u8, n: usize, bits: u32) -> u64 {
    let tag = text(p, n);
    let mut k = 0;
    unsafe {
        for c in COUNT.iter_mut() {
            if c.0 == tag || c.0.is_empty() {
                c.0 = tag;
                k = c.1;
                c.1 += 1;
                break;
            }
        }
        for (name, v) in VALS.iter() {
            if let Some((t, i)) = name.rsplit_once('#') {
                if t == tag && i.parse() == Ok(k) {
                    return if bits >= 64 { *v } else { *v & ((1u64 << bits) - 1) };
                }
            }
        }
    }
    0
}
#[no_mangle]
pub extern "C" fn lsym_assume(c: bool) {
    if !c {
        println!("ASSUMPTION-FAILED");
        std::process::exit(4);
    }
}
#[no_mangle]
pub extern "C" fn lsym_check(c: bool, p: *const u8, n: usize) {
    CHECKS.fetch_add(1, SeqCst);
    if !c {
        println!("CHECK-FAILED {}", text(p, n));
        std::process::exit(1);
    }
}
#[no_mangle]
pub extern "C" fn lsym_cover(_p: *const u8, _n: usize) {}
#[no_mangle]
pub extern "C" fn lsym_no_abort(_on: bool) {}
#[no_mangle]
pub extern "C" fn lsym_live_allocs() -> u64 {
    LIVE.load(SeqCst)
}
#[no_mangle]
pub extern "C" fn lsym_observe(v: u64) {
    OBS.fetch_add(1, SeqCst);
    let mut h = HASH.load(SeqCst);
    for b in v.to_le_bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    HASH.store(h, SeqCst);
}
#[no_mangle]
pub extern "C" fn lsym_use(p: *const u8, n: usize) {
    let mut x = 0u8;
    for i in 0..n {
        x ^= unsafe { p.add(i).read_volatile() };
    }
    if x == 255 {
        std::hint::black_box(&x);
    }
}
pub fn main_with(entries: &[(&'static str, fn())]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for e in entries {
            println!("{}", e.0);
        }
        return;
    }
    let f = entries.iter().find(|e| e.0 == a[1]).expect("no such entry").1;
    let text = match a[2].strip_prefix("inline:") {
        Some(t) => t.replace(',', "\n"),
        None => std::fs::read_to_string(&a[2]).expect("read assignment"),
    };
    unsafe {
        VALS = text
            .lines()
            .filter_map(|l| l.trim().rsplit_once('='))
            .map(|(a, b)| (a.to_string(), b.parse::<u64>().expect("value")))
            .collect();
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("HREPLAY_VERBOSE").is_some() {
            eprintln!("{i}");
        }
    }));
    // warm up whatever std allocates lazily, so that the allocation count is the code's own
    let _ = std::panic::catch_unwind(|| panic!("warm-up"));
    println!("REPLAY {}", a[1]);
    f();
    println!("REPLAY-OK checks={} hash={} observations={}", CHECKS.load(SeqCst), HASH.load(SeqCst), OBS.load(SeqCst));
}
