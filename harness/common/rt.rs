//! The vocabulary of the harnesses. Under `cfg(lsym)` the functions below are resolved by the
//! symbolic executor; natively they are supplied by `main.rs`, which replays one concrete
//! assignment against the real code.

mod ffi {
    #[allow(improper_ctypes)]
    extern "C" {
        pub fn lsym_sym(tag: *const u8, len: usize, bits: u32) -> u64;
        pub fn lsym_assume(c: bool);
        pub fn lsym_check(c: bool, msg: *const u8, len: usize);
        pub fn lsym_cover(tag: *const u8, len: usize);
        pub fn lsym_live_allocs() -> u64;
        pub fn lsym_observe(v: u64);
        pub fn lsym_no_abort(on: bool);
        pub fn lsym_use(p: *const u8, len: usize);
    }
}

#[inline(never)]
pub fn sym(tag: &'static str, bits: u32) -> u64 {
    unsafe { ffi::lsym_sym(tag.as_ptr(), tag.len(), bits) }
}
pub fn sym32(tag: &'static str) -> u32 {
    sym(tag, 32) as u32
}
pub fn sym_bool(tag: &'static str) -> bool {
    sym(tag, 1) == 1
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { ffi::lsym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { ffi::lsym_check(c, msg.as_ptr(), msg.len()) }
}
#[inline(never)]
pub fn cover(tag: &'static str) {
    unsafe { ffi::lsym_cover(tag.as_ptr(), tag.len()) }
}
pub fn live_allocs() -> u64 {
    unsafe { ffi::lsym_live_allocs() }
}
/// From here on (until switched off), an attempt to allocate more than the executor's limit is a violation.
pub fn no_big_alloc(on: bool) {
    unsafe { ffi::lsym_no_abort(on) }
}
/// Records a value that the native replay of this path must reproduce.
pub fn observe(v: u64) {
    unsafe { ffi::lsym_observe(v) }
}
/// Every byte of `t` is read: uninitialised memory is reported by the executor.
pub fn touch<T>(t: &T) {
    unsafe { ffi::lsym_use(t as *const T as *const u8, core::mem::size_of::<T>()) }
}

/// A symbolic choice among `0..n`; each alternative is explored on its own path.
#[inline(never)]
pub fn pick(tag: &'static str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let v = sym(tag, 8) as usize;
    assume(v < n);
    let mut j = 0;
    while j + 1 < n {
        if v == j {
            return j;
        }
        j += 1;
    }
    n - 1
}

/// Runs `f`, returning None if it unwound.
#[cfg(lsym)]
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    use core::mem::ManuallyDrop;
    union Data<F, R> {
        f: ManuallyDrop<F>,
        r: ManuallyDrop<R>,
    }
    fn do_call<F: FnOnce() -> R, R>(d: *mut u8) {
        unsafe {
            let d = &mut *(d as *mut Data<F, R>);
            let f = ManuallyDrop::take(&mut d.f);
            d.r = ManuallyDrop::new(f());
        }
    }
    fn do_catch(_d: *mut u8, _p: *mut u8) {}
    fn go<F: FnOnce() -> R, R>(f: F) -> Option<R> {
        let mut data: Data<F, R> = Data { f: ManuallyDrop::new(f) };
        let p = &mut data as *mut Data<F, R> as *mut u8;
        unsafe {
            if core::intrinsics::catch_unwind(do_call::<F, R>, p, do_catch) == false {
                Some(ManuallyDrop::into_inner(data.r))
            } else {
                None
            }
        }
    }
    go(f)
}
#[cfg(not(lsym))]
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// Declares the entry points of a harness crate.
#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* $name:ident => $body:expr;)*) => {
        $( $(#[$m])* #[no_mangle] pub fn $name() { $body } )*
        #[cfg(not(lsym))]
        pub static ENTRIES: &[(&str, fn())] = &[ $( $(#[$m])* (stringify!($name), $name as fn()), )* ];
    };
}
