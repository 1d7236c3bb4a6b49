//! Nondeterminism layer of the harnesses.
//!
//! Built for the symbolic engine (`--cfg vp_symx`) every call is an external the engine interprets:
//! a fresh symbolic variable, an assumption, or an assertion. Built natively the values come from a
//! replay tape (the concrete values of a solver model), in the same order, so that a counterexample
//! re-runs against the real compiled code.
#![allow(clippy::missing_safety_doc)]

#[cfg(vp_symx)]
mod imp {
    extern "C" {
        fn vp_sym(bits: u32, name: *const u8, len: usize) -> u64;
        fn vp_assume(c: bool);
        fn vp_check(prop: u32, c: bool, msg: *const u8, len: usize);
        fn vp_witness(msg: *const u8, len: usize);
        fn vp_bound(msg: *const u8, len: usize);
        fn vp_trace(v: u64);
        fn vp_concretize(v: u64) -> u64;
        fn vp_heap() -> u64;
        fn vp_co_new(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64;
        fn vp_co_resume(id: u64);
        fn vp_co_yield();
        fn vp_co_done(id: u64) -> bool;
    }
    /// A thread of the program; it runs only while it is resumed, up to its next yield.
    pub fn co_new(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 {
        unsafe { vp_co_new(f, arg) }
    }
    pub fn co_resume(id: u64) {
        unsafe { vp_co_resume(id) }
    }
    pub fn co_yield() {
        unsafe { vp_co_yield() }
    }
    pub fn co_done(id: u64) -> bool {
        unsafe { vp_co_done(id) }
    }
    /// A harness runs.
    #[inline(always)]
    pub fn running() -> bool {
        true
    }
    /// Bytes allocated and not freed.
    #[inline(always)]
    pub fn heap() -> u64 {
        unsafe { vp_heap() }
    }
    #[inline(always)]
    pub fn sym(bits: u32, name: &'static str) -> u64 {
        unsafe { vp_sym(bits, name.as_ptr(), name.len()) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vp_assume(c) }
    }
    #[inline(always)]
    pub fn check_(prop: u32, c: bool, msg: &'static str) {
        unsafe { vp_check(prop, c, msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn witness(msg: &'static str) {
        unsafe { vp_witness(msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn bound_(msg: &'static str) {
        unsafe { vp_bound(msg.as_ptr(), msg.len()) }
    }
    #[inline(always)]
    pub fn trace(v: u64) {
        unsafe { vp_trace(v) }
    }
    /// Split into one path per feasible value.
    #[inline(always)]
    pub fn split(v: u64) -> u64 {
        unsafe { vp_concretize(v) }
    }
}

#[cfg(not(vp_symx))]
mod imp {
    use std::sync::Mutex;
    static TAPE: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
    static TRACE: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    static WITNESS: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
    static PROP: Mutex<u64> = Mutex::new(0);

    struct Counting;
    static HEAP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    unsafe impl std::alloc::GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            HEAP.fetch_add(l.size() as u64, std::sync::atomic::Ordering::SeqCst);
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            HEAP.fetch_sub(l.size() as u64, std::sync::atomic::Ordering::SeqCst);
            std::alloc::System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static ALLOC: Counting = Counting;
    /// Bytes allocated and not freed.
    pub fn heap() -> u64 {
        HEAP.load(std::sync::atomic::Ordering::SeqCst)
    }

    static RUNNING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    /// A harness runs.
    pub fn running() -> bool {
        RUNNING.load(std::sync::atomic::Ordering::SeqCst)
    }
    pub fn load(values: Vec<u64>, prop: u64) {
        RUNNING.store(true, std::sync::atomic::Ordering::SeqCst);
        *TAPE.lock().unwrap() = (values, 0);
        *PROP.lock().unwrap() = prop;
    }
    pub fn finish() -> (Vec<u64>, Vec<&'static str>) {
        RUNNING.store(false, std::sync::atomic::Ordering::SeqCst);
        (
            std::mem::take(&mut TRACE.lock().unwrap()),
            std::mem::take(&mut WITNESS.lock().unwrap()),
        )
    }
    // coroutines are threads that hand one token around
    struct Turn {
        now: u64,
        done: Vec<bool>,
    }
    static TURN: Mutex<Turn> = Mutex::new(Turn { now: 0, done: Vec::new() });
    static CHANGED: std::sync::Condvar = std::sync::Condvar::new();
    thread_local!(static ME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
    fn hand_over(to: u64, me: u64) {
        let mut t = TURN.lock().unwrap();
        t.now = to;
        CHANGED.notify_all();
        while t.now != me {
            t = CHANGED.wait(t).unwrap();
        }
    }
    /// A thread of the program; it runs only while it is resumed, up to its next yield.
    pub fn co_new(f: extern "C" fn(*mut u8), arg: *mut u8) -> u64 {
        let arg = arg as usize;
        let id = {
            let mut t = TURN.lock().unwrap();
            t.done.push(false);
            t.done.len() as u64
        };
        std::thread::spawn(move || {
            ME.set(id);
            let mut t = TURN.lock().unwrap();
            while t.now != id {
                t = CHANGED.wait(t).unwrap();
            }
            drop(t);
            f(arg as *mut u8);
            let mut t = TURN.lock().unwrap();
            t.done[id as usize - 1] = true;
            t.now = 0;
            CHANGED.notify_all();
        });
        id
    }
    pub fn co_resume(id: u64) {
        hand_over(id, 0)
    }
    pub fn co_yield() {
        hand_over(0, ME.get())
    }
    pub fn co_done(id: u64) -> bool {
        TURN.lock().unwrap().done[id as usize - 1]
    }
    pub fn sym(bits: u32, _name: &'static str) -> u64 {
        let mut t = TAPE.lock().unwrap();
        let i = t.1;
        t.1 += 1;
        let v = t.0.get(i).copied().unwrap_or(0);
        if bits >= 64 {
            v
        } else {
            v & ((1u64 << bits) - 1)
        }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("VP-ASSUME-FAILED");
            std::process::exit(3);
        }
    }
    pub fn check_(prop: u32, c: bool, msg: &'static str) {
        let p = *PROP.lock().unwrap();
        if !c && (p == 0 || p >> prop & 1 == 1) {
            println!("VP-CHECK-FAILED C{prop:02}: {msg}");
            std::process::exit(101);
        }
    }
    pub fn witness(msg: &'static str) {
        WITNESS.lock().unwrap().push(msg);
    }
    pub fn bound_(msg: &'static str) {
        println!("VP-BOUND: {msg}");
        std::process::exit(5);
    }
    pub fn trace(v: u64) {
        TRACE.lock().unwrap().push(v);
    }
    pub fn split(v: u64) -> u64 {
        v
    }
}

pub use imp::*;

#[inline(always)]
pub fn u8(name: &'static str) -> u8 {
    sym(8, name) as u8
}
#[inline(always)]
pub fn u16(name: &'static str) -> u16 {
    sym(16, name) as u16
}
#[inline(always)]
pub fn u32(name: &'static str) -> u32 {
    sym(32, name) as u32
}
#[inline(always)]
pub fn u64(name: &'static str) -> u64 {
    sym(64, name)
}
#[inline(always)]
pub fn bool(name: &'static str) -> bool {
    sym(1, name) & 1 == 1
}
/// A value in `lo..=hi`.
#[inline(always)]
pub fn range(lo: usize, hi: usize, name: &'static str) -> usize {
    let v = sym(8, name) as usize;
    assume((lo <= v) & (v <= hi));
    v
}
/// A value in `lo..=hi`, one path per value.
#[inline(always)]
pub fn pick(lo: usize, hi: usize, name: &'static str) -> usize {
    if lo == hi {
        return lo;
    }
    split(range(lo, hi, name) as u64) as usize
}

/// The property assertion: `check!(C01 number, condition, "message")`.
#[macro_export]
macro_rules! check {
    // what breaks several properties at once
    ([$($prop:expr),+], $cond:expr, $msg:literal) => {{
        let cond: bool = $cond;
        $( $crate::check_($prop, cond, $msg); )+
    }};
    ($prop:expr, $cond:expr, $msg:literal) => {
        $crate::check_($prop, $cond, $msg)
    };
}
/// A modelling bound: exceeding it is inconclusive, never a verdict.
#[macro_export]
macro_rules! bound {
    ($cond:expr, $msg:literal) => {
        if !($cond) {
            $crate::bound_($msg)
        }
    };
}

/// The native replay driver: `VP_TAPE=v0,v1,.. VP_PROP=n,.. <bin> <entry>`.
#[cfg(not(vp_symx))]
pub fn replay_main(entries: &[(&str, fn())]) {
    let name = std::env::args().nth(1).expect("entry name");
    let tape = std::env::var("VP_TAPE").unwrap_or_default();
    let values = tape
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.trim().parse::<u64>().expect("tape value"))
        .collect();
    // the properties whose checks count; none: all of them
    let prop = std::env::var("VP_PROP")
        .unwrap_or_default()
        .split(',')
        .filter_map(|p| p.trim().parse::<u32>().ok())
        .filter(|p| *p != 0)
        .fold(0u64, |m, p| m | 1 << p);
    imp::load(values, prop);
    std::panic::set_hook(Box::new(|i| {
        println!("VP-PANIC {i}");
        std::process::exit(101);
    }));
    let f = entries.iter().find(|e| e.0 == name).expect("unknown entry").1;
    f();
    let (t, w) = imp::finish();
    println!("VP-OK trace={} witness={}", t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","), w.join("|"));
}
