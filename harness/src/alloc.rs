//! Counting allocator: a deterministic measure of work, and a hard budget per
//! case (exceeding it ends the process with a recognisable status).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
static COUNT: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

pub const EXIT_WORK: i32 = 77;
pub const EXIT_MEM: i32 = 78;
pub const EXIT_CPU: i32 = 79;
/// Processor seconds one case may take; usual ones take milliseconds.
pub const CPU_LIMIT: i64 = 25;
const MEM_LIMIT: u64 = 3 << 30;

unsafe extern "C" {
    fn _exit(code: i32) -> !;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn clock_gettime(clock: i32, out: *mut [i64; 2]) -> i32;
}
const ITIMER_PROF: i32 = 2;
const SIGPROF: i32 = 27;
const CLOCK_PROCESS_CPUTIME_ID: i32 = 2;

extern "C" fn out_of_time(_: i32) {
    unsafe { _exit(EXIT_CPU) }
}
/// Processor time of this process in seconds.
pub fn cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t[0] as f64 + t[1] as f64 / 1e9
}
/// Ends the process after this many seconds of processor time (0: never).
pub fn limit_cpu(seconds: i64) {
    unsafe {
        signal(SIGPROF, out_of_time as *const () as usize);
        setitimer(ITIMER_PROF, &[0, 0, seconds, 0], std::ptr::null_mut());
    }
}

fn note(add: u64) {
    let n = COUNT.fetch_add(1, Relaxed) + 1;
    if n > LIMIT.load(Relaxed) {
        unsafe { _exit(EXIT_WORK) }
    }
    BYTES.fetch_add(add, Relaxed);
    let l = LIVE.fetch_add(add, Relaxed).wrapping_add(add);
    PEAK.fetch_max(l, Relaxed);
    if l > MEM_LIMIT && l < (1 << 62) {
        unsafe { _exit(EXIT_MEM) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as u64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as u64);
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn count() -> u64 {
    COUNT.load(Relaxed)
}
/// Bytes allocated so far, freed ones included.
pub fn bytes() -> u64 {
    BYTES.load(Relaxed)
}
pub fn live() -> u64 {
    LIVE.load(Relaxed)
}
/// Resets the peak to the current live size and returns that size.
pub fn reset_peak() -> u64 {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> u64 {
    PEAK.load(Relaxed)
}
/// Allows `n` more allocations from now on.
pub fn allow(n: u64) {
    LIMIT.store(COUNT.load(Relaxed).saturating_add(n), Relaxed);
}
pub fn unlimited() {
    LIMIT.store(u64::MAX, Relaxed);
}
