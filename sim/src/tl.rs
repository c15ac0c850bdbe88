//! Per-thread simulation context, and the counting global allocator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, Ordering};

pub use pre::ARMED;

pub const HEAP: u32 = 1;
pub const OS: u32 = 2;

thread_local! {
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    pub static PEAK: Cell<i64> = const { Cell::new(0) };
    pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    /// Simulated nanoseconds.
    pub static NOW: Cell<u64> = const { Cell::new(0) };
    pub static OSCTX: Cell<*mut crate::os::OsCtx> = const { Cell::new(std::ptr::null_mut()) };
    pub static SCHED: Cell<*const crate::sched::Sched> = const { Cell::new(std::ptr::null()) };
    pub static TID: Cell<u64> = const { Cell::new(0) };
    /// Seams consulted by the code under test on this thread: clock, random, environment.
    pub static USED: Cell<[u64; 3]> = const { Cell::new([0; 3]) };
    pub static WORDS: Cell<*const Vec<std::ffi::CString>> = const { Cell::new(std::ptr::null()) };
    /// Descriptors opened by a call that was given no path.
    pub static OWN_FDS: std::cell::RefCell<Vec<i32>> = const { std::cell::RefCell::new(Vec::new()) };
    pub static ENVP: Cell<[u64; 4]> = const { Cell::new([0; 4]) };
}

/// Turns the seams off while the simulator itself runs (inside a stream operation, say).
pub struct Off(u32);
impl Off {
    pub fn new() -> Off {
        let a = ARMED.get();
        ARMED.set(0);
        Off(a)
    }
    pub fn was(&self, bit: u32) -> bool {
        self.0 & bit != 0
    }
}
impl Drop for Off {
    fn drop(&mut self) {
        ARMED.set(self.0);
    }
}

/// Turns the seams on around the code under test.
pub struct On(u32);
impl On {
    pub fn new(bits: u32) -> On {
        let a = ARMED.get();
        ARMED.set(bits);
        On(a)
    }
}
impl Drop for On {
    fn drop(&mut self) {
        ARMED.set(self.0);
    }
}

pub fn heap_reset() {
    LIVE.set(0);
    PEAK.set(0);
    ALLOCS.set(0);
}

/// The page shared with the supervising process: [current run + 1, crash code, detail, first run not to begin (0: none)].
pub static PAGE: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());
pub fn page_set(i: usize, v: u64) {
    let p = PAGE.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe { p.add(i).write_volatile(v) }
    }
}
pub fn page_get(i: usize) -> u64 {
    let p = PAGE.load(Ordering::Relaxed);
    if p.is_null() { 0 } else { unsafe { p.add(i).read_volatile() } }
}
pub const EXIT_ALLOC: i32 = 97;
/// A request larger than this is refused: the process ends (as it would under a memory limit).
pub const HARD: i64 = 256 << 20;

pub struct Counting;

fn took(size: i64) {
    let l = LIVE.get() + size;
    LIVE.set(l);
    ALLOCS.set(ALLOCS.get() + 1);
    if l > PEAK.get() {
        PEAK.set(l);
    }
    if l > HARD {
        page_set(1, EXIT_ALLOC as u64);
        page_set(2, l as u64);
        crate::os::exit_now(EXIT_ALLOC);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.get() & HEAP != 0 {
            took(l.size() as i64);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARMED.get() & HEAP != 0 {
            took(l.size() as i64);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.get() & HEAP != 0 {
            LIVE.set(LIVE.get() - l.size() as i64);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ARMED.get() & HEAP != 0 {
            // The old and the new block may coexist.
            took(new as i64);
            LIVE.set(LIVE.get() - l.size() as i64);
        }
        System.realloc(p, l, new)
    }
}
