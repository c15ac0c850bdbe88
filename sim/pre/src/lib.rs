//! Preemption: in the build "preempt" the compiler puts calls of these functions at the beginning of every
//! block of the code under test (and of the standard library's generic code in it) and before its accesses to
//! memory. This crate itself is compiled without them (tools/rustc-blocks).

use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    /// What is switched on; not 0 only inside the code under test.
    pub static ARMED: Cell<u32> = const { Cell::new(0) };
    /// Blocks executed, accesses to statics, and at how many of them the hook is to be called.
    pub static BLOCKS: Cell<u64> = const { Cell::new(0) };
    pub static STATICS: Cell<u64> = const { Cell::new(0) };
    pub static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    pub static NEXT_STATIC: Cell<u64> = const { Cell::new(u64::MAX) };
}
static HOOK: AtomicUsize = AtomicUsize::new(0);

pub fn set_hook(f: fn()) {
    HOOK.store(f as usize, Ordering::Relaxed);
}

#[cold]
#[inline(never)]
fn hook() {
    let f = HOOK.load(Ordering::Relaxed);
    if f != 0 {
        // The hook has blocks, too.
        let a = ARMED.replace(0);
        unsafe { std::mem::transmute::<usize, fn()>(f)() }
        ARMED.set(a);
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if ARMED.get() == 0 {
        return;
    }
    let n = BLOCKS.get() + 1;
    BLOCKS.set(n);
    if n >= NEXT.get() {
        hook();
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[inline(always)]
fn access(p: usize) {
    if ARMED.get() == 0 {
        return;
    }
    if p < &raw const __data_start as usize || p >= &raw const _end as usize {
        return;
    }
    let n = STATICS.get() + 1;
    STATICS.set(n);
    if n >= NEXT_STATIC.get() {
        hook();
    }
}
macro_rules! accesses {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(p: usize) { access(p) })* };
}
accesses!(
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
);
