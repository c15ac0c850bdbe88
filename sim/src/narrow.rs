//! The other end of `pristine::elsewhere` for C26: answers calls, one per line, in a build for a machine with
//! 32-bit pointers. It has no C library of that kind to link against the usual way (only the shared objects),
//! so it brings its own entry point.
#![allow(dead_code)]
#![cfg_attr(target_pointer_width = "32", no_main)]

mod call;
mod content;
mod json;
mod plan;
mod reader;
mod rng;
mod step;
mod tl;

/// No file is opened here.
mod os {
    pub struct OsCtx {
        pub d: crate::step::Driver,
    }
    pub fn word(_: u64) -> Option<&'static std::ffi::CStr> {
        None
    }
    pub fn exit_now(code: i32) -> ! {
        std::process::exit(code)
    }
}
/// Nor are there several threads.
mod sched {
    pub struct Sched;
    pub fn yield_op(_: u64) {}
}

use call::*;
use json::*;
use plan::Call;
use std::io::{BufRead, Write};

#[global_allocator]
static ALLOC: tl::Counting = tl::Counting;

#[cfg(all(target_arch = "x86", target_pointer_width = "32"))]
core::arch::global_asm!(
    ".globl _start",
    "_start:",
    "xor ebp, ebp",
    "pop esi",
    "mov ecx, esp",
    "and esp, -16",
    "push eax",
    "push esp",
    "push edx",
    "push 0",
    "push 0",
    "push ecx",
    "push esi",
    "lea eax, [sim_main]",
    "push eax",
    "call __libc_start_main",
    "hlt"
);

#[no_mangle]
extern "C" fn sim_main(_: i32, _: *const *const u8) -> i32 {
    call::install_hook();
    if std::env::args().nth(1).is_none() {
        // The stack every simulation has.
        std::thread::Builder::new().stack_size(2 << 20).spawn(calls).unwrap().join().unwrap();
    } else {
        println!("{} bits", usize::BITS);
    }
    0
}

#[cfg(not(target_pointer_width = "32"))]
fn main() {
    sim_main(0, std::ptr::null());
}

fn calls() {
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        let Ok(j) = J::parse(&l) else { return };
        let c = Call::from_j(&j);
        let mut r = crate::reader::SimReader::new(&c);
        r.d.ops_cap = 400_000;
        tl::heap_reset();
        let g = run_reader(&mut r, tl::HEAP);
        let o = obj(vec![("res", J::Str(g.show())), ("trace", n(r.d.trace))]).to_s();
        let mut out = std::io::stdout().lock();
        if writeln!(out, "{o}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
