//! The other end of `pristine::elsewhere`: answers calls, one per line, in a build with other reader features.
#![allow(invalid_runtime_symbol_definitions, dead_code)]

mod call;
mod content;
mod json;
mod os;
mod plan;
mod reader;
mod rng;
mod sched;
mod step;
mod tl;

use call::*;
use json::*;
use plan::Call;
use std::io::{BufRead, Write};

#[global_allocator]
static ALLOC: tl::Counting = tl::Counting;

fn main() {
    if std::env::args().nth(1).is_some() {
        return;
    }
    call::install_hook();
    // The stack every simulation has.
    std::thread::Builder::new().stack_size(2 << 20).spawn(calls).unwrap().join().unwrap();
}

fn calls() {
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { return };
        let Ok(j) = J::parse(&l) else { return };
        let c = Call::from_j(&j);
        let mut r = crate::reader::SimReader::new(&c);
        r.d.ops_cap = 400_000;
        let g = run_reader(&mut r, 0);
        let o = obj(vec![("res", J::Str(g.show())), ("trace", n(r.d.trace))]).to_s();
        let mut out = std::io::stdout().lock();
        if writeln!(out, "{o}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
