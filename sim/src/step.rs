//! The engine that decides, operation by operation, what a simulated stream or file does.

use crate::plan::*;
use crate::rng::{hash2, mix};
use crate::tl;

pub const NFIRED: usize = 16;
pub const FIRED_NAMES: [&str; NFIRED] = [
    "short_read", "interrupted_read", "io_error", "bad_sector_error", "caller_panic", "early_eof",
    "truncated_underfoot", "extended_underfoot", "overwritten_underfoot", "stall", "open_error",
    "open_interrupted", "alloc_limit", "fs_max_offset", "metadata_error", "preemption",
];

pub enum Act {
    Interrupt,
    Error(i64),
    Panic,
    Zero,
    Go,
}

pub enum Mutation {
    Len(u64),
    Over(u64, Vec<u8>),
}

/// Panic payloads of the simulator.
pub struct CallerPanic;
pub struct Runaway;

pub struct Driver {
    pub delivery: Delivery,
    pub faults: Vec<(Fault, u64)>,
    pub bad: Vec<BadRange>,
    pub lat: u64,
    pub ops: u64,
    pub attempts: u64,
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub fired: [u64; NFIRED],
    /// Error codes delivered.
    pub errors: Vec<i64>,
    /// Hash of what was asked and what was answered.
    pub trace: u64,
    /// Hash of what was asked only.
    pub asked: u64,
    pub hw: u64,
    pub hw_post: u64,
    pub max_pos_excl_tail: u64,
    pub tail_from: u64,
    pub seen_seek: bool,
    /// Where seeks led, the first of them.
    pub targets: Vec<u64>,
    pub ops_cap: u64,
    pub bytes_cap: u64,
    pub runaway: bool,
    pub no_panic: bool,
    /// The attempt at which the caller panicked.
    pub panicked: u64,
    pub time: u64,
    /// Simulated time the whole call took, sleeping included.
    pub took: u64,
    pub log: Option<Vec<String>>,
    /// Operations begun after this many bytes have been delivered, or outside [0, fence), are counted.
    pub fence: u64,
    pub beyond_fence: u64,
    pub dead_after_fence: bool,
    /// Changes of the content wait until this many bytes of the beginning have been read and the
    /// first seek has been asked for.
    pub gate: u64,
    /// Seeks beyond this offset are refused, as by a file system with a maximum file size.
    pub max_off: u64,
}

impl Driver {
    pub fn new(c: &Call) -> Driver {
        Driver {
            delivery: c.delivery.clone(),
            faults: c
                .faults
                .iter()
                .filter(|f| !matches!(f.k, Fk::Preempt { .. }))
                .map(|f| {
                    let left = match &f.k {
                        Fk::Interrupt { count } | Fk::Zero { count } => *count,
                        Fk::Error { sticky: true, .. } => u64::MAX,
                        _ => 1,
                    };
                    (f.clone(), left)
                })
                .collect(),
            bad: c.bad.clone(),
            lat: c.lat,
            ops: 0,
            attempts: 0,
            reads: 0,
            seeks: 0,
            bytes: 0,
            fired: [0; NFIRED],
            errors: vec![],
            trace: 0,
            asked: 0,
            hw: 0,
            hw_post: 0,
            max_pos_excl_tail: 0,
            tail_from: u64::MAX,
            seen_seek: false,
            targets: vec![],
            ops_cap: 3_000_000,
            bytes_cap: 512 << 20,
            runaway: false,
            no_panic: false,
            panicked: 0,
            time: 0,
            took: 0,
            log: None,
            fence: u64::MAX,
            beyond_fence: 0,
            dead_after_fence: false,
            gate: 0,
            max_off: u64::MAX,
        }
    }

    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            if l.len() < 4000 {
                l.push(f());
            }
        }
    }

    fn latency(&self) -> u64 {
        if self.lat == 0 {
            return 1000;
        }
        // Mostly disk- or network-like, sometimes very slow.
        let h = hash2(self.lat, self.attempts);
        match h % 64 {
            0 => 1_000_000_000 + (h >> 8) % 3_600_000_000_000,
            1..=7 => 1_000_000 + (h >> 8) % 200_000_000,
            _ => 1_000 + (h >> 8) % 1_000_000,
        }
    }

    /// Begins an operation: lets time pass and other threads run, then says what happens.
    pub fn begin(&mut self, is_read: bool, pos: u64, arg: u64, muts: &mut Vec<Mutation>) -> Act {
        self.attempts += 1;
        if self.ops >= self.ops_cap || self.bytes >= self.bytes_cap || self.attempts - self.fired[1] >= 4 * self.ops_cap {
            self.runaway = true;
            if !self.no_panic {
                std::panic::panic_any(Runaway);
            }
            return Act::Error(5);
        }
        let mut wait = self.latency();
        for i in 0..self.faults.len() {
            if let (Fault { at, k: Fk::Stall { ns } }, left) = &self.faults[i] {
                if *left > 0 && self.ops >= *at {
                    wait = wait.saturating_add(*ns);
                    self.faults[i].1 = 0;
                    self.fired[9] += 1;
                }
            }
        }
        self.time = self.time.saturating_add(wait);
        tl::NOW.set(tl::NOW.get().saturating_add(wait));
        crate::sched::yield_op(wait);
        let h = mix(pos ^ arg.rotate_left(32) ^ (is_read as u64) << 63);
        self.asked = hash2(self.asked, h);
        let mut act = Act::Go;
        for i in 0..self.faults.len() {
            let left = self.faults[i].1;
            if left == 0 || self.ops < self.faults[i].0.at {
                continue;
            }
            let now = self.ops == self.faults[i].0.at;
            let k = self.faults[i].0.k.clone();
            if self.gate > 0
                && matches!(k, Fk::Trunc { .. } | Fk::Extend { .. } | Fk::Over { .. })
                && (self.hw < self.gate || !(self.seen_seek || !is_read))
            {
                continue;
            }
            match k {
                Fk::Interrupt { .. } if is_read => {
                    if matches!(act, Act::Go) {
                        self.faults[i].1 -= 1;
                        act = Act::Interrupt;
                    }
                }
                Fk::Zero { .. } if is_read => {
                    if matches!(act, Act::Go) {
                        self.faults[i].1 -= 1;
                        act = Act::Zero;
                    }
                }
                Fk::Error { code, sticky } if sticky || now => {
                    if matches!(act, Act::Go) {
                        if !sticky {
                            self.faults[i].1 = 0;
                        }
                        act = Act::Error(code);
                    }
                }
                Fk::Panic if now => {
                    self.faults[i].1 = 0;
                    act = Act::Panic;
                }
                // One change of the length per operation: a stream may shrink and grow again.
                Fk::Trunc { .. } | Fk::Extend { .. } if muts.iter().any(|m| matches!(m, Mutation::Len(_))) => {}
                Fk::Trunc { len } => {
                    self.faults[i].1 = 0;
                    self.fired[6] += 1;
                    muts.push(Mutation::Len(len));
                }
                Fk::Extend { len } => {
                    self.faults[i].1 = 0;
                    self.fired[7] += 1;
                    muts.push(Mutation::Len(len));
                }
                Fk::Over { off, data } => {
                    self.faults[i].1 = 0;
                    self.fired[8] += 1;
                    muts.push(Mutation::Over(off, data));
                }
                _ => {}
            }
        }
        if self.dead_after_fence && (self.beyond_fence > 0 || pos >= self.fence) {
            act = Act::Error(5);
        }
        match &act {
            Act::Interrupt => {
                self.fired[1] += 1;
                self.trace = hash2(self.trace, 1);
                self.say(|| format!("read @{pos} want {arg} -> interrupted"));
            }
            Act::Error(c) => {
                let c = *c;
                self.fired[2] += 1;
                self.errors.push(c);
                self.ops += 1;
                self.trace = hash2(self.trace, 2 ^ (c as u64) << 8);
                self.say(|| {
                    format!("{} @{pos} arg {arg} -> error {:?}", if is_read { "read" } else { "seek" }, make_error(c).kind())
                });
            }
            Act::Panic => {
                self.fired[4] += 1;
                self.ops += 1;
                self.panicked = self.attempts;
                self.say(|| format!("op @{pos} -> caller panics"));
            }
            Act::Zero => {
                self.fired[5] += 1;
                self.ops += 1;
                self.trace = hash2(self.trace, 3);
                self.say(|| format!("read @{pos} want {arg} -> 0 (early end of data)"));
            }
            Act::Go => {}
        }
        act
    }

    /// Ends a read that goes through: how many bytes it may deliver, or a bad sector's error.
    pub fn read_size(&mut self, pos: u64, want: u64, avail: u64) -> Result<u64, i64> {
        let mut k = want.min(avail);
        for b in &self.bad {
            if pos >= b.from && pos < b.to && k > 0 {
                let code = b.code;
                self.fired[3] += 1;
                self.errors.push(code);
                self.ops += 1;
                self.trace = hash2(self.trace, 4);
                self.say(|| format!("read @{pos} want {want} -> bad sector"));
                return Err(code);
            }
            if pos < b.from && pos + k > b.from {
                k = b.from - pos;
            }
        }
        if k > 0 && self.hw >= self.gate {
            let d = self.delivery.size(self.ops, pos, k).max(1).min(k);
            if d < want.min(avail) {
                self.fired[0] += 1;
            }
            k = d;
        }
        Ok(k)
    }

    pub fn end_read(&mut self, pos: u64, want: u64, got: u64) {
        self.ops += 1;
        self.reads += 1;
        self.bytes += got;
        self.hw = self.hw.max(pos + got);
        if self.seen_seek {
            self.hw_post = self.hw_post.max(pos + got);
        }
        if pos < self.tail_from {
            self.max_pos_excl_tail = self.max_pos_excl_tail.max((pos + got).min(self.tail_from));
        }
        if pos + got >= self.fence {
            self.beyond_fence += 1;
        }
        self.trace = hash2(self.trace, mix(pos ^ got << 40));
        self.say(|| format!("read @{pos} want {want} -> {got}"));
    }

    pub fn end_seek(&mut self, from: u64, to: Option<u64>) {
        self.ops += 1;
        self.seeks += 1;
        self.seen_seek = true;
        if let (Some(t), true) = (to, self.targets.len() < 48) {
            self.targets.push(t);
        }
        self.trace = hash2(self.trace, mix(to.unwrap_or(u64::MAX) ^ 77));
        self.say(|| format!("seek from {from} -> {to:?}"));
    }
}
