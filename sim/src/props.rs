//! The properties: how each one's scenarios are drawn, and how a run is judged.

use crate::call::*;
use crate::content::*;
use crate::endless;
use crate::gen;
use crate::os::OsCtx;
use crate::plan::*;
use crate::pristine;
use crate::reader::{describe, raise, SimReader, RAISES};
use crate::rng::{hash2, Rng};
use crate::step::*;
use crate::tl;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};

pub const PREFIX: u64 = 36_870;
pub const HEAP_LIMIT: i64 = 1 << 20;

pub struct Viol {
    /// What went wrong, in a form that stays the same while the scenario shrinks.
    pub class: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub skipped: u64,
    pub calls: u64,
    pub ops: u64,
    pub sim_ns: u128,
    pub fired: [u64; NFIRED],
    pub extra: BTreeMap<String, u64>,
    pub families: BTreeMap<String, u64>,
    pub answers: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub nontrivial: u64,
    pub max_peak: i64,
    pub used: [u64; 3],
    pub digest: u64,
}
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += v;
    }
    fn driver(&mut self, d: &Driver) {
        self.ops += d.ops;
        self.sim_ns += d.time as u128;
        for i in 0..NFIRED {
            self.fired[i] += d.fired[i];
        }
        self.digest = hash2(self.digest, d.trace);
    }
    fn answer(&mut self, r: &Res) {
        let k = r.show();
        self.digest = hash2(self.digest, fnv(k.as_bytes()));
        *self.answers.entry(k).or_insert(0) += 1;
    }
}

pub struct Cx {
    pub scratch: PathBuf,
    pub st: Stats,
    pub log: bool,
    pub trace: Vec<String>,
    /// Pristine answers by content.
    pub memo: HashMap<u64, Option<String>>,
    pub txt: bool,
    pub full: bool,
    run_no: u64,
    /// Threads after each of the last calls.
    tasks: Vec<usize>,
}

impl Cx {
    pub fn new(scratch: &str) -> Cx {
        Cx {
            scratch: PathBuf::from(scratch),
            st: Stats::default(),
            log: false,
            trace: vec![],
            memo: HashMap::new(),
            txt: cfg!(feature = "txt"),
            full: cfg!(feature = "reader"),
            run_no: 0,
            tasks: vec![],
        }
    }
    fn reader(&mut self, c: &Call) -> SimReader {
        let mut r = SimReader::new(c);
        if self.log {
            r.d.log = Some(vec![]);
        }
        r
    }
    fn finish(&mut self, what: &str, d: &mut Driver, res: &Res) {
        self.st.calls += 1;
        self.st.driver(d);
        self.st.answer(res);
        if let Some(l) = d.log.take() {
            self.trace.push(format!("{what}:"));
            self.trace.extend(l.into_iter().map(|x| format!("  {x}")));
            self.trace.push(format!("  => {}", res.show()));
        }
    }
    fn note(&mut self, t: String) {
        if self.log {
            self.trace.push(t);
        }
    }
    fn key(&mut self, k: u64, nontrivial: bool) {
        if nontrivial {
            self.st.nontrivial += 1;
            self.st.distinct.insert(k);
        }
    }
}

// ---------------------------------------------------------------------------------- drawing

fn at(r: &mut Rng) -> u64 {
    if let Some(n) = gen::fresh_int(r, 15, 20_000) {
        return n;
    }
    match r.below(6) {
        0 => r.below(4),
        1 => r.below(12),
        2 | 3 => r.below(60),
        4 => r.below(300),
        _ => r.skew(5000),
    }
}

pub fn delivery(r: &mut Rng, c: &Content) -> Delivery {
    let floor = 1 + c.len.min(1 << 26) / 40_000;
    if let Some(n) = gen::fresh_int(r, 15, 1 << 20) {
        return Delivery::Fixed(n.max(floor));
    }
    let d = match r.below(9) {
        0 if c.len < 60_000 || r.one_in(10) => Delivery::Fixed(floor),
        0 | 1 => Delivery::Fixed(floor + *r.pick(&[1u64, 2, 3, 6, 12, 15, 99, 511, 1459, 4095, 8191, 32_767, 36_869])),
        2 | 3 => Delivery::Rand { seed: r.next(), max: floor + r.skew(40_000) },
        4 | 5 => Delivery::Mixed { seed: r.next(), max: floor + r.skew(9000), p: *r.pick(&[50, 80, 95]) },
        6 => {
            let mut v: Vec<u64> = (0..1 + r.below(6)).map(|_| cut(r, c)).collect();
            v.sort();
            v.dedup();
            Delivery::Cuts(v)
        }
        7 => Delivery::Cuts(vec![cut(r, c)]),
        _ => Delivery::Cuts((1..64).map(|i| i * 8192).collect()),
    };
    d
}
fn cut(r: &mut Rng, c: &Content) -> u64 {
    let b = match r.below(6) {
        0 => r.below(c.len.saturating_add(1)),
        1 => {
            let (o, d) = if c.segs.is_empty() { (0, 0) } else { let s = r.pick(&c.segs); (s.0, s.1.len() as u64) };
            if r.pct(50) { o } else { o + d }
        }
        2 => 8192 * r.range(1, 8),
        3 => 5 + 32_768 * r.range(1, 3),
        4 => PREFIX,
        _ => r.below(100),
    };
    b.saturating_add(r.below(20)).saturating_sub(10).max(1)
}

fn hard_code(r: &mut Rng, custom: bool) -> i64 {
    match r.below(if custom { 4 } else { 3 }) {
        0 | 1 => *r.pick(&ERRNOS) as i64,
        2 => -(1 + r.below(HARD_KINDS) as i64),
        _ => caller_code(r.below(HARD_KINDS), r.next()),
    }
}

fn short_some(r: &mut Rng, c: &mut Call, p: u64) {
    if r.pct(p) {
        c.delivery = delivery(r, &c.content);
    }
}

/// Errors at random operations, and bad sectors.
fn hard_faults(r: &mut Rng, c: &mut Call, custom: bool) {
    if r.pct(20) {
        // Where the call is sure to come by.
        let mut s = SimReader::new(&Call::new(c.content.clone()));
        s.d.ops_cap = 3000;
        run_reader(&mut s, 0);
        let code = if r.pct(30) { *r.pick(&[-2, -3, 11, -1, 5]) } else { hard_code(r, custom) };
        if s.d.targets.is_empty() || r.pct(30) {
            c.faults.push(Fault { at: r.below(s.d.ops.max(1)), k: Fk::Error { code, sticky: r.pct(30) } });
        } else {
            let from = *r.pick(&s.d.targets);
            let to = match r.below(3) {
                0 => u64::MAX,
                1 => from.saturating_add(1),
                _ => from.saturating_add(1 + r.skew(40_000)),
            };
            c.bad.push(BadRange { from, to, code });
        }
        return;
    }
    if r.pct(70) {
        for _ in 0..1 + r.below(2) {
            let code = hard_code(r, custom);
            let a = at(r);
            c.faults.push(Fault { at: a, k: Fk::Error { code, sticky: r.pct(40) } });
        }
    }
    if c.faults.is_empty() || r.pct(25) {
        let from = match r.below(4) {
            0 => 0,
            1 => r.below(c.content.len.saturating_add(1)),
            2 => PREFIX + r.below(60_000),
            _ => r.skew(c.content.len),
        };
        let to = if r.pct(50) { u64::MAX } else { from + 1 + r.skew(100_000) };
        let code = hard_code(r, custom);
        c.bad.push(BadRange { from, to, code });
    }
}
fn interrupts(r: &mut Rng, c: &mut Call) {
    for _ in 0..1 + r.below(4) {
        let count = *r.pick(&[1u64, 1, 1, 2, 3, 5, 17, 100, 300, 1100, 70_000]);
        let count = if count > 1000 && !r.one_in(8) { 1 } else { count };
        let count = gen::fresh_int(r, 20, 100_000).unwrap_or(count);
        let a = at(r);
        c.faults.push(Fault { at: a, k: Fk::Interrupt { count } });
    }
}
fn mutations(r: &mut Rng, c: &mut Call, n: u64) {
    for _ in 0..n {
        let a = at(r);
        let len = c.content.len;
        if r.one_in(4) {
            // Cut for a moment only.
            let short = match r.below(3) {
                0 => r.below(70),
                1 => r.skew(len),
                _ => r.below(len + 1),
            };
            c.faults.push(Fault { at: a, k: Fk::Trunc { len: short } });
            let back = a + 1 + r.skew(6);
            c.faults.push(Fault { at: back, k: Fk::Extend { len: if r.pct(70) { len } else { len.saturating_add(r.skew(100_000)) } } });
            continue;
        }
        let k = match r.below(5) {
            0 | 1 => Fk::Trunc { len: if r.pct(30) { r.skew(len) } else { r.below(len + 1) } },
            2 => Fk::Extend { len: len.saturating_add(1 + r.skew(100_000)) },
            _ => {
                let off = if r.pct(40) { r.skew(len) } else { r.below(len + 1) };
                let n = 1 + r.skew(400) as usize;
                let data = match r.below(4) {
                    0 => r.bytes(n),
                    1 => vec![0xff; n],
                    2 => {
                        // Another container's or text's beginning, or a piece of this content.
                        let o = gen::any(r, 20);
                        o.materialize(0, 2000)
                    }
                    _ => {
                        let from = r.below(len + 1);
                        c.content.materialize(from, n as u64)
                    }
                };
                Fk::Over { off, data }
            }
        };
        c.faults.push(Fault { at: a, k });
    }
}
/// Few calls on contents of one kind, all at once and without trouble of their own, interrupted for long at few
/// places.
fn duel(r: &mut Rng, sc: &mut Scenario, first: Content, h: u64) {
    let mut pool = vec![first];
    for _ in 0..r.below(3) {
        let like = (0..40).map(|_| gen::any(r, h)).find(|c| c.label == pool[0].label);
        pool.extend(like);
    }
    let n = if r.pct(70) { 2 } else { 3 };
    for i in 0..n {
        let mut c = Call::new(r.pick(&pool).clone());
        c.content.len = c.content.len.min(100_000);
        c.api = *r.pick(&[Api::Reader, Api::Reader, Api::Bytes, Api::File]);
        c.thread = i;
        c.path = 10 * i;
        let stat = r.pct(60);
        let span = 1u64 << if stat { r.below(10) } else { r.range(4, 11) };
        for _ in 0..if i == 0 { 1 + r.below(2) } else { r.below(3) } {
            c.faults.push(Fault { at: 1 + r.below(span), k: Fk::Preempt { stat, ns: 1 << r.range(12, 30) } });
        }
        sc.calls.push(c);
    }
}

/// Points at which the calls' threads lose the processor.
fn preemptions(r: &mut Rng, calls: &mut [Call]) {
    let few = r.pct(60);
    let span = 1u64 << r.range(4, 13);
    let statics = *r.pick(&[0u64, 25, 60]);
    let long = r.below(34);
    if r.pct(50) {
        for c in calls.iter_mut() {
            c.start = 0;
        }
    }
    for c in calls {
        let n = if few { r.below(4) } else { r.below(40) };
        for _ in 0..n {
            c.faults.push(Fault { at: 1 + r.below(span), k: Fk::Preempt { stat: false, ns: { let k = r.below(1 + long); r.below(1 << k) } } });
        }
        for at in 1..=24 {
            if r.pct(statics) {
                c.faults.push(Fault { at, k: Fk::Preempt { stat: true, ns: { let k = r.below(1 + long); r.below(1 << k) } } });
            }
        }
    }
}

fn stalls(r: &mut Rng, c: &mut Call) {
    if r.pct(60) {
        c.lat = r.next() | 1;
    }
    for _ in 0..r.below(3) {
        let a = at(r);
        let ns = if let Some(n) = gen::fresh_int(r, 40, 1 << 30) { n * *r.pick(&[1u64, 1_000, 1_000_000, 1_000_000_000]) } else { 1_000_000_000 * *r.pick(&[1u64, 5, 11, 31, 61, 301, 3601, 86_401, 10_000_000]) };
        c.faults.push(Fault { at: a, k: Fk::Stall { ns } });
    }
}
fn endless_any(r: &mut Rng) -> Content {
    let mut c = match r.below(4) {
        0 | 1 => {
            let k = r.below(11);
            let k = if k == 7 && !r.one_in(10) { 6 } else { k };
            let e = endless::make(r, k as usize);
            if r.pct(50) { e.a } else { e.b }
        }
        _ => {
            let mut c = gen::any(r, 50);
            c.fill = match r.below(3) {
                0 => Fill::Hash { seed: r.next(), ascii: r.pct(50) },
                1 => Fill::Byte(*r.pick(b"\0 a\xff\x80")),
                _ => {
                    let n = 4 + r.below(60) as usize;
                    let b = c.materialize(0, 64);
                    let o = r.below(b.len() as u64 + 1) as usize;
                    let head: Vec<u8> = b[o..].iter().cycle().take(if b[o..].is_empty() { 0 } else { n }).copied().collect();
                    Fill::Cycle { base: c.len, stride: 1 + r.skew(1 << 21), head, vary: if r.pct(30) { (r.below(30), r.below(60)) } else { (0, 0) } }
                }
            };
            c.len = *r.pick(&[1u64 << 20, 1 << 32, 1 << 40, u64::MAX >> 1, u64::MAX, (1 << 63) + 5, 1 << 53]);
            c.label = format!("endless-{}", c.label);
            c
        }
    };
    if let Fill::Cycle { stride, .. } = &mut c.fill {
        *stride = (*stride).max(64);
    }
    c
}

/// Where the readers look in this content.
pub fn targets(c: &Content) -> Vec<u64> {
    let look = || {
        let mut s = SimReader::new(&Call::new(c.clone()));
        s.d.ops_cap = 3000;
        run_reader(&mut s, 0);
        s.d.targets
    };
    if !CALL_FREE.get() {
        return look();
    }
    let b = pristine::forked(|| look().iter().flat_map(|x| x.to_le_bytes()).collect()).unwrap_or_default();
    b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect()
}
thread_local! {
    /// Is this process one that must not make any call itself?
    static CALL_FREE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// With probability p%, damages fields where the readers look.
fn poked(r: &mut Rng, mut c: Content, p: u64) -> Content {
    if r.pct(p) {
        let t = targets(&c);
        if r.one_in(4) {
            gen::link(r, &mut c, &t);
        } else if r.one_in(5) {
            gen::repeat(r, &mut c, &t);
        } else {
            gen::poke(r, &mut c, &t);
        }
    }
    c
}

/// A sparse content of several gigabytes now and then.
fn any_or_sparse(r: &mut Rng, h: u64) -> Content {
    let k = r.below(120);
    if k < 13 {
        let mut c = if k < 3 { gen::sparse(r) } else { gen::wide(r) };
        if r.one_in(3) {
            c = poked(r, c, 100);
        }
        c
    } else {
        let c = gen::any(r, h);
        poked(r, c, h / 4)
    }
}

/// What a crash in the middle of writing a file leaves behind.
fn torn(r: &mut Rng, mut c: Content) -> Content {
    let blk = *r.pick(&[1u64, 16, 512, 512, 4096, 4096, 65_536]);
    let n = c.len / blk + 1;
    match r.below(6) {
        // Only the beginning got written.
        0 | 1 => c.len = (blk * r.below(n + 1)).min(c.len),
        // The length got written, the blocks from some point on did not.
        2 => {
            let o = blk * r.below(n);
            if o < c.len {
                let k = (c.len - o).min(200_000) as usize;
                c.segs.push((o, vec![0; k]));
            }
        }
        // Some blocks got lost.
        3 => {
            for _ in 0..1 + r.below(4) {
                let o = blk * r.below(n);
                if o < c.len {
                    let k = (c.len - o).min(blk) as usize;
                    c.segs.push((o, vec![*r.pick(&[0u8, 0, 0xff]); k]));
                }
            }
        }
        // Written in place over another file: its old end is still there.
        4 => {
            let old = gen::any(r, 0);
            let o = (blk * r.below(n)).min(c.len);
            let k = old.len.min(200_000).saturating_sub(o) as usize;
            if k > 0 {
                let b = old.materialize(o, k as u64);
                c.len = c.len.max(o + b.len() as u64);
                c.segs.push((o, b));
            }
        }
        // Blocks written to the wrong place.
        _ => {
            for _ in 0..1 + r.below(3) {
                let (a, b) = (blk * r.below(n), blk * r.below(n));
                let d = c.materialize(a, blk.min(65_536));
                if b < c.len && !d.is_empty() {
                    let k = d.len().min((c.len - b) as usize);
                    c.segs.push((b, d[..k].to_vec()));
                }
            }
        }
    }
    c
}

fn maybe_pdf_small(c: &Content) -> bool {
    c.len < 2 << 20
}

pub fn draw(prop: &str, seed: u64, index: u64, cx: &Cx) -> Scenario {
    let mut rng = Rng::new(hash2(hash2(seed, fnv(prop.as_bytes())), index));
    let r = &mut rng;
    let mut sc = Scenario { prop: prop.into(), env: Env::default(), calls: vec![], param: 0 };
    let h = *r.pick(&[0u64, 0, 0, 10, 35]);
    CALL_FREE.set(matches!(prop, "C07" | "C08" | "C23"));
    match prop {
        "C01" => {
            let mut c = Call::new(any_or_sparse(r, h));
            c.delivery = delivery(r, &c.content);
            if r.one_in(12) {
                stalls(r, &mut c);
            }
            sc.calls.push(c);
        }
        "C02" => {
            let mut c = Call::new(any_or_sparse(r, h));
            interrupts(r, &mut c);
            short_some(r, &mut c, 50);
            sc.calls.push(c);
        }
        "C03" => {
            let mut c = Call::new(any_or_sparse(r, h));
            hard_faults(r, &mut c, true);
            short_some(r, &mut c, 40);
            if r.one_in(10) {
                interrupts(r, &mut c);
            }
            sc.calls.push(c);
        }
        "C24" => {
            let mut c = Call::new(any_or_sparse(r, h));
            short_some(r, &mut c, 40);
            if r.one_in(4) {
                interrupts(r, &mut c);
            }
            if r.one_in(4) {
                // What comes after something the crate puts up with.
                let a = at(r);
                let code = -((1 + HARD_KINDS + r.below(SOFT_KINDS)) as i64);
                c.faults.push(Fault { at: a, k: if r.pct(50) { Fk::Error { code, sticky: false } } else { Fk::Zero { count: 1 } } });
            }
            // At an operation the call makes.
            let mut s = SimReader::new(&c);
            s.d.ops_cap = 5000;
            run_reader(&mut s, 0);
            let n = s.d.ops.max(1);
            let a = if r.one_in(3) { n - 1 - r.skew(n.min(6)).min(n - 1) } else { r.below(n) };
            c.faults.push(Fault { at: a, k: Fk::Panic });
            sc.param = r.below(RAISES);
            sc.calls.push(c);
        }
        "C04" => {
            let h = *r.pick(&[20u64, 45, 70, 90]);
            let content = if r.one_in(7) { endless_any(r) } else { any_or_sparse(r, h) };
            let content = poked(r, content, 25);
            let mut c = Call::new(content);
            if maybe_pdf_small(&c.content) {
                c.api = *r.pick(&[Api::Reader, Api::Reader, Api::Reader, Api::Bytes]);
            }
            short_some(r, &mut c, 30);
            for _ in 0..r.below(3) {
                match r.below(5) {
                    0 => {
                        let a = at(r);
                        let code = if r.pct(50) { hard_code(r, true) } else if r.pct(30) { caller_code(HARD_KINDS + r.below(SOFT_KINDS), r.next()) } else { -((1 + HARD_KINDS + r.below(SOFT_KINDS)) as i64) };
                        c.faults.push(Fault { at: a, k: Fk::Error { code, sticky: code >= -(HARD_KINDS as i64) && r.pct(40) } });
                    }
                    1 => {
                        let a = at(r);
                        c.faults.push(Fault { at: a, k: Fk::Zero { count: 1 + r.skew(20) } });
                    }
                    2 => interrupts(r, &mut c),
                    _ => {
                        if maybe_pdf_small(&c.content) {
                            mutations(r, &mut c, 1)
                        }
                    }
                }
            }
            sc.calls.push(c);
        }
        "C05" => {
            let pdf = r.one_in(40);
            let kind = if pdf { 7 } else { r.below(13) };
            let kind = if !pdf && kind >= 7 { kind + 1 } else { kind };
            if r.one_in(5) {
                // Anything hostile, endless or not: only the work done is judged.
                let e = if r.pct(40) { gen::any(r, h) } else { endless_any(r) };
                let mut c = Call::new(poked(r, e, 60));
                if r.one_in(5) {
                    c.delivery = Delivery::Fixed(1 + r.skew(8000).max(512));
                }
                sc.calls.push(c);
                sc.param = u64::MAX;
            } else {
                let e = endless::make(r, kind as usize);
                sc.param = e.bound;
                let mut a = Call::new(e.a);
                let mut b = Call::new(e.b);
                for c in [&mut a, &mut b] {
                    c.start = e.tail_from;
                    c.mode = e.post as u64;
                }
                if r.one_in(6) && kind != 7 {
                    let d = Delivery::Rand { seed: r.next(), max: 600 + r.skew(10_000) };
                    a.delivery = d.clone();
                    b.delivery = d;
                }
                if r.one_in(8) {
                    interrupts(r, &mut a);
                }
                sc.calls.push(a);
                sc.calls.push(b);
            }
        }
        "C06" => {
            let h = *r.pick(&[0u64, 30, 70, 90]);
            let content = if r.pct(60) { endless_any(r) } else { gen::any(r, h) };
            let content = poked(r, content, 30);
            let mut c = Call::new(content);
            if c.content.len < 1 << 20 {
                c.api = *r.pick(&[Api::Reader, Api::Reader, Api::Bytes, Api::File]);
            }
            if c.api == Api::Reader && r.pct(25) {
                c.delivery = match r.below(2) {
                    0 => Delivery::Rand { seed: r.next(), max: 1000 + r.skew(30_000) },
                    _ => Delivery::Fixed(2048),
                };
                if r.pct(30) && c.content.len < 1 << 20 {
                    hard_faults(r, &mut c, false);
                }
            }
            sc.calls.push(c);
        }
        "C25" => {
            let h = *r.pick(&[0u64, 30, 70, 90]);
            let content = if r.pct(30) { endless_any(r) } else { any_or_sparse(r, h) };
            let content = poked(r, content, 30);
            let mut c = Call::new(content);
            if c.content.len < 1 << 20 {
                c.api = *r.pick(&[Api::Reader, Api::Reader, Api::Reader, Api::Bytes, Api::File]);
            }
            short_some(r, &mut c, 30);
            let own = c.api == Api::Reader;
            match r.below(8) {
                0 => hard_faults(r, &mut c, own),
                1 => interrupts(r, &mut c),
                2 if c.api == Api::Reader => {
                    let a = at(r);
                    c.faults.push(Fault { at: a, k: Fk::Panic });
                }
                3 if own && maybe_pdf_small(&c.content) => mutations(r, &mut c, 1),
                _ => {}
            }
            sc.calls.push(c);
        }
        "C07" | "C08" => 'drawn: {
            let threads = if prop != "C08" { 1 } else if r.one_in(12) { r.range(5, 40) } else { r.range(2, 4) };
            let n = if prop == "C08" { threads + r.below(4) } else if r.one_in(40) { r.range(40, 300) } else { 2 + r.below(6) };
            let mut pool = vec![gen::any(r, h)];
            if prop == "C08" && r.pct(35) {
                duel(r, &mut sc, pool.remove(0), h);
                break 'drawn;
            }
            for _ in 0..1 + r.below(3) {
                let c = if r.pct(70) {
                    let p = r.below(pool.len() as u64) as usize;
                    let p = pool[p].clone();
                    if r.one_in(3) { poked(r, p, 100) } else { gen::sibling(r, &p) }
                } else {
                    gen::any(r, h)
                };
                pool.push(c);
            }
            for c in &mut pool {
                if c.len > 400_000 {
                    c.len = 400_000;
                }
            }
            let paths = r.range(1, 2);
            for i in 0..n {
                let mut c = Call::new(r.pick(&pool).clone());
                c.api = *r.pick(&[Api::Reader, Api::Reader, Api::Bytes, Api::File]);
                if prop == "C08" {
                    c.api = *r.pick(&[Api::Reader, Api::Reader, Api::Reader, Api::File, Api::Bytes]);
                    c.thread = if i < threads { i } else { r.below(threads) };
                    c.start = r.below(3) * r.below(1_000_000);
                    c.path = 10 * c.thread + r.below(2);
                    if r.pct(50) {
                        // A file that several threads may be reading.
                        c.path = SHARED + r.below(2);
                    }
                    if r.pct(80) {
                        c.lat = r.next() | 1;
                    }
                    if r.one_in(6) {
                        stalls(r, &mut c);
                    }
                    c.mode = 2 * r.below(2) + if r.one_in(4) { 8 } else { 0 };
                } else {
                    c.path = r.below(paths);
                    // The file is rewritten with the same modification time.
                    c.mode = r.below(4) + if r.one_in(6) { 8 } else { 0 };
                }
                if n < 30 || r.one_in(10) {
                    short_some(r, &mut c, 25);
                }
                match r.below(10) {
                    0 | 1 => hard_faults(r, &mut c, false),
                    2 if c.api == Api::Reader => {
                        let a = at(r);
                        c.faults.push(Fault { at: a, k: Fk::Panic });
                    }
                    3 => interrupts(r, &mut c),
                    4 if c.api == Api::Reader && prop == "C07" && r.pct(50) => mutations(r, &mut c, 1),
                    _ => {}
                }
                let many = (!c.faults.is_empty() || !c.bad.is_empty() || r.one_in(6)) && r.one_in(10) && n < 30;
                let reps = if many && prop == "C07" && c.api != Api::File && c.content.len < 70_000 { gen::fresh_int(r, 30, 2000).unwrap_or(r.range(10, 80)) } else { 0 };
                for _ in 0..reps {
                    sc.calls.push(c.clone());
                }
                let broken = !c.faults.is_empty() || !c.bad.is_empty();
                let retry = c.api == Api::Reader && broken && r.pct(60);
                let mut again = c.clone();
                sc.calls.push(c);
                if retry && prop == "C07" {
                    again.again = true;
                    again.faults = vec![];
                    again.bad = vec![];
                    sc.calls.push(again);
                }
            }
            if prop == "C08" && r.pct(75) {
                preemptions(r, &mut sc.calls);
            }
            if prop == "C08" && r.one_in(25) {
                // A crowd of calls stalled at the same place, and one more.
                let n = gen::fresh_int(r, 40, 200).unwrap_or(*r.pick(&[5u64, 9, 17, 33, 65, 129]));
                let last = sc.calls[r.below(sc.calls.len() as u64) as usize].clone();
                let mut c = Call::new(r.pick(&pool).clone());
                c.faults.push(Fault { at: r.below(4) * r.below(3), k: Fk::Stall { ns: 3_600_000_000_000 } });
                sc.calls = (0..n)
                    .map(|i| {
                        let mut c = if i + 1 < n { c.clone() } else { last.clone() };
                        c.thread = i;
                        c.path = 10 * i;
                        c.start = if i + 1 < n { 0 } else { 1_000_000_000 };
                        c
                    })
                    .collect();
            }
        }
        "C09" => {
            let mut c = Call::new(gen::any(r, h));
            c.api = Api::File;
            if r.one_in(12) {
                c.content = gen::sparse(r);
                if c.content.len > 1 << 40 {
                    c.content.len = 1 << 40;
                }
            } else if r.one_in(8) {
                // Large and sparse.
                c.content.fill = Fill::Byte(0);
                if r.pct(70) {
                    c.content.len = *r.pick(&[(1u64 << 31) - 1, 1 << 31, (1 << 31) + 9, 1 << 32, (1 << 32) + 77, 5 << 30, 3 << 20, 1 << 24]);
                }
            }
            short_some(r, &mut c, 50);
            if r.pct(35) {
                interrupts(r, &mut c);
            }
            if r.pct(20) {
                c.open = OpenFault::Eintr(*r.pick(&[1u64, 2, 5, 40]));
            }
            if r.one_in(4) {
                let m = *r.pick(&[(1u64 << 31) - 1, (1 << 32) - 1, (1 << 44) - 4096, 1 << 50]);
                if m > c.content.len + (1 << 20) {
                    c.start = m;
                }
            }
            if r.one_in(5) && c.open == OpenFault::None {
                c.open = OpenFault::Odd(r.below(ODD_PIPE));
            }
            c.path = name_no(r);
            c.thread = r.below(8) * r.below(2);
            if r.one_in(100) {
                // A file the system makes up while it is read, and whose size it does not know.
                sc.param = 1 + r.below(PSEUDO.len() as u64);
                c.content = Content::bytes("made up by the system", vec![]);
                c.open = OpenFault::None;
                c.start = 0;
            }
            sc.calls.push(c);
        }
        "C10" => {
            let mut c = Call::new(gen::any(r, h));
            c.api = Api::File;
            c.path = name_no(r);
            c.thread = r.below(8) * r.below(2);
            if c.content.len > 4 << 20 {
                c.content.len = 4 << 20;
            }
            match r.below(10) {
                0 | 1 => c.open = OpenFault::Errno(*r.pick(&ERRNOS)),
                2 => c.open = OpenFault::Missing,
                9 if r.one_in(3) => {
                    c.open = OpenFault::Stat(*r.pick(&ERRNOS));
                    if r.one_in(3) {
                        let a = at(r);
                        c.faults.push(Fault { at: a, k: Fk::Error { code: *r.pick(&ERRNOS) as i64, sticky: r.pct(50) } });
                    }
                }
                3 => {
                    c.open = if r.one_in(3) { OpenFault::Dir } else { OpenFault::Odd(r.range(ODD_PIPE, ODD.len() as u64 - 1)) };
                    if c.open == OpenFault::Odd(ODD_PIPE) {
                        c.content.len = c.content.len.min(60_000);
                    }
                }
                _ => {
                    for _ in 0..1 + r.below(2) {
                        let a = at(r);
                        c.faults.push(Fault { at: a, k: Fk::Error { code: *r.pick(&ERRNOS) as i64, sticky: r.pct(50) } });
                    }
                    if r.one_in(4) {
                        c.faults.clear();
                        hard_faults(r, &mut c, false);
                        c.faults.retain(|f| matches!(f.k, Fk::Error { code, .. } if code > 0));
                        c.bad.iter_mut().for_each(|b| b.code = b.code.max(5));
                    }
                }
            }
            short_some(r, &mut c, 40);
            if r.one_in(8) {
                interrupts(r, &mut c);
            }
            if r.one_in(8) && c.open == OpenFault::None {
                c.open = OpenFault::Eintr(1);
            }
            sc.calls.push(c);
        }
        "C11" => {
            let mut c = Call::new(gen::any(r, h));
            c.api = *r.pick(&[Api::Reader, Api::Reader, Api::File, Api::File, Api::Bytes]);
            if c.content.len > 4 << 20 {
                c.content.len = 4 << 20;
            }
            c.path = name_no(r);
            match r.below(8) {
                0 | 1 => hard_faults(r, &mut c, false),
                2 | 3 if c.api == Api::Reader => {
                    let a = at(r);
                    c.faults.push(Fault { at: a, k: Fk::Panic });
                }
                2 if c.api == Api::File => c.open = if r.pct(50) { OpenFault::Errno(*r.pick(&ERRNOS)) } else { OpenFault::Odd(r.below(ODD.len() as u64)) },
                4 => interrupts(r, &mut c),
                5 => {
                    let a = at(r);
                    c.faults.push(Fault { at: a, k: Fk::Zero { count: 1 + r.skew(20) } });
                }
                6 => mutations(r, &mut c, 1),
                _ => {}
            }
            short_some(r, &mut c, 30);
            // Now and then the calls are on ever different contents.
            sc.param = if r.one_in(24) && c.content.len < 200_000 { r.next() | 1 } else { 0 };
            sc.calls.push(c);
        }
        "C12" => {
            let mut c = Call::new(gen::any(r, h));
            c.api = Api::File;
            if r.one_in(10) {
                // Large and mostly empty.
                c.content.fill = Fill::Byte(0);
                c.content.len = (c.content.len % 4096) + *r.pick(&[1u64 << 20, 16 << 20, 64 << 20, 128 << 20, 1 << 30, 1 << 31, 1 << 32, 5 << 30, 1 << 36, 1 << 40]);
            } else if c.content.len > 300_000 {
                c.content.len = 300_000;
            }
            c.path = name_no(r);
            c.thread = r.below(8) * r.below(2);
            c.mode = *r.pick(&[0o644u64, 0o444, 0o600, 0o000, 0o755, 0o666]);
            // The file's times, and what the clock shows when the call begins.
            c.start = 1_000_000 + r.below(4_000_000_000);
            let age = match r.below(6) {
                0 => 0,
                1 => r.below(12),
                2 => r.below(4000),
                3 => r.skew(1 << 31),
                _ => r.below(200_000),
            };
            sc.env.clock = (if r.one_in(8) { c.start.saturating_sub(age) } else { c.start + age }) * 1_000_000_000 + r.below(1_000_000_000);
            if r.pct(40) {
                sc.env.rand = r.next() | 1;
                sc.env.vars = r.next() | 1;
                sc.env.words = words(r);
            }
            match r.below(8) {
                0 | 1 => hard_faults(r, &mut c, false),
                2 => c.open = OpenFault::Missing,
                3 => c.open = OpenFault::Errno(*r.pick(&ERRNOS)),
                4 => c.open = if r.pct(50) { OpenFault::Dir } else { OpenFault::Eintr(2) },
                5 => {
                    c.open = OpenFault::Odd(r.below(ODD.len() as u64));
                    if c.open == OpenFault::Odd(ODD_PIPE) {
                        c.open = OpenFault::Odd(0);
                    }
                }
                6 => interrupts(r, &mut c),
                _ => {}
            }
            short_some(r, &mut c, 30);
            sc.calls.push(c);
        }
        "C13" => {
            let mut c = Call::new(if !cx.full && r.pct(50) { gen::any(r, h) } else { gen::signature(r) });
            if r.pct(8) {
                c.content = gen::fixture(r);
            }
            if r.one_in(4) {
                gen::mangle(r, &mut c.content, 60);
            }
            // A tail of any length and content.
            if r.pct(75) {
                c.content.len = match r.below(5) {
                    0 => PREFIX + r.below(4),
                    1 => c.content.len.max(PREFIX - r.below(30)),
                    2 => c.content.len.max(PREFIX) + r.skew(200_000),
                    3 => 1 << r.range(17, 62),
                    _ => u64::MAX,
                };
                let o = c.content.len.min(PREFIX + r.skew(3000));
                if o >= PREFIX && c.content.len > o && r.pct(60) {
                    let t = gen::any(r, 0).materialize(0, (c.content.len - o).min(1 << 18));
                    c.content.segs.push((o, t));
                }
            }
            short_some(r, &mut c, 60);
            if let Delivery::Fixed(k) = &mut c.delivery {
                *k = (*k).min(40_000);
            }
            if r.one_in(4) {
                interrupts(r, &mut c);
            }
            // 0: operations outside the prefix fail, 1: the tail differs, 2: the tail is cut.
            sc.param = r.below(3);
            sc.calls.push(c);
        }
        "C14" => {
            let fam = r.below(13) as usize;
            let hh = if r.pct(70) { 0 } else { 30 };
            let mut c = Call::new(gen::family(r, fam, hh));
            if c.content.len > 4 << 20 {
                c.content.len = 4 << 20;
            }
            let k = 1 + r.below(3);
            mutations(r, &mut c, k);
            if r.one_in(4) {
                // Fields the readers look at change.
                let before = c.content.materialize(0, u64::MAX);
                let mut other = c.content.clone();
                let t = targets(&other);
                gen::poke(r, &mut other, &t);
                let after = other.materialize(0, u64::MAX);
                let a = at(r);
                let mut i = 0;
                while i < after.len() {
                    if before[i] != after[i] {
                        let mut j = i;
                        while j < after.len() && before[j] != after[j] {
                            j += 1;
                        }
                        c.faults.push(Fault { at: a, k: Fk::Over { off: i as u64, data: after[i..j].to_vec() } });
                        i = j;
                    }
                    i += 1;
                }
            }
            short_some(r, &mut c, 30);
            if r.one_in(8) {
                interrupts(r, &mut c);
            }
            sc.calls.push(c);
        }
        "C15" => {
            let mut c = Call::new(gen::any(r, h));
            if c.content.len > 4 << 20 {
                c.content.len = 4 << 20;
            }
            c.api = *r.pick(&[Api::Reader, Api::Reader, Api::Reader, Api::File, Api::Bytes]);
            short_some(r, &mut c, 30);
            let mut d = c.clone();
            stalls(r, &mut d);
            if r.one_in(6) {
                d.lat = 0;
                d.faults.clear();
            }
            d.thread = 1 + r.below(6);
            d.start = if d.api == Api::Bytes { r.next() >> 32 } else { 0 };
            d.path = name_no(r);
            sc.env = Env {
                rand: r.next() | 1,
                clock: r.next() >> r.range(1, 40),
                jumps: if r.pct(60) { r.next() | 1 } else { 0 },
                vars: if r.pct(70) { r.next() | 1 } else { 0 },
                words: if r.pct(80) { words(r) } else { vec![] },
            };
            sc.calls.push(c);
            sc.calls.push(d);
        }
        "C21" => {
            let fam = r.below(gen::SPACED.len() as u64) as usize;
            let s = r.next();
            let mut a = Call::new(gen::spaced(&mut Rng::new(s), fam, gen::Gap::Small));
            let mut b = Call::new(gen::spaced(&mut Rng::new(s), fam, gen::Gap::Far));
            let fill = match r.below(6) {
                0 | 1 => Fill::Byte(*r.pick(b"\0\xffaP")),
                2 | 3 => Fill::Hash { seed: r.next(), ascii: r.pct(30) },
                _ => {
                    // Skipped parts that look telling themselves.
                    let d = gen::spaced(r, fam, gen::Gap::Small);
                    let o = r.below(d.len.min(40));
                    let head = d.materialize(o, 200);
                    let head = if head.is_empty() { vec![1] } else { head };
                    let stride = head.len() as u64 + r.skew(5000);
                    Fill::Cycle { base: 64, stride, head, vary: (0, 0) }
                }
            };
            a.content.fill = fill.clone();
            b.content.fill = fill;
            short_some(r, &mut b, 40);
            if r.one_in(6) {
                interrupts(r, &mut b);
            }
            if r.one_in(6) {
                stalls(r, &mut b);
            }
            sc.calls.push(a);
            sc.calls.push(b);
        }
        "C26" => {
            let c = match r.below(12) {
                0..=3 => {
                    let c = gen::any(r, h);
                    poked(r, c, 40)
                }
                4..=6 => {
                    let fam = r.below(gen::SPACED.len() as u64) as usize;
                    let mut c = gen::spaced(r, fam, gen::Gap::Far);
                    c.fill = if r.pct(50) { Fill::Byte(*r.pick(b"\0\xffaP")) } else { Fill::Hash { seed: r.next(), ascii: r.pct(30) } };
                    if r.one_in(4) { poked(r, c, 100) } else { c }
                }
                7 => {
                    let kind = *r.pick(&[0, 1, 2, 3, 4, 5, 5, 6, 8, 9, 10, 11, 12, 13]);
                    let e = endless::make(r, kind);
                    if r.pct(50) { e.a } else { e.b }
                }
                8 => {
                    let c = endless_any(r);
                    poked(r, c, 30)
                }
                _ => far_apart(r, h),
            };
            let mut c = Call::new(c);
            short_some(r, &mut c, 30);
            if r.one_in(6) {
                interrupts(r, &mut c);
            }
            match r.below(8) {
                0 => hard_faults(r, &mut c, false),
                1 => {
                    let a = at(r);
                    c.faults.push(Fault { at: a, k: Fk::Zero { count: 1 + r.skew(9) } });
                }
                _ => {}
            }
            sc.calls.push(c);
        }
        "C23" => {
            let n = 2 + r.below(4) as usize;
            let mut cs: Vec<Content> = vec![];
            for i in 0..n {
                // Often the same bytes again, or some of the same family.
                let c = if i > 0 && r.one_in(3) { cs[r.below(i as u64) as usize].clone() } else { gen::any(r, h) };
                let c = if c.len > 200_000 { gen::fixture(r) } else { c };
                let c = poked(r, c, 10);
                cs.push(c.clone());
                let mut c = Call::new(c);
                c.api = if i == 0 || r.pct(60) { Api::Reader } else if r.pct(50) { Api::File } else { Api::Bytes };
                c.path = i as u64;
                if i > 0 {
                    c.thread = r.below(i as u64);
                    c.start = if r.pct(50) { r.below(8) } else { at(r).min(300) };
                }
                // In a destructor, while a panic unwinds.
                c.again = r.one_in(5);
                if c.api != Api::Bytes {
                    short_some(r, &mut c, 30);
                    if r.one_in(6) {
                        interrupts(r, &mut c);
                    }
                    if r.one_in(6) {
                        hard_faults(r, &mut c, true);
                    }
                }
                if c.api == Api::Reader && r.one_in(8) {
                    let a = at(r);
                    c.faults.push(Fault { at: a, k: Fk::Panic });
                }
                sc.calls.push(c);
            }
            sc.param = if r.pct(60) { 0 } else { r.range(1, 2) };
        }
        "C19" => {
            let c = gen::any(r, h);
            let c = poked(r, c, 20);
            let mut c = Call::new(c);
            if c.content.len > 1 << 18 {
                c.content.len = 1 << 18;
            }
            short_some(r, &mut c, 40);
            if r.one_in(5) {
                interrupts(r, &mut c);
            }
            match r.below(5) {
                0 => hard_faults(r, &mut c, false),
                1 => {
                    let a = at(r);
                    c.faults.push(Fault { at: a, k: Fk::Zero { count: 1 + r.skew(9) } });
                }
                _ => {}
            }
            sc.param = r.below(144);
            sc.calls.push(c);
        }
        "C22" => {
            let c = if r.pct(30) { gen::fixture(r) } else { gen::any(r, h) };
            let mut c = torn(r, c);
            if r.one_in(3) {
                c = poked(r, c, 100);
            }
            if c.len > 4 << 20 {
                c.len = 4 << 20;
            }
            let mut c = Call::new(c);
            c.api = *r.pick(&[Api::Reader, Api::Reader, Api::Bytes, Api::File]);
            short_some(r, &mut c, 30);
            if r.one_in(6) {
                interrupts(r, &mut c);
            }
            sc.calls.push(c);
        }
        _ => panic!("unknown property {prop}"),
    }
    if !matches!(prop, "C05" | "C21") && !(gen::fresh().ints.is_empty() && gen::fresh().bytes.is_empty()) {
        // Equal contents stay equal.
        let was: Vec<Content> = sc.calls.iter().map(|c| c.content.clone()).collect();
        for i in 0..sc.calls.len() {
            if let Some(j) = (0..i).find(|j| was[*j] == was[i]) {
                sc.calls[i].content = sc.calls[j].content.clone();
            } else {
                let t = if r.one_in(3) { targets(&sc.calls[i].content) } else { vec![] };
                gen::season(r, &mut sc.calls[i].content, &t);
            }
        }
    }
    for c in &mut sc.calls {
        if c.api == Api::Reader && r.pct(40) {
            c.path = r.range(1, 2);
        }
    }
    sc
}

/// Paths from here on belong to no thread: what is there is written once. (Which file, the content says too.)
const SHARED: u64 = 1 << 20;

/// File names: the answer must not depend on them.
pub const NAMES: [&str; 36] = [
    "f", "sample.zip", "a.txt", "b.PDF", ".hidden", "x.tar.gz", "name with space.png", "noext.", "d\u{e9}j\u{e0}.xml",
    "-dash.mp4", "a.docx", "b.exe", "c.mkv", "d.jpg", "e.mp3", "\u{1F600}.sqlite",
    "-", "trailing.zip ", " leading.txt", "a%2Ezip", "~", "~root", "c:file.doc", "a::b.zip", "back\\slash.pdf",
    "$HOME", "[x]*?.zip", "file:a.txt", "quote'\".xml", "new\nline.txt", "a.zip#b.txt", "@list",
    "ends.txt\n", "\ttab.zip\t", "'quoted.pdf'", "a.zip?x=1",
];
fn name_no(r: &mut Rng) -> u64 {
    if r.pct(60) { r.below(16) } else { r.below(96) }
}
/// A file's name: from those on that are left, one of the code's own new words, if there are any.
fn file_name(k: u64) -> String {
    let n = NAMES.len();
    let w = &gen::fresh().words;
    let k = k as usize;
    if k % 96 < n || w.is_empty() {
        return NAMES[k % n].to_string();
    }
    let x = &w[(k / n) % w.len()];
    let x = x.trim_matches(|c| matches!(c, '/' | '.' | '\0'));
    if x.is_empty() || x.contains(['/', '\0']) || x.len() > 100 {
        return NAMES[k % n].to_string();
    }
    match k % 8 {
        0 => x.to_string(),
        1 => format!(".{x}"),
        2 => format!("{x}.zip"),
        3 => format!("{x}a.txt"),
        4 => format!("{x}:b"),
        5 => format!("a{x}"),
        6 => format!("a.{x}"),
        _ => format!("a{x}b"),
    }
}

// ---------------------------------------------------------------------------------- files

/// A directory with a long path.
fn deep(dir: &Path, k: u64) -> PathBuf {
    let mut p = dir.to_path_buf();
    for i in 0..1 + k % 3 * (k % 7) {
        p.push(["deep", "d"][(i % 2) as usize].repeat(20 + (k >> i) as usize % 40));
    }
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// What a call is given as a path, and what has to go again afterwards.
pub struct Placed {
    pub path: PathBuf,
    /// The error the system gives for this path (0: it can be read).
    pub errno: i32,
    base: PathBuf,
    odd: bool,
    pipe: Option<i32>,
    _keep: Option<std::fs::File>,
}

/// Puts a file (or something else) at the call's path.
fn place(dir: &Path, name: &str, c: &Call) -> Placed {
    use std::os::unix::ffi::OsStringExt;
    use std::os::unix::fs::{symlink, PermissionsExt};
    let p = dir.join(name);
    remove(&p);
    let mut out = Placed { path: p.clone(), errno: 0, base: p.clone(), odd: false, pipe: None, _keep: None };
    match c.open {
        OpenFault::Missing => {}
        OpenFault::Dir => std::fs::create_dir(&p).unwrap(),
        OpenFault::Odd(ODD_PIPE) => {
            assert!(crate::os::make_node(&p, 0o10644));
            // Opened for both, so as not to wait for the other side.
            let w = crate::os::raw_open(&p, 2 | 0o4000);
            let b = c.content.materialize(0, 60_000);
            if w >= 0 {
                crate::os::raw_write(w, &b);
                out.pipe = Some(w);
            }
        }
        _ => {
            if c.content.len <= 16 << 20 {
                std::fs::write(&p, c.content.materialize(0, u64::MAX)).unwrap();
            } else {
                use std::os::unix::fs::FileExt;
                let f = std::fs::File::create(&p).unwrap();
                f.set_len(c.content.len).unwrap();
                if c.content.fill == Fill::Byte(0) {
                    for (o, b) in &c.content.segs {
                        let k = (b.len() as u64).min(c.content.len.saturating_sub(*o)) as usize;
                        f.write_all_at(&b[..k], *o).unwrap();
                    }
                } else {
                    let mut o = 0;
                    while o < c.content.len {
                        let b = c.content.materialize(o, 1 << 20);
                        f.write_all_at(&b, o).unwrap();
                        o += b.len() as u64;
                    }
                }
            }
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(c.mode as u32 & 0o777 | if c.mode < 8 { 0o644 } else { 0 })).unwrap();
        }
    }
    if let OpenFault::Odd(k) = c.open {
        out.odd = true;
        let q = dir.join("odd-a");
        let bytes = |b: Vec<u8>| std::ffi::OsString::from_vec(b);
        let link = |a: &Path, b: &Path| symlink(a, b).unwrap();
        let hard = |b: &Path| {
            if std::fs::hard_link(&p, b).is_err() {
                std::fs::copy(&p, b).unwrap();
            }
        };
        out.path = match k {
            0 => { link(&p, &q); q }
            1 => { hard(&q); q }
            2 | 3 => {
                std::env::set_current_dir(dir).unwrap();
                if k == 2 { PathBuf::from(name) } else { Path::new(".").join(name) }
            }
            4 => { std::fs::create_dir(&q).unwrap(); q.join("..").join(name) }
            5 => bytes(format!("{}//.//./{name}", dir.display()).into_bytes()).into(),
            6 => {
                let mut to = p.clone();
                for i in 0..6 {
                    let l = dir.join(format!("odd-{i}"));
                    link(&to, &l);
                    to = l;
                }
                to
            }
            7 => { let q = dir.join(bytes(b"odd-\xff\xfe.\x80zip".to_vec())); hard(&q); q }
            8 => { let q = dir.join(format!("odd-{}", "n".repeat(251))); hard(&q); q }
            9 => { link(dir, &q); q.join(name) }
            10 => {
                use std::os::fd::AsRawFd;
                let f = std::fs::File::open(&p).unwrap();
                let q = PathBuf::from(format!("/proc/self/fd/{}", f.as_raw_fd()));
                out._keep = Some(f);
                q
            }
            ODD_PIPE => p.clone(),
            12 => p.join(""),
            13 => p.join("inner.txt"),
            14 => { link(&dir.join("odd-none"), &q); q }
            15 => { link(&dir.join("odd-b"), &q); link(&q, &dir.join("odd-b")); q }
            16 => dir.join("x".repeat(300)),
            17 => PathBuf::new(),
            18 => bytes(format!("{}\0.zip", p.display()).into_bytes()).into(),
            19 => { crate::os::make_node(&q, 0o140644); q }
            20 => { link(dir, &q); q }
            21 => dir.join(""),
            22 => dir.join("odd-none").join(name),
            _ => bytes(format!("{}{}/{name}", dir.display(), "/.".repeat(2100)).into_bytes()).into(),
        };
        out.errno = if k == ODD_PIPE { 0 } else { crate::os::open_errno(&out.path) };
    }
    match c.open {
        OpenFault::Missing => out.errno = 2,
        OpenFault::Dir => out.errno = 21,
        _ => {}
    }
    out
}
impl Drop for Placed {
    fn drop(&mut self) {
        if let Some(w) = self.pipe {
            crate::os::raw_close(w);
        }
        if !self.odd {
            return;
        }
        let _ = std::env::set_current_dir("/");
        if let Some(d) = self.base.parent() {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                if e.file_name().as_encoded_bytes().starts_with(b"odd-") {
                    remove(&e.path());
                }
            }
        }
    }
}
impl Placed {
    fn call(&mut self, o: &mut OsCtx, bits: u32) -> Res {
        o.pipe = self.pipe.take();
        let r = run_file(&self.path, o, bits);
        self.pipe = o.pipe.take();
        r
    }
    fn done(self) {
        remove(&self.base);
    }
}
/// Other files with names like this one's, for as long as this lives.
struct Neighbours(Vec<PathBuf>);
impl Neighbours {
    fn new(dir: &Path, name: &str, text: &[u8]) -> Neighbours {
        let stem = name.rsplit_once('.').map_or(name, |x| x.0);
        let mut names: Vec<String> = ["", ".", ".gz", ".lock", ".tmp", ".bak", ".part", "~", ".zip", ".format"].iter().map(|s| format!("{name}{s}")).collect();
        names.extend([name.to_uppercase(), name.to_lowercase(), stem.into(), format!("{stem}.txt"), format!(".{name}"), format!("{name} ")]);
        names.extend([name.replace(' ', "%20"), name.replace(' ', "_"), name.replace('\u{e9}', "e\u{301}").replace('\u{e0}', "a\u{300}")]);
        names.extend([name.trim_start_matches(['-', '.']).to_string(), format!("{stem}.{stem}"), format!("._{name}"), format!("{name}.meta")]);
        // What it might be taken for.
        names.extend([name.trim(), name.trim_end(), name.trim_start(), name.trim_matches(['\'', '"']), name.trim_end_matches(' ')].map(String::from));
        for at in ['#', '?', ' ', ':', '\\', '\n', '\'', '[', '%', '@', '$', '~'] {
            names.extend(name.split(at).map(String::from));
        }
        names.extend([name.replace("%2E", "."), name.replace('\\', ""), name.replace("[x]*?", "x")]);
        let mut v = vec![];
        for w in gen::fresh().words.iter().take(20) {
            let w = w.trim_matches(['/', '.']);
            if !w.contains(['/', '\0']) {
                names.extend([w.to_string(), format!(".{w}"), format!("{name}.{w}"), format!("{name}{w}"), format!("{stem}.{w}")]);
            }
        }
        for n in names {
            let p = dir.join(&n);
            if !n.is_empty() && n.len() < 250 && std::fs::symlink_metadata(&p).is_err() && std::fs::write(&p, text).is_ok() {
                v.push(p);
            }
        }
        Neighbours(v)
    }
}
impl Drop for Neighbours {
    fn drop(&mut self) {
        for p in &self.0 {
            remove(p);
        }
    }
}
fn remove(p: &Path) {
    let _ = std::fs::remove_file(p);
    let _ = std::fs::remove_dir(p);
}

// ---------------------------------------------------------------------------------- judging

macro_rules! viol {
    ($class:expr, $($a:tt)*) => { return Some(Viol { class: $class.to_string(), detail: format!($($a)*) }) };
}

/// "kind of wrong answer" for grouping.
fn wrong(res: &Res) -> &'static str {
    match res {
        Res::Ok(_) => "wrong answer",
        Res::Err { .. } => "unexpected error",
        Res::CallerPanic => "caller panic escaped",
        Res::Runaway => "runaway",
        Res::Panic(_) => "panic",
    }
}

/// Puts an environment in place on this thread.
fn env_on(e: &Env) {
    tl::ENVP.set([e.rand, e.clock, e.jumps, e.vars]);
    let old = tl::WORDS.get();
    if !old.is_null() {
        tl::WORDS.set(std::ptr::null());
        drop(unsafe { Box::from_raw(old as *mut Vec<std::ffi::CString>) });
    }
    if !e.words.is_empty() {
        let w: Vec<_> = e.words.iter().filter_map(|w| std::ffi::CString::new(w.as_bytes()).ok()).collect();
        tl::WORDS.set(Box::into_raw(Box::new(w)));
    }
}

/// Words that may matter to the code, for the answers to environment lookups.
fn words(r: &mut Rng) -> Vec<String> {
    static DICT: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let d = DICT.get_or_init(|| {
        let mut v: Vec<String> = std::env::var("SIM_DICT").unwrap_or_default().lines().map(|l| l.to_string()).collect();
        const USUAL: &str = "0 1 2 3 4 8 16 64 100 1024 99999 -1 on off yes no true false y n all none full strict fast safe debug trace dumb C POSIX en_US.UTF-8 C.UTF-8 UTC /tmp / . auto always never enabled disabled max min";
        v.extend(USUAL.split(' ').map(|x| x.to_string()));
        v.push(String::new());
        v
    });
    let f = &gen::fresh().words;
    (0..r.range(1, 4)).map(|_| if !f.is_empty() && r.pct(60) { r.pick(f).clone() } else { r.pick(d).clone() }).collect()
}

pub fn run(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    cx.run_no += 1;
    cx.st.runs += 1;
    tl::NOW.set(0);
    tl::OWN_FDS.take();
    env_on(&Env::default());
    for c in &sc.calls {
        let l = c.content.label.split(':').next().unwrap().to_string();
        *cx.st.families.entry(l).or_insert(0) += 1;
    }
    let v = match sc.prop.as_str() {
        "C01" | "C02" => same_answer(sc, cx),
        "C03" => c03(sc, cx),
        "C04" => c04(sc, cx),
        "C05" => c05(sc, cx),
        "C06" => c06(sc, cx),
        "C07" => c07(sc, cx),
        "C08" => c08(sc, cx),
        "C09" => c09(sc, cx),
        "C10" => c10(sc, cx),
        "C11" => c11(sc, cx),
        "C12" => c12(sc, cx),
        "C13" => c13(sc, cx),
        "C14" => c14(sc, cx),
        "C15" => c15(sc, cx),
        "C21" => c21(sc, cx),
        "C22" => c22(sc, cx),
        "C24" => c24(sc, cx),
        "C25" => c25(sc, cx),
        "C19" => c19(sc, cx),
        "C26" => c26(sc, cx),
        "C23" => c23(sc, cx),
        p => panic!("unknown property {p}"),
    };
    let u = tl::USED.get();
    for i in 0..3 {
        cx.st.used[i] += u[i];
    }
    tl::USED.set([0; 3]);
    v
}

/// C01, C02: the answer over the simulated stream is the answer for the bytes in memory.
fn same_answer(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let want = plain(&c.content);
    if !want.is_ok() {
        cx.st.skipped += 1;
        return None;
    }
    let mut r = cx.reader(c);
    let got = run_reader(&mut r, tl::OS);
    cx.finish("from_reader", &mut r.d, &got);
    let hit = if sc.prop == "C01" { r.d.fired[0] > 0 } else { r.d.fired[1] > 0 };
    cx.key(hash2(c.content.hash(), r.d.trace), hit);
    if got != want {
        viol!(wrong(&got), "from_reader gives {}, from_bytes gives {} ({})", got.show(), want.show(), c.content.label);
    }
    let empty = c.content.len == 0;
    if (got == Res::Ok(file_format::FileFormat::Empty)) != empty {
        viol!("empty", "a stream of {} bytes gives {}", c.content.len, got.show());
    }
    None
}

fn c03(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let want = plain(&c.content);
    if !want.is_ok() {
        cx.st.skipped += 1;
        return None;
    }
    let mut r = cx.reader(c);
    let got = run_reader(&mut r, 0);
    cx.finish("from_reader", &mut r.d, &got);
    cx.key(hash2(c.content.hash(), r.d.trace), !r.d.errors.is_empty());
    match &got {
        Res::Ok(_) if got == want => None,
        Res::Ok(_) => viol!(
            "format reported for a failing stream",
            "stream failed with {:?}, from_reader gives {}, healthy stream gives {} ({})",
            names(&r.d.errors), got.show(), want.show(), c.content.label
        ),
        _ if got.is_injected(&r.d.errors) => None,
        _ => viol!(wrong(&got), "stream failed with {:?}, from_reader gives {} ({})", names(&r.d.errors), got.show(), c.content.label),
    }
}
fn names(e: &[i64]) -> Vec<String> {
    let mut v: Vec<String> = e.iter().map(|c| format!("{:?}", make_error(*c).kind())).collect();
    v.dedup();
    v.truncate(5);
    v
}

fn c24(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let c = &sc.calls[0];
    let label = &c.content.label;
    let want = catch_unwind(|| raise(sc.param)).map(|_: ()| ()).unwrap_err();
    let want = describe(&*want);
    let mut r = cx.reader(c);
    r.payload = sc.param;
    r.d.ops_cap = 300_000;
    let hooked = HOOKED.get();
    let got = catch_unwind(AssertUnwindSafe(|| {
        let _on = tl::On::new(tl::OS);
        file_format::FileFormat::from_reader(&mut r)
    }));
    let hooked = HOOKED.get() - hooked;
    let panicked = r.d.panicked;
    cx.finish("from_reader", &mut r.d, &Res::CallerPanic);
    cx.key(hash2(hash2(c.content.hash(), r.d.trace), sc.param), panicked > 0);
    if panicked == 0 || r.d.runaway {
        // The call ended before; or it panicked itself, which is judged elsewhere.
        cx.st.skipped += 1;
        return None;
    }
    if r.d.attempts > panicked {
        viol!(
            "operations after the reader's panic",
            "the reader panicked at attempt {panicked}, and was asked for {} more operations ({label})",
            r.d.attempts - panicked
        );
    }
    match got {
        Ok(Ok(f)) => viol!("the reader's panic became a format", "{f:?} for a reader that panicked with {want} ({label})"),
        Ok(Err(e)) => viol!("the reader's panic became an error", "{e:?} for a reader that panicked with {want} ({label})"),
        Err(p) => {
            let p = describe(&*p);
            if p != want {
                viol!("the reader's panic was replaced", "{p} instead of {want} ({label})");
            }
            if hooked == 0 && !matches!(sc.param, 3 | 8 | 10) {
                viol!("the panic hook did not run", "for a reader that panicked with {want} ({label})");
            }
            None
        }
    }
}

fn c04(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let got = if c.api == Api::Bytes {
        let b = c.content.materialize(0, u64::MAX);
        let g = run_bytes(&b, 0);
        cx.st.calls += 1;
        cx.st.answer(&g);
        cx.key(c.content.hash(), true);
        g
    } else {
        let mut r = cx.reader(c);
        // Judging the amount of work is another property's business.
        r.d.ops_cap = 300_000;
        let g = run_reader(&mut r, 0);
        cx.finish("from_reader", &mut r.d, &g);
        cx.key(hash2(c.content.hash(), r.d.trace), true);
        g
    };
    if let Res::Ok(f) = got {
        if let Res::Panic(m) = guarded(0, || {
            std::hint::black_box(touch(f));
            Res::Runaway
        }) {
            viol!("panic in an accessor", "{m} for {f:?}");
        }
    }
    match got {
        Res::Panic(m) => {
            let at = m.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            viol!(format!("panic in {at}"), "{m} ({})", c.content.label)
        }
        Res::CallerPanic => viol!("caller panic", "no panic was injected"),
        _ => None,
    }
}

fn c05(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let mut answers = vec![];
    for (i, c) in sc.calls.iter().enumerate() {
        let mut r = cx.reader(c);
        let short = c.delivery != Delivery::Full;
        r.d.ops_cap = if short { 1_500_000 } else { 40_000 };
        r.d.bytes_cap = 256 << 20;
        if sc.param != u64::MAX && c.start != u64::MAX {
            r.d.tail_from = c.start;
        }
        let got = run_reader(&mut r, 0);
        cx.finish("from_reader", &mut r.d, &got);
        let label = &c.content.label;
        cx.key(hash2(c.content.hash(), r.d.trace), true);
        if got == Res::Runaway {
            viol!("unbounded work", "{} operations and {} bytes read without an end ({label})", r.d.ops, r.d.bytes);
        }
        if let Res::Panic(_) = got {
            cx.st.skipped += 1;
            return None;
        }
        let hw = if c.mode == 1 { r.d.hw_post } else if c.start != u64::MAX { r.d.max_pos_excl_tail } else { r.d.hw };
        if sc.param != u64::MAX && hw > sc.param {
            viol!("inspects beyond the limit", "read up to offset {hw}, the limit ends at {} ({label})", sc.param);
        }
        if i > 0 && answers[0] != got {
            viol!(
                "data beyond the limit decides",
                "{} with, {} without an item beyond the limit ({label})",
                Res::show(&answers[0]), got.show()
            );
        }
        answers.push(got);
    }
    None
}

fn c06(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let label = c.content.label.clone();
    let peak;
    match c.api {
        Api::Reader => {
            let mut r = cx.reader(c);
            r.d.ops_cap = 400_000;
            tl::heap_reset();
            let got = run_reader(&mut r, tl::HEAP);
            peak = tl::PEAK.get();
            cx.finish("from_reader", &mut r.d, &got);
            cx.key(hash2(c.content.hash(), r.d.trace), true);
        }
        Api::Bytes => {
            let b = c.content.materialize(0, u64::MAX);
            tl::heap_reset();
            let got = run_bytes(&b, tl::HEAP);
            peak = tl::PEAK.get();
            cx.st.calls += 1;
            cx.st.answer(&got);
            cx.key(c.content.hash(), true);
        }
        Api::File => {
            let dir = cx.scratch.clone();
            let mut p = place(&dir, "f", c);
            let mut o = OsCtx::new(c, dir.to_str().unwrap());
            tl::heap_reset();
            let got = p.call(&mut o, tl::HEAP);
            peak = tl::PEAK.get();
            cx.finish("from_file", &mut o.d, &got);
            cx.key(hash2(c.content.hash(), o.d.trace), true);
            p.done();
        }
    }
    cx.st.max_peak = cx.st.max_peak.max(peak);
    cx.note(format!("peak heap {peak}"));
    if peak > HEAP_LIMIT {
        viol!("heap beyond the limit", "held {peak} bytes of heap at once ({label})");
    }
    None
}

/// One call in a sequence; the previous reader may be reused.
pub fn one(c: &Call, prev: &mut Option<SimReader>, dir: &Path) -> (Res, Driver) {
    // The call's own time: what its operations take, and what it sleeps.
    let t = tl::NOW.get();
    crate::sched::begin(c);
    let (res, mut d) = one_(c, prev, dir);
    d.fired[15] += crate::sched::end();
    d.took = tl::NOW.get() - t;
    (res, d)
}
fn one_(c: &Call, prev: &mut Option<SimReader>, dir: &Path) -> (Res, Driver) {
    match c.api {
        Api::Reader => {
            let mut r = match prev.take() {
                Some(mut p) if c.again && p.c == c.content => {
                    p.pos = 0;
                    p.d = Driver::new(c);
                    p.scribble = c.path % 3;
                    p
                }
                _ => SimReader::new(c),
            };
            let g = run_reader(&mut r, tl::OS);
            let d = std::mem::replace(&mut r.d, Driver::new(c));
            *prev = Some(r);
            (g, d)
        }
        Api::Bytes => {
            let b = c.content.materialize(0, u64::MAX);
            (run_bytes(&b, tl::OS), Driver::new(&Call::new(Content::bytes("", vec![]))))
        }
        Api::File => {
            let shared = c.path >= SHARED;
            let deep = if c.mode & 8 == 8 { deep(dir, c.content.hash()) } else { dir.to_path_buf() };
            let dir = if c.mode & 2 == 2 { dir } else { deep.as_path() };
            let mut p = if shared {
                let p = dir.join(format!("shared{}-{:x}", c.path - SHARED, c.content.hash()));
                if !p.exists() {
                    place(dir, p.file_name().unwrap().to_str().unwrap(), &Call::new(c.content.clone()));
                }
                Placed { path: p.clone(), errno: 0, base: p, odd: false, pipe: None, _keep: None }
            } else {
                place(dir, &format!("p{}-{}", c.thread, c.path), c)
            };
            if c.mode & 1 == 1 {
                let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000);
                let _ = std::fs::File::options().write(true).open(&p.path).and_then(|f| f.set_modified(t));
            }
            if c.mode & 2 == 2 {
                // The current directory is this one.
                p.path = p.path.file_name().unwrap().into();
            }
            let mut o = OsCtx::new(c, dir.to_str().unwrap());
            let g = p.call(&mut o, 0);
            (g, o.d)
        }
    }
}

/// The stack a call may use.
const STACK_LIMIT: usize = 256 << 10;
const PAINT: u64 = 0xC5C5_A5A5_3C3C_9696;

/// Fills the stack below with a pattern.
#[inline(never)]
fn paint() {
    let mut a = [const { std::mem::MaybeUninit::<u64>::uninit() }; (STACK_LIMIT + 4096) / 8];
    for x in std::hint::black_box(&mut a).iter_mut() {
        x.write(PAINT);
    }
    std::hint::black_box(&a);
}

/// How far below `top` the pattern has been overwritten.
#[inline(never)]
fn touched(top: usize) -> usize {
    let mut p = (top - STACK_LIMIT) & !7;
    while p < top && unsafe { std::ptr::read_volatile(p as *const u64) } == PAINT {
        p += 8;
    }
    top - p
}

fn c25(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let label = c.content.label.clone();
    let here = 0u8;
    let top = std::hint::black_box(&here) as *const u8 as usize;
    let used;
    match c.api {
        Api::Reader => {
            let mut r = cx.reader(c);
            r.d.ops_cap = 300_000;
            paint();
            let got = run_reader(&mut r, 0);
            used = touched(top);
            cx.finish("from_reader", &mut r.d, &got);
            cx.key(hash2(c.content.hash(), r.d.trace), true);
        }
        Api::Bytes => {
            let b = c.content.materialize(0, u64::MAX);
            paint();
            let got = run_bytes(&b, 0);
            used = touched(top);
            cx.st.calls += 1;
            cx.st.answer(&got);
            cx.key(c.content.hash(), true);
        }
        Api::File => {
            let dir = cx.scratch.clone();
            let mut p = place(&dir, "f", c);
            let mut o = OsCtx::new(c, dir.to_str().unwrap());
            paint();
            let got = p.call(&mut o, 0);
            used = touched(top);
            cx.finish("from_file", &mut o.d, &got);
            cx.key(hash2(c.content.hash(), o.d.trace), true);
            p.done();
        }
    }
    cx.st.max_peak = cx.st.max_peak.max(used as i64);
    cx.note(format!("stack used {used}"));
    if used >= STACK_LIMIT - 64 {
        viol!("stack beyond the limit", "used more than {} KiB of stack ({label})", STACK_LIMIT >> 10);
    }
    None
}

fn c07(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    // Everything runs in a child that has made no call before.
    let dir = cx.scratch.join(format!("h{}", cx.run_no));
    std::fs::create_dir_all(&dir).unwrap();
    let want: Vec<Option<String>> = sc
        .calls
        .iter()
        .map(|c| {
            let mut c = c.clone();
            c.faults.retain(|f| !matches!(f.k, Fk::Preempt { .. }));
            pristine::answer(&mut cx.memo, &c, &dir)
        })
        .collect();
    if want.iter().any(|w| w.is_none()) {
        let _ = std::fs::remove_dir_all(&dir);
        cx.st.skipped += 1;
        return None;
    }
    let log = cx.log;
    let scr = cx.scratch.to_str().unwrap().to_string();
    let out = pristine::child(&mut cx.st, &mut cx.trace, || {
        let mut k = Cx::new(&scr);
        k.log = log;
        let v = history(sc, &mut k, &want, &dir);
        (v, k.st, k.trace)
    });
    let _ = std::fs::remove_dir_all(&dir);
    match out {
        Ok(v) => v,
        Err(e) => viol!("process died", "a sequence of calls ends the process: {e}"),
    }
}

fn history(sc: &Scenario, cx: &mut Cx, want: &[Option<String>], dir: &Path) -> Option<Viol> {
    let _ = std::env::set_current_dir(dir);
    let mut prev: Option<SimReader> = None;
    let mut k = 0;
    let mut changed = false;
    for (i, c) in sc.calls.iter().enumerate() {
        let muts = c.faults.iter().any(|f| matches!(f.k, Fk::Trunc { .. } | Fk::Extend { .. } | Fk::Over { .. }));
        changed = muts || (changed && c.again);
        // A rewound stream that changed holds other bytes than the scenario says: not judged.
        let (got, mut d) = one(c, &mut prev, dir);
        k = hash2(k, hash2(c.content.hash(), d.trace));
        if cx.log {
            d.log = Some(vec![]);
        }
        cx.finish(&format!("call {i} {:?} ({})", c.api, c.content.label), &mut d, &got);
        let Some(w) = &want[i] else {
            cx.st.skipped += 1;
            continue;
        };
        let w = w.split(" after ").next().unwrap();
        if !(changed && c.again) && got.show() != w {
            viol!(
                format!("{} after other calls", wrong(&got)),
                "call {i} ({:?}, {}) gives {}, a fresh process gives {w}",
                c.api, c.content.label, got.show()
            );
        }
    }
    cx.key(k, sc.calls.len() > 1);
    None
}

fn c08(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let dir = cx.scratch.join(format!("t{}", cx.run_no));
    std::fs::create_dir_all(&dir).unwrap();
    let want: Vec<Option<String>> = sc.calls.iter().map(|c| pristine::answer(&mut cx.memo, c, &dir)).collect();
    if want.iter().any(|w| w.is_none()) {
        let _ = std::fs::remove_dir_all(&dir);
        cx.st.skipped += 1;
        return None;
    }
    let log = cx.log;
    let scr = cx.scratch.to_str().unwrap().to_string();
    let out = pristine::child(&mut cx.st, &mut cx.trace, || {
        let mut k = Cx::new(&scr);
        k.log = log;
        let v = threads(sc, &mut k, &want, &dir);
        (v, k.st, k.trace)
    });
    let _ = std::fs::remove_dir_all(&dir);
    match out {
        Ok(v) => v,
        Err(e) => viol!("process died", "concurrent calls end the process: {e}"),
    }
}

fn threads(sc: &Scenario, cx: &mut Cx, want: &[Option<String>], dir: &Path) -> Option<Viol> {
    use crate::sched::*;
    let _ = std::env::set_current_dir(dir);
    let n = 1 + sc.calls.iter().map(|c| c.thread).max().unwrap() as usize;
    let sched: &'static Sched = Box::leak(Box::new(Sched::new(n)));
    let mut hs = vec![];
    let log = cx.log;
    for t in 0..n {
        let mine: Vec<(usize, Call)> = sc.calls.iter().cloned().enumerate().filter(|(_, c)| c.thread == t as u64).collect();
        let dir = dir.to_path_buf();
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                sched.enter(t as u64, mine.first().map(|c| c.1.start).unwrap_or(0));
                let mut k = Cx::new(dir.to_str().unwrap());
                k.log = log;
                let mut prev = None;
                let mut out = vec![];
                for (i, c) in &mine {
                    yield_op(1);
                    let (g, d) = one(c, &mut prev, &dir);
                    out.push((*i, g, d));
                }
                sched.leave(t as u64);
                out
            })
            .unwrap();
        hs.push(h);
    }
    match sched.control(n) {
        End::Blocked(t) => {
            viol!("a call waits for another", "thread {t} was scheduled and slept inside its call while another call was suspended")
        }
        End::Done { order, switches, now } => {
            cx.st.sim_ns += now as u128;
            cx.st.add("context switches", switches);
            let mut k = order;
            let mut outs = vec![];
            for h in hs {
                outs.extend(h.join().unwrap());
            }
            outs.sort_by_key(|o| o.0);
            let mut bad = None;
            for (i, got, mut d) in outs {
                let c = &sc.calls[i];
                d.time = 0;
                k = hash2(k, c.content.hash());
                if cx.log {
                    d.log = Some(vec![]);
                }
                cx.finish(&format!("thread {} call {i} {:?} ({})", c.thread, c.api, c.content.label), &mut d, &got);
                let mut show = got.show();
                if c.api != Api::Bytes {
                    show += &format!(" after {} ns", d.took);
                }
                match &want[i] {
                    None => cx.st.skipped += 1,
                    Some(w) if bad.is_none() && show != *w && w.starts_with(&format!("{} after ", got.show())) => {
                        bad = Some(Viol {
                            class: "a call is delayed by another".into(),
                            detail: format!("thread {} call {i} ({:?}, {}) gives {show}, alone it gives {w}", c.thread, c.api, c.content.label),
                        });
                    }
                    Some(w) if bad.is_none() && show != *w => {
                        bad = Some(Viol {
                            class: format!("{} beside other calls", wrong(&got)),
                            detail: format!(
                                "thread {} call {i} ({:?}, {}) gives {}, alone it gives {w}",
                                c.thread, c.api, c.content.label, show
                            ),
                        });
                    }
                    _ => {}
                }
            }
            cx.key(k, switches > n as u64);
            bad
        }
    }
}

fn c09(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    if c.content.len > 16 << 20 && c.content.fill != Fill::Byte(0) && c.content.len > 64 << 20 {
        cx.st.skipped += 1;
        return None;
    }
    let want = plain(&c.content);
    if !want.is_ok() {
        cx.st.skipped += 1;
        return None;
    }
    let dir = cx.scratch.clone();
    if sc.param > 0 {
        return made_up(PSEUDO[(sc.param - 1) as usize % PSEUDO.len()], c, cx);
    }
    let mut p = place(&dir, &file_name(c.path), c);
    let mut o = OsCtx::new(c, dir.to_str().unwrap());
    o.number = c.thread;
    if c.start > 0 {
        o.d.max_off = c.start;
    }
    if cx.log {
        o.d.log = Some(vec![]);
    }
    let near = (c.content.hash() % 6 == 0).then(|| Neighbours::new(&dir, &file_name(c.path), b"\x89PNG\r\n\x1a\n"));
    let got = p.call(&mut o, 0);
    cx.finish("from_file", &mut o.d, &got);
    drop(near);
    p.done();
    let touched = o.d.fired.iter().sum::<u64>() > 0;
    cx.key(hash2(c.content.hash(), o.d.trace), touched || c.open != OpenFault::None || c.content.len > 1 << 24);
    if got != want {
        viol!(wrong(&got), "from_file gives {}, from_bytes gives {} ({}{})", got.show(), want.show(), c.content.label, odd_name(c));
    }
    None
}

const PSEUDO: [&str; 12] = [
    "/proc/version", "/proc/filesystems", "/proc/self/auxv", "/proc/devices", "/proc/self/cmdline", "/proc/self/limits",
    "/proc/config.gz", "/proc/sys/kernel/ostype", "/sys/kernel/notes", "/proc/cmdline", "/proc/self/comm", "/proc/self/exe",
];
fn made_up(path: &str, c: &Call, cx: &mut Cx) -> Option<Viol> {
    let dir = cx.scratch.clone();
    let (Ok(a), Ok(meta)) = (std::fs::read(path), std::fs::metadata(path)) else {
        cx.st.skipped += 1;
        return None;
    };
    let want = run_bytes(&a, tl::OS);
    if !want.is_ok() || !meta.is_file() {
        cx.st.skipped += 1;
        return None;
    }
    let mut o = OsCtx::new(c, dir.to_str().unwrap());
    if cx.log {
        o.d.log = Some(vec![]);
    }
    let got = run_file(Path::new(path), &mut o, 0);
    cx.finish("from_file", &mut o.d, &got);
    if std::fs::read(path).ok() != Some(a) {
        cx.st.skipped += 1;
        return None;
    }
    cx.st.add("files made up by the system", 1);
    cx.key(hash2(fnv(path.as_bytes()), o.d.trace), true);
    if got != want {
        viol!(wrong(&got), "from_file gives {}, from_bytes of what can be read from it gives {} ({path})", got.show(), want.show());
    }
    None
}

fn c10(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let want = plain(&c.content);
    if !want.is_ok() {
        cx.st.skipped += 1;
        return None;
    }
    let dir = cx.scratch.clone();
    let mut p = place(&dir, &file_name(c.path), c);
    let near = c.open == OpenFault::Missing && c.content.len <= 1 << 20;
    let near = near.then(|| Neighbours::new(&dir, &file_name(c.path), &c.content.materialize(0, u64::MAX)));
    if let Some(n) = &near {
        // One of the names, and not that one.
        let k = c.content.hash() as usize % (n.0.len() + 1);
        if let Some(q) = n.0.get(k) {
            p.path = q.clone();
        }
        remove(&p.path);
    }
    let mut o = OsCtx::new(c, dir.to_str().unwrap());
    o.number = c.thread;
    if cx.log {
        o.d.log = Some(vec![]);
    }
    let got = p.call(&mut o, 0);
    drop(near);
    let mut errs = o.d.errors.clone();
    if p.errno > 0 {
        errs.push(p.errno as i64);
    }
    let bad_path = p.errno != 0;
    cx.finish("from_file", &mut o.d, &got);
    p.done();
    cx.key(hash2(c.content.hash(), o.d.trace ^ fnv(format!("{:?}", c.open).as_bytes())), !errs.is_empty());
    let must_fail = bad_path || matches!(c.open, OpenFault::Errno(_));
    let any = bad_path && matches!(c.open, OpenFault::Odd(18));
    if errs.is_empty() && !must_fail {
        return None;
    }
    match &got {
        Res::Ok(_) if !must_fail && (got == want || got == healthy(c, &dir)) => None,
        Res::Ok(_) => viol!(
            "format reported for a failing file",
            "{:?}, system errors {errs:?}: from_file gives {}, healthy file gives {} ({}{})",
            c.open, got.show(), want.show(), c.content.label, odd_name(c)
        ),
        Res::Err { .. } if any || got.is_injected(&errs) => None,
        _ => viol!(
            format!("{} instead of the system's", wrong(&got)),
            "{:?}, system errors {errs:?}: from_file gives {} ({}{})",
            c.open, got.show(), c.content.label, odd_name(c)
        ),
    }
}

fn odd_name(c: &Call) -> String {
    match c.open {
        OpenFault::Odd(k) => format!(", {}", ODD[k as usize]),
        _ => String::new(),
    }
}

/// What the file gives when nothing fails.
fn healthy(c: &Call, dir: &Path) -> Res {
    let mut c = c.clone();
    (c.faults, c.bad, c.delivery, c.open) = (vec![], vec![], Delivery::Full, OpenFault::None);
    let mut p = place(dir, "healthy", &c);
    let r = p.call(&mut OsCtx::new(&c, dir.to_str().unwrap()), 0);
    p.done();
    r
}

fn c11(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c0 = &sc.calls[0];
    if sc.param == 0 {
        let mut f = |_: u64| c0.clone();
        return match balance(cx, 8, &mut f) {
            Ok(_) if cx.tasks[7] > *cx.tasks[..4].iter().max().unwrap() && settled_tasks() > *cx.tasks[..4].iter().max().unwrap() => {
                viol!("threads left behind", "repeating the call leaves more threads each time: {:?} ({})", cx.tasks, c0.content.label)
            }
            Ok(live) if live[7] > *live[..4].iter().max().unwrap() => {
                viol!("heap not returned", "repeating the call keeps more memory each time: {live:?} bytes ({})", c0.content.label)
            }
            Ok(_) => None,
            Err(v) => v,
        };
    }
    // Growth that goes on and on, over rounds of different contents: not what is set up once.
    let t = targets(&c0.content);
    let mut rounds = vec![];
    let (mut held, mut most, mut higher, mut late, mut doubled) = (0, 0, 0, 0, 0);
    for round in 0..16 {
        if round == 4 && higher < 2 {
            // No more than what is set up once.
            return None;
        }
        let mut f = |k: u64| {
            let mut r = Rng::new(hash2(sc.param, round << 32 | k));
            let mut c = c0.clone();
            if k % 4 == 3 {
                c.content = gen::sibling(&mut r, &c0.content);
                c.content.len = c.content.len.min(400_000);
            } else if k % 4 == 2 {
                gen::poke(&mut r, &mut c.content, &t);
            } else if !t.is_empty() {
                // A name or number that never came before.
                let o = *r.pick(&t);
                let b = r.bytes(16);
                if o.saturating_add(16) <= c.content.len {
                    c.content.overwrite(o, b);
                }
            } else {
                let b = r.bytes(16);
                if c.content.len > 40 {
                    let o = r.below(c.content.len - 16);
                    c.content.overwrite(o, b);
                }
            }
            c
        };
        match balance(cx, 64, &mut f) {
            Ok(live) => {
                let x = live[63];
                rounds.push(x);
                if round >= 4 && x > 0 {
                    late += 1;
                    doubled += (2 * x >= held) as u32;
                }
                held += x;
                if held > most {
                    (most, higher) = (held, higher + (round > 0) as u32);
                }
            }
            Err(v) => return v,
        }
    }
    // Room set aside for a growing collection at least doubles each time it runs out. What goes down now and then is
    // a collection of limited size. (Something set up once may also be lost when a call panics, and be set up again.)
    if rounds.iter().all(|x| *x >= 0) && (late >= 4 || doubled >= 2) || higher >= 12 {
        viol!("heap not returned", "calls on ever new contents keep more and more memory: {rounds:?} bytes in rounds of 64 calls ({})", c0.content.label);
    }
    None
}

/// How many threads this process has.
fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(1, |d| d.count())
}
/// The same, given time to those that are about to end.
fn settled_tasks() -> usize {
    let mut n = tasks();
    for _ in 0..40 {
        if n <= 1 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
        n = tasks();
    }
    n
}
/// Heap balance after each of `reps` calls, or how a call went wrong otherwise.
fn balance(cx: &mut Cx, reps: u64, content: &mut dyn FnMut(u64) -> Call) -> Result<Vec<i64>, Option<Viol>> {
    macro_rules! viol {
        ($class:expr, $($a:tt)*) => { return Err(Some(Viol { class: $class.to_string(), detail: format!($($a)*) })) };
    }
    let dir = cx.scratch.clone();
    let mut live = vec![];
    cx.tasks.clear();
    let mut total = 0;
    let mut trace = 0;
    let mut hash = 0;
    for k in 0..reps {
        let c = content(k);
        let c = &c;
        hash = hash2(hash, c.content.hash());
        let bytes = if c.api == Api::Bytes { c.content.materialize(0, u64::MAX) } else { vec![] };
        tl::heap_reset();
        let got;
        match c.api {
            Api::Reader => {
                let mut r = cx.reader(c);
                let (g, drops) = run_owned(&mut r, tl::HEAP);
                total += tl::LIVE.get();
                trace = r.d.trace;
                cx.finish("from_reader", &mut r.d, &g);
                let left = tl::OWN_FDS.take();
                if !left.is_empty() {
                    left.iter().for_each(|fd| crate::os::raw_close(*fd));
                    viol!("file handle not closed", "{} descriptors opened by from_reader stay open, call ended with {} ({})", left.len(), g.show(), c.content.label);
                }
                if drops != 1 {
                    viol!("reader not dropped once", "the reader was dropped {drops} times, call ended with {} ({})", g.show(), c.content.label);
                }
                got = g;
            }
            Api::Bytes => {
                got = run_bytes(&bytes, tl::HEAP);
                total += tl::LIVE.get();
                cx.st.calls += 1;
                cx.st.answer(&got);
            }
            Api::File => {
                let mut p = place(&dir, &file_name(c.path), c);
                let mut o = OsCtx::new(c, dir.to_str().unwrap());
                if cx.log {
                    o.d.log = Some(vec![]);
                }
                got = p.call(&mut o, tl::HEAP);
                // What the simulator itself keeps was not counted: it runs with the seams off.
                total += tl::LIVE.get();
                trace = o.d.trace;
                cx.finish("from_file", &mut o.d, &got);
                p.done();
                if o.opens != o.closes || !o.fds.is_empty() {
                    let n = o.fds.len();
                    for (fd, _) in o.fds.drain(..) {
                        crate::os::raw_close(fd);
                    }
                    viol!(
                        "file handle left open",
                        "{} opened, {} closed, {n} left, call ended with {} ({})", o.opens, o.closes, got.show(), c.content.label
                    );
                }
                if let Some(f) = o.forbidden.iter().find(|f| f.contains("descriptor")) {
                    viol!("file handle closed twice", "{f}, call ended with {}", got.show());
                }
            }
        }
        if let Res::Panic(_) = got {
            cx.st.skipped += 1;
            return Err(None);
        }
        live.push(total);
        cx.tasks.push(if reps < 10 { tasks() } else { 1 });
    }
    cx.note(format!("heap balance after each call {live:?}"));
    cx.key(hash2(hash, trace), true);
    Ok(live)
}

#[derive(PartialEq, Debug)]
struct Snap(Vec<(String, u64, u32, i64, i64, u64, u64)>);
fn snap(dir: &Path) -> Snap {
    fn walk(dir: &Path, v: &mut Vec<(String, u64, u32, i64, i64, u64, u64)>) {
        use std::os::unix::fs::MetadataExt;
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let Ok(m) = std::fs::symlink_metadata(e.path()) else { continue };
            let h = if m.is_file() && m.len() > 4 << 20 {
                use std::os::unix::fs::FileExt;
                let mut b = vec![0; 1 << 16];
                std::fs::File::open(e.path()).map_or(0, |f| {
                    [0, m.len() / 2, m.len() - (1 << 16)].iter().fold(0, |h, o| {
                        let n = f.read_at(&mut b, *o).unwrap_or(0);
                        hash2(h, fnv(&b[..n]))
                    })
                })
            } else if m.is_file() {
                fnv(&std::fs::read(e.path()).unwrap_or_default())
            } else if m.is_symlink() {
                fnv(std::fs::read_link(e.path()).unwrap_or_default().as_os_str().as_encoded_bytes())
            } else {
                0
            };
            let owner = (m.uid() as u64) << 32 | m.gid() as u64;
            v.push((e.path().to_string_lossy().into_owned(), m.len(), m.mode(), m.mtime(), m.mtime_nsec(), m.ino(), hash2(h, hash2(owner, m.nlink()))));
            if m.is_dir() {
                walk(&e.path(), v);
            }
        }
    }
    let mut v = vec![];
    walk(dir, &mut v);
    v.sort();
    Snap(v)
}

fn c12(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let dir = cx.scratch.join("ro");
    std::fs::create_dir_all(&dir).unwrap();
    let mut p = place(&dir, &file_name(c.path), c);
    if c.start > 0 && c.open == OpenFault::None {
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(c.start);
        let times = std::fs::FileTimes::new().set_modified(t).set_accessed(t);
        let _ = std::fs::File::open(&p.path).and_then(|f| f.set_times(times));
    }
    let near = (sc.env.clock % 5 == 0).then(|| Neighbours::new(&dir, &file_name(c.path), b"x"));
    env_on(&sc.env);
    let before = snap(&dir);
    let mut o = OsCtx::new(c, dir.to_str().unwrap());
    o.number = c.thread;
    if cx.log {
        o.d.log = Some(vec![]);
    }
    let got = p.call(&mut o, 0);
    let after = snap(&dir);
    cx.finish("from_file", &mut o.d, &got);
    drop(near);
    p.done();
    let _ = std::fs::remove_dir_all(&dir);
    cx.key(hash2(c.content.hash(), hash2(o.d.trace, c.mode)), true);
    if let Some(f) = o.forbidden.iter().find(|f| !f.contains("descriptor")) {
        viol!(format!("modifying call"), "{f}, call ended with {} ({})", got.show(), c.content.label);
    }
    if before != after {
        viol!("file or directory changed", "{before:?} became {after:?}, call ended with {}", got.show());
    }
    None
}

fn in_family(name: &str) -> bool {
    name == "PlainText" || name == "ArbitraryBinaryData" || name == "Empty"
        || gen::data().families.iter().any(|f| f.iter().any(|x| x == name))
}

fn c13(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let pre = c.content.materialize(0, PREFIX);
    // The prefix alone, delivered in the same way.
    let mut alone = c.clone();
    alone.content.len = alone.content.len.min(PREFIX);
    let want = run_reader(&mut SimReader::new(&alone), 0);
    if !want.is_ok() || want != run_bytes(&pre, 0) || (cx.full && in_family(&want.show())) || (cx.txt && !cx.full && in_family(&want.show())) {
        cx.st.skipped += 1;
        return None;
    }
    let mut call = c.clone();
    match sc.param {
        1 => {
            // Another tail.
            call.content.segs.push((PREFIX, vec![]));
            let tail = hash2(c.content.hash(), 1);
            let n = call.content.len.saturating_sub(PREFIX).min(100_000);
            if n > 0 {
                call.content.segs.push((PREFIX, Rng::new(tail).bytes(n as usize)));
            }
        }
        2 => call.content.len = call.content.len.min(PREFIX),
        _ => {}
    }
    let mut r = cx.reader(&call);
    if sc.param == 0 {
        r.d.fence = PREFIX;
        r.d.dead_after_fence = true;
    }
    r.d.ops_cap = 300_000;
    let got = run_reader(&mut r, 0);
    let dead = r.d.errors.len();
    cx.finish("from_reader", &mut r.d, &got);
    if sc.param == 0 {
        cx.st.add("streams dead beyond the prefix", 1);
    }
    cx.key(hash2(c.content.hash(), r.d.trace), true);
    if got != want {
        viol!(
            if dead > 0 { "looks beyond the prefix" } else { wrong(&got) },
            "the first {PREFIX} bytes give {}, the whole stream gives {} ({} operations failed beyond the prefix; {})",
            want.show(), got.show(), dead, c.content.label
        );
    }
    None
}

fn c14(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    // The format the signature at the start stands for, from a build without any reader.
    let pre = c.content.materialize(0, PREFIX);
    let base = pristine::signature_only(&pre);
    let mut r = cx.reader(c);
    r.d.gate = c.content.len.clamp(1, PREFIX);
    r.d.ops_cap = 400_000;
    let got = run_reader(&mut r, 0);
    let hit = r.d.fired[6] + r.d.fired[7] + r.d.fired[8] > 0;
    cx.finish("from_reader", &mut r.d, &got);
    cx.key(hash2(c.content.hash(), r.d.trace), hit);
    match &got {
        Res::Ok(_) => {
            let g = got.show();
            if !relative(&base, &g) && hit {
                viol!("format of an unrelated family", "the signature stands for {base}, the answer is {g} ({})", c.content.label);
            }
            None
        }
        Res::Err { .. } => None,
        Res::Runaway => viol!("does not return", "over {} operations ({})", r.d.ops, c.content.label),
        // Without a change this is the content's doing, which is another property's business.
        _ if !hit => None,
        _ => viol!(wrong(&got), "{} ({})", got.show(), c.content.label),
    }
}

/// The same container with small and with very large skipped parts.
fn c21(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let (a, b) = (&sc.calls[0], &sc.calls[1]);
    let want = plain(&a.content);
    if !want.is_ok() {
        cx.st.skipped += 1;
        return None;
    }
    let mut r = cx.reader(b);
    r.d.ops_cap = 400_000;
    let got = run_reader(&mut r, 0);
    cx.finish("from_reader", &mut r.d, &got);
    cx.key(hash2(b.content.hash(), r.d.trace), b.content.len > 1 << 16);
    if got != want {
        viol!(
            wrong(&got),
            "{} bytes long the container gives {}, with small skipped parts ({} bytes) it gives {} ({})",
            b.content.len, got.show(), a.content.len, want.show(), b.content.label
        );
    }
    None
}

/// A torn or damaged file on a healthy device.
fn c22(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let pre = c.content.materialize(0, PREFIX);
    let base = pristine::signature_only(&pre);
    let got;
    match c.api {
        Api::Reader => {
            let mut r = cx.reader(c);
            r.d.ops_cap = 400_000;
            got = run_reader(&mut r, 0);
            cx.finish("from_reader", &mut r.d, &got);
            cx.key(hash2(c.content.hash(), r.d.trace), true);
        }
        Api::Bytes => {
            got = run_bytes(&c.content.materialize(0, u64::MAX), 0);
            cx.st.calls += 1;
            cx.st.answer(&got);
            cx.key(c.content.hash(), true);
        }
        Api::File => {
            let dir = cx.scratch.clone();
            let mut p = place(&dir, "f", c);
            let mut o = OsCtx::new(c, dir.to_str().unwrap());
            if cx.log {
                o.d.log = Some(vec![]);
            }
            got = p.call(&mut o, 0);
            cx.finish("from_file", &mut o.d, &got);
            cx.key(hash2(c.content.hash(), o.d.trace), true);
            p.done();
        }
    }
    match &got {
        Res::Ok(_) if relative(&base, &got.show()) => None,
        Res::Ok(_) => viol!("format of an unrelated family", "the signature stands for {base}, the answer is {} ({})", got.show(), c.content.label),
        Res::Err { .. } => viol!("error without a failure", "nothing failed, the call gives {} ({})", got.show(), c.content.label),
        _ => viol!(wrong(&got), "nothing failed, the call ends with {} ({})", got.show(), c.content.label),
    }
}

/// The same call in builds with one reader feature, with none, and with all.
fn c19(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let mut r = cx.reader(c);
    r.d.ops_cap = 400_000;
    let got = run_reader(&mut r, 0);
    let trace = r.d.trace;
    let errs = r.d.errors.clone();
    cx.finish("from_reader, all readers", &mut r.d, &got);
    let got = got.show();
    // What the signature stands for, on this stream.
    let (base, base_trace) = pristine::elsewhere("none", c);
    let fam = pristine::FEATURES.iter().find(|f| f.1 == base).map(|f| f.0);
    let other = pristine::FEATURES[sc.param as usize % 12].0;
    if [&got, &base].iter().any(|x| x.starts_with("PANIC") || *x == "process died" || *x == "runaway") {
        cx.st.skipped += 1;
        return None;
    }
    cx.key(hash2(c.content.hash(), hash2(trace, sc.param)), true);
    let label = &c.content.label;
    let but = pristine::FEATURES[sc.param as usize / 12 % 12].0;
    let mut ask = |f: &str| {
        cx.st.calls += 1;
        cx.st.add("calls in other builds", 1);
        let (a, t) = pristine::elsewhere(f, c);
        cx.note(format!("  build {f}: {a}"));
        (a, t)
    };
    let bad = |a: &str| a.starts_with("PANIC") || a == "process died" || a == "runaway";
    let signed = base != "ArbitraryBinaryData";
    // The reader of the signature's format, alone: the same but for the text fallback.
    let main = fam.unwrap_or("txt");
    let (one, one_trace) = ask(main);
    if bad(&one) {
        viol!("dies with one reader only", "reader-{main} alone: {one}, all readers: {got} ({label})");
    }
    let fallback = one == "ArbitraryBinaryData" && (got == "PlainText" || got.starts_with("Err(") && !errs.is_empty());
    let same = if fam.is_some() { got == one || fallback } else if signed { got == one && got == base } else { got == one };
    if !same {
        viol!("another answer with one reader only", "with all readers {got}, with reader-{main} only {one}, with none {base} ({label})");
    }
    if fam.is_some() && one != "ArbitraryBinaryData" && trace != one_trace {
        viol!("other requests with one reader only", "with all readers and with reader-{main} only the stream is asked for different things, answer {got} ({label})");
    }
    // A reader of another family changes nothing.
    let own = |f: &str| Some(f) == fam || f == "txt" && !signed;
    if !own(other) {
        let (a, t) = ask(other);
        if a != base || t != base_trace {
            viol!("a reader of another family interferes", "with no reader {base}, with reader-{other} only {a} ({label})");
        }
    }
    // Nor does its absence.
    let (a, t) = ask(&format!("but-{but}"));
    let (want, want_trace, as_in) = match () {
        _ if own(but) => (&base, base_trace, "no reader".to_string()),
        _ if but == "txt" && fam.is_some() => (&one, one_trace, format!("reader-{main} only")),
        _ => (&got, trace, "all readers".to_string()),
    };
    if a != *want || t != want_trace {
        viol!("an absent reader of another family is missed", "with {as_in} {want}, with all but reader-{but} {a} ({label})");
    }
    None
}

/// An ordinary file whose end is moved beyond what 32 bits can express, with something or nothing in between.
fn far_apart(r: &mut Rng, h: u64) -> Content {
    let c = if r.pct(50) { gen::fixture(r) } else { gen::any(r, h) };
    let n = c.len.min(300_000);
    let v = c.materialize(0, n);
    // The part at the beginning and the part at the end may overlap.
    let tail = match r.below(4) {
        0 => n,
        1 => r.below(n + 1),
        _ => n.min(22 + r.below(70_000)),
    };
    let step = *r.pick(&[1u64 << 31, 1 << 32, 1 << 32, 1 << 32, 1 << 33, 1 << 40]);
    let about = match r.below(4) {
        0 => r.below(64),
        1 => r.below(70_000),
        2 => n,
        _ => r.below(1 << 31),
    };
    let len = (step * (1 + r.below(5))).saturating_add(about).max(n);
    let end = v[(n - tail) as usize..].to_vec();
    let fill = if r.pct(60) { Fill::Byte(*r.pick(b"\0\xffaP")) } else { Fill::Hash { seed: r.next(), ascii: r.pct(30) } };
    Content { len, segs: vec![(0, v), (len - tail, end)], fill, label: format!("{} far apart", c.label) }
}

/// One call in a build with 64-bit and in one with 32-bit pointers.
fn c26(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let c = &sc.calls[0];
    let mut r = cx.reader(c);
    r.d.ops_cap = 400_000;
    let got = run_reader(&mut r, 0);
    let trace = r.d.trace;
    cx.finish("from_reader, 64-bit pointers", &mut r.d, &got);
    let got = got.show();
    if got.starts_with("PANIC") || got == "runaway" {
        cx.st.skipped += 1;
        return None;
    }
    cx.key(hash2(c.content.hash(), trace), c.content.len > u32::MAX as u64);
    cx.st.add("calls in other builds", 1);
    let (a, t) = pristine::elsewhere("bits32", c);
    cx.note(format!("  build bits32: {a}"));
    let label = &c.content.label;
    if a != got {
        viol!("another answer with 32-bit pointers", "with 64-bit pointers {got}, with 32-bit pointers {a}, {} bytes ({label})", c.content.len);
    }
    if t != trace {
        viol!("other requests with 32-bit pointers", "the stream is asked for different things, answer {got}, {} bytes ({label})", c.content.len);
    }
    None
}

/// Calls inside calls, in destructors, at the end of a thread.
fn c23(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    if sc.calls[0].api != Api::Reader {
        cx.st.skipped += 1;
        return None;
    }
    let dir = cx.scratch.join(format!("n{}", cx.run_no));
    std::fs::create_dir_all(&dir).unwrap();
    let bare = |s: &str| s.split(" after ").next().unwrap_or("").to_string();
    let want: Vec<Option<String>> = sc.calls.iter().map(|c| pristine::answer(&mut cx.memo, c, &dir).map(|s| bare(&s))).collect();
    if want.iter().any(|w| w.is_none()) {
        let _ = std::fs::remove_dir_all(&dir);
        cx.st.skipped += 1;
        return None;
    }
    let log = cx.log;
    let scr = cx.scratch.to_str().unwrap().to_string();
    let out = pristine::child(&mut cx.st, &mut cx.trace, || {
        let mut k = Cx::new(&scr);
        k.log = log;
        let v = nested(sc, &mut k, &want, &dir);
        (v, k.st, k.trace)
    });
    let _ = std::fs::remove_dir_all(&dir);
    match out {
        Ok(v) => v,
        Err(e) => viol!("process died", "a call made {} ends the process: {e}", WHERE[sc.param as usize % 3]),
    }
}
const WHERE: [&str; 3] = ["inside another", "while the thread's locals are destroyed (after the crate's)", "while the thread's locals are destroyed (before the crate's)"];

struct Nest {
    calls: Vec<Call>,
    dir: PathBuf,
    log: bool,
    out: std::cell::RefCell<Vec<Option<(Res, Driver)>>>,
}
fn kids(calls: &[Call], i: usize) -> Vec<usize> {
    let parent = |k: usize| (0..=(calls[k].thread as usize % k)).rev().find(|p| calls[*p].api == Api::Reader).unwrap_or(0);
    (i + 1..calls.len()).filter(|k| parent(*k) == i).collect()
}
fn nest(n: &std::rc::Rc<Nest>, i: usize) {
    let c = &n.calls[i];
    let go = || {
        let got = if c.api == Api::Reader {
            let mut r = SimReader::new(c);
            for k in kids(&n.calls, i) {
                let n = n.clone();
                r.inside.push((n.calls[k].start, Box::new(move || nest(&n, k))));
            }
            if n.log {
                r.d.log = Some(vec![]);
            }
            let g = run_reader(&mut r, tl::OS);
            (g, std::mem::replace(&mut r.d, Driver::new(c)))
        } else {
            one(c, &mut None, &n.dir)
        };
        n.out.borrow_mut()[i] = Some(got);
    };
    if !c.again {
        return go();
    }
    struct Late<F: FnMut()>(F);
    impl<F: FnMut()> Drop for Late<F> {
        fn drop(&mut self) {
            (self.0)()
        }
    }
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _late = Late(go);
        std::panic::panic_any(CallerPanic);
    }));
}
struct LastWords(std::cell::RefCell<Option<Box<dyn FnOnce()>>>);
impl Drop for LastWords {
    fn drop(&mut self) {
        if let Some(f) = self.0.borrow_mut().take() {
            f()
        }
    }
}
thread_local! {
    static EARLY: LastWords = const { LastWords(std::cell::RefCell::new(None)) };
    static LATE: LastWords = const { LastWords(std::cell::RefCell::new(None)) };
}

fn nested(sc: &Scenario, cx: &mut Cx, want: &[Option<String>], dir: &Path) -> Option<Viol> {
    let outs = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let (o2, calls, dir, log, param) = (outs.clone(), sc.calls.clone(), dir.to_path_buf(), cx.log, sc.param % 3);
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let warm = calls.clone();
            let all = move || {
                let out = std::cell::RefCell::new(calls.iter().map(|_| None).collect());
                let n = std::rc::Rc::new(Nest { calls, dir, log, out });
                nest(&n, 0);
                *o2.lock().unwrap() = n.out.take();
            };
            if param == 0 {
                return all();
            }
            EARLY.with(|_| ());
            // What the crate keeps for the thread, it has now.
            for c in &warm {
                run_reader(&mut SimReader::new(&Call::new(c.content.clone())), tl::OS);
                run_bytes(&c.content.materialize(0, 1 << 16), tl::OS);
            }
            LATE.with(|_| ());
            let at = if param == 1 { &EARLY } else { &LATE };
            at.with(|l| *l.0.borrow_mut() = Some(Box::new(all)));
        })
        .unwrap();
    let _ = h.join();
    let outs = std::mem::take(&mut *outs.lock().unwrap());
    let mut k = sc.param;
    let mut bad = None;
    let made = outs.iter().flatten().count();
    for (i, o) in outs.into_iter().enumerate() {
        let Some((got, mut d)) = o else { continue };
        let c = &sc.calls[i];
        k = hash2(k, hash2(c.content.hash(), d.trace ^ c.start));
        cx.finish(&format!("call {i} {:?} ({})", c.api, c.content.label), &mut d, &got);
        let w = want[i].as_ref().unwrap();
        if bad.is_none() && got.show() != *w {
            let how = match (sc.param % 3, i) {
                (0, 0) => "with calls inside",
                (0, _) if c.again => "in a destructor inside another",
                (0, _) => "inside another",
                _ => "at the end of a thread",
            };
            bad = Some(Viol {
                class: format!("{} from a call {how}", wrong(&got)),
                detail: format!("call {i} ({:?}, {}) gives {}, alone it gives {w}", c.api, c.content.label, got.show()),
            });
        }
    }
    cx.st.add("calls made inside another, in a destructor or at the end of a thread", made as u64 - (sc.param == 0) as u64);
    cx.key(k, made > 1);
    bad
}

/// Is `got` the format `base`, one derived from it, or a fallback?
fn relative(base: &str, got: &str) -> bool {
    got == base
        || got == "PlainText"
        || got == "ArbitraryBinaryData"
        || gen::data().families.iter().any(|f| f[0] == base && f.iter().any(|x| x == got))
}

/// The process's environment, as listed by `env::vars`, for as long as this lives.
struct Vars(Option<*const *const std::ffi::c_char>, Vec<std::ffi::CString>, Vec<*const std::ffi::c_char>);
impl Vars {
    fn new(e: &Env) -> Vars {
        let mut v = Vars(None, vec![], vec![]);
        if e.vars != 0 {
            let w = &e.words;
            for i in 0..w.len() {
                for name in [&w[i], &w[i].to_uppercase(), &format!("FILE_FORMAT_{}", w[i].to_uppercase()), "LANG", "LC_ALL"] {
                    v.1.extend(std::ffi::CString::new(format!("{name}={}", w[(i + 1) % w.len()])).ok());
                }
            }
            v.2 = v.1.iter().map(|s| s.as_ptr()).collect();
            v.2.push(std::ptr::null());
            v.0 = Some(crate::os::swap_environ(v.2.as_ptr()));
        }
        v
    }
}
impl Drop for Vars {
    fn drop(&mut self) {
        if let Some(p) = self.0 {
            crate::os::swap_environ(p);
        }
    }
}
/// Runs `f` below `n` more stack frames.
#[inline(never)]
fn at_depth(n: u64, f: &mut dyn FnMut()) {
    let room = std::hint::black_box([n as u8; 48]);
    if n == 0 {
        f();
    } else {
        at_depth(n - 1, f);
    }
    std::hint::black_box(&room);
}

fn c15(sc: &Scenario, cx: &mut Cx) -> Option<Viol> {
    let dir = cx.scratch.clone();
    if sc.calls[0].content != sc.calls[1].content || sc.calls[0].api != sc.calls[1].api {
        cx.st.skipped += 1;
        return None;
    }
    let mut outs = vec![];
    let mut k = 0;
    for i in 0..2 {
        let (g, mut d, used, on_first) = side(sc, i, &dir, cx.log);
        for j in 0..3 {
            cx.st.used[j] += used[j];
        }
        cx.st.add("calls on the process's first thread", on_first as u64);
        k = hash2(k, hash2(d.trace, d.time));
        cx.finish(&format!("{:?} in environment {i}", sc.calls[i].api), &mut d, &g);
        outs.push((g, d.asked));
    }
    cx.key(hash2(k, sc.calls[0].content.hash()), true);
    if outs[0].0 != outs[1].0 {
        viol!(
            "answer depends on the environment",
            "{} and {} for the same bytes ({})", outs[0].0.show(), outs[1].0.show(), sc.calls[0].content.label
        );
    }
    if outs[0].1 != outs[1].1 {
        viol!("requests depend on the environment", "same bytes, other sequence of requests ({})", sc.calls[0].content.label);
    }
    // The same with processes that have made no call before: what a process asks only once may differ as well.
    if hash2(sc.env.rand, 91) % 12 == 0 {
        let a = pristine::fresh_side(sc, 0, &dir);
        let b = pristine::fresh_side(sc, 1, &dir);
        cx.st.add("fresh processes", 2);
        if a != b {
            viol!("answer of a fresh process depends on the environment", "{a} and {b} for the same bytes ({})", sc.calls[0].content.label);
        }
    }
    None
}

/// One of the two calls, in its environment; whether it ran on the process's first thread.
pub fn side(sc: &Scenario, i: usize, dir: &Path, log: bool) -> (Res, Driver, [u64; 3], bool) {
        let c = &sc.calls[i];
        let home = std::env::current_dir().unwrap_or("/".into());
        let env = if i == 0 { Env::default() } else { sc.env.clone() };
        let number = if i > 0 && env.vars > 0 && env.vars % 3 == 0 { hash2(env.vars, 8) % 8 } else { 0 };
        let p = if c.api == Api::File { Some(place(dir, &file_name(c.path), c)) } else { None };
        let path = p.as_ref().map(|p| p.path.clone());
        let (mut links, mut near) = (vec![], None);
        if let (Some(q), true) = (&path, i > 0) {
            use std::os::unix::fs::PermissionsExt;
            let h = hash2(sc.env.rand, 5);
            let at = std::time::Duration::from_secs(if h % 3 == 0 { h >> 60 } else { h >> 30 });
            let _ = std::fs::File::options().write(true).open(q).map(|f| {
                use std::os::unix::fs::FileExt;
                if h >> 12 & 3 == 0 {
                    // With holes where there are only zeros.
                    let b = c.content.materialize(0, u64::MAX);
                    let _ = f.set_len(0);
                    let _ = f.set_len(b.len() as u64);
                    for (i, p) in b.chunks(4096).enumerate() {
                        if p.iter().any(|x| *x != 0) {
                            let _ = f.write_all_at(p, i as u64 * 4096);
                        }
                    }
                }
                let t = std::time::UNIX_EPOCH + at;
                let a = if h >> 14 & 1 == 0 { t } else { t + std::time::Duration::from_secs(h >> 32) };
                let _ = f.set_times(std::fs::FileTimes::new().set_modified(t).set_accessed(a));
            });
            if h >> 15 & 3 == 0 {
                // More names for it.
                for i in 0..1 + (h >> 17 & 7) {
                    let l = dir.join(format!("also-{i}"));
                    if std::fs::hard_link(q, &l).is_ok() {
                        links.push(l);
                    }
                }
            }
            if h >> 20 & 3 == 0 {
                let _ = std::os::unix::fs::chown(q, Some((h >> 22) as u32 & 0xffff), Some((h >> 38) as u32 & 0xffff));
            }
            if h >> 54 & 3 == 0 {
                near = Some(Neighbours::new(dir, &file_name(c.path), &h.to_le_bytes()));
            }
            let _ = std::fs::set_permissions(q, std::fs::Permissions::from_mode([0o444, 0o755, 0o4711, 0o640, 0o777, 0o1755][(h >> 8) as usize % 6]));
        }
        if i > 0 && c.thread % 2 == 1 {
            let _ = std::env::set_current_dir(dir);
        }
        let call = c.clone();
        let d2 = dir.to_path_buf();
        // A thread of its own: its random state has not been drawn yet.
        let seed = if i == 0 { 0 } else { hash2(env.rand, 77) };
        let name = match seed % 8 {
            0 | 1 => Some(format!("caller-{}", c.thread)),
            2 => None,
            3 => Some(["main", "tokio-runtime-worker", "rayon", "worker-1", "", "Thread-0"][(seed >> 8) as usize % 6].into()),
            _ => env.words.first().filter(|w| !w.contains('\0')).map(|w| if seed >> 8 & 1 == 0 { w.clone() } else { format!("{w}-1") }),
        };
        let on_first = seed % 16 == 5 && !pristine::in_fork();
        let job = move || {
                env_on(&env);
                tl::NOW.set(0);
                let vars = Vars::new(&env);
                // The heap and the stack elsewhere.
                let shift = vec![0u8; seed as usize >> 8 & 0xfff];
                let mut out = None;
                at_depth(seed >> 20 & 63, &mut || {
                out = Some(match call.api {
                    Api::Reader => {
                        let mut r = SimReader::new(&call);
                        if log {
                            r.d.log = Some(vec![]);
                        }
                        let g = run_reader(&mut r, tl::OS);
                        (g, r.d)
                    }
                    Api::Bytes => {
                        // At any alignment, with anything around it.
                        let b = call.content.materialize(0, u64::MAX);
                        let off = call.start as usize % 64;
                        let mut room = vec![call.start as u8; b.len() + 192];
                        let at = off + room.as_ptr().align_offset(64);
                        room[at..at + b.len()].copy_from_slice(&b);
                        let d = Driver::new(&call);
                        (run_bytes(&room[at..at + b.len()], tl::OS), d)
                    }
                    Api::File => {
                        let mut o = OsCtx::new(&call, d2.to_str().unwrap());
                        o.number = number;
                        if log {
                            o.d.log = Some(vec![]);
                        }
                        let g = run_file(path.as_ref().unwrap(), &mut o, 0);
                        (g, o.d)
                    }
                })
                });
                drop((shift, vars));
                let (g, d) = out.unwrap();
                let used = tl::USED.get();
                env_on(&Env::default());
                (g, d, used)
            };
        let (g, d, used) = if on_first {
            let (tx, rx) = std::sync::mpsc::channel();
            let job: crate::Job = Box::new(move || drop(tx.send(job())));
            crate::FIRST.get().unwrap().send(Some(job)).unwrap();
            rx.recv().unwrap()
        } else {
            let mut b = std::thread::Builder::new().stack_size((2 + c.thread as usize) << 20);
            if let Some(name) = name {
                b = b.name(name);
            }
            b.spawn(job).unwrap().join().unwrap()
        };
        let _ = std::env::set_current_dir(&home);
        drop(near);
        links.iter().for_each(|l| remove(l));
        if let Some(p) = p {
            p.done();
        }
        (g, d, used, on_first)
}
