//! The thread scheduler: real threads, of which exactly one runs at a time. They are handed over at the stream
//! operations of the code under test, and (in the build "preempt") at any of its basic blocks and accesses to
//! statics, in the order of a discrete-event queue. Futexes are simulated: a thread that waits for another is
//! seen at once, and goes on when it is woken.

use crate::plan::{Call, Fk};
use crate::tl;
use std::cell::RefCell;
use std::collections::BinaryHeap;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

/// Time, order, thread; preempted in the midst of its own computation?
type Entry = std::cmp::Reverse<(u64, u64, u64, bool)>;

struct St {
    queue: BinaryHeap<Entry>,
    seq: u64,
    now: u64,
    running: Option<u64>,
    done: Vec<bool>,
    /// OS thread ids, to see whether a thread that does not come back sleeps.
    os: Vec<u64>,
    order: u64,
    switches: u64,
    last: u64,
    began: usize,
    /// Threads waiting for a futex (in the order they came), and the queue's entry of those that wait for a
    /// limited time only.
    waiting: Vec<(usize, u64, Option<u64>)>,
    /// Entries of the queue that are void.
    void: Vec<u64>,
    /// How often threads have computed for long since the last thing that happened; too often?
    polls: u64,
    polling: bool,
}

pub struct Sched {
    m: Mutex<St>,
    /// For the controlling thread, and for each simulated thread.
    cv: Condvar,
    turn: Vec<Condvar>,
}

#[derive(Debug)]
pub enum End {
    Done { order: u64, switches: u64, now: u64 },
    /// This thread was given the turn and went to sleep on, or polls for, something held by another.
    Blocked(u64),
}

/// The scheduler of this process, if there is one: threads it does not know may wake those it does.
static THE: AtomicPtr<Sched> = AtomicPtr::new(std::ptr::null_mut());

/// Addresses waited for. (The scheduler's own locks never are, and must not come back to it.)
static ADDRS: [AtomicUsize; 256] = [const { AtomicUsize::new(0) }; 256];

impl Sched {
    pub fn new(n: usize) -> Sched {
        Sched {
            m: Mutex::new(St {
                queue: BinaryHeap::new(),
                seq: 0,
                now: 0,
                running: None,
                done: vec![false; n],
                os: vec![0; n],
                order: 0,
                switches: 0,
                last: u64::MAX,
                began: 0,
                waiting: vec![],
                void: vec![],
                polls: 0,
                polling: false,
            }),
            cv: Condvar::new(),
            turn: (0..n).map(|_| Condvar::new()).collect(),
        }
    }
    fn park(&self, tid: u64, at_least: u64, pre: bool) {
        let mut g = self.m.lock().unwrap();
        g.polls = 0;
        drop(self.hand_over(g, tid, at_least, pre));
    }
    fn hand_over<'a>(&'a self, mut g: MutexGuard<'a, St>, tid: u64, at_least: u64, pre: bool) -> MutexGuard<'a, St> {
        let t = g.now.saturating_add(at_least);
        g.seq += 1;
        let seq = g.seq;
        g.queue.push(std::cmp::Reverse((t, seq, tid, pre)));
        if g.running == Some(tid) {
            g.running = None;
        } else {
            g.began += 1;
        }
        self.cv.notify_all();
        while g.running != Some(tid) {
            g = self.turn[tid as usize].wait(g).unwrap();
        }
        g
    }
    /// A thread that has computed for long without an operation may be polling for what a preempted one holds:
    /// lets those come first.
    fn give_way(&self, tid: u64) {
        let mut g = self.m.lock().unwrap();
        g.polls += 1;
        if g.polls > POLLS {
            g.polling = true;
            self.cv.notify_all();
            loop {
                g = self.turn[tid as usize].wait(g).unwrap();
            }
        }
        let now = g.now;
        let Some(t) = g.queue.iter().filter(|e| e.0 .3 && !g.void.contains(&e.0 .1)).map(|e| e.0 .0).max() else {
            return;
        };
        drop(self.hand_over(g, tid, t.saturating_sub(now).saturating_add(1), true));
    }
    /// Waits for a futex. None: its value is another already; else whether it was woken, and the time that took.
    fn wait(&self, tid: u64, addr: usize, val: u32, limit: Option<u64>) -> Option<(bool, u64)> {
        let mut g = self.m.lock().unwrap();
        if unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != val {
            return None;
        }
        let from = g.now;
        let mut entry = None;
        if let Some(ns) = limit {
            g.seq += 1;
            let seq = g.seq;
            entry = Some(seq);
            let t = g.now.saturating_add(ns);
            g.queue.push(std::cmp::Reverse((t, seq, tid, false)));
        }
        g.waiting.push((addr, tid, entry));
        ADDRS[tid as usize % 256].store(addr, Ordering::SeqCst);
        g.running = None;
        self.cv.notify_all();
        while g.running != Some(tid) {
            g = self.turn[tid as usize].wait(g).unwrap();
        }
        ADDRS[tid as usize % 256].store(0, Ordering::SeqCst);
        let late = g.waiting.iter().any(|w| w.1 == tid);
        g.waiting.retain(|w| w.1 != tid);
        Some((!late, g.now - from))
    }
    /// Wakes up to n of the threads waiting for a futex.
    fn wake(&self, addr: usize, n: usize) -> usize {
        let mut g = self.m.lock().unwrap();
        let mut woken = 0;
        while woken < n {
            let Some(i) = g.waiting.iter().position(|w| w.0 == addr) else { break };
            let (_, tid, entry) = g.waiting.remove(i);
            g.void.extend(entry);
            g.seq += 1;
            let (t, seq) = (g.now, g.seq);
            g.queue.push(std::cmp::Reverse((t, seq, tid, true)));
            woken += 1;
        }
        if woken > 0 {
            self.cv.notify_all();
        }
        woken
    }
    /// Called by a simulated thread before its first step. `start`: its start time.
    pub fn enter(&self, tid: u64, start: u64) {
        self.m.lock().unwrap().os[tid as usize] = std::fs::read_link("/proc/thread-self")
            .ok()
            .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
            .unwrap_or(0);
        tl::SCHED.set(self as *const Sched);
        tl::TID.set(tid);
        THE.store(self as *const Sched as *mut Sched, Ordering::Relaxed);
        pre::set_hook(preempted);
        self.park(tid, start, false);
    }
    pub fn leave(&self, tid: u64) {
        tl::SCHED.set(std::ptr::null());
        let mut g = self.m.lock().unwrap();
        g.done[tid as usize] = true;
        g.running = None;
        self.cv.notify_all();
    }
    /// Runs on the controlling thread until all threads are done.
    pub fn control(&self, n: usize) -> End {
        let mut g = self.m.lock().unwrap();
        while g.began < n {
            g = self.cv.wait(g).unwrap();
        }
        let mut idle = 0;
        loop {
            if g.done.iter().all(|d| *d) {
                return End::Done { order: g.order, switches: g.switches, now: g.now };
            }
            // While a thread waits for another (without a limit), those that were preempted go on, until it no
            // longer does, or they are in an operation (or done). Those in one do not: nobody should wait for them.
            let stuck = g.waiting.iter().find(|w| w.2.is_none()).map(|w| w.1);
            let mut all: Vec<Entry> = std::mem::take(&mut g.queue).into_sorted_vec();
            // The least one is the last.
            let void = std::mem::take(&mut g.void);
            all.retain(|e| !void.contains(&e.0 .1));
            // The seq numbers of the initial parks depend on real timing: ties break by thread.
            let best = all.iter().map(|e| e.0).filter(|e| e.3 || stuck.is_none()).map(|e| (e.0, e.2, e.1)).min();
            let Some((t0, tid, seq)) = best else {
                g.queue.extend(all);
                let Some(tid) = stuck else { return End::Done { order: g.order, switches: g.switches, now: g.now } };
                // Perhaps a thread nobody knows here is about to wake it.
                if idle >= 12 {
                    return End::Blocked(tid);
                }
                let (h, to) = self.cv.wait_timeout(g, Duration::from_millis(100)).unwrap();
                g = h;
                idle += to.timed_out() as u32;
                continue;
            };
            idle = 0;
            all.retain(|e| e.0 .1 != seq);
            g.queue.extend(all);
            g.now = g.now.max(t0);
            if tid != g.last {
                g.switches += 1;
                g.last = tid;
            }
            g.order = crate::rng::hash2(g.order, tid);
            g.running = Some(tid);
            self.turn[tid as usize].notify_all();
            let mut asleep = 0;
            let mut spent = None;
            while g.running.is_some() {
                if g.polling {
                    return End::Blocked(tid);
                }
                let (h, to) = self.cv.wait_timeout(g, Duration::from_millis(100)).unwrap();
                g = h;
                if g.running.is_some() && to.timed_out() {
                    // It holds the turn and has not come back: computing, or waiting for a lock?
                    let st = std::fs::read_to_string(format!("/proc/self/task/{}/stat", g.os[tid as usize]))
                        .unwrap_or_default();
                    let c = st.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('?');
                    asleep = if c == 'S' { asleep + 1 } else { 0 };
                    // A call works on small contents here: seconds of processor time between two operations
                    // mean that it polls for something.
                    let f: Vec<&str> = st.rsplit(')').next().unwrap_or("").split_whitespace().collect();
                    let used = [11, 12].iter().filter_map(|i| f.get(*i).and_then(|x| x.parse::<u64>().ok())).sum::<u64>();
                    let since = *spent.get_or_insert(used);
                    if asleep >= 12 || used > since + 1000 {
                        return End::Blocked(tid);
                    }
                }
            }
        }
    }
}

/// A scheduling point of the code under test (a no-op outside multi-threaded runs).
pub fn yield_op(latency: u64) {
    let p = tl::SCHED.get();
    if !p.is_null() {
        unsafe { (*p).park(tl::TID.get(), latency, false) };
        let b = pre::BLOCKS.get();
        PLAN.with(|p| p.borrow_mut().since = b);
        arm();
    }
}

/// The calling thread waits for a futex: see Sched::wait. None also if it is no simulated thread.
pub fn futex_wait(addr: usize, val: u32, limit: Option<u64>) -> Option<Option<(bool, u64)>> {
    let p = tl::SCHED.get();
    if p.is_null() { None } else { Some(unsafe { (*p).wait(tl::TID.get(), addr, val, limit) }) }
}
/// How many simulated threads have been woken.
pub fn futex_wake(addr: usize, n: usize) -> usize {
    let p = THE.load(Ordering::Relaxed);
    if p.is_null() || ADDRS.iter().all(|a| a.load(Ordering::SeqCst) != addr) {
        return 0;
    }
    unsafe { (*p).wake(addr, n) }
}

/// Blocks without an operation after which a thread may be polling.
const LONG: u64 = 100_000;
/// How often that may happen, to all threads together, with nothing else in between.
const POLLS: u64 = 3_000;

struct Plan {
    blocks: Vec<(u64, u64)>,
    statics: Vec<(u64, u64)>,
    since: u64,
    fired: u64,
}
thread_local! {
    static PLAN: RefCell<Plan> = const { RefCell::new(Plan { blocks: vec![], statics: vec![], since: 0, fired: 0 }) };
}

/// Prepares the preemptions of one call; to be ended with `end`.
pub fn begin(c: &Call) {
    if tl::SCHED.get().is_null() {
        return;
    }
    let (mut blocks, mut statics) = (vec![], vec![]);
    for f in &c.faults {
        if let Fk::Preempt { stat, ns } = f.k {
            if stat { &mut statics } else { &mut blocks }.push((f.at, ns));
        }
    }
    // The next one is the last.
    blocks.sort_by(|a, b| b.cmp(a));
    statics.sort_by(|a, b| b.cmp(a));
    pre::BLOCKS.set(0);
    pre::STATICS.set(0);
    PLAN.with(|p| *p.borrow_mut() = Plan { blocks, statics, since: 0, fired: 0 });
    arm();
}
/// How many preemptions there were.
pub fn end() -> u64 {
    pre::NEXT.set(u64::MAX);
    pre::NEXT_STATIC.set(u64::MAX);
    PLAN.with(|p| p.borrow().fired)
}
fn arm() {
    PLAN.with(|p| {
        let p = p.borrow();
        pre::NEXT.set(p.blocks.last().map_or(u64::MAX, |b| b.0).min(p.since + LONG));
        pre::NEXT_STATIC.set(p.statics.last().map_or(u64::MAX, |b| b.0));
    });
}

/// Called (not armed) at a block or an access at which something is planned.
fn preempted() {
    let p = tl::SCHED.get();
    if p.is_null() {
        pre::NEXT.set(u64::MAX);
        pre::NEXT_STATIC.set(u64::MAX);
        return;
    }
    let e = crate::os::errno();
    let (b, s) = (pre::BLOCKS.get(), pre::STATICS.get());
    let mut ns = None;
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let p = &mut *p;
        for (l, n) in [(&mut p.blocks, b), (&mut p.statics, s)] {
            while l.last().is_some_and(|x| x.0 <= n) {
                let (_, t) = l.pop().unwrap();
                ns = Some(ns.unwrap_or(0u64).max(t));
                p.fired += 1;
            }
        }
        p.since = b;
    });
    let t = tl::TID.get();
    match ns {
        Some(ns) => unsafe { (*p).park(t, ns, true) },
        None => unsafe { (*p).give_way(t) },
    }
    arm();
    crate::os::set_errno(e);
}
