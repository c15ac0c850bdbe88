//! Deterministic simulation of stream and file-system behaviour around the file-format crate.
#![allow(invalid_runtime_symbol_definitions)]

mod call;
mod content;
mod endless;
mod gen;
mod json;
mod os;
mod plan;
mod pristine;
mod props;
mod reader;
mod rng;
mod sched;
mod step;
mod tl;

use json::*;
use props::*;
use std::collections::HashMap;
use std::io::Write;

#[global_allocator]
static ALLOC: tl::Counting = tl::Counting;

impl Stats {
    pub fn to_j(&self) -> J {
        let m = |m: &std::collections::BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), n(*v))).collect());
        obj(vec![
            ("runs", n(self.runs)),
            ("skipped", n(self.skipped)),
            ("calls", n(self.calls)),
            ("ops", n(self.ops)),
            ("sim_ns", J::Int(self.sim_ns as i128)),
            ("fired", J::Arr(self.fired.iter().map(|x| n(*x)).collect())),
            ("extra", m(&self.extra)),
            ("families", m(&self.families)),
            ("answers", m(&self.answers)),
            ("distinct", J::Arr(self.distinct.iter().map(|x| n(*x)).collect())),
            ("nontrivial", n(self.nontrivial)),
            ("max_peak", J::Int(self.max_peak as i128)),
            ("used", J::Arr(self.used.iter().map(|x| n(*x)).collect())),
            ("digest", n(self.digest)),
        ])
    }
    pub fn from_j(j: &J) -> Stats {
        let m = |k: &str| j.get(k).fields().iter().map(|(k, v)| (k.clone(), v.u())).collect();
        let mut s = Stats {
            runs: j.get("runs").u(),
            skipped: j.get("skipped").u(),
            calls: j.get("calls").u(),
            ops: j.get("ops").u(),
            sim_ns: if let J::Int(x) = j.get("sim_ns") { *x as u128 } else { 0 },
            extra: m("extra"),
            families: m("families"),
            answers: m("answers"),
            distinct: j.get("distinct").arr().iter().map(|x| x.u()).collect(),
            nontrivial: j.get("nontrivial").u(),
            max_peak: j.get("max_peak").u() as i64,
            digest: j.get("digest").u(),
            ..Stats::default()
        };
        for (i, x) in j.get("fired").arr().iter().enumerate() {
            s.fired[i] = x.u();
        }
        for (i, x) in j.get("used").arr().iter().enumerate() {
            s.used[i] = x.u();
        }
        s
    }
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.skipped += o.skipped;
        self.calls += o.calls;
        self.ops += o.ops;
        self.sim_ns += o.sim_ns;
        for i in 0..self.fired.len() {
            self.fired[i] += o.fired[i];
        }
        for i in 0..3 {
            self.used[i] += o.used[i];
        }
        for (a, b) in [(&mut self.extra, &o.extra), (&mut self.families, &o.families), (&mut self.answers, &o.answers)] {
            for (k, v) in b {
                *a.entry(k.clone()).or_insert(0) += v;
            }
        }
        self.distinct.extend(&o.distinct);
        self.nontrivial += o.nontrivial;
        self.max_peak = self.max_peak.max(o.max_peak);
        self.digest = rng::hash2(self.digest, o.digest);
    }
}

fn args() -> (String, Vec<String>, HashMap<String, String>) {
    let mut a = std::env::args().skip(1);
    let cmd = a.next().unwrap_or_default();
    let mut pos = vec![];
    let mut m = HashMap::new();
    let rest: Vec<String> = a.collect();
    let mut i = 0;
    while i < rest.len() {
        if let Some(k) = rest[i].strip_prefix("--") {
            m.insert(k.to_string(), rest.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(rest[i].clone());
            i += 1;
        }
    }
    (cmd, pos, m)
}

fn viol_j(v: &Viol, index: u64) -> J {
    obj(vec![("index", n(index)), ("class", s(&v.class)), ("detail", s(&v.detail))])
}

pub type Job = Box<dyn FnOnce() + Send>;
/// Where work for the process's first thread goes.
pub static FIRST: std::sync::OnceLock<std::sync::mpsc::Sender<Option<Job>>> = std::sync::OnceLock::new();

/// Everything runs on a thread with the stack a thread gets by default; the first thread only does what C15 asks of it.
fn main() {
    os::fixed_addresses();
    let (tx, rx) = std::sync::mpsc::channel();
    let _ = FIRST.set(tx);
    let t = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(|| {
            struct End;
            impl Drop for End {
                fn drop(&mut self) {
                    let _ = FIRST.get().unwrap().send(None);
                }
            }
            let _end = End;
            real_main();
        })
        .unwrap();
    while let Ok(Some(job)) = rx.recv() {
        job();
    }
    if t.join().is_err() {
        std::process::exit(101);
    }
}

fn real_main() {
    call::install_hook();
    let (cmd, pos, o) = args();
    let u = |k: &str, d: u64| o.get(k).map(|x| x.parse::<u64>().unwrap()).unwrap_or(d);
    let scratch = o.get("scratch").cloned().unwrap_or_else(|| "/nonexistent".into());
    match cmd.as_str() {
        "serve" => pristine::serve(),
        "fresh" => pristine::serve_fresh(),
        "work" => {
            let prop = &o["prop"];
            let (seed, worker, workers, count) = (u("seed", 1), u("worker", 0), u("workers", 1), u("count", 1));
            let wall = u("wall", 600) * 1_000_000_000;
            map_page(&o["page"]);
            let t0 = os::real_now_ns();
            let mut cx = Cx::new(&scratch);
            let mut i = u("from", worker);
            let (mut done, mut lost) = (0, 0);
            while i < count {
                if (done > 0 && os::real_now_ns() - t0 > wall) || (tl::page_get(3) != 0 && i >= tl::page_get(3)) {
                    break;
                }
                tl::page_set(0, i + 1);
                // A mistake in the simulator itself costs one run; too many of them, and the check gives no answer.
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&draw(prop, seed, i, &cx), &mut cx))) {
                    Ok(Some(v)) => {
                        println!("{}", obj(vec![("viol", viol_j(&v, i))]).to_s());
                        break;
                    }
                    Ok(None) => {}
                    Err(_) => {
                        let at = call::last_panic();
                        eprintln!("run {i}: {at}");
                        cx.st.add("mistakes of the simulator (runs lost)", 1);
                        lost += 1;
                        if lost > 5 {
                            std::process::exit(101);
                        }
                        tl::OSCTX.set(std::ptr::null_mut());
                    }
                }
                done += 1;
                i += workers;
            }
            let mut st = cx.st;
            if let Some(f) = o.get("hashes") {
                let mut b = Vec::with_capacity(st.distinct.len() * 8);
                for h in &st.distinct {
                    b.extend(h.to_le_bytes());
                }
                std::fs::write(f, b).unwrap();
                st.distinct.clear();
            }
            println!("{}", obj(vec![("stats", st.to_j()), ("next", n(i)), ("done", n(done)), ("wall_ns", n(os::real_now_ns() - t0))]).to_s());
        }
        "gen" => {
            let cx = Cx::new(&scratch);
            println!("{}", draw(&o["prop"], u("seed", 1), u("index", 0), &cx).to_j().to_s());
        }
        "exec" => {
            let t = std::fs::read_to_string(&pos[0]).unwrap();
            let j = J::parse(&t).unwrap();
            let mut cx = Cx::new(&scratch);
            cx.log = o.contains_key("log");
            let prop = j.get("property").str().to_string();
            let mut at = 0;
            let mut hit = None;
            'all: for x in j.get("runs").arr() {
                let one = x.get("gen").arr();
                let many = x.get("range").arr();
                let list: Vec<plan::Scenario> = if !one.is_empty() {
                    vec![draw(&prop, one[0].u(), one[1].u(), &cx)]
                } else if !many.is_empty() {
                    // Drawn one by one below.
                    let mut k = many[1].u();
                    while k < many[2].u() {
                        let sc = draw(&prop, many[0].u(), k, &cx);
                        if let Some(v) = run(&sc, &mut cx) {
                            hit = Some((v, at));
                            break 'all;
                        }
                        at += 1;
                        k += many[3].u();
                    }
                    continue;
                } else {
                    vec![plan::Scenario::from_j(x)]
                };
                for sc in list {
                    if let Some(v) = run(&sc, &mut cx) {
                        hit = Some((v, at));
                        break 'all;
                    }
                    at += 1;
                }
            }
            let mut out = vec![("digest", n(cx.st.digest))];
            if let Some((v, at)) = &hit {
                out.push(("viol", viol_j(v, *at)));
            }
            if cx.log {
                out.push(("trace", J::Arr(cx.trace.iter().map(|x| s(x)).collect())));
            }
            println!("{}", obj(out).to_s());
            std::io::stdout().flush().unwrap();
            std::process::exit(hit.is_some() as i32);
        }
        "info" => {
            println!(
                "{}",
                obj(vec![
                    ("fired", J::Arr(step::FIRED_NAMES.iter().map(|x| s(x)).collect())),
                    ("checked", J::Bool(cfg!(debug_assertions))),
                    ("signatures", n(gen::data().sigs.len() as u64)),
                    ("fixtures", n(gen::data().fixtures.len() as u64)),
                ])
                .to_s()
            );
        }
        "probe" => probe(),
        _ => {
            eprintln!("usage: sim work|gen|exec|serve|info|probe");
            std::process::exit(2);
        }
    }
}

fn map_page(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::options().read(true).write(true).open(path).unwrap();
    let p = unsafe { os::mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    tl::PAGE.store(p as *mut u64, std::sync::atomic::Ordering::Relaxed);
}

/// Shows that each seam really is between the standard library and the system.
fn probe() {
    // A fresh thread: its hash seeds have not been drawn yet.
    let fails = std::thread::spawn(probe_all).join().unwrap();
    if !fails.is_empty() {
        std::process::exit(2);
    }
}

fn probe_all() -> Vec<String> {
    let dir = std::env::temp_dir().join(format!("sim-probe-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let p = dir.join("f");
    std::fs::write(&p, b"0123456789").unwrap();
    let mut fails = vec![];
    let mut check = |what: &str, ok: bool| {
        println!("{} {what}", if ok { "ok  " } else { "FAIL" });
        if !ok {
            fails.push(what.to_string());
        }
    };
    let mut c = plan::Call::new(content::Content::bytes("", vec![]));
    c.delivery = plan::Delivery::Fixed(3);
    c.open = plan::OpenFault::Eintr(2);
    c.faults.push(plan::Fault { at: 1, k: plan::Fk::Interrupt { count: 2 } });
    let mut o = os::OsCtx::new(&c, dir.to_str().unwrap());
    tl::OSCTX.set(&mut o);
    tl::ENVP.set([7, 1_000_000_000_000, 0, 9]);
    tl::heap_reset();
    use std::io::{Read, Seek};
    let words = vec![c"probe-word".to_owned()];
    tl::WORDS.set(&words);
    let (first, rest, pos, t0, t1, env, hashed, pid, cpus, envs) = {
        let _a = tl::On::new(tl::HEAP | tl::OS);
        let mut f = std::fs::File::open(&p).unwrap();
        let mut b = [0; 8];
        let k = f.read(&mut b).unwrap();
        let mut r = [0; 7];
        let rest = f.read_exact(&mut r).map(|_| r);
        let pos = f.stream_position().unwrap();
        drop(f.try_clone());
        drop(f);
        let t0 = std::time::Instant::now();
        std::thread::sleep(std::time::Duration::from_secs(3600));
        let t1 = t0.elapsed();
        let env = std::env::var_os("SOME_SWITCH").map(|x| x.len());
        use std::hash::{BuildHasher, RandomState};
        let h = RandomState::new().hash_one(1u64);
        let _ = std::fs::write("/tmp/sim-probe-must-not-exist", b"x");
        let _ = std::fs::remove_file(&p);
        let _ = std::fs::set_permissions(&p, std::fs::metadata(&p).unwrap().permissions());
        let _ = std::fs::rename(&p, dir.join("g"));
        std::hint::black_box(vec![0u8; 100_000]);
        let cpus = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(0);
        let envs = (0..40).filter(|i| std::env::var(format!("V{i}")).is_ok_and(|v| v == "probe-word")).count();
        (k, rest, pos, t0, t1, env, h, std::process::id(), cpus, envs)
    };
    let _ = t0;
    tl::WORDS.set(std::ptr::null());
    tl::OSCTX.set(std::ptr::null_mut());
    check("reads are split", first == 3);
    check("the rest arrives in pieces, interruptions are delivered", rest.is_ok_and(|r| &r == b"3456789") && o.d.fired[1] == 2);
    check("seeks are seen", pos == 10 && o.d.seeks == 1);
    check("opens are interrupted", o.d.fired[11] == 2);
    check("opens and closes are counted", o.opens >= 2 && o.opens == o.closes && o.fds.is_empty());
    check("clock is simulated", t1.as_secs() >= 3600);
    check("environment is simulated", tl::USED.get()[2] >= 1 || env.is_some());
    check("randomness is simulated", tl::USED.get()[1] >= 1);
    check("words of the dictionary are answered", envs > 10);
    check("processors are simulated", cpus == 1);
    check("process id is simulated", pid == 2 + 9);
    let h2 = std::thread::spawn(|| {
        tl::ENVP.set([7, 0, 0, 0]);
        let _a = tl::On::new(tl::OS);
        use std::hash::{BuildHasher, RandomState};
        RandomState::new().hash_one(1u64)
    })
    .join()
    .unwrap();
    check("hash seeds repeat", hashed == h2);
    check("modifying calls are recorded and refused", o.forbidden.len() == 4 && p.exists() && !dir.join("g").exists() && !std::path::Path::new("/tmp/sim-probe-must-not-exist").exists());
    check("heap is counted", tl::PEAK.get() >= 100_000);
    println!("recorded: {:?}", o.forbidden);
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_file(dir.join("g"));
    let _ = std::fs::remove_dir(&dir);
    fails
}
