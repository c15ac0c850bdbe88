//! Processes that have made no call before: forked from a worker that itself makes none.

use std::os::unix::process::CommandExt;
use crate::call::*;
use crate::plan::{Api, Call};
use crate::json::*;
use crate::os::*;
use crate::props::{Stats, Viol};
use std::collections::HashMap;
use std::io::{Read, Write};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32;
}
#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

fn tasks(pid: i32) -> (bool, u64) {
    // Are all threads asleep, and how much processor time has been used (ticks)?
    let mut asleep = true;
    let mut cpu = 0;
    if let Ok(d) = std::fs::read_dir(format!("/proc/{pid}/task")) {
        for e in d.flatten() {
            let s = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
            let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
            if f.first().is_some_and(|x| *x != "S") {
                asleep = false;
            }
            if f.len() > 12 {
                cpu += f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
            }
        }
    }
    (asleep, cpu)
}

static FORKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Is this a forked process (it has no first thread to give work to)?
pub fn in_fork() -> bool {
    FORKED.load(std::sync::atomic::Ordering::Relaxed)
}

/// One of C15's two calls in a process that has made no call before.
pub fn fresh_side(sc: &crate::plan::Scenario, i: usize, dir: &std::path::Path) -> String {
    thread_local! {
        static HELPER: std::cell::RefCell<[Option<std::process::Child>; 2]> = const { std::cell::RefCell::new([None, None]) };
    }
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        let c = h[i.min(1)].get_or_insert_with(|| {
            let w: Vec<&String> = crate::gen::fresh().words.iter().filter(|w| i > 0 && !w.contains('\0')).take(50).collect();
            std::process::Command::new("/proc/self/exe")
                .arg("fresh")
                // The other one is given a few words that mean something to the code, if anything does.
                .args(&w)
                .arg0(w.first().map_or(["sim", "file"][i.min(1)], |w| w))
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("helper")
        });
        let w = c.stdin.as_mut().unwrap();
        let j = obj(vec![("sc", sc.to_j()), ("side", crate::json::n(i as u64)), ("dir", J::Str(dir.to_str().unwrap().into()))]);
        writeln!(w, "{}", j.to_s()).unwrap();
        w.flush().unwrap();
        let r = c.stdout.as_mut().unwrap();
        let mut n = [0; 4];
        r.read_exact(&mut n).unwrap();
        let mut s = vec![0; u32::from_le_bytes(n) as usize];
        r.read_exact(&mut s).unwrap();
        String::from_utf8(s).unwrap()
    })
}

pub fn serve_fresh() {
    for l in std::io::stdin().lines() {
        let Ok(j) = J::parse(&l.unwrap()) else { return };
        let sc = crate::plan::Scenario::from_j(j.get("sc"));
        let dir = std::path::PathBuf::from(j.get("dir").str());
        let out = forked(|| crate::props::side(&sc, j.get("side").u() as usize, &dir, false).0.show().into_bytes());
        let out = out.unwrap_or_else(|e| e.into_bytes());
        let mut o = std::io::stdout().lock();
        o.write_all(&(out.len() as u32).to_le_bytes()).unwrap();
        o.write_all(&out).unwrap();
        o.flush().unwrap();
    }
}

/// Forks; the child runs `f` and its output comes back. Err: how the child ended instead.
pub fn forked(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut fds = [0i32; 2];
    unsafe { assert!(pipe(fds.as_mut_ptr()) == 0) };
    let pid = unsafe { fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        FORKED.store(true, std::sync::atomic::Ordering::Relaxed);
        raw_close(fds[0]);
        let out = f();
        let mut o = &out[..];
        while !o.is_empty() {
            let k = raw_write(fds[1], o);
            if k <= 0 {
                break;
            }
            o = &o[k as usize..];
        }
        exit_now(0);
    }
    raw_close(fds[1]);
    let mut out = vec![];
    let mut quiet = 0;
    let mut verdict = None;
    let mut buf = vec![0; 1 << 16];
    loop {
        let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
        let k = unsafe { poll(&mut p, 1, 500) };
        if k == 0 {
            let (asleep, cpu) = tasks(pid);
            quiet = if asleep { quiet + 1 } else { 0 };
            if quiet >= 12 {
                verdict = Some("blocked for ever".to_string());
            } else if cpu > 3000 {
                verdict = Some("endless loop".to_string());
            }
            if verdict.is_some() {
                unsafe { kill(pid, 9) };
                break;
            }
            continue;
        }
        let n = raw_read(fds[0], &mut buf);
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    raw_close(fds[0]);
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    if let Some(v) = verdict {
        return Err(v);
    }
    if st & 0x7f != 0 {
        return Err(format!("signal {}", st & 0x7f));
    }
    if st >> 8 != 0 {
        return Err(format!("exit status {}", st >> 8));
    }
    Ok(out)
}

/// What the same call, faults included, gives in a fresh process (None: it panics or dies there).
pub fn answer(memo: &mut HashMap<u64, Option<String>>, c: &Call, dir: &std::path::Path) -> Option<String> {
    let mut c = c.clone();
    (c.thread, c.start, c.path, c.again) = (0, 0, 0, false);
    let k = crate::content::fnv(c.to_j().to_s().as_bytes());
    if let Some(a) = memo.get(&k) {
        return a.clone();
    }
    let a = forked(|| {
        let mut prev = None;
        let _ = std::env::set_current_dir(dir);
        let (r, d) = crate::props::one(&c, &mut prev, dir);
        match r {
            Res::Panic(_) | Res::Runaway => vec![],
            r if c.api == Api::Bytes => r.show().into_bytes(),
            r => format!("{} after {} ns", r.show(), d.took).into_bytes(),
        }
    })
    .ok()
    .filter(|b| !b.is_empty())
    .map(|b| String::from_utf8(b).unwrap());
    if memo.len() > 20_000 {
        memo.clear();
    }
    memo.insert(k, a.clone());
    a
}

pub fn child(st: &mut Stats, trace: &mut Vec<String>, f: impl FnOnce() -> (Option<Viol>, Stats, Vec<String>)) -> Result<Option<Viol>, String> {
    let out = forked(|| {
        let (v, s, t) = f();
        let mut o = vec![("stats", s.to_j()), ("trace", J::Arr(t.into_iter().map(J::Str).collect()))];
        if let Some(v) = v {
            o.push(("viol", obj(vec![("class", J::Str(v.class)), ("detail", J::Str(v.detail))])));
        }
        obj(o).to_s().into_bytes()
    })?;
    let j = J::parse(&String::from_utf8_lossy(&out)).map_err(|e| format!("unreadable result: {e}"))?;
    st.merge(&Stats::from_j(j.get("stats")));
    trace.extend(j.get("trace").arr().iter().map(|x| x.str().to_string()));
    let v = j.get("viol");
    Ok(if v.is_null() {
        None
    } else {
        Some(Viol { class: v.get("class").str().into(), detail: v.get("detail").str().into() })
    })
}

/// The answer of a build without any reader feature: the signature's format.
pub fn signature_only(b: &[u8]) -> String {
    if cfg!(not(any(feature = "asf", feature = "cfb", feature = "ebml", feature = "exe", feature = "id3v2", feature = "mp4", feature = "pdf", feature = "rm", feature = "sqlite3", feature = "txt", feature = "xml", feature = "zip"))) {
        return run_bytes(b, 0).show();
    }
    thread_local! {
        static HELPER: std::cell::RefCell<Option<std::process::Child>> = const { std::cell::RefCell::new(None) };
    }
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        let c = h.get_or_insert_with(|| {
            let p = std::env::var("SIM_NONE").expect("SIM_NONE: path of the build without readers");
            std::process::Command::new(p)
                .arg("serve")
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("helper")
        });
        let w = c.stdin.as_mut().unwrap();
        w.write_all(&(b.len() as u32).to_le_bytes()).unwrap();
        w.write_all(b).unwrap();
        w.flush().unwrap();
        let r = c.stdout.as_mut().unwrap();
        let mut n = [0; 1];
        r.read_exact(&mut n).unwrap();
        let mut s = vec![0; n[0] as usize];
        r.read_exact(&mut s).unwrap();
        String::from_utf8(s).unwrap()
    })
}

pub fn serve() {
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    loop {
        let mut n = [0; 4];
        if i.read_exact(&mut n).is_err() {
            return;
        }
        let mut b = vec![0; u32::from_le_bytes(n) as usize];
        if i.read_exact(&mut b).is_err() {
            return;
        }
        let s = match run_bytes(&b, 0) {
            Res::Ok(f) => format!("{f:?}"),
            _ => "PANIC".into(),
        };
        o.write_all(&[s.len() as u8]).unwrap();
        o.write_all(s.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}

/// The reader features, as SIM_HELPERS names their builds.
pub const FEATURES: [(&str, &str); 12] = [
    ("asf", "AdvancedSystemsFormat"),
    ("cfb", "CompoundFileBinary"),
    ("ebml", "ExtensibleBinaryMetaLanguage"),
    ("exe", "MsDosExecutable"),
    ("id3v2", "Id3v2"),
    ("mp4", "Mpeg4Part14"),
    ("pdf", "PortableDocumentFormat"),
    ("rm", "Realmedia"),
    ("sqlite3", "Sqlite3"),
    ("txt", ""),
    ("xml", "ExtensibleMarkupLanguage"),
    ("zip", "Zip"),
];

/// The same call in a build with other reader features: its answer, and a hash of what it asked for.
pub fn elsewhere(which: &str, c: &Call) -> (String, u64) {
    type Map = HashMap<String, std::process::Child>;
    thread_local! {
        static HELPERS: std::cell::RefCell<Map> = std::cell::RefCell::new(HashMap::new());
    }
    HELPERS.with(|h| {
        let mut h = h.borrow_mut();
        let p = h.entry(which.to_string()).or_insert_with(|| {
            let list = std::env::var("SIM_HELPERS").expect("SIM_HELPERS: paths of the other builds");
            let exe = list.split(':').find_map(|x| x.strip_prefix(&format!("{which}="))).expect("a build of that name");
            std::process::Command::new(exe)
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("helper")
        });
        let mut t = c.to_j().to_s();
        t.push('\n');
        let w = p.stdin.as_mut().unwrap();
        let r = p.stdout.as_mut().unwrap();
        let mut line = vec![];
        if w.write_all(t.as_bytes()).and_then(|_| w.flush()).is_ok() {
            // One line comes back for one line sent.
            let mut b = [0u8; 4096];
            while let Ok(n @ 1..) = r.read(&mut b) {
                line.extend_from_slice(&b[..n]);
                if b[n - 1] == b'\n' {
                    line.pop();
                    break;
                }
            }
        }
        match J::parse(&String::from_utf8_lossy(&line)) {
            Ok(j) if !line.is_empty() => (j.get("res").str().to_string(), j.get("trace").u()),
            _ => {
                let _ = p.kill();
                let _ = p.wait();
                h.remove(which);
                ("process died".to_string(), 0)
            }
        }
    })
}
