//! The operating-system seam: the simulator defines the C library's file, clock, random and environment
//! functions in its own binary, so the standard library's `File` (and anything else the code under test
//! might call) goes through them. They act only while the calling thread runs the code under test.

use crate::plan::*;
use crate::rng::hash2;
use crate::step::*;
use crate::tl::{self, Off, OS, OSCTX};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

extern "C" {
    fn __errno_location() -> *mut c_int;
    static environ: *const *const c_char;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opt: c_int) -> c_int;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
}
/// A system call, past everything defined here.
#[inline]
unsafe fn raw(n: usize, a: [usize; 6]) -> c_long {
    let r: isize;
    std::arch::asm!(
        "syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _,
    );
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        return -1;
    }
    r as c_long
}
macro_rules! sys {
    ($n:expr $(, $a:expr)*) => {{
        let given = [$( $a as usize ),*];
        let mut a = [0usize; 6];
        a[..given.len()].copy_from_slice(&given);
        raw($n as usize, a)
    }};
}
const SYS_FUTEX: c_long = 202;
const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_CLOSE: c_long = 3;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD: c_long = 17;
const SYS_READV: c_long = 19;
const SYS_OPENAT: c_long = 257;
const SYS_CLOCK: c_long = 228;
const SYS_GETRANDOM: c_long = 318;
const AT_FDCWD: c_int = -100;
const EINTR: i32 = 4;
const EBADF: i32 = 9;
const EROFS: i32 = 30;

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
pub fn errno() -> i32 {
    unsafe { *__errno_location() }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        sys!(231, code as c_long);
    }
    loop {}
}
pub fn real_now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { sys!(SYS_CLOCK, 1 as c_long, ts.as_mut_ptr()) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
pub fn raw_read(fd: c_int, buf: &mut [u8]) -> isize {
    unsafe { sys!(SYS_READ, fd as c_long, buf.as_mut_ptr(), buf.len()) as isize }
}
pub fn raw_write(fd: c_int, buf: &[u8]) -> isize {
    unsafe { sys!(SYS_WRITE, fd as c_long, buf.as_ptr(), buf.len()) as isize }
}
pub fn raw_close(fd: c_int) {
    unsafe { sys!(SYS_CLOSE, fd as c_long) };
}

/// Simulated state of one call's file operations.
pub struct OsCtx {
    pub d: Driver,
    pub open_fault: OpenFault,
    pub open_eintr: u64,
    /// Descriptors the call opened; true: of the simulated file, false: of anything else.
    pub fds: Vec<(c_int, bool)>,
    pub opens: u64,
    pub closes: u64,
    /// Things a read-only detection has no business doing.
    pub forbidden: Vec<String>,
    pub scratch: String,
    /// The writing end of a pipe with a name, closed once it has been opened for reading.
    pub pipe: Option<c_int>,
    /// Which number the file's descriptor gets (0: the system's choice).
    pub number: u64,
}

impl OsCtx {
    pub fn new(c: &Call, scratch: &str) -> OsCtx {
        let mut d = Driver::new(c);
        d.no_panic = true;
        OsCtx {
            d,
            open_fault: c.open.clone(),
            open_eintr: match c.open {
                OpenFault::Eintr(k) => k,
                _ => 0,
            },
            fds: vec![],
            opens: 0,
            closes: 0,
            forbidden: vec![],
            scratch: scratch.trim_start_matches('/').to_string(),
            pipe: None,
            number: 0,
        }
    }
}

impl OsCtx {
    /// An error of the real system: counts as delivered, unless it describes the argument.
    fn system(&mut self, _: &Off) {
        let e = unsafe { *__errno_location() };
        if e != 22 {
            self.d.errors.push(e as i64);
        }
        self.d.say(|| format!("the system answers errno {e}"));
        set_errno(e);
    }
}

/// Makes a special file (a socket or a pipe) at a path.
pub fn make_node(path: &std::path::Path, mode: u32) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let p = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    unsafe { sys!(133, p.as_ptr(), mode as c_long, 0 as c_long) == 0 }
}
/// What opening and reading a path gives: 0 or an error number.
pub fn open_errno(path: &std::path::Path) -> i32 {
    use std::os::unix::ffi::OsStrExt;
    let Ok(p) = std::ffi::CString::new(path.as_os_str().as_bytes()) else { return -1 };
    unsafe {
        let fd = sys!(SYS_OPENAT, AT_FDCWD as c_long, p.as_ptr(), 0o2000000 as c_long, 0 as c_long);
        if fd < 0 {
            return *__errno_location();
        }
        let mut b = [0u8; 1];
        let r = sys!(SYS_READ, fd, b.as_mut_ptr(), 1 as c_long);
        let e = if r < 0 { *__errno_location() } else { 0 };
        raw_close(fd as c_int);
        e
    }
}
pub fn raw_open(path: &std::path::Path, flags: i32) -> c_int {
    use std::os::unix::ffi::OsStrExt;
    let p = std::ffi::CString::new(path.as_os_str().as_bytes()).unwrap();
    unsafe { sys!(SYS_OPENAT, AT_FDCWD as c_long, p.as_ptr(), flags as c_long, 0 as c_long) as c_int }
}

/// The context, if the calling thread is running the code under test.
fn ctx(off: &Off) -> Option<&'static mut OsCtx> {
    if !off.was(OS) {
        return None;
    }
    let p = OSCTX.get();
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}
fn tracked(off: &Off, fd: c_int) -> Option<&'static mut OsCtx> {
    ctx(off).filter(|c| c.fds.contains(&(fd, true)))
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let off = Off::new();
    let p = CStr::from_ptr(path).to_string_lossy().into_owned();
    if let Some(c) = ctx(&off) {
        if flags & 3 != 0 || flags & (0o100 | 0o1000 | 0o2000) != 0 {
            c.forbidden.push(format!("open with flags {flags:#o}"));
        }
        if !p.starts_with('/') || p.contains(&c.scratch) || p.starts_with("/proc/self/fd/") {
            crate::sched::yield_op(5_000);
            if c.open_eintr > 0 {
                c.open_eintr -= 1;
                c.d.fired[11] += 1;
                c.d.say(|| "open -> interrupted".into());
                set_errno(EINTR);
                return -1;
            }
            if let OpenFault::Errno(e) = c.open_fault {
                c.d.fired[10] += 1;
                c.d.errors.push(e as i64);
                c.d.say(|| format!("open -> errno {e}"));
                set_errno(e);
                return -1;
            }
            let fd = sys!(SYS_OPENAT, dir as c_long, path, flags as c_long, mode as c_long) as c_int;
            if fd >= 0 {
                let fd = renumber(fd, c.number);
                c.fds.push((fd, true));
                c.opens += 1;
                c.d.say(|| "open -> ok".into());
                if let Some(w) = c.pipe.take() {
                    raw_close(w);
                }
                return fd;
            } else {
                let e = *__errno_location();
                c.d.say(|| format!("open -> errno {e} (the system's)"));
                set_errno(e);
            }
            return fd;
        }
        if flags & (3 | 0o100 | 0o1000) != 0 {
            // Never carried out on anything outside the scratch directory.
            set_errno(EROFS);
            return -1;
        }
        let fd = match elsewhere(&p) {
            Some(fd) => fd,
            None => sys!(SYS_OPENAT, dir as c_long, path, flags as c_long, mode as c_long) as c_int,
        };
        if fd >= 0 {
            c.fds.push((fd, false));
            c.opens += 1;
            c.d.say(|| "open of another file".into());
        }
        return fd;
    }
    if off.was(OS) {
        // A call that was given no path.
        if flags & (3 | 0o100 | 0o1000) != 0 {
            set_errno(EROFS);
            return -1;
        }
        let fd = match elsewhere(&p) {
            Some(fd) => fd,
            None => sys!(SYS_OPENAT, dir as c_long, path, flags as c_long, mode as c_long) as c_int,
        };
        if fd >= 0 {
            let _ = tl::OWN_FDS.try_with(|f| f.borrow_mut().push(fd));
        }
        return fd;
    }
    sys!(SYS_OPENAT, dir as c_long, path, flags as c_long, mode as c_long) as c_int
}
/// The lowest free descriptors are those of a process that has closed its standard input, or has opened many files.
fn renumber(fd: c_int, number: u64) -> c_int {
    if number == 0 {
        return fd;
    }
    let n = [0, 63, 64, 255, 256, 1000, 1023][(number - 1) as usize % 7];
    if n == 0 {
        raw_close(0);
    }
    let new = unsafe { sys!(72, fd as c_long, 1030 as c_long, n as c_long) } as c_int;
    if new < 0 {
        return fd;
    }
    raw_close(fd);
    new
}
/// What lies elsewhere in the file system is part of the environment: now and then there is a file, with a word in it.
fn elsewhere(p: &str) -> Option<c_int> {
    let e = tl::ENVP.get();
    let h = hash2(e[3], crate::content::fnv(p.as_bytes()));
    if e[3] == 0 || h % 3 == 0 {
        return None;
    }
    let mut text = vec![];
    if (p.starts_with("/proc/") || p.starts_with("/sys/") || p.starts_with("/etc/")) && h >> 20 & 1 == 0 {
        // What the system says there, with other figures.
        text = figures(p, h);
    }
    for i in 0..if text.is_empty() { 1 + h % 2 } else { 0 } {
        text.extend(word(hash2(h, i)).unwrap_or(c"1").to_bytes());
        text.push(b'\n');
    }
    unsafe {
        let fd = sys!(319, c"elsewhere".as_ptr(), 1 as c_long) as c_int;
        if fd < 0 {
            return None;
        }
        sys!(SYS_WRITE, fd as c_long, text.as_ptr(), text.len());
        sys!(SYS_LSEEK, fd as c_long, 0 as c_long, 0 as c_long);
        Some(fd)
    }
}
/// A text the system gives, each number in it replaced.
fn figures(p: &str, h: u64) -> Vec<u8> {
    let fd = raw_open(std::path::Path::new(p), 0o4000);
    if fd < 0 {
        return vec![];
    }
    let mut b = vec![0u8; 1 << 16];
    let mut n = 0;
    while n < b.len() {
        let k = raw_read(fd, &mut b[n..]);
        if k <= 0 {
            break;
        }
        n += k as usize;
    }
    raw_close(fd);
    let mut out = vec![];
    let mut i = 0;
    while i < n {
        let mut j = i;
        while j < n && b[j].is_ascii_digit() {
            j += 1;
        }
        if j > i {
            let x = hash2(h, out.len() as u64);
            out.extend((hash2(x, 1) >> (x % 64)).to_string().bytes());
        } else {
            out.push(b[i]);
            j = i + 1;
        }
        i = j;
    }
    out
}
/// A word from the scenario's environment.
pub fn word(h: u64) -> Option<&'static CStr> {
    let w = tl::WORDS.get();
    if w.is_null() {
        return None;
    }
    let w: &'static Vec<std::ffi::CString> = unsafe { &*w };
    if w.is_empty() { None } else { Some(&w[((h >> 8) % w.len() as u64) as usize]) }
}
/// Another descriptor for the same open file.
fn duplicate(c: &mut OsCtx, fd: c_int, new: c_int) {
    if new >= 0 {
        let sim = c.fds.contains(&(fd, true));
        c.fds.push((new, sim));
        c.opens += 1;
        c.d.say(|| "descriptor duplicated".into());
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let off = Off::new();
    if let Some(c) = ctx(&off) {
        // Record locks, leases, and cutting or sealing.
        if [6, 7, 37, 38, 1024, 1033].contains(&cmd) {
            c.forbidden.push(format!("fcntl {cmd}"));
            set_errno(EROFS);
            return -1;
        }
        let r = sys!(72, fd as c_long, cmd as c_long, arg) as c_int;
        if cmd == 0 || cmd == 1030 {
            duplicate(c, fd, r);
        }
        return r;
    }
    sys!(72, fd as c_long, cmd as c_long, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let off = Off::new();
    let r = sys!(32, fd as c_long) as c_int;
    if let Some(c) = ctx(&off) {
        duplicate(c, fd, r);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(d, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let off = Off::new();
    if let Some(c) = ctx(&off) {
        if let Some(i) = c.fds.iter().position(|x| x.0 == fd) {
            c.fds.remove(i);
            c.closes += 1;
            c.d.say(|| "close".into());
        } else {
            c.forbidden.push(format!("close of a descriptor it does not own"));
            set_errno(EBADF);
            return -1;
        }
    } else if off.was(OS) {
        let _ = tl::OWN_FDS.try_with(|f| f.borrow_mut().retain(|x| *x != fd));
    }
    let r = sys!(SYS_CLOSE, fd as c_long) as c_int;
    if fd == 0 && off.was(OS) {
        raw_open(std::path::Path::new("/dev/null"), 0);
    }
    r
}

fn apply(fd: c_int, muts: Vec<Mutation>) {
    for m in muts {
        unsafe {
            match m {
                // ftruncate and pwrite need a writable descriptor: reopened through /proc.
                Mutation::Len(l) => {
                    let p = format!("/proc/self/fd/{fd}\0");
                    let w = sys!(SYS_OPENAT, AT_FDCWD as c_long, p.as_ptr(), 1 as c_long, 0 as c_long);
                    if w >= 0 {
                        sys!(77, w, l as c_long);
                        raw_close(w as c_int);
                    }
                }
                Mutation::Over(o, b) => {
                    let p = format!("/proc/self/fd/{fd}\0");
                    let w = sys!(SYS_OPENAT, AT_FDCWD as c_long, p.as_ptr(), 1 as c_long, 0 as c_long);
                    if w >= 0 {
                        sys!(18, w, b.as_ptr(), b.len(), o as c_long);
                        raw_close(w as c_int);
                    }
                }
            }
        }
    }
}

/// Decides a read of a tracked descriptor: Ok(bytes allowed) or Err(errno); -1 for "end of data".
fn decide_read(c: &mut OsCtx, fd: c_int, pos: u64, want: u64) -> Result<u64, i32> {
    let mut m = vec![];
    let act = c.d.begin(true, pos, want, &mut m);
    apply(fd, m);
    match act {
        Act::Interrupt => return Err(EINTR),
        Act::Error(e) => return Err(if e > 0 { e as i32 } else { 5 }),
        Act::Zero => return Ok(0),
        _ => {}
    }
    c.d.read_size(pos, want, u64::MAX >> 1).map_err(|e| if e > 0 { e as i32 } else { 5 })
}
fn cur(fd: c_int) -> u64 {
    unsafe { sys!(SYS_LSEEK, fd as c_long, 0 as c_long, 1 as c_long).max(0) as u64 }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let off = Off::new();
    if let Some(c) = tracked(&off, fd) {
        let pos = cur(fd);
        return match decide_read(c, fd, pos, n as u64) {
            Err(e) => {
                set_errno(e);
                -1
            }
            Ok(k) => {
                let r = sys!(SYS_READ, fd as c_long, buf, k as usize) as isize;
                if r < 0 {
                    c.system(&off);
                }
                c.d.end_read(pos, n as u64, r.max(0) as u64);
                r
            }
        };
    }
    sys!(SYS_READ, fd as c_long, buf, n) as isize
}
unsafe fn do_pread(fd: c_int, buf: *mut c_void, n: usize, at: i64) -> isize {
    let off = Off::new();
    if let Some(c) = tracked(&off, fd) {
        return match decide_read(c, fd, at as u64, n as u64) {
            Err(e) => {
                set_errno(e);
                -1
            }
            Ok(k) => {
                let r = sys!(SYS_PREAD, fd as c_long, buf, k as usize, at) as isize;
                c.d.end_read(at as u64, n as u64, r.max(0) as u64);
                r
            }
        };
    }
    sys!(SYS_PREAD, fd as c_long, buf, n, at) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, at: i64) -> isize {
    do_pread(fd, buf, n, at)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, at: i64) -> isize {
    do_pread(fd, buf, n, at)
}
#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    {
        let off = Off::new();
        if tracked(&off, fd).is_none() {
            return sys!(SYS_READV, fd as c_long, iov, cnt as c_long) as isize;
        }
    }
    // A short read: only the first non-empty buffer.
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
            return read(fd, v.base, v.len);
        }
    }
    0
}
unsafe fn do_lseek(fd: c_int, o: i64, whence: c_int) -> i64 {
    let off = Off::new();
    if let Some(c) = tracked(&off, fd) {
        let pos = cur(fd);
        let mut m = vec![];
        let act = c.d.begin(false, pos, (o as u64) ^ (whence as u64) << 62, &mut m);
        apply(fd, m);
        if let Act::Error(e) = act {
            set_errno(if e > 0 { e as i32 } else { 5 });
            return -1;
        }
        let mut r = sys!(SYS_LSEEK, fd as c_long, o, whence as c_long);
        if r < 0 {
            c.system(&off);
        }
        if r >= 0 && r as u64 > c.d.max_off {
            // Too far for the simulated file system: the position stays.
            sys!(SYS_LSEEK, fd as c_long, pos as i64, 0 as c_long);
            c.d.fired[13] += 1;
            set_errno(22);
            r = -1;
        }
        c.d.end_seek(pos, if r >= 0 { Some(r as u64) } else { None });
        return r;
    }
    sys!(SYS_LSEEK, fd as c_long, o, whence as c_long)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, whence: c_int) -> i64 {
    do_lseek(fd, o, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: i64, whence: c_int) -> i64 {
    do_lseek(fd, o, whence)
}

/// Modifying calls: recorded and refused while the code under test runs; passed on otherwise.
macro_rules! forbidden {
    ($($name:ident($($a:ident: $t:ty),*) = $num:literal;)*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
                let off = Off::new();
                if let Some(c) = ctx(&off) {
                    c.forbidden.push(stringify!($name).to_string());
                    set_errno(EROFS);
                    return -1;
                }
                if off.was(OS) {
                    set_errno(EROFS);
                    return -1;
                }
                sys!($num, $($a),*) as c_int
            }
        )*
    };
}
forbidden! {
    ftruncate64(fd: c_int, l: i64) = 77;
    ftruncate(fd: c_int, l: i64) = 77;
    truncate64(p: *const c_char, l: i64) = 76;
    truncate(p: *const c_char, l: i64) = 76;
    unlink(p: *const c_char) = 87;
    unlinkat(d: c_int, p: *const c_char, f: c_int) = 263;
    rmdir(p: *const c_char) = 84;
    mkdir(p: *const c_char, m: c_int) = 83;
    rename(a: *const c_char, b: *const c_char) = 82;
    link(a: *const c_char, b: *const c_char) = 86;
    linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) = 265;
    symlink(a: *const c_char, b: *const c_char) = 88;
    chmod(p: *const c_char, m: c_int) = 90;
    fchmod(fd: c_int, m: c_int) = 91;
    chown(p: *const c_char, u: c_int, g: c_int) = 92;
    fchown(fd: c_int, u: c_int, g: c_int) = 93;
    futimens_(fd: c_int, p: *const c_void) = 280;
    utimensat(d: c_int, p: *const c_char, ts: *const c_void, f: c_int) = 280;
    flock(fd: c_int, op: c_int) = 73;
    fallocate64(fd: c_int, m: c_int, o: i64, l: i64) = 285;
    fsync(fd: c_int) = 74;
    fdatasync(fd: c_int) = 75;
    mkfifo_(p: *const c_char, m: c_int, d: c_int) = 133;
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const c_void) -> c_int {
    let off = Off::new();
    if let Some(c) = ctx(&off) {
        c.forbidden.push("futimens".into());
        set_errno(EROFS);
        return -1;
    }
    if off.was(OS) {
        set_errno(EROFS);
        return -1;
    }
    sys!(280, fd as c_long, std::ptr::null::<c_char>(), ts, 0 as c_long) as c_int
}
macro_rules! forbidden_write {
    ($($name:ident($($a:ident: $t:ty),*) = $num:literal;)*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $name(fd: c_int, $($a: $t),*) -> isize {
                let off = Off::new();
                if let Some(c) = tracked(&off, fd) {
                    c.forbidden.push(stringify!($name).to_string());
                }
                sys!($num, fd as c_long, $($a),*) as isize
            }
        )*
    };
}
forbidden_write! {
    write(b: *const c_void, n: usize) = 1;
    pwrite64(b: *const c_void, n: usize, o: i64) = 18;
    pwrite(b: *const c_void, n: usize, o: i64) = 18;
    writev(v: *const c_void, n: c_int) = 20;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut i64) -> c_int {
    let off = Off::new();
    if off.was(OS) {
        let mut u = tl::USED.get();
        u[0] += 1;
        tl::USED.set(u);
        let e = tl::ENVP.get();
        // Monotonic clocks follow simulated time; the wall clock also jumps.
        let mut t = e[1].wrapping_add(tl::NOW.get());
        if id == 0 && e[2] != 0 {
            t = t.wrapping_add(hash2(e[2], u[0]) % (1 << 60));
        }
        *ts = (t / 1_000_000_000) as i64;
        *ts.add(1) = (t % 1_000_000_000) as i64;
        return 0;
    }
    sys!(SYS_CLOCK, id as c_long, ts) as c_int
}

/// Sleeping takes simulated time only.
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, ts: *const i64, rem: *mut i64) -> c_int {
    let off = Off::new();
    if off.was(OS) {
        let ns = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
        tl::NOW.set(tl::NOW.get().saturating_add(if flags == 0 { ns } else { 0 }));
        let mut u = tl::USED.get();
        u[0] += 1;
        tl::USED.set(u);
        crate::sched::yield_op(ns);
        return 0;
    }
    let r = sys!(230, id as c_long, flags as c_long, ts, rem);
    if r < 0 { *__errno_location() } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const i64, rem: *mut i64) -> c_int {
    let off = Off::new();
    if off.was(OS) {
        drop(off);
        return clock_nanosleep(1, 0, ts, rem);
    }
    sys!(35, ts, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    let off = Off::new();
    if off.was(OS) && tl::ENVP.get()[3] != 0 {
        return 2 + (tl::ENVP.get()[3] % 30_000) as c_int;
    }
    sys!(39) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getppid() -> c_int {
    let off = Off::new();
    if off.was(OS) && tl::ENVP.get()[3] != 0 {
        return 1 + (tl::ENVP.get()[3] >> 16 & 0x3fff) as c_int;
    }
    sys!(110) as c_int
}
/// How many processors the process may use.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: usize, mask: *mut u8) -> c_int {
    let off = Off::new();
    if off.was(OS) && tl::ENVP.get()[3] != 0 {
        let k = [1usize, 1, 2, 3, 8, 64, 200][(tl::ENVP.get()[3] >> 8) as usize % 7].min(8 * n);
        std::slice::from_raw_parts_mut(mask, n).fill(0);
        for i in 0..k {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = sys!(204, pid as c_long, n, mask) as c_int;
    if r < 0 { -1 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    let off = Off::new();
    if off.was(OS) && tl::ENVP.get()[3] != 0 {
        return (tl::ENVP.get()[3] >> 5 & 1) as c_int;
    }
    let mut t = [0u8; 64];
    (sys!(16, fd as c_long, 0x5401 as c_long, t.as_mut_ptr()) == 0) as c_int
}

/// The name of the current directory.
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    let off = Off::new();
    let e = tl::ENVP.get();
    if off.was(OS) && e[3] != 0 && !buf.is_null() {
        let h = hash2(e[3], 0xc0d);
        let mut s = b"/home".to_vec();
        for i in 0..1 + h % 3 {
            s.push(b'/');
            s.extend(word(hash2(h, i)).unwrap_or(c"user").to_bytes());
        }
        s.push(0);
        if s.len() > n {
            set_errno(34);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len());
        return buf;
    }
    let r = sys!(79, buf, n);
    if r < 0 { std::ptr::null_mut() } else { buf }
}
extern "C" {
    fn fdopendir(fd: c_int) -> *mut c_void;
}
/// Which files there are elsewhere is part of the environment too.
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let off = Off::new();
    let e = tl::ENVP.get();
    let p = CStr::from_ptr(path).to_string_lossy();
    let own = ctx(&off).is_some_and(|c| p.contains(&c.scratch)) || !p.starts_with('/');
    let mut q = path;
    if off.was(OS) && e[3] != 0 && !own {
        let h = hash2(e[3], crate::content::fnv(p.as_bytes()));
        q = match h % 5 {
            0 => path,
            1 => c"/nothing/here".as_ptr(),
            2 => c"/".as_ptr(),
            3 => c"/usr/bin".as_ptr(),
            _ => c"/proc/self/fd".as_ptr(),
        };
    }
    let fd = sys!(SYS_OPENAT, AT_FDCWD as c_long, q, 0o2200000 as c_long, 0 as c_long) as c_int;
    if fd < 0 { std::ptr::null_mut() } else { fdopendir(fd) }
}
/// Going elsewhere: seen by every thread.
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    let off = Off::new();
    let r = sys!(80, p) as c_int;
    if off.was(OS) {
        let e = *__errno_location();
        crate::sched::yield_op(5_000);
        set_errno(e);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fchdir(fd: c_int) -> c_int {
    let off = Off::new();
    let r = sys!(81, fd as c_long) as c_int;
    if off.was(OS) {
        let e = *__errno_location();
        crate::sched::yield_op(5_000);
        set_errno(e);
    }
    r
}
/// What lies elsewhere: see there.
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: u32, out: *mut u8) -> c_int {
    let off = Off::new();
    let e = tl::ENVP.get();
    if let Some(c) = ctx(&off) {
        let p = if path.is_null() { "".into() } else { CStr::from_ptr(path).to_string_lossy() };
        let own = if p.is_empty() { c.fds.contains(&(dir, true)) } else { !p.starts_with('/') || p.contains(&c.scratch) };
        if let (OpenFault::Stat(e), true) = (&c.open_fault, own) {
            let e = *e;
            c.d.fired[14] += 1;
            c.d.errors.push(e as i64);
            c.d.say(|| format!("metadata -> errno {e}"));
            set_errno(e);
            return -1;
        }
    }
    if off.was(OS) && e[3] != 0 && !path.is_null() {
        let p = CStr::from_ptr(path).to_string_lossy();
        let own = (ctx(&off).is_some_and(|c| p.contains(&c.scratch)) || !p.starts_with('/')) && !p.is_empty();
        let h = hash2(e[3], crate::content::fnv(p.as_bytes()));
        if !p.is_empty() && !own && h % 3 != 0 {
            let mut st = [0u8; 256];
            let mut put = |at: usize, n: usize, v: u64| st[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
            put(0, 4, 0xfff);
            put(4, 4, 4096);
            put(16, 4, 1);
            put(28, 2, if h >> 8 & 1 == 0 { 0o40755 } else { 0o100644 });
            put(32, 8, h >> 20);
            put(40, 8, h >> 40);
            for k in 0..4 {
                put(64 + 16 * k, 8, h >> 30);
            }
            std::ptr::copy_nonoverlapping(st.as_ptr(), out, 256);
            return 0;
        }
    }
    sys!(332, dir as c_long, path, flags as c_long, mask as c_long, out) as c_int
}
/// Sets the whole environment, as `env::vars` sees it; gives back what it was.
pub fn swap_environ(new: *const *const c_char) -> *const *const c_char {
    unsafe {
        let p = &raw const environ as *mut *const *const c_char;
        let old = p.read();
        p.write(new);
        old
    }
}
/// The same addresses in each execution: without address space randomisation, if the system lets us.
pub fn fixed_addresses() {
    const NO_RANDOM: c_long = 0x0040000;
    unsafe {
        let old = sys!(135, 0xffff_ffffu32 as c_long);
        if old < 0 || old & NO_RANDOM != 0 || sys!(135, old | NO_RANDOM) < 0 {
            return;
        }
        if sys!(135, 0xffff_ffffu32 as c_long) & NO_RANDOM == 0 {
            return;
        }
        let args: Vec<_> = std::env::args_os()
            .map(|a| std::ffi::CString::new(std::os::unix::ffi::OsStringExt::into_vec(a)).unwrap())
            .collect();
        let mut argv: Vec<*const c_char> = args.iter().map(|a| a.as_ptr()).collect();
        argv.push(std::ptr::null());
        sys!(59, c"/proc/self/exe".as_ptr(), argv.as_ptr(), environ);
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    let off = Off::new();
    if off.was(OS) {
        let mut u = tl::USED.get();
        u[1] += 1;
        tl::USED.set(u);
        let e = tl::ENVP.get();
        for i in 0..n {
            *buf.add(i) = if e[0] == 0 { 0 } else { hash2(e[0], u[1] << 32 | i as u64) as u8 };
        }
        return n as isize;
    }
    sys!(SYS_GETRANDOM, buf, n, flags as c_long) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    let off = Off::new();
    let want = CStr::from_ptr(name).to_bytes();
    if off.was(OS) && !want.starts_with(b"RUST_") {
        let mut u = tl::USED.get();
        u[2] += 1;
        tl::USED.set(u);
        let e = tl::ENVP.get();
        if e[3] == 0 {
            return std::ptr::null();
        }
        let h = hash2(e[3], crate::content::fnv(want));
        if let Some(w) = word(h).filter(|_| h % 4 != 0) {
            return w.as_ptr();
        }
        const ANSWERS: [&CStr; 5] = [c"0", c"1", c"", c"true", c"99999"];
        return if (h >> 2) % 6 == 5 { std::ptr::null() } else { ANSWERS[((h >> 2) % 6) as usize].as_ptr() };
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null();
    }
    while !(*p).is_null() {
        let v = CStr::from_ptr(*p).to_bytes();
        if v.len() > want.len() && v.starts_with(want) && v[want.len()] == b'=' {
            return (*p).add(want.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

/// The standard library's locks, parked threads and the like wait for futexes.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let off = Off::new();
    if n != SYS_FUTEX {
        return raw(n as usize, [a, b, c, d, e, f]);
    }
    match b & 127 {
        op @ (0 | 9) if off.was(OS) => {
            let ts = d as *const i64;
            let mut limit = (!ts.is_null()).then(|| (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64));
            if let (Some(t), 9) = (limit, op) {
                // A point in (simulated) time.
                limit = Some(t.saturating_sub(tl::ENVP.get()[1].wrapping_add(tl::NOW.get())));
            }
            let got = match crate::sched::futex_wait(a, c as u32, limit) {
                Some(None) => {
                    set_errno(11);
                    return -1;
                }
                Some(Some(x)) => x,
                None if limit.is_none() => return raw(n as usize, [a, b, c, d, e, f]),
                None => {
                    // Nobody is simulated who could wake it; another thread might, though.
                    let ts = [0i64, 20_000_000];
                    if raw(n as usize, [a, b & !127, c, ts.as_ptr() as usize, 0, 0]) == 0 {
                        return 0;
                    }
                    if errno() != 110 {
                        return -1;
                    }
                    (false, limit.unwrap())
                }
            };
            if limit.is_some() {
                let mut u = tl::USED.get();
                u[0] += 1;
                tl::USED.set(u);
                tl::NOW.set(tl::NOW.get().saturating_add(got.1));
            }
            if got.0 {
                return 0;
            }
            set_errno(110);
            -1
        }
        1 | 10 => {
            let k = crate::sched::futex_wake(a, c);
            if k >= c {
                return k as c_long;
            }
            let r = raw(n as usize, [a, b, c - k, d, e, f]);
            if r < 0 { r } else { r + k as c_long }
        }
        _ => raw(n as usize, [a, b, c, d, e, f]),
    }
}
