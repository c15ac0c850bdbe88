//! Scenarios: everything one simulated run does, as data. A scenario is generated from a seed, can be
//! written to a replay file, and decides its run completely.

use crate::content::Content;
use crate::json::*;
use crate::rng::hash2;
use std::io::{Error, ErrorKind};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Api {
    Reader,
    Bytes,
    File,
}

/// How reads are split.
#[derive(Clone, PartialEq, Debug)]
pub enum Delivery {
    Full,
    Fixed(u64),
    /// Each read delivers 1..=max bytes.
    Rand { seed: u64, max: u64 },
    /// Each read is full with probability p/100, otherwise 1..=max bytes.
    Mixed { seed: u64, max: u64, p: u64 },
    /// Reads never cross these offsets (packet boundaries).
    Cuts(Vec<u64>),
}

impl Delivery {
    pub fn size(&self, op: u64, pos: u64, want: u64) -> u64 {
        match self {
            Delivery::Full => want,
            Delivery::Fixed(k) => want.min(*k),
            Delivery::Rand { seed, max } => want.min(1 + hash2(*seed, op) % max),
            Delivery::Mixed { seed, max, p } => {
                let h = hash2(*seed, op);
                if h % 100 < *p { want } else { want.min(1 + (h >> 8) % max) }
            }
            Delivery::Cuts(c) => {
                let mut w = want;
                for x in c {
                    if *x > pos && *x < pos + w {
                        w = x - pos;
                    }
                }
                w
            }
        }
    }
    fn to_j(&self) -> J {
        match self {
            Delivery::Full => s("full"),
            Delivery::Fixed(k) => obj(vec![("fixed", n(*k))]),
            Delivery::Rand { seed, max } => obj(vec![("rand", n(*seed)), ("max", n(*max))]),
            Delivery::Mixed { seed, max, p } => {
                obj(vec![("mixed", n(*seed)), ("max", n(*max)), ("p", n(*p))])
            }
            Delivery::Cuts(c) => obj(vec![("cuts", J::Arr(c.iter().map(|x| n(*x)).collect()))]),
        }
    }
    fn from_j(j: &J) -> Delivery {
        if !j.get("fixed").is_null() {
            Delivery::Fixed(j.get("fixed").u())
        } else if !j.get("rand").is_null() {
            Delivery::Rand { seed: j.get("rand").u(), max: j.get("max").u() }
        } else if !j.get("mixed").is_null() {
            Delivery::Mixed { seed: j.get("mixed").u(), max: j.get("max").u(), p: j.get("p").u() }
        } else if !j.get("cuts").is_null() {
            Delivery::Cuts(j.get("cuts").arr().iter().map(|x| x.u()).collect())
        } else {
            Delivery::Full
        }
    }
}

/// Error codes: >= 1 is a raw OS error number; -1.. indexes KINDS (an error of that kind without payload);
/// -1001.. indexes KINDS too (an error of that kind carrying a payload of the caller; every further hundred
/// is another text), as does -2001.. (an error of that kind wrapping an I/O error; every further hundred another).
pub const KINDS: [ErrorKind; 38] = [
    ErrorKind::Other,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::NotSeekable,
    ErrorKind::StorageFull,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AlreadyExists,
    ErrorKind::WriteZero,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::ResourceBusy,
    ErrorKind::HostUnreachable,
    ErrorKind::Deadlock,
    ErrorKind::ConnectionRefused,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::FileTooLarge,
    ErrorKind::QuotaExceeded,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::InvalidFilename,
    ErrorKind::CrossesDevices,
    // Kinds that describe the data itself (never used where the property excludes them).
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    // Only ever for a single operation.
    ErrorKind::Interrupted,
];
pub const HARD_KINDS: u64 = 34;
pub const SOFT_KINDS: u64 = 4;
pub const ERRNOS: [i32; 44] = [
    5, 5, 5, 5, 11, 12, 13, 1, 6, 19, 21, 23, 24, 110, 116, 104, 28, 121, 61, 75, 27, 122, 9, 29, 71, 74, 84, 112,
    113, 101, 107, 40, 36, 20, 2, 16, 26, 30, 35, 38, 95, 123, 117, 131,
];

/// What a payload says of itself.
const TEXTS: [&str; 7] = [
    "",
    "unexpected end of file",
    "failed to fill whole buffer",
    "operation interrupted",
    "end of file before message length reached",
    "invalid data",
    "WORD",
];
/// What an error wraps that is an I/O error itself.
const INNER: [ErrorKind; 5] = [
    ErrorKind::UnexpectedEof,
    ErrorKind::Interrupted,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
];

#[derive(Debug)]
pub struct SimErr(pub i64);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match ((-self.0 - 1001) / 100) as usize {
            0 => write!(f, "simulated error {}", self.0),
            6 => f.write_str(crate::os::word(hash2(self.0 as u64, 5)).and_then(|w| w.to_str().ok()).unwrap_or("eof")),
            t => f.write_str(TEXTS[t.min(5)]),
        }
    }
}
impl std::error::Error for SimErr {}

/// A code for an error of the caller's of the given kind, in one of its forms.
pub fn caller_code(kind: u64, h: u64) -> i64 {
    -(match h % 16 {
        x @ 0..=6 => 1001 + 100 * x as i64,
        x @ 7..=11 => 2001 + 100 * (x as i64 - 7),
        _ => 1001,
    } + kind as i64)
}
pub fn make_error(code: i64) -> Error {
    if code > 0 {
        Error::from_raw_os_error(code as i32)
    } else if code <= -2001 {
        let c = -code - 2001;
        Error::new(KINDS[c as usize % 100], Error::from(INNER[c as usize / 100]))
    } else if code <= -1001 {
        Error::new(KINDS[(-code - 1001) as usize % 100], SimErr(code))
    } else {
        Error::from(KINDS[(-code - 1) as usize])
    }
}
/// The code that names an error the way it was made, if it is one of the caller's own.
pub fn payload_code(e: &Error) -> Option<i64> {
    let p = e.get_ref()?;
    if let Some(x) = p.downcast_ref::<SimErr>() {
        return Some(x.0);
    }
    let inner = p.downcast_ref::<Error>()?;
    let o = KINDS.iter().position(|k| *k == e.kind())?;
    let i = INNER.iter().position(|k| *k == inner.kind())?;
    Some(-(2001 + o as i64 + 100 * i as i64))
}
/// An interruption, in one of the forms it comes in.
pub fn interrupted(h: u64) -> Error {
    match h % 6 {
        0 => Error::from_raw_os_error(4),
        1 => Error::new(ErrorKind::Interrupted, SimErr(-1001)),
        2 => Error::new(ErrorKind::Interrupted, Error::from(ErrorKind::UnexpectedEof)),
        _ => Error::from(ErrorKind::Interrupted),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Fk {
    Interrupt { count: u64 },
    Error { code: i64, sticky: bool },
    /// The caller's reader panics.
    Panic,
    /// A transient end of data: the read returns 0 bytes.
    Zero { count: u64 },
    Trunc { len: u64 },
    Extend { len: u64 },
    Over { off: u64, data: Vec<u8> },
    Stall { ns: u64 },
    /// The thread loses the processor, for so long, at the call's at-th basic block, or access to a static.
    Preempt { stat: bool, ns: u64 },
}

#[derive(Clone, PartialEq, Debug)]
pub struct Fault {
    /// Index of the stream operation (interrupted attempts not counted) at which it happens.
    pub at: u64,
    pub k: Fk,
}

#[derive(Clone, PartialEq, Debug)]
pub struct BadRange {
    pub from: u64,
    pub to: u64,
    pub code: i64,
}

#[derive(Clone, PartialEq, Debug)]
pub enum OpenFault {
    None,
    Eintr(u64),
    Errno(i32),
    /// Nothing exists at the path.
    Missing,
    /// The path is a directory.
    Dir,
    /// Asking for the file's metadata fails.
    Stat(i32),
    /// The path leads somewhere in an unusual way (see ODD).
    Odd(u64),
}

/// Unusual paths. Those from ODD_BAD on cannot be read.
pub const ODD: [&str; 24] = [
    "symbolic link",
    "hard link",
    "relative path",
    "relative path with a dot",
    "path through a directory and back",
    "path with doubled slashes and dots",
    "chain of symbolic links",
    "name that is not UTF-8",
    "name of 255 bytes",
    "path through a linked directory",
    "/proc/self/fd",
    "pipe",
    "slash after the file's name",
    "file used as a directory",
    "dangling link",
    "loop of links",
    "name too long",
    "empty path",
    "NUL in the path",
    "socket",
    "link to a directory",
    "directory with a slash",
    "missing directory",
    "path too long",
];
pub const ODD_PIPE: u64 = 11;
pub const ODD_BAD: u64 = 12;

#[derive(Clone, PartialEq, Debug)]
pub struct Call {
    pub api: Api,
    pub content: Content,
    pub delivery: Delivery,
    pub faults: Vec<Fault>,
    pub bad: Vec<BadRange>,
    pub open: OpenFault,
    /// Latency of operations: 0 = none, otherwise drawn from this seed.
    pub lat: u64,
    pub thread: u64,
    pub start: u64,
    /// Use the previous call's reader object, rewound, instead of a new one.
    pub again: bool,
    pub path: u64,
    pub mode: u64,
}

impl Call {
    pub fn new(content: Content) -> Call {
        Call {
            api: Api::Reader,
            content,
            delivery: Delivery::Full,
            faults: vec![],
            bad: vec![],
            open: OpenFault::None,
            lat: 0,
            thread: 0,
            start: 0,
            again: false,
            path: 0,
            mode: 0o644,
        }
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Env {
    /// Seed of the random source (0: all-zero random bytes).
    pub rand: u64,
    /// Clock base in ns, and seed of jumps (0: none).
    pub clock: u64,
    pub jumps: u64,
    /// Seed of answers to environment lookups (0: nothing set).
    pub vars: u64,
    /// Words these answers are taken from.
    pub words: Vec<String>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Scenario {
    pub prop: String,
    pub env: Env,
    pub calls: Vec<Call>,
    /// Property-specific parameter.
    pub param: u64,
}

impl Fault {
    fn to_j(&self) -> J {
        let mut v = vec![("at", n(self.at))];
        match &self.k {
            Fk::Interrupt { count } => v.extend([("k", s("interrupt")), ("count", n(*count))]),
            Fk::Error { code, sticky } => v.extend([
                ("k", s("error")),
                ("code", J::Int(*code as i128)),
                ("what", J::Str(format!("{:?}", make_error(*code).kind()))),
                ("sticky", J::Bool(*sticky)),
            ]),
            Fk::Panic => v.push(("k", s("panic"))),
            Fk::Zero { count } => v.extend([("k", s("zero")), ("count", n(*count))]),
            Fk::Trunc { len } => v.extend([("k", s("truncate")), ("len", n(*len))]),
            Fk::Extend { len } => v.extend([("k", s("extend")), ("len", n(*len))]),
            Fk::Over { off, data } => {
                v.extend([("k", s("overwrite")), ("off", n(*off)), ("data", J::Str(hex(data)))])
            }
            Fk::Stall { ns } => v.extend([("k", s("stall")), ("ns", n(*ns))]),
            Fk::Preempt { stat, ns } => v.extend([("k", s("preempt")), ("static", J::Bool(*stat)), ("ns", n(*ns))]),
        }
        obj(v)
    }
    fn from_j(j: &J) -> Fault {
        let i = |k: &str| match j.get(k) {
            J::Int(x) => *x as i64,
            _ => 0,
        };
        Fault {
            at: j.get("at").u(),
            k: match j.get("k").str() {
                "interrupt" => Fk::Interrupt { count: j.get("count").u() },
                "error" => Fk::Error { code: i("code"), sticky: j.get("sticky").bool() },
                "panic" => Fk::Panic,
                "zero" => Fk::Zero { count: j.get("count").u() },
                "truncate" => Fk::Trunc { len: j.get("len").u() },
                "extend" => Fk::Extend { len: j.get("len").u() },
                "overwrite" => Fk::Over { off: j.get("off").u(), data: unhex(j.get("data").str()) },
                "preempt" => Fk::Preempt { stat: j.get("static").bool(), ns: j.get("ns").u() },
                _ => Fk::Stall { ns: j.get("ns").u() },
            },
        }
    }
}

impl Call {
    pub fn to_j(&self) -> J {
        obj(vec![
            ("api", s(match self.api { Api::Reader => "reader", Api::Bytes => "bytes", Api::File => "file" })),
            ("content", self.content.to_j()),
            ("delivery", self.delivery.to_j()),
            ("faults", J::Arr(self.faults.iter().map(|f| f.to_j()).collect())),
            (
                "bad",
                J::Arr(
                    self.bad
                        .iter()
                        .map(|b| {
                            obj(vec![
                                ("from", n(b.from)),
                                ("to", n(b.to)),
                                ("code", J::Int(b.code as i128)),
                            ])
                        })
                        .collect(),
                ),
            ),
            (
                "open",
                match &self.open {
                    OpenFault::None => J::Null,
                    OpenFault::Eintr(c) => obj(vec![("eintr", n(*c))]),
                    OpenFault::Errno(e) => obj(vec![("errno", n(*e as u64))]),
                    OpenFault::Stat(e) => obj(vec![("stat", n(*e as u64))]),
                    OpenFault::Missing => s("missing"),
                    OpenFault::Dir => s("dir"),
                    OpenFault::Odd(k) => obj(vec![("path", n(*k)), ("what", s(ODD[*k as usize]))]),
                },
            ),
            ("lat", n(self.lat)),
            ("thread", n(self.thread)),
            ("start", n(self.start)),
            ("again", J::Bool(self.again)),
            ("path", n(self.path)),
            ("mode", n(self.mode)),
        ])
    }
    pub fn from_j(j: &J) -> Call {
        let o = j.get("open");
        Call {
            api: match j.get("api").str() {
                "bytes" => Api::Bytes,
                "file" => Api::File,
                _ => Api::Reader,
            },
            content: Content::from_j(j.get("content")),
            delivery: Delivery::from_j(j.get("delivery")),
            faults: j.get("faults").arr().iter().map(Fault::from_j).collect(),
            bad: j
                .get("bad")
                .arr()
                .iter()
                .map(|b| BadRange {
                    from: b.get("from").u(),
                    to: b.get("to").u(),
                    code: match b.get("code") {
                        J::Int(x) => *x as i64,
                        _ => 5,
                    },
                })
                .collect(),
            open: if o.is_null() {
                OpenFault::None
            } else if o.str() == "missing" {
                OpenFault::Missing
            } else if o.str() == "dir" {
                OpenFault::Dir
            } else if !o.get("path").is_null() {
                OpenFault::Odd(o.get("path").u().min(ODD.len() as u64 - 1))
            } else if !o.get("stat").is_null() {
                OpenFault::Stat(o.get("stat").u() as i32)
            } else if !o.get("eintr").is_null() {
                OpenFault::Eintr(o.get("eintr").u())
            } else {
                OpenFault::Errno(o.get("errno").u() as i32)
            },
            lat: j.get("lat").u(),
            thread: j.get("thread").u(),
            start: j.get("start").u(),
            again: j.get("again").bool(),
            path: j.get("path").u(),
            mode: j.get("mode").u(),
        }
    }
}

impl Scenario {
    pub fn to_j(&self) -> J {
        obj(vec![
            ("property", s(&self.prop)),
            ("param", n(self.param)),
            (
                "env",
                obj(vec![
                    ("rand", n(self.env.rand)),
                    ("clock", n(self.env.clock)),
                    ("jumps", n(self.env.jumps)),
                    ("vars", n(self.env.vars)),
                    ("words", J::Arr(self.env.words.iter().map(|w| J::Str(w.clone())).collect())),
                ]),
            ),
            ("calls", J::Arr(self.calls.iter().map(|c| c.to_j()).collect())),
        ])
    }
    pub fn from_j(j: &J) -> Scenario {
        let e = j.get("env");
        Scenario {
            prop: j.get("property").str().to_string(),
            param: j.get("param").u(),
            env: Env {
                rand: e.get("rand").u(),
                clock: e.get("clock").u(),
                jumps: e.get("jumps").u(),
                vars: e.get("vars").u(),
                words: e.get("words").arr().iter().map(|w| w.str().to_string()).collect(),
            },
            calls: j.get("calls").arr().iter().map(Call::from_j).collect(),
        }
    }
}
