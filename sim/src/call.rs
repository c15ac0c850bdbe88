//! Running one library call under the seams, and judging its result.

use crate::content::Content;
use crate::os::OsCtx;
use crate::plan::*;
use crate::reader::{Dropped, SimReader};
use crate::step::{CallerPanic, Runaway};
use crate::tl::{self, Off, On};
use file_format::FileFormat;
use std::cell::RefCell;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    /// How often the panic hook has run on this thread.
    pub static HOOKED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are expected here: keep their message, print nothing.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _off = Off::new();
        let _ = HOOKED.try_with(|h| h.set(h.get() + 1));
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SIM_SHOW_PANICS").is_some() {
            eprintln!("panic at {at}: {m}");
        }
        let _ = PANIC_AT.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{m} at {at}")
            }
        });
    }));
}

pub fn last_panic() -> String {
    PANIC_AT.try_with(|m| m.borrow().clone()).unwrap_or_default()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(FileFormat),
    Err { kind: ErrorKind, raw: Option<i32>, custom: Option<i64> },
    /// The simulated caller's reader panicked.
    CallerPanic,
    /// The call exceeded the step or byte cap.
    Runaway,
    Panic(String),
}

impl Res {
    pub fn show(&self) -> String {
        match self {
            Res::Ok(f) => format!("{f:?}"),
            Res::Err { kind, raw, custom } => match (raw, custom) {
                (Some(r), _) => format!("Err({kind:?}, os error {r})"),
                (_, Some(c)) => format!("Err({kind:?}, caller payload {c})"),
                _ => format!("Err({kind:?})"),
            },
            Res::CallerPanic => "caller panic".into(),
            Res::Runaway => "runaway".into(),
            Res::Panic(m) => format!("PANIC {m}"),
        }
    }
    /// Is this error one of the injected ones?
    pub fn is_injected(&self, codes: &[i64]) -> bool {
        let Res::Err { kind, raw, custom } = self else { return false };
        codes.iter().any(|c| {
            if *c > 0 {
                *raw == Some(*c as i32)
            } else if *c <= -1001 {
                *custom == Some(*c) && *kind == make_error(*c).kind()
            } else {
                raw.is_none() && custom.is_none() && *kind == KINDS[(-c - 1) as usize]
            }
        })
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
}

fn judge(r: std::io::Result<FileFormat>) -> Res {
    match r {
        Ok(f) => Res::Ok(f),
        Err(e) => Res::Err {
            kind: e.kind(),
            raw: e.raw_os_error(),
            custom: payload_code(&e),
        },
    }
}

/// Runs `f` with the seams on, turning panics into results.
pub fn guarded(bits: u32, f: impl FnOnce() -> Res) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _a = On::new(bits | tl::OS);
        f()
    }));
    match r {
        Ok(r) => r,
        Err(p) => {
            if p.is::<CallerPanic>() {
                Res::CallerPanic
            } else if p.is::<Runaway>() {
                Res::Runaway
            } else {
                let m = last_panic();
                if m.rsplit(" at ").next().is_some_and(|at| at.starts_with("src/")) {
                    // The simulator's own code (the crate's has another path).
                    std::panic::resume_unwind(p);
                }
                Res::Panic(m)
            }
        }
    }
}

pub fn run_reader(r: &mut SimReader, bits: u32) -> Res {
    let out = guarded(bits, || judge(FileFormat::from_reader(&mut *r)));
    if r.d.runaway { Res::Runaway } else { out }
}

/// By-value handover; also returns how often the handle was dropped.
pub fn run_owned(r: &mut SimReader, bits: u32) -> (Res, u64) {
    let drops = std::cell::Cell::new(0);
    let out = {
        let h = Dropped { r: &mut *r, drops: &drops };
        guarded(bits, move || judge(FileFormat::from_reader(h)))
    };
    (if r.d.runaway { Res::Runaway } else { out }, drops.get())
}

pub fn run_bytes(b: &[u8], bits: u32) -> Res {
    guarded(bits, || Res::Ok(FileFormat::from_bytes(b)))
}

pub fn run_file(path: &std::path::Path, ctx: &mut OsCtx, bits: u32) -> Res {
    tl::OSCTX.set(ctx as *mut OsCtx);
    let out = guarded(bits | tl::OS, || judge(FileFormat::from_file(path)));
    tl::OSCTX.set(std::ptr::null_mut());
    if ctx.d.runaway { Res::Runaway } else { out }
}

/// What the same bytes in memory give.
pub fn plain(c: &Content) -> Res {
    if c.len <= 40 << 20 {
        run_bytes(&c.materialize(0, u64::MAX), 0)
    } else {
        let mut r = SimReader::new(&Call::new(c.clone()));
        r.d.ops_cap = 200_000;
        run_reader(&mut r, 0)
    }
}

/// All accessors of an answer (they must not panic either).
pub fn touch(f: FileFormat) -> u64 {
    let s = format!("{} {:?} {} {} {:?} {f} {f:?}", f.name(), f.short_name(), f.media_type(), f.extension(), f.kind());
    crate::content::fnv(s.as_bytes())
}
