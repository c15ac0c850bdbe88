//! The simulated stream handed to the code under test.

use crate::content::Content;
use crate::plan::*;
use crate::rng::hash2;
use crate::step::*;
use crate::tl::Off;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

pub struct SimReader {
    pub c: Content,
    pub pos: u64,
    pub d: Driver,
    /// What a read leaves in the unused end of the buffer: 0 nothing, 1 noise, 2 the stream's beginning.
    pub scribble: u64,
    /// How it panics when it does.
    pub payload: u64,
    /// What the caller does in the middle of its operations, and at which one.
    pub inside: Vec<(u64, Box<dyn FnOnce()>)>,
}

impl SimReader {
    pub fn new(call: &Call) -> SimReader {
        SimReader { c: call.content.clone(), pos: 0, d: Driver::new(call), scribble: call.path % 3, payload: 0, inside: vec![] }
    }
    fn inside(&mut self) {
        while let Some(i) = self.inside.iter().position(|x| x.0 <= self.d.attempts) {
            let (at, f) = self.inside.remove(i);
            self.d.say(|| format!("operation {at} makes a call itself"));
            f();
        }
    }
    fn apply(&mut self, muts: Vec<Mutation>) {
        for m in muts {
            match m {
                Mutation::Len(l) => self.c.len = l,
                Mutation::Over(o, b) => self.c.overwrite(o, b),
            }
        }
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let _off = Off::new();
        self.inside();
        let mut m = vec![];
        let act = self.d.begin(true, self.pos, buf.len() as u64, &mut m);
        self.apply(m);
        match act {
            Act::Interrupt => return Err(interrupted(hash2(self.c.len, self.d.attempts >> 3))),
            Act::Error(c) => return Err(make_error(c)),
            Act::Panic => raise(self.payload),
            Act::Zero => return Ok(0),
            Act::Go => {}
        }
        let avail = self.c.len.saturating_sub(self.pos);
        let k = self.d.read_size(self.pos, buf.len() as u64, avail).map_err(make_error)?;
        self.c.read_at(self.pos, &mut buf[..k as usize]);
        if self.scribble > 0 && (k as usize) < buf.len() {
            let end = buf.len().min(k as usize + 300);
            let rest = &mut buf[k as usize..end];
            if self.scribble == 1 {
                rest.fill(0xA5 ^ self.pos as u8);
            } else {
                self.c.read_at(0, rest);
            }
        }
        let p = self.pos;
        self.pos += k;
        self.d.end_read(p, buf.len() as u64, k);
        Ok(k as usize)
    }
}

impl Seek for SimReader {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let _off = Off::new();
        self.inside();
        let arg = match to {
            SeekFrom::Start(x) => x,
            SeekFrom::Current(x) => x as u64,
            SeekFrom::End(x) => (x as u64) ^ (1 << 62),
        };
        let mut m = vec![];
        let act = self.d.begin(false, self.pos, arg, &mut m);
        self.apply(m);
        match act {
            Act::Error(c) => return Err(make_error(c)),
            Act::Panic => raise(self.payload),
            _ => {}
        }
        let t = match to {
            SeekFrom::Start(x) => Some(x),
            SeekFrom::Current(x) => self.pos.checked_add_signed(x),
            SeekFrom::End(x) => self.c.len.checked_add_signed(x),
        };
        self.d.end_seek(self.pos, t);
        match t {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::from(ErrorKind::InvalidInput)),
        }
    }
}

/// The ways a reader panics: with values of several types, with or without the panic hook.
pub const RAISES: u64 = 16;
pub fn raise(how: u64) -> ! {
    match how {
        0 => std::panic::panic_any(CallerPanic),
        1 => panic!("the disk is on fire"),
        2 => panic!("block {how} is on fire"),
        3 => std::panic::resume_unwind(Box::new(CallerPanic)),
        4 => std::panic::panic_any(Error::new(ErrorKind::UnexpectedEof, "failed to fill whole buffer")),
        5 => std::panic::panic_any(Box::<dyn std::error::Error + Send + Sync>::from("invalid data")),
        6 => panic!("failed to fill whole buffer"),
        7 => std::panic::panic_any(Error::from(ErrorKind::Interrupted)),
        8 => std::panic::resume_unwind(Box::new(Error::from_raw_os_error(5))),
        10 => std::panic::resume_unwind(Box::new(())),
        11 => std::panic::panic_any(ErrorKind::UnexpectedEof),
        12 => std::panic::panic_any(5i32),
        13 => std::panic::panic_any(Box::new(Error::from_raw_os_error(4))),
        14 => panic!("{}", Error::from(ErrorKind::InvalidData)),
        15 => std::panic::panic_any(""),
        _ => {
            let end = how as usize % 7;
            let _ = std::hint::black_box(&[0u8; 7])[..].get(end..).unwrap_or(&[])[7];
            unreachable!()
        }
    }
}
/// What a caught panic carries.
pub fn describe(p: &(dyn std::any::Any + Send)) -> String {
    if p.is::<CallerPanic>() {
        return "the caller's value".into();
    }
    if let Some(s) = p.downcast_ref::<&'static str>() {
        return format!("text {s}");
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return format!("string {s}");
    }
    if let Some(e) = p.downcast_ref::<Error>() {
        return format!("error {e:?}");
    }
    if let Some(e) = p.downcast_ref::<Box<dyn std::error::Error + Send + Sync>>() {
        return format!("boxed error {e}");
    }
    if p.is::<()>() {
        return "()".into();
    }
    if let Some(k) = p.downcast_ref::<ErrorKind>() {
        return format!("kind {k:?}");
    }
    if let Some(n) = p.downcast_ref::<i32>() {
        return format!("number {n}");
    }
    if let Some(e) = p.downcast_ref::<Box<Error>>() {
        return format!("boxed error {e:?}");
    }
    "another value".into()
}

/// A by-value handle on a SimReader that records its own drop.
pub struct Dropped<'a> {
    pub r: &'a mut SimReader,
    pub drops: &'a std::cell::Cell<u64>,
}
impl Read for Dropped<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.r.read(buf)
    }
}
impl Seek for Dropped<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.r.seek(to)
    }
}
impl Drop for Dropped<'_> {
    fn drop(&mut self) {
        self.drops.set(self.drops.get() + 1);
    }
}
