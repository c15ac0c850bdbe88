//! The bytes behind a simulated stream: explicit segments over a generated background, so that a
//! stream of any length (also a practically endless one) is a small value.

use crate::json::*;
use crate::rng::hash2;

#[derive(Clone, PartialEq, Debug)]
pub enum Fill {
    Byte(u8),
    /// From `base` on, `head` repeats every `stride` bytes, padded with zeros; zeros before `base`. In each
    /// repetition the bytes `vary` (offset and length) of the head are different letters.
    Cycle { base: u64, stride: u64, head: Vec<u8>, vary: (u64, u64) },
    /// Pseudo-random bytes; letters, spaces and newlines if `ascii`.
    Hash { seed: u64, ascii: bool },
}

#[derive(Clone, PartialEq, Debug)]
pub struct Content {
    pub len: u64,
    pub segs: Vec<(u64, Vec<u8>)>,
    pub fill: Fill,
    pub label: String,
}

impl Content {
    pub fn bytes(label: &str, b: Vec<u8>) -> Content {
        Content { len: b.len() as u64, segs: vec![(0, b)], fill: Fill::Byte(0), label: label.to_string() }
    }

    fn fill_at(&self, pos: u64, buf: &mut [u8]) {
        match &self.fill {
            Fill::Byte(b) => buf.fill(*b),
            Fill::Cycle { base, stride, head, vary } => {
                buf.fill(0);
                let end = pos.saturating_add(buf.len() as u64);
                if end <= *base {
                    return;
                }
                let first = if pos > *base { (pos - base) / stride } else { 0 };
                let mut k = first;
                loop {
                    let at = match stride.checked_mul(k).and_then(|x| x.checked_add(*base)) {
                        Some(a) if a < end => a,
                        _ => break,
                    };
                    // head occupies [at, at + head.len()).
                    let h0 = pos.max(at);
                    let h1 = end.min(at.saturating_add(head.len() as u64));
                    if h0 < h1 {
                        buf[(h0 - pos) as usize..(h1 - pos) as usize]
                            .copy_from_slice(&head[(h0 - at) as usize..(h1 - at) as usize]);
                        // Letters no container gives a meaning to.
                        let v0 = h0.max(at.saturating_add(vary.0));
                        let v1 = h1.min(at.saturating_add(vary.0 + vary.1));
                        for p in v0..v1 {
                            let j = p - at - vary.0;
                            let w = hash2(k, j / 16);
                            buf[(p - pos) as usize] = b'A' + ((w >> (4 * (j % 16))) & 15) as u8;
                        }
                    }
                    k += 1;
                }
            }
            Fill::Hash { seed, ascii } => {
                let mut p = pos;
                let mut i = 0;
                while i < buf.len() {
                    let w = hash2(*seed, p / 8).to_le_bytes();
                    let mut j = (p % 8) as usize;
                    while j < 8 && i < buf.len() {
                        buf[i] = if *ascii {
                            match w[j] & 63 {
                                0 => b'\n',
                                1..=7 => b' ',
                                x => b'a' + (x % 26),
                            }
                        } else {
                            w[j]
                        };
                        i += 1;
                        j += 1;
                        p = p.wrapping_add(1);
                    }
                }
            }
        }
    }

    /// Copies the bytes at `pos` (`pos + buf.len()` must not exceed `len`).
    pub fn read_at(&self, pos: u64, buf: &mut [u8]) {
        // Skips the background when one segment covers the whole range.
        let end = pos + buf.len() as u64;
        let mut covered = None;
        for (i, (o, b)) in self.segs.iter().enumerate().rev() {
            if *o <= pos && o.saturating_add(b.len() as u64) >= end {
                covered = Some(i);
                break;
            }
        }
        let first = match covered {
            Some(i) => i,
            None => {
                self.fill_at(pos, buf);
                0
            }
        };
        for (o, b) in &self.segs[first..] {
            let s0 = pos.max(*o);
            let s1 = end.min(o.saturating_add(b.len() as u64));
            if s0 < s1 {
                buf[(s0 - pos) as usize..(s1 - pos) as usize]
                    .copy_from_slice(&b[(s0 - o) as usize..(s1 - o) as usize]);
            }
        }
    }

    pub fn materialize(&self, from: u64, max: u64) -> Vec<u8> {
        let n = self.len.saturating_sub(from).min(max) as usize;
        let mut v = vec![0; n];
        self.read_at(from, &mut v);
        v
    }

    pub fn overwrite(&mut self, off: u64, b: Vec<u8>) {
        // Edits in place when a segment covers it, so that segments do not pile up.
        for i in (0..self.segs.len()).rev() {
            let (o, d) = &mut self.segs[i];
            let (o1, off1) = (*o as u128 + d.len() as u128, off as u128 + b.len() as u128);
            if *o <= off && o1 >= off1 {
                let a = (off - *o) as usize;
                d[a..a + b.len()].copy_from_slice(&b);
                return;
            }
            if (off as u128) < o1 && (*o as u128) < off1 {
                break;
            }
        }
        self.segs.push((off, b));
    }

    pub fn hash(&self) -> u64 {
        let mut h = crate::rng::mix(self.len);
        for (o, b) in &self.segs {
            h = hash2(h, *o);
            h = hash2(h, fnv(b));
        }
        hash2(
            h,
            match &self.fill {
                Fill::Byte(b) => *b as u64,
                Fill::Cycle { base, stride, head, vary } => hash2(hash2(hash2(*base, *stride), fnv(head)), hash2(vary.0, vary.1)),
                Fill::Hash { seed, ascii } => hash2(*seed, *ascii as u64 + 7),
            },
        )
    }

    pub fn to_j(&self) -> J {
        obj(vec![
            ("label", s(&self.label)),
            ("len", n(self.len)),
            (
                "segs",
                J::Arr(self.segs.iter().map(|(o, b)| J::Arr(vec![n(*o), J::Str(hex(b))])).collect()),
            ),
            (
                "fill",
                match &self.fill {
                    Fill::Byte(b) => obj(vec![("byte", n(*b as u64))]),
                    Fill::Cycle { base, stride, head, vary } => obj(vec![
                        ("vary", J::Arr(vec![n(vary.0), n(vary.1)])),
                        ("base", n(*base)),
                        ("stride", n(*stride)),
                        ("head", J::Str(hex(head))),
                    ]),
                    Fill::Hash { seed, ascii } => {
                        obj(vec![("seed", n(*seed)), ("ascii", J::Bool(*ascii))])
                    }
                },
            ),
        ])
    }
    pub fn from_j(j: &J) -> Content {
        let f = j.get("fill");
        Content {
            label: j.get("label").str().to_string(),
            len: j.get("len").u(),
            segs: j.get("segs").arr().iter().map(|x| (x.arr()[0].u(), unhex(x.arr()[1].str()))).collect(),
            fill: if !f.get("byte").is_null() {
                Fill::Byte(f.get("byte").u() as u8)
            } else if !f.get("stride").is_null() {
                Fill::Cycle {
                    base: f.get("base").u(),
                    stride: f.get("stride").u(),
                    head: unhex(f.get("head").str()),
                    vary: match f.get("vary").arr() {
                        [a, b] => (a.u(), b.u()),
                        _ => (0, 0),
                    },
                }
            } else {
                Fill::Hash { seed: f.get("seed").u(), ascii: f.get("ascii").bool() }
            },
        }
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x0000_0100_0000_01B3);
        h ^= h >> 29;
    }
    h
}
