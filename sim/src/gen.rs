//! Workload contents: structure-aware generators for every family the detector looks into, for every
//! signature, for text, and for the repository's own samples, with optional corruption.

use crate::content::{Content, Fill};
use crate::rng::Rng;
use std::sync::OnceLock;

pub type Sig = (String, Vec<(u64, Vec<u8>)>);

pub struct Data {
    pub sigs: Vec<Sig>,
    pub fixtures: Vec<(String, Vec<u8>)>,
    pub clsids: Vec<Vec<u8>>,
    pub xml: Vec<String>,
    pub mimes: Vec<String>,
    pub mp4: Vec<Vec<u8>>,
    pub families: Vec<Vec<String>>,
}

pub fn data() -> &'static Data {
    static D: OnceLock<Data> = OnceLock::new();
    D.get_or_init(|| {
        let sigs: Vec<Sig> = include_str!("../data/signatures.txt")
            .lines()
            .map(|l| {
                let mut p = l.split(' ');
                let f = p.next().unwrap().to_string();
                let v = p
                    .map(|x| {
                        let (o, h) = x.split_once(':').unwrap();
                        (o.parse().unwrap(), crate::json::unhex(h))
                    })
                    .collect();
                (f, v)
            })
            .collect();
        let b: &[u8] = include_bytes!("../data/fixtures.bin");
        let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        let mut i = 4;
        let mut fixtures = vec![];
        for _ in 0..u(0) {
            let (a, c) = (u(i), u(i + 4));
            i += 8;
            fixtures.push((
                String::from_utf8(b[i..i + a].to_vec()).unwrap(),
                b[i + a..i + a + c].to_vec(),
            ));
            i += a + c;
        }
        let mp4 = sigs
            .iter()
            .filter(|s| s.0 == "Mpeg4Part14" && s.1[0].0 == 4)
            .map(|s| s.1[0].1.clone())
            .collect();
        Data {
            mp4,
            fixtures,
            clsids: include_str!("../data/clsids.txt").lines().map(guid).collect(),
            xml: include_str!("../data/xml.txt").lines().map(|x| x.to_string()).collect(),
            mimes: include_str!("../data/mimetypes.txt").lines().map(|x| x.to_string()).collect(),
            families: include_str!("../data/families.txt")
                .lines()
                .map(|l| l.split_whitespace().map(|x| x.to_string()).collect())
                .collect(),
            sigs,
        }
    })
}

/// Bytes of a GUID written the usual way.
pub fn guid(t: &str) -> Vec<u8> {
    let h: String = t.chars().filter(|c| *c != '-').collect();
    let b = crate::json::unhex(&h);
    let o = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15];
    o.iter().map(|i| b[*i]).collect()
}

pub fn le16(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&(x as u16).to_le_bytes())
}
pub fn le32(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&(x as u32).to_le_bytes())
}
pub fn le64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes())
}
pub fn be32(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&(x as u32).to_be_bytes())
}
pub fn be64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_be_bytes())
}

/// An extreme or off-by-a-little value of a field of `bits` bits.
pub fn hostile(r: &mut Rng, bits: u32) -> u64 {
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    let v = match r.below(9) {
        0 => r.below(64),
        1 => max - r.below(40),
        2 => (1u64 << r.below(bits as u64)).wrapping_add(r.below(17)).wrapping_sub(8),
        3 => (max >> 1).wrapping_add(r.below(97)).wrapping_sub(48),
        4 => r.next(),
        5 => r.skew(max),
        6 => 0,
        7 => (1u64 << (bits - 1)).wrapping_add(r.below(49)),
        _ => 36_870 + r.below(70_000),
    };
    v & max
}
/// `good`, or with probability h% something hostile.
fn f(r: &mut Rng, h: u64, good: u64, bits: u32) -> u64 {
    if r.pct(h) {
        match r.below(4) {
            0 => good.wrapping_add(r.below(17)).wrapping_sub(8) & if bits == 64 { u64::MAX } else { (1 << bits) - 1 },
            _ => hostile(r, bits),
        }
    } else {
        good
    }
}
/// A padding length: mostly small, sometimes across a BufReader's or the prefix's size.
fn padlen(r: &mut Rng) -> usize {
    (match r.below(20) {
        0..=11 => r.below(64),
        12..=15 => r.below(2000),
        16 => 8192 - 100 + r.below(200),
        17 => r.below(20_000),
        18 => 36_870 - 200 + r.below(400),
        _ => 32_768 - 64 + r.below(128),
    }) as usize
}
fn pad(r: &mut Rng, v: &mut Vec<u8>, n: usize) {
    match r.below(3) {
        0 => v.resize(v.len() + n, 0),
        1 => v.extend(r.bytes(n)),
        _ => {
            let c = *r.pick(b" aA\xff\n");
            v.resize(v.len() + n, c)
        }
    }
}
/// Well-formed UTF-8 text.
fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 4);
    let multi = r.pct(40);
    let nl = *r.pick(&[0u64, 0, 20, 80, 400, 3000]);
    while v.len() < n {
        if nl > 0 && r.one_in(nl) {
            v.extend_from_slice(if r.pct(20) { b"\r\n" } else { b"\n" });
        } else if multi && r.one_in(6) {
            let c = *r.pick(&['é', 'ß', '漢', '字', '😀', 'Ω', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{a0}', '\u{2028}']);
            let mut b = [0; 4];
            v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        } else {
            v.push(*r.pick(b"abcdefghij klmnop qrstuv\twxyz,.;"));
        }
    }
    v
}

pub fn asf(r: &mut Rng, h: u64) -> Vec<u8> {
    let mut v = guid("75b22630-668e-11cf-a6d9-00aa0062ce6c");
    let hs = hostile(r, 64);
    le64(&mut v, hs);
    let k = r.below(7);
    let count = f(r, h, k, 32);
    le32(&mut v, count);
    v.extend([1, 2]);
    for _ in 0..k {
        match r.below(5) {
            0 | 1 => {
                v.extend(guid("b7dc0791-a9b7-11cf-8ee6-00c00c205365"));
                let p = padlen(r);
                let sz = f(r, h, 40 + p as u64, 64);
                le64(&mut v, sz);
                let g = *r.pick(&[
                    "f8699e40-5b4d-11cf-a8fd-00805f5c442b",
                    "bc19efc0-5b4d-11cf-a8fd-00805f5c442b",
                    "59dacfc0-59e6-11d0-a3ac-00a0c90348f6",
                ]);
                let g = newish_fixed(r, &guid(g));
                v.extend(g);
                pad(r, &mut v, p);
            }
            2 | 3 => {
                v.extend(guid("d2d0a440-e307-11d2-97f0-00a0c95ea850"));
                let at = v.len();
                le64(&mut v, 0);
                let m = if r.one_in(6) { 30 + r.below(6) } else { r.below(5) };
                let c = f(r, h, m, 16);
                le16(&mut v, c);
                for _ in 0..m {
                    let name: Vec<u8> = match r.below(12) {
                        0 => b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0\0\0".to_vec(),
                        1 => b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0".to_vec(),
                        2 => {
                            let n = r.below(200) as usize;
                            r.bytes(n)
                        }
                        _ => newish_wide(r, b"W\0M\0/\0G\0e\0n\0r\0e\0\0\0"),
                    };
                    let l = f(r, h, name.len() as u64, 16);
                    le16(&mut v, l);
                    v.extend(name);
                    le16(&mut v, 0);
                    let vl = r.below(40) as usize;
                    let l = f(r, h, vl as u64, 16);
                    le16(&mut v, l);
                    pad(r, &mut v, vl);
                }
                let sz = f(r, h, (v.len() - at + 16) as u64, 64);
                v[at..at + 8].copy_from_slice(&sz.to_le_bytes());
            }
            _ => {
                let g = r.bytes(16);
                let g = newish_fixed(r, &g);
                v.extend(g);
                let p = padlen(r);
                let sz = f(r, h, 24 + p as u64, 64);
                le64(&mut v, sz);
                pad(r, &mut v, p);
            }
        }
    }
    v
}

pub fn cfb(r: &mut Rng, h: u64) -> Vec<u8> {
    let mut v = vec![0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1];
    v.resize(512, 0);
    let maj = if r.pct(70) { 3 } else { 4 };
    let maj = f(r, h, maj, 16);
    v[26..28].copy_from_slice(&(maj as u16).to_le_bytes());
    let ss = if maj == 3 { 512 } else { 4096 };
    let loc = match r.below(6) {
        0 => 0,
        1 => r.below(100),
        _ => r.below(12),
    };
    let l2 = f(r, h, loc, 32);
    v[48..52].copy_from_slice(&(l2 as u32).to_le_bytes());
    let at = (ss * (1 + loc)) as usize;
    if v.len() < at {
        let k = at - v.len();
        pad(r, &mut v, k);
    } else {
        v.truncate(at);
    }
    let mut dir = vec![0u8; 512];
    if r.pct(60) {
        let c = r.pick(&data().clsids).clone();
        dir[80..96].copy_from_slice(&c);
    } else if r.pct(20) {
        let b = r.bytes(16);
        let b = newish_fixed(r, &b);
        dir[80..96].copy_from_slice(&b);
    }
    if r.pct(40) {
        let e = *r.pick(&[&b"M\0a\0t\0O\0S\0T\0"[..], b"W\0o\0r\0d\0", b"M\0a\0t\0O\0S\0"]);
        let mut e = newish_wide(r, e);
        e.truncate(64);
        dir[128..128 + e.len()].copy_from_slice(&e);
    }
    if r.pct(40) {
        let e = *r.pick(&[&b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\0"[..], b"X\0"]);
        let mut e = newish_wide(r, e);
        e.truncate(64);
        dir[256..256 + e.len()].copy_from_slice(&e);
    }
    v.extend(dir);
    if r.pct(30) {
        let k = padlen(r);
        pad(r, &mut v, k);
    }
    v
}

fn ebml_size(r: &mut Rng, v: &mut Vec<u8>, h: u64, size: u64) {
    let size = if r.pct(h) { hostile(r, 56) } else { size };
    let mut w = 1;
    while w < 8 && size >= (1u64 << (7 * w)) - 1 {
        w += 1;
    }
    if r.pct(30) {
        w = r.range(w, 8);
    }
    let mut b = size.to_be_bytes()[(8 - w as usize)..].to_vec();
    if w <= 8 {
        b[0] |= 0x80u8 >> (w - 1);
    }
    v.extend(b);
}
pub fn ebml(r: &mut Rng, h: u64) -> Vec<u8> {
    let mut v = vec![0x1A, 0x45, 0xDF, 0xA3];
    let hs = r.below(40);
    ebml_size(r, &mut v, h / 4, hs);
    if r.pct(90) {
        v.extend([0x42, 0x82]);
        let d: &[u8] = *r.pick(&[&b"matroska"[..], b"matroska", b"matroska", b"matroska", b"webm", b"webm", b"other", b"matroska\0\0\0\0extra", b"webmatroska", b"w", b""]);
        let d = newish(r, d);
        ebml_size(r, &mut v, h / 2, d.len() as u64);
        v.extend(d);
    }
    let k = r.below(14);
    for _ in 0..k {
        match r.below(14) {
            0 => {
                v.extend([0x18, 0x53, 0x80, 0x67]);
                if r.pct(50) {
                    v.extend([0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
                } else {
                    let x = r.below(5000);
                    ebml_size(r, &mut v, h, x);
                }
            }
            1 => {
                v.extend([0x16, 0x54, 0xAE, 0x6B]);
                let x = r.below(500);
                ebml_size(r, &mut v, h, x);
            }
            2 => {
                v.push(0xAE);
                let x = r.below(100);
                ebml_size(r, &mut v, h, x);
            }
            3 => {
                v.push(0xE0);
                let x = r.below(100);
                ebml_size(r, &mut v, h, x);
            }
            4 => {
                v.extend([0x53, 0xB8]);
                ebml_size(r, &mut v, h, 1);
                v.push(if r.pct(60) { 0 } else { r.below(15) as u8 });
            }
            5 => {
                v.extend([0x1F, 0x43, 0xB6, 0x75]);
                ebml_size(r, &mut v, h, 100);
            }
            6..=9 => {
                let mut c = r.pick(&[&b"A_AAC"[..], b"V_MPEG4/ISO/AVC", b"S_TEXT/UTF8", b"B_VOBBTN", b"A", b"", b"V_VP9", b"A_OPUS", b"S_VOBSUB"]).to_vec();
                c = newish(r, &c);
                if r.one_in(8) {
                    c.resize(60 + r.below(12) as usize, b'x');
                }
                v.push(0x86);
                ebml_size(r, &mut v, h, c.len() as u64);
                v.extend(c);
            }
            _ => {
                v.extend(ebml_id(r));
                let p = padlen(r);
                ebml_size(r, &mut v, h, p as u64);
                pad(r, &mut v, p);
            }
        }
    }
    if r.pct(h) {
        let k = r.below(10) as usize;
        v.extend(r.bytes(k));
    }
    v
}

/// The ID of an element no reader cares about, or one the code has not always known.
pub fn ebml_id(r: &mut Rng) -> Vec<u8> {
    // Numbers that are identifiers by their form, and none of those that mean something to the reader.
    const KNOWN: [u64; 9] = [0x4282, 0x1A45DFA3, 0x1F43B675, 0x86, 0x18538067, 0x53B8, 0x1654AE6B, 0xAE, 0xE0];
    let formed = |x: &u64| (0..4).any(|n| (1 << (7 * n + 7)..1 << (7 * n + 8)).contains(x));
    let f: Vec<u64> = fresh().ints.iter().copied().filter(|x| formed(x) && !KNOWN.contains(x)).collect();
    if f.is_empty() || r.pct(50) {
        return match r.below(6) {
            0 => vec![0x15, 0x49, 0xA9, 0x66],
            1 => vec![0x42, 0x86],
            2 => vec![0xBF],
            _ => vec![0xEC],
        };
    }
    r.pick(&f).to_be_bytes().into_iter().skip_while(|b| *b == 0).collect()
}

pub fn exe(r: &mut Rng, h: u64) -> Vec<u8> {
    let mut v = r.pick(&[b"MZ", b"MZ", b"ZM"]).to_vec();
    let k = 58;
    pad(r, &mut v, k);
    let off = 64 + if r.pct(70) { r.below(500) } else { padlen(r) as u64 };
    let o = f(r, h, off, 32);
    le32(&mut v, o);
    let k = off as usize - 64;
    pad(r, &mut v, k);
    let m = *r.pick(&[b"PE\0\0", b"PE\0\0", b"PE\0\0", b"LE\0\0", b"LX\0\0", b"NE\x05\x01", b"PE\0\x01", b"XXXX"]);
    let m = newish_fixed(r, m);
    v.extend(m);
    pad(r, &mut v, 18);
    let ch = match r.below(4) {
        0 => 0x2102,
        1 => 0x0102,
        2 => 0x2000,
        _ => r.below(65536),
    };
    le16(&mut v, ch);
    let k = padlen(r);
    if r.pct(80) {
        pad(r, &mut v, k);
    }
    v
}

pub fn id3(r: &mut Rng, h: u64) -> Vec<u8> {
    let mut v = vec![];
    let k = 1 + r.below(4);
    for _ in 0..k {
        v.extend(b"ID3");
        v.push(2 + r.below(3) as u8);
        v.push(0);
        let ext = r.one_in(4);
        let foot = r.one_in(4);
        v.push(if ext { 0x40 } else { 0 } | if foot { 0x10 } else { 0 });
        let p = padlen(r) as u64;
        let sz = if r.pct(h) { hostile(r, 28) } else { p };
        for i in (0..4).rev() {
            v.push(((sz >> (7 * i)) & 0x7f) as u8 | if r.pct(h / 4) { 0x80 } else { 0 });
        }
        let at = v.len();
        pad(r, &mut v, p as usize);
        let mut extra = 0;
        if ext {
            // The extended header's size, read right after the tag header.
            let e = r.below(40);
            let x = f(r, h, e, 32);
            if v.len() < at + 4 {
                v.resize(at + 4, 0);
                if p < 4 {
                    // The next tag then starts earlier than this: keep whatever overlaps.
                    v.truncate(at + 4);
                }
            }
            v[at..at + 4].copy_from_slice(&(x as u32).to_be_bytes());
            extra += e as usize;
        }
        if foot {
            extra += 10;
        }
        v.resize(at + p as usize + extra, 0);
    }
    let t = *r.pick(&[&b"fLaC"[..], b"\xff\xfb\x90\x00", b"\xff\xf3\x10\x10", b"\xff\xe2\0\0", b"\xff\xfa\0\0", b"ID3", b"OggS", b"\xff\xfb", b"", b"RIFF"]);
    let t = newish(r, t);
    v.extend(t);
    if r.pct(85) {
        let k = 6 + padlen(r);
        pad(r, &mut v, k);
    }
    v
}

pub fn mp4(r: &mut Rng, h: u64) -> Vec<u8> {
    let mut v = vec![];
    let b = r.pick(&data().mp4).clone();
    be32(&mut v, 0);
    v.extend(b);
    let extra = r.below(6) as usize * 4 + 4;
    pad(r, &mut v, extra);
    let l = f(r, h / 3, v.len() as u64, 32);
    v[0..4].copy_from_slice(&(l as u32).to_be_bytes());
    if r.pct(h / 6) {
        let k = r.below(v.len() as u64) as usize;
        v.truncate(k.max(12));
    }
    let k = r.below(10);
    for _ in 0..k {
        match r.below(10) {
            0..=2 => {
                let x = r.below(3000) + 8;
                let x = f(r, h, x, 32);
                be32(&mut v, x);
                v.extend(*r.pick(&[b"moov", b"trak", b"mdia"]));
            }
            3..=5 => {
                let p = r.below(60);
                let x = f(r, h, 20 + p, 32);
                be32(&mut v, x);
                v.extend(b"hdlr");
                v.extend([0; 8]);
                let t = *r.pick(&[b"vide", b"soun", b"sbtl", b"subt", b"text", b"meta", b"hint"]);
                let t = newish_fixed(r, t);
                v.extend(t);
                pad(r, &mut v, p as usize);
            }
            6 => {
                let p = padlen(r) as u64;
                be32(&mut v, 1);
                let t = *r.pick(&[b"mdat", b"free", b"hdlr", b"moov"]);
                let t = newish_fixed(r, t);
                v.extend(t);
                let x = if r.one_in(4) { p + 8 } else { p + 16 };
                let x = f(r, h, x, 64);
                be64(&mut v, x);
                pad(r, &mut v, p as usize);
            }
            _ => {
                let p = padlen(r);
                let x = f(r, h, 8 + p as u64, 32);
                be32(&mut v, x);
                let t = *r.pick(&[b"mdat", b"free", b"skip", b"mvhd", b"tkhd", b"udta", b"stbl"]);
                let t = newish_fixed(r, t);
                v.extend(t);
                pad(r, &mut v, p);
            }
        }
    }
    v
}

pub fn pdf(r: &mut Rng, _h: u64) -> Content {
    let m = b"AIPrivateData";
    let mut v = b"%PDF-1.".to_vec();
    v.extend(*r.pick(&[&b"4\n%\xe2\xe3\xcf\xd3\n"[..], b"7\n", b"5\r\n"]));
    let binary = r.pct(50);
    // Where the marker goes: anywhere, or across a chunk boundary.
    let big = r.one_in(400);
    let far = if r.one_in(20) { 40 } else { 3 };
    let at = match r.below(8) {
        0 | 1 => v.len() as u64 + r.below(300),
        2 => r.below(70_000) + 12,
        3 | 4 => 5 + 32_768 * r.range(1, 3) - r.below(16),
        5 => 36_870 - r.below(26),
        6 => 8192 * r.range(1, 9) + 5 - r.below(16),
        _ => 5 + 32_768 * r.range(1, far) + r.below(20) - 10,
    };
    let at = if big { 33_554_432 + 5 - 30 + r.below(60) } else { at.max(v.len() as u64) };
    let tail = if r.pct(30) { r.below(20) } else { padlen(r) as u64 };
    let mut c = Content {
        len: at + m.len() as u64 + tail,
        segs: vec![(0, v)],
        fill: if big { Fill::Byte(b' ') } else { Fill::Hash { seed: r.next(), ascii: !binary } },
        label: "pdf".into(),
    };
    match r.below(10) {
        0 => {}
        1 => c.segs.push((at, b"AIPrivateDat".to_vec())),
        2 => c.segs.push((at, b"AIAIPrivateData".to_vec())),
        3 => c.segs.push((at, b"AIPrivateDatAIPrivateData".to_vec())),
        4 => c.segs.push((at, b"IPrivateData".to_vec())),
        _ => c.segs.push((at, m.to_vec())),
    }
    // Decoys.
    for _ in 0..r.below(4) {
        let o = c.segs[0].1.len() as u64 + r.below(at);
        let k = r.range(1, 12) as usize;
        let t = newish(r, &m[..k]);
        if o + (t.len() as u64).max(13) < at {
            c.segs.push((o, t));
        }
    }
    if big && r.pct(50) {
        c.len = c.len.max(33_554_432 + 5 + r.below(70_000));
    }
    c.len = c.len.max(c.segs.iter().map(|(o, b)| o + b.len() as u64).max().unwrap());
    c
}

pub fn rm(r: &mut Rng, h: u64) -> Vec<u8> {
    let mut v = b".RMF\0\0\0\x12\0\0\0\0\0\0".to_vec();
    let k = r.below(7);
    let c = f(r, h, k + 1, 32);
    be32(&mut v, c);
    for _ in 0..k {
        if r.pct(60) {
            let name = r.below(40) as usize;
            let name = if r.one_in(10) { 255 } else { name };
            let mime = *r.pick(&[&b"audio/x-pn-realaudio"[..], b"video/x-pn-realvideo", b"logical-fileinfo", b"audio", b"video/", b""]);
            let mut mime = newish(r, mime);
            mime.truncate(255);
            let p = padlen(r);
            v.extend(b"MDPR");
            let good = 8 + 32 + 1 + name + 1 + mime.len() + p;
            let x = f(r, h, good as u64, 32);
            be32(&mut v, x);
            pad(r, &mut v, 32);
            v.push(f(r, h, name as u64, 8) as u8);
            pad(r, &mut v, name);
            v.push(f(r, h, mime.len() as u64, 8) as u8);
            v.extend(mime);
            pad(r, &mut v, p);
        } else {
            let p = padlen(r);
            let t = *r.pick(&[b"PROP", b"CONT", b"DATA", b"INDX"]);
            let t = newish_fixed(r, t);
            v.extend(t);
            let x = f(r, h, 8 + p as u64, 32);
            be32(&mut v, x);
            pad(r, &mut v, p);
        }
    }
    v
}

pub fn sqlite(r: &mut Rng, _h: u64) -> Vec<u8> {
    let mut v = b"SQLite format 3\0".to_vec();
    let m = b"com.bohemiancoding.sketch3";
    let at = match r.below(5) {
        0 => 100 + r.below(200),
        1 => 70 + r.below(60),
        2 => 32_868 - r.below(40),
        3 => 4096 * r.range(1, 8) - r.below(40),
        _ => 100 + r.below(33_000),
    } as usize;
    let k = at.saturating_sub(v.len());
    pad(r, &mut v, k);
    v.extend(&m[..if r.pct(20) { r.below(26) as usize } else { 26 }]);
    let k = padlen(r);
    if r.pct(70) {
        pad(r, &mut v, k);
    }
    if r.one_in(10) {
        let k = r.below(120) as usize;
        v.truncate(k.max(16));
    }
    v
}

pub fn txt(r: &mut Rng, h: u64) -> Vec<u8> {
    let n = match r.below(8) {
        0 => r.below(5),
        1..=3 => r.below(300),
        4 => r.below(9000),
        5 => 65_536 - 8 + r.below(16),
        6 => 8192 - 6 + r.below(12),
        _ => 36_000 + r.below(40_000),
    } as usize;
    let mut v = text(r, n);
    if v.is_empty() {
        return v;
    }
    // A byte that makes it not text, anywhere.
    if r.pct(35 + h / 2) {
        let at = match r.below(5) {
            0 => v.len() as u64 - 1,
            1 => r.below(v.len() as u64),
            2 => 65_520 + r.below(30),
            3 => 36_860 + r.below(20),
            _ => r.skew(v.len() as u64),
        } as usize;
        if at + 1 < v.len() && r.pct(20) {
            // Control characters of more than one byte, some of them white space.
            let c = *r.pick(&[[0xc2u8, 0x80], [0xc2, 0x85], [0xc2, 0x9f], [0xc2, 0x9b], [0xc2, 0xa0], [0xc2, 0xad]]);
            v[at..at + 2].copy_from_slice(&c);
        } else if at < v.len() {
            v[at] = if r.pct(30) { r.below(32) as u8 } else { *r.pick(&[0u8, 1, 7, 0x7f, 0x1b, 0x80, 0xff, 0xc3, 0x9f]) };
        }
    }
    if r.one_in(6) {
        // An incomplete sequence at the end.
        v.push(*r.pick(&[0xe6, 0xc3, 0xf0, 0xe2]));
    }
    v
}

pub fn xml(r: &mut Rng, _h: u64) -> Vec<u8> {
    let mut v = if r.pct(20) { b"\xEF\xBB\xBF<?xml".to_vec() } else { b"<?xml".to_vec() };
    if r.pct(90) {
        v.extend(b" version=\"1.0\"?>\n");
    }
    let d = data();
    let k = r.below(3) + r.below(2);
    for _ in 0..k {
        let m = r.pick(&d.xml).as_bytes().to_vec();
        let mut m = newish(r, &m);
        m.truncate(8000);
        if m.is_empty() {
            continue;
        }
        let at = match r.below(4) {
            0 | 1 => v.len() + r.below(200) as usize,
            2 => (8197 - r.below(m.len() as u64 + 8)) as usize,
            _ => r.below(9000) as usize,
        };
        if at > v.len() {
            let t = text(r, at - v.len());
            v.extend(t);
        }
        if r.one_in(6) {
            let n = r.below(m.len() as u64) as usize;
            v.extend(&m[..n]);
        } else {
            v.extend(&m);
        }
    }
    if r.one_in(5) {
        let at = v.len() + r.below(50) as usize;
        let t = text(r, at - v.len());
        v.extend(t);
        v.extend(if r.pct(50) { &b"<uof:UOF uof:mimetype=\"vnd.uof.text\""[..] } else { b"<tt xml:lang='en' xmlns=\"http://www.w3.org/ns/ttml\"" });
    }
    let f = &fresh().bytes;
    if !f.is_empty() && r.pct(40) {
        // Several of the code's new words together.
        for b in f.iter().filter(|b| b.len() > 2).take(12) {
            if r.pct(50) {
                v.extend(b);
                v.push(b' ');
            }
        }
    }
    let n = r.skew(4000) as usize;
    let t = text(r, n);
    v.extend(t);
    v
}

pub const ZIP_NAMES: [&str; 54] = [
    "AndroidManifest.xml", "AppManifest.xaml", "AppxManifest.xml", "AppxMetadata/AppxBundleManifest.xml",
    "BundleConfig.pb", "DOMDocument.xml", "META-INF/AIR/application.xml", "META-INF/MANIFEST.MF",
    "META-INF/application.xml", "META-INF/mozilla.rsa", "WEB-INF/web.xml", "canvas.fig", "doc.kml",
    "document.json", "extension.vsixmanifest", "Fusion[Active]/x", "circuitdiagram/d.xml", "dwf/a", "book.fb2",
    "dir/book.fb2", "FusionAssetName[Active]/y", "Payload/My.app/Info", "Payload/x", "word/document.xml",
    "visio/document.xml", "ppt/presentation.xml", "xl/workbook.xml", "Documents/1/Pages/1.fpage", "Documents/x",
    "SpaceClaim/a", "3D/3dmodel.model", "3D/x", "scene.usd", "scene.usda", "scene.usdc", "d/scene.usd",
    "[Content_Types].xml", "_rels/.rels", "a.txt", "b/", "images/1.png", "docProps/app.xml", "content.xml",
    "manifest.rdf", "META-INF/", "META-INF/mozilla.sf", "x", "wordy", "xl", "settings.xml", "classes.dex",
    "lib/a.so", "META-INF/MANIFEST.MF", "w\u{f6}rd/\u{e9}.xml",
];

pub fn zip(r: &mut Rng, h: u64) -> Vec<u8> {
    let mut v = vec![];
    let mut cd = vec![];
    let k = match r.below(12) {
        0 => 0,
        1 => 8 + r.below(40),
        2 if r.one_in(20) => 1022 + r.below(5),
        _ => 1 + r.below(6),
    };
    // Where a telling entry may come late, everything before it is neutral.
    let late = r.pct(40);
    for i in 0..k {
        let mimetype = (i == 0 && r.pct(30)) || r.one_in(25);
        let name: Vec<u8> = if mimetype {
            b"mimetype".to_vec()
        } else if late && i + 1 < k {
            format!("n{i}.bin").into_bytes()
        } else if r.one_in(30) {
            let n = padlen(r);
            let mut x = r.bytes(n);
            if r.pct(50) {
                x = text(r, n);
            }
            x
        } else {
            let n = r.pick(&ZIP_NAMES).as_bytes();
            newish(r, n)
        };
        let body: Vec<u8> = if mimetype {
            let mut b = r.pick(&data().mimes).as_bytes().to_vec();
            b = newish(r, &b);
            if r.one_in(5) {
                b.extend(*r.pick(&[&b"\n"[..], b"\r\n", b"  ", b"x"]));
            }
            if r.one_in(8) {
                b = b"application/zip".to_vec();
            }
            b
        } else {
            let n = if k > 40 { 0 } else { padlen(r) };
            let mut b = vec![];
            pad(r, &mut b, n);
            b
        };
        let off = v.len() as u64;
        let cs = body.len() as u64;
        let us = if r.pct(75) { cs } else { cs + 10 };
        let ex = if r.one_in(3) { r.below(40) as usize } else { 0 };
        v.extend(b"PK\x03\x04\x14\0\0\0\0\0\0\0\0\0\0\0\0\0");
        le32(&mut v, cs);
        le32(&mut v, us);
        let nl = f(r, h / 3, name.len() as u64, 16);
        le16(&mut v, nl);
        let e = f(r, h / 3, ex as u64, 16);
        le16(&mut v, e);
        v.extend(&name);
        pad(r, &mut v, ex);
        v.extend(&body);
        let ex2 = if r.one_in(4) { r.below(60) as usize } else { 0 };
        let cm = if r.one_in(6) { padlen(r).min(65_535) } else { 0 };
        cd.extend(b"PK\x01\x02\x14\0\x14\0\0\0\0\0\0\0\0\0\0\0\0\0");
        let hc = f(r, h, cs, 32);
        le32(&mut cd, hc);
        let hu = if r.pct(h) { hostile(r, 32) } else if hc != cs && r.pct(70) { hc } else { us };
        le32(&mut cd, hu);
        let x = f(r, h / 2, name.len() as u64, 16);
        le16(&mut cd, x);
        let x = f(r, h / 2, ex2 as u64, 16);
        le16(&mut cd, x);
        let x = f(r, h / 2, cm as u64, 16);
        le16(&mut cd, x);
        cd.extend([0; 8]);
        let x = f(r, h, off, 32);
        le32(&mut cd, x);
        cd.extend(&name);
        pad(r, &mut cd, ex2);
        pad(r, &mut cd, cm);
    }
    if k == 0 && r.pct(50) {
        v.extend(b"PK\x03\x04");
    }
    if r.one_in(10) {
        let n = padlen(r);
        pad(r, &mut v, n);
    }
    let socd = v.len() as u64;
    let cdl = cd.len() as u64;
    v.extend(cd);
    let z64 = r.pct(25);
    if z64 {
        let e64 = v.len() as u64;
        v.extend(b"PK\x06\x06");
        le64(&mut v, 44);
        v.extend([45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        let x = f(r, h, k, 64);
        le64(&mut v, x);
        let x = f(r, h, k, 64);
        le64(&mut v, x);
        le64(&mut v, cdl);
        let x = f(r, h, socd, 64);
        le64(&mut v, x);
        v.extend(b"PK\x06\x07");
        le32(&mut v, 0);
        let x = f(r, h, e64, 64);
        le64(&mut v, x);
        le32(&mut v, 1);
    }
    if !r.pct(h / 6) {
        v.extend(b"PK\x05\x06\0\0\0\0");
        let n = if z64 { 65_535 } else { k.min(65_535) };
        let x = f(r, h, n, 16);
        le16(&mut v, x);
        let x = f(r, h, n, 16);
        le16(&mut v, x);
        le32(&mut v, cdl);
        let x = if z64 { u32::MAX as u64 } else { f(r, h, socd, 32) };
        le32(&mut v, x);
        let cl = if r.pct(30) {
            *r.pick(&[1u64, 5, 200, 8192, 36_870, 65_534, 65_535, 65_536])
        } else {
            0
        } as usize;
        le16(&mut v, cl as u64);
        let mut cm = vec![];
        pad(r, &mut cm, cl);
        if cl > 30 && r.pct(30) {
            let o = r.below(cl as u64 - 4) as usize;
            cm[o..o + 4].copy_from_slice(*r.pick(&[b"PK\x05\x06", b"PK\x06\x07", b"PKPK"]));
        }
        v.extend(cm);
    }
    v
}

/// A content whose signature is one of the table's, optionally cut right around the signature's end.
pub fn signature(r: &mut Rng) -> Content {
    let d = data();
    let sg = r.pick(&d.sigs);
    let end = sg.1.iter().map(|(o, b)| o + b.len() as u64).max().unwrap();
    let mut c = Content {
        len: match r.below(6) {
            0 => end,
            1 => end + r.below(3),
            2 => (end + r.below(3)).saturating_sub(2),
            3 => r.below(end + 1),
            4 => end + padlen(r) as u64,
            _ => end + r.below(200),
        },
        segs: sg.1.clone(),
        fill: match r.below(4) {
            0 => Fill::Byte(0),
            1 => Fill::Hash { seed: r.next(), ascii: true },
            2 => Fill::Byte(*r.pick(b" \xffa")),
            _ => Fill::Hash { seed: r.next(), ascii: false },
        },
        label: format!("signature:{}", sg.0),
    };
    // Two signatures at once.
    if r.one_in(5) {
        let s2 = r.pick(&d.sigs);
        let mut s = s2.1.clone();
        s.extend(c.segs);
        c.segs = s;
    }
    c
}

pub fn fixture(r: &mut Rng) -> Content {
    let (nm, b) = r.pick(&data().fixtures);
    Content::bytes(&format!("fixture:{nm}"), b.clone())
}

pub const FAMILIES: [&str; 15] = [
    "asf", "cfb", "ebml", "exe", "id3", "mp4", "pdf", "rm", "sqlite", "txt", "xml", "zip", "signature", "fixture", "random",
];

pub fn family(r: &mut Rng, fam: usize, h: u64) -> Content {
    match fam {
        0 => Content::bytes("asf", asf(r, h)),
        1 => Content::bytes("cfb", cfb(r, h)),
        2 => Content::bytes("ebml", ebml(r, h)),
        3 => Content::bytes("exe", exe(r, h)),
        4 => Content::bytes("id3", id3(r, h)),
        5 => Content::bytes("mp4", mp4(r, h)),
        6 => pdf(r, h),
        7 => Content::bytes("rm", rm(r, h)),
        8 => Content::bytes("sqlite", sqlite(r, h)),
        9 => Content::bytes("txt", txt(r, h)),
        10 => Content::bytes("xml", xml(r, h)),
        11 => Content::bytes("zip", zip(r, h)),
        12 => signature(r),
        13 => fixture(r),
        _ => match r.below(5) {
            0 => Content::bytes("empty", vec![]),
            1 => {
                let n = r.below(70) as usize;
                Content::bytes("random", r.bytes(n))
            }
            2 => Content { len: r.skew(100_000), segs: vec![], fill: Fill::Hash { seed: r.next(), ascii: false }, label: "random".into() },
            3 => Content { len: 36_870 - 3 + r.below(7), segs: vec![], fill: Fill::Hash { seed: r.next(), ascii: r.pct(50) }, label: "random-prefix-size".into() },
            _ => Content { len: r.skew(100_000), segs: vec![], fill: Fill::Byte(0), label: "zeros".into() },
        },
    }
}

/// Weights of the families, indexed as FAMILIES.
pub fn any(r: &mut Rng, h: u64) -> Content {
    let f = &fresh().families;
    let fam = match r.below(100) {
        0..=99 if !f.is_empty() && r.pct(30) => *r.pick(f),
        0..=76 => r.below(12),
        77..=85 => 12,
        86..=95 => 13,
        _ => 14,
    };
    let mut c = family(r, fam as usize, h);
    mangle(r, &mut c, if h > 0 { 30 } else { 12 });
    c
}

/// Damage of the whole: truncation, extension, flipped bytes.
pub fn mangle(r: &mut Rng, c: &mut Content, p: u64) {
    if r.pct(p) {
        match r.below(5) {
            0 => c.len = r.below(c.len + 1),
            1 => c.len = c.len.saturating_sub(r.below(24)),
            2 => c.len += padlen(r) as u64,
            3 | 4 => {
                for _ in 0..1 + r.below(4) {
                    if c.len > 0 {
                        let o = if r.pct(50) { r.below(c.len) } else { r.skew(c.len - 1) };
                        let b = if r.pct(50) { vec![r.next() as u8] } else { vec![*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'P'])] };
                        c.overwrite(o, b);
                    }
                }
            }
            _ => {}
        }
    }
}

/// A content related to another: same length or same beginning, but telling something else.
pub fn sibling(r: &mut Rng, a: &Content) -> Content {
    let mut c = a.clone();
    match r.below(7) {
        0 => {
            c.len = c.len.saturating_sub(1 + r.below(64));
        }
        1 => {
            c.len += 1 + r.below(64);
        }
        2 => {
            for _ in 0..1 + r.below(4) {
                if c.len > 0 {
                    let o = r.below(c.len);
                    c.overwrite(o, vec![r.next() as u8]);
                }
            }
        }
        3 => {
            // Same length and prefix, different rest.
            if c.len > 4 {
                let k = r.below(c.len);
                let n = (c.len - k).min(70_000) as usize;
                let b = r.bytes(n);
                c.segs.push((k, b));
            }
        }
        4 => {
            // Same length, unrelated bytes.
            let l = c.len;
            c = any(r, 0);
            c.len = l.min(200_000);
        }
        _ => {
            // Another member of the same family, cut or padded to the same length.
            if let Some(i) = FAMILIES.iter().position(|x| *x == a.label) {
                c = family(r, i, 0);
                if r.pct(70) {
                    // Both as long as the longer one: padding behind the end is harmless mostly.
                    c.len = c.len.max(a.len);
                }
            } else {
                c = any(r, 0);
            }
        }
    }
    c
}

/// Offsets around the places where 31, 32 or more bits end.
fn far(r: &mut Rng) -> u64 {
    let b = *r.pick(&[1u64 << 31, 1 << 32, 1 << 32, 2 << 32, 3 << 31, 5 << 30, 1 << 33, 1 << 28, 1 << 24, 1 << 16, 1 << 34]);
    match r.below(4) {
        0 => b,
        1 => b + r.below(70_000),
        2 => b.saturating_sub(r.below(70_000)),
        _ => b + r.below(40) - 20,
    }
}

/// The size of a skipped part: small, or far beyond what fits into 16, 31 or 32 bits. Takes the same random
/// numbers either way. At least `min`, at most `max`.
fn gap(r: &mut Rng, size: Gap, min: u64, max: u64) -> u64 {
    let small = r.below(200);
    let f = far(r);
    let huge = r.pct(60);
    let wide = match size {
        Gap::Small => small,
        Gap::Far => f,
        // Past what a buffer holds, so that another read is needed behind it.
        Gap::Wide => 8192 * (1 + f % 5) - 300 + f / 5 % 600,
    };
    (if huge { wide } else { small }).clamp(min, max)
}
#[derive(Clone, Copy, PartialEq)]
pub enum Gap {
    Small,
    Wide,
    Far,
}

pub const SPACED: [&str; 8] = ["zip", "mp4", "asf", "ebml", "cfb", "exe", "rm", "id3"];

/// A well-formed file of a container family. The parts a reader has no interest in are nearly empty, or (some
/// of them) wide, or very large. The same state of `r` gives the same file up to those sizes.
pub fn spaced(r: &mut Rng, fam: usize, big: Gap) -> Content {
    let mut segs: Vec<(u64, Vec<u8>)> = vec![];
    let mut at = 0u64;
    match SPACED[fam] {
        "zip" => {
            let mut cd = vec![];
            let k = 1 + r.below(6);
            // The media type has to be where 32 bits can say.
            let media = if r.pct(45) { r.below(k) } else { u64::MAX };
            let media = if r.pct(50) && media != u64::MAX { 0 } else { media };
            for i in 0..k {
                let mimetype = i == media;
                let name: Vec<u8> = if mimetype {
                    b"mimetype".to_vec()
                } else if i + 1 < k && r.pct(60) {
                    format!("member-{i}.bin").into_bytes()
                } else {
                    r.pick(&ZIP_NAMES).as_bytes().to_vec()
                };
                let mime = r.pick(&data().mimes).as_bytes().to_vec();
                let body = if mimetype { mime } else { vec![] };
                let mut v = b"PK\x03\x04\x14\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
                let most = if media != u64::MAX && i < media { (u32::MAX as u64 - 100_000).saturating_sub(at) } else { u64::MAX };
                let g = gap(r, big, 0, most);
                let n = if mimetype { body.len() as u64 } else { g };
                let wide = n >= u32::MAX as u64 || at >= u32::MAX as u64;
                let n32 = if wide { u32::MAX as u64 } else { n };
                le32(&mut v, n32);
                le32(&mut v, n32);
                le16(&mut v, name.len() as u64);
                le16(&mut v, if wide { 20 } else { 0 });
                v.extend(&name);
                if wide {
                    le16(&mut v, 1);
                    le16(&mut v, 16);
                    le64(&mut v, n);
                    le64(&mut v, n);
                }
                let h = v.len() as u64;
                v.extend(&body);
                cd.extend(b"PK\x01\x02\x14\0\x14\0\0\0\0\0\0\0\0\0\0\0\0\0");
                le32(&mut cd, n32);
                le32(&mut cd, n32);
                le16(&mut cd, name.len() as u64);
                // Neither the extra field nor the comment is of interest.
                let x = gap(r, big, 0, 65_000);
                let x = if r.pct(50) { x } else { 0 };
                let c = gap(r, big, 0, 65_535);
                let c = if r.pct(30) { c } else { 0 };
                let x = x + if wide { 28 } else { 0 };
                le16(&mut cd, x);
                le16(&mut cd, c);
                cd.extend([0; 8]);
                le32(&mut cd, if wide { u32::MAX as u64 } else { at });
                cd.extend(&name);
                let e = cd.len();
                if wide {
                    le16(&mut cd, 1);
                    le16(&mut cd, 24);
                    le64(&mut cd, n);
                    le64(&mut cd, n);
                    le64(&mut cd, at);
                }
                cd.resize(e + (x + c) as usize, 0);
                segs.push((at, v));
                at += h + n;
            }
            // Room between the last member and the directory (an archive decryption header, say).
            let p = r.pct(40);
            let g = gap(r, big, 0, u64::MAX);
            let socd = at + if p { g } else { 0 };
            let cdl = cd.len() as u64;
            let mut v = cd;
            let p = r.pct(30);
            let wide = socd >= u32::MAX as u64 || p;
            let ext = gap(r, big, 0, u64::MAX);
            let ext = if r.pct(30) { ext } else { 0 };
            let mut end = socd;
            if wide {
                v.extend(b"PK\x06\x06");
                le64(&mut v, 44 + ext);
                v.extend([45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
                le64(&mut v, k);
                le64(&mut v, k);
                le64(&mut v, cdl);
                le64(&mut v, socd);
                let n = v.len() as u64;
                segs.push((socd, std::mem::take(&mut v)));
                end = socd + n + ext;
                v.extend(b"PK\x06\x07");
                le32(&mut v, 0);
                le64(&mut v, socd + cdl);
                le32(&mut v, 1);
            }
            v.extend(b"PK\x05\x06\0\0\0\0");
            le16(&mut v, k);
            le16(&mut v, k);
            le32(&mut v, cdl);
            le32(&mut v, if wide { u32::MAX as u64 } else { socd });
            let c = gap(r, big, 0, 65_535);
            let c = if r.pct(50) { c } else { 0 };
            le16(&mut v, c);
            let b = *r.pick(b"\0 cP");
            v.resize(v.len() + c as usize, b);
            segs.push((end, v));
        }
        "mp4" => {
            let mut v = vec![];
            be32(&mut v, 16);
            v.extend(r.pick(&data().mp4).clone());
            v.resize(16, 0);
            segs.push((0, v));
            at = 16;
            let filler = |r: &mut Rng, at: &mut u64, segs: &mut Vec<(u64, Vec<u8>)>| {
                let wide = r.pct(40);
                let g = gap(r, big, 16, if wide { u64::MAX } else { u32::MAX as u64 });
                let ty = *r.pick(&[b"mdat", b"free", b"uuid", b"skip", b"udta"]);
                let mut b = vec![];
                be32(&mut b, if wide { 1 } else { g });
                b.extend(ty);
                if wide {
                    be64(&mut b, g);
                }
                segs.push((*at, b));
                *at += g;
            };
            for _ in 0..r.below(5) {
                filler(r, &mut at, &mut segs);
            }
            for _ in 0..r.below(4) {
                let mut b = vec![];
                for n in [b"moov", b"trak", b"mdia"] {
                    let wide = r.one_in(5);
                    be32(&mut b, if wide { 1 } else { 1000 });
                    b.extend(n);
                    if wide {
                        be64(&mut b, 1000);
                    }
                }
                let x = gap(r, big, 0, u32::MAX as u64 - 40);
                be32(&mut b, 20 + x);
                b.extend(b"hdlr\0\0\0\0\0\0\0\0");
                b.extend(*r.pick(&[b"vide", b"soun", b"subt", b"text", b"hint"]));
                let n = b.len() as u64;
                segs.push((at, b));
                at += n + x;
                if r.pct(50) {
                    filler(r, &mut at, &mut segs);
                }
            }
            if r.pct(30) {
                // The last box: to the end of the file.
                segs.push((at, b"\0\0\0\0mdat".to_vec()));
                at += 8 + gap(r, big, 0, u64::MAX);
            }
        }
        "asf" => {
            let mut v = guid("75b22630-668e-11cf-a6d9-00aa0062ce6c");
            le64(&mut v, 1 << 50);
            let k = 1 + r.below(6);
            le32(&mut v, k);
            v.extend([1, 2]);
            segs.push((0, v));
            at = 30;
            for _ in 0..k {
                let g = gap(r, big, 0, u64::MAX);
                let mut b;
                match r.below(4) {
                    0 | 1 => {
                        b = guid("b7dc0791-a9b7-11cf-8ee6-00c00c205365");
                        le64(&mut b, 40 + g);
                        b.extend(guid(*r.pick(&[
                            "f8699e40-5b4d-11cf-a8fd-00805f5c442b",
                            "bc19efc0-5b4d-11cf-a8fd-00805f5c442b",
                            "59dacfc0-59e6-11d0-a3ac-00a0c90348f6",
                        ])));
                    }
                    2 => {
                        b = guid("d2d0a440-e307-11d2-97f0-00a0c95ea850");
                        le64(&mut b, 0);
                        let m = r.below(5);
                        le16(&mut b, m);
                        for _ in 0..m {
                            let name: &[u8] = if r.one_in(6) { b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0\0\0" } else { b"W\0M\0/\0G\0e\0n\0r\0e\0\0\0" };
                            let more = if r.pct(30) { gap(r, big, 0, 60_000) } else { 0 };
                            le16(&mut b, name.len() as u64 + more);
                            b.extend(name);
                            b.resize(b.len() + more as usize, 0);
                            le16(&mut b, 0);
                            let vl = gap(r, big, 0, 65_535);
                            le16(&mut b, vl);
                            b.resize(b.len() + vl as usize, 0);
                        }
                        let sz = b.len() as u64 + g;
                        b[16..24].copy_from_slice(&sz.to_le_bytes());
                    }
                    _ => {
                        b = vec![9; 16];
                        le64(&mut b, 24 + g);
                    }
                }
                let n = b.len() as u64;
                segs.push((at, b));
                at += n + g;
            }
        }
        "ebml" => {
            let size = |b: &mut Vec<u8>, x: u64| b.extend((x | 1 << 56).to_be_bytes());
            let mut v = vec![0x1A, 0x45, 0xDF, 0xA3];
            let doc: &[u8] = r.pick(&[&b"matroska"[..], b"matroska", b"webm"]);
            size(&mut v, 3 + doc.len() as u64);
            v.extend([0x42, 0x82, 0x80 | doc.len() as u8]);
            v.extend(doc);
            v.extend([0x18, 0x53, 0x80, 0x67, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]);
            let k = r.below(6);
            for _ in 0..k {
                match r.below(3) {
                    0 => {
                        v.push(0xEC);
                        let g = gap(r, big, 0, 1 << 50);
                        size(&mut v, g);
                        let n = v.len() as u64;
                        segs.push((at, std::mem::take(&mut v)));
                        at += n + g;
                    }
                    1 => {
                        // Seek heads, info, tags, attachments.
                        v.extend(*r.pick(&[&[0x15u8, 0x49, 0xA9, 0x66][..], &[0x11, 0x4D, 0x9B, 0x74], &[0x12, 0x54, 0xC3, 0x67], &[0x19, 0x41, 0xA4, 0x69]]));
                        let g = gap(r, big, 0, 1 << 50);
                        size(&mut v, g);
                        let n = v.len() as u64;
                        segs.push((at, std::mem::take(&mut v)));
                        at += n + g;
                    }
                    _ => {
                        v.extend([0x16, 0x54, 0xAE, 0x6B]);
                        size(&mut v, 1 << 40);
                        v.push(0xAE);
                        size(&mut v, 1 << 30);
                        if r.pct(50) {
                            v.push(0xEC);
                            let g = gap(r, big, 0, 1 << 50);
                            size(&mut v, g);
                            let n = v.len() as u64;
                            segs.push((at, std::mem::take(&mut v)));
                            at += n + g;
                        }
                        let c = *r.pick(&[&b"A_AAC"[..], b"V_MPEG4/ISO/AVC", b"S_TEXT/UTF8"]);
                        v.extend([0x86, 0x80 | c.len() as u8]);
                        v.extend(c);
                        if r.one_in(4) {
                            v.extend([0xE0, 0x84, 0x53, 0xB8, 0x81, r.below(3) as u8]);
                        }
                    }
                }
            }
            v.push(0xEC);
            let g = gap(r, big, 0, 1 << 50);
            size(&mut v, g);
            let n = v.len() as u64;
            segs.push((at, v));
            at += n + g;
        }
        "cfb" => {
            let mut v = vec![0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1];
            v.resize(512, 0);
            let (maj, ss) = if r.pct(50) { (3, 512) } else { (4, 4096) };
            v[26] = maj;
            let loc = gap(r, big, 0, u64::MAX) / 4;
            let loc = loc.min(u32::MAX as u64 - 8) % (1 << r.range(10, 33)).min(u32::MAX as u64 - 8);
            v[48..52].copy_from_slice(&(loc as u32).to_le_bytes());
            segs.push((0, v));
            let mut dir = vec![0u8; 512];
            if r.pct(60) {
                dir[80..96].copy_from_slice(&r.pick(&data().clsids).clone());
            } else if r.pct(50) {
                dir[128..140].copy_from_slice(b"M\0a\0t\0O\0S\0T\0");
            } else {
                let e = b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\0";
                dir[256..256 + e.len()].copy_from_slice(e);
            }
            at = ss * (1 + loc);
            segs.push((at, dir));
            at += 512;
        }
        "exe" => {
            let mut v = r.pick(&[b"MZ", b"ZM"]).to_vec();
            v.resize(60, 0);
            let off = 64 + gap(r, big, 0, u32::MAX as u64 - 1000);
            le32(&mut v, off);
            segs.push((0, v));
            let mut b = r.pick(&[b"PE\0\0", b"LE\0\0", b"LX\0\0", b"NE\x05\x01"]).to_vec();
            b.resize(22, 0);
            le16(&mut b, *r.pick(&[0x2102u64, 0x0102]));
            b.resize(100, 0);
            segs.push((off, b));
            at = off + 100;
        }
        "rm" => {
            let mut v = b".RMF\0\0\0\x12\0\0\0\0\0\0".to_vec();
            let k = 1 + if r.one_in(6) { r.below(60) } else { r.below(6) };
            be32(&mut v, k + 1);
            segs.push((0, v));
            at = 18;
            for _ in 0..k {
                let mut b;
                let g;
                if r.pct(60) {
                    let name = gap(r, big, 0, 255);
                    let mime = *r.pick(&[&b"audio/x-pn-realaudio"[..], b"video/x-pn-realvideo", b"logical-fileinfo"]);
                    g = gap(r, big, 0, u32::MAX as u64 - 1000);
                    b = b"MDPR".to_vec();
                    be32(&mut b, 8 + 32 + 2 + name + mime.len() as u64 + g);
                    b.resize(40, 0);
                    b.push(name as u8);
                    b.resize(41 + name as usize, b'n');
                    b.push(mime.len() as u8);
                    b.extend(mime);
                } else {
                    g = gap(r, big, 0, u32::MAX as u64 - 8);
                    b = r.pick(&[b"PROP", b"CONT", b"DATA", b"INDX"]).to_vec();
                    be32(&mut b, 8 + g);
                }
                let n = b.len() as u64;
                segs.push((at, b));
                at += n + g;
            }
        }
        _ => {
            let many = if r.one_in(4) { 63 } else { 12 };
            for _ in 0..1 + r.below(many) {
                let mut b = b"ID3".to_vec();
                b.extend([2 + r.below(3) as u8, 0, 0]);
                let g = gap(r, big, 10, (1 << 28) - 1);
                for i in (0..4).rev() {
                    b.push(((g >> (7 * i)) & 0x7f) as u8);
                }
                let foot = r.one_in(4);
                b[5] = if foot { 0x10 } else { 0 };
                segs.push((at, b));
                at += 10 + g + if foot { 10 } else { 0 };
            }
            let mut b = r.pick(&[&b"fLaC"[..], b"\xff\xfb\x90\x00", b"\xff\xf3\x10\x10", b"TRUEAUDIO"]).to_vec();
            b.resize(30, 0);
            segs.push((at, b));
            at += 30;
        }
    }
    let mut len = segs.iter().map(|(o, b)| o + b.len() as u64).max().unwrap().max(at);
    let t = r.pct(50);
    let k = gap(r, big, 0, u64::MAX);
    if t && !matches!(SPACED[fam], "zip" | "mp4" | "ebml") {
        len += k;
    }
    Content { len, segs, fill: Fill::Byte(0), label: format!("spaced-{}", SPACED[fam]) }
}

/// A large file with its telling part beyond a hole.
pub fn sparse(r: &mut Rng) -> Content {
    let fam = r.below(SPACED.len() as u64) as usize;
    spaced(r, fam, Gap::Far)
}

/// A file with its telling parts some buffers apart.
pub fn wide(r: &mut Rng) -> Content {
    let fam = r.below(SPACED.len() as u64) as usize;
    spaced(r, fam, Gap::Wide)
}

/// Lets a field lead back to itself, or to something else there is.
pub fn link(r: &mut Rng, c: &mut Content, targets: &[u64]) {
    for _ in 0..1 + r.below(2) {
        if targets.is_empty() {
            return;
        }
        let t = *r.pick(targets);
        let x = if r.pct(50) { t } else { *r.pick(targets) };
        let o = t.saturating_add(*r.pick(&[0u64, 4, 8, 8, 12, 16, 20, 24, 28, 32, 40, 48]));
        let b = match r.below(4) {
            0 => (x as u32).to_le_bytes().to_vec(),
            1 => (x as u32).to_be_bytes().to_vec(),
            2 => x.to_be_bytes().to_vec(),
            _ => x.to_le_bytes().to_vec(),
        };
        if o.checked_add(b.len() as u64).is_some_and(|e| e <= c.len) {
            c.overwrite(o, b);
        }
    }
}

/// Overwrites fields where a parser looks.
/// Some part of a content many times over: long rows and deep nesting of what is otherwise there once.
pub fn repeat(r: &mut Rng, c: &mut Content, targets: &[u64]) {
    const TOKENS: &[&[u8]] = &[
        b"<a", b"<a>", b"</a>", b"<!--", b"[", b"(", b"{", b"<<", b"\"", b"\\", b"&a;", b" \n", b"\r\n", b"\0\0\0\x08moov", b"\0\0\0\x08trak",
        b"\x1a\x45\xdf\xa3\x80", b"\x18\x53\x80\x67\xff", b"\xae\x80", b"ID3\x03\0\0\0\0\0\0", b"PK\x05\x06", b"PK\x01\x02", b"obj ", b"%", b"\0", b"\xff",
    ];
    if c.len > 1 << 20 || c.len == 0 {
        return;
    }
    let mut b = c.materialize(0, u64::MAX);
    let mut t: Vec<u64> = targets.iter().copied().filter(|t| *t < c.len).collect();
    t.sort_unstable();
    t.dedup();
    let i = r.below(t.len() as u64 + 1) as usize;
    let other = r.below(c.len);
    let at = if i < t.len() { t[i] } else { *r.pick(&[4, 5, 8, 16, 21, 28, 30, 38, 100, other]) }.min(c.len) as usize;
    let word = match r.below(4) {
        0 if i + 1 < t.len() && t[i + 1] - t[i] < 4096 => b[at..t[i + 1] as usize].to_vec(),
        0 | 1 => b[at..(at + 1 + r.skew(200) as usize).min(b.len())].to_vec(),
        _ => r.pick(TOKENS).to_vec(),
    };
    if word.is_empty() {
        return;
    }
    let most = *r.pick(&[64, 300, 9000]);
    let n = (2 + r.skew(most)).min(200_000 / word.len() as u64 + 1) as usize;
    b.splice(at..at, word.repeat(n));
    c.len = b.len() as u64;
    c.segs = vec![(0, b)];
}

pub fn poke(r: &mut Rng, c: &mut Content, targets: &[u64]) {
    if c.len == 0 {
        return;
    }
    for _ in 0..1 + r.below(3) {
        let t = if targets.is_empty() || r.one_in(6) { r.below(c.len.min(300)) } else { *r.pick(targets) };
        let o = match r.below(4) {
            0 => t,
            1 => t.saturating_sub(r.below(24)),
            _ => t.saturating_add(r.skew(40)),
        };
        let b = match r.below(6) {
            0 => r.bytes(16),
            1 => hostile(r, 16).to_le_bytes()[..2].to_vec(),
            2 => hostile(r, 32).to_le_bytes()[..4].to_vec(),
            3 => (hostile(r, 32) as u32).to_be_bytes().to_vec(),
            4 => {
                let x = hostile(r, 64);
                if r.pct(50) { x.to_le_bytes().to_vec() } else { x.to_be_bytes().to_vec() }
            }
            _ => vec![r.next() as u8],
        };
        if o.checked_add(b.len() as u64).is_some_and(|e| e <= c.len) {
            c.overwrite(o, b);
        }
    }
}

/// Literals that are new in the code under test: tried more often than others.
pub struct Fresh {
    pub ints: Vec<u64>,
    pub bytes: Vec<Vec<u8>>,
    pub words: Vec<String>,
    /// Kinds of content that lead to where the code is new.
    pub families: Vec<u64>,
}
pub fn fresh() -> &'static Fresh {
    static F: OnceLock<Fresh> = OnceLock::new();
    F.get_or_init(|| {
        let mut f = Fresh { ints: vec![], bytes: vec![], words: vec![], families: vec![] };
        for l in std::env::var("SIM_FRESH").unwrap_or_default().lines() {
            match l.get(..2) {
                Some("i:") => f.ints.extend(l[2..].parse::<u64>().ok()),
                Some("f:") => f.families.extend(l[2..].parse::<u64>().ok().filter(|x| *x < 12)),
                Some("b:") => f.bytes.push(crate::json::unhex(&l[2..])),
                Some("s:") => {
                    f.words.push(l[2..].to_string());
                    f.bytes.push(l[2..].as_bytes().to_vec());
                }
                _ => {}
            }
        }
        f
    })
}
/// Now and then a new number of the code, or one next to it.
pub fn fresh_int(r: &mut Rng, p: u64, max: u64) -> Option<u64> {
    let f = &fresh().ints;
    if f.is_empty() || !r.pct(p) {
        return None;
    }
    let x = *r.pick(f);
    let x = match r.below(4) {
        0 => x.saturating_add(1),
        1 => x.saturating_sub(1),
        _ => x,
    };
    (x <= max).then_some(x)
}
/// Now and then a string the code has not always had, instead of the usual one.
pub fn newish(r: &mut Rng, usual: &[u8]) -> Vec<u8> {
    let f = &fresh().bytes;
    if f.is_empty() || !r.pct(40) {
        return usual.to_vec();
    }
    r.pick(f).clone()
}
/// The same, as long as the usual one.
fn newish_fixed(r: &mut Rng, usual: &[u8]) -> Vec<u8> {
    let mut v = newish(r, usual);
    v.resize(usual.len(), 0);
    v
}
/// The same in sixteen-bit characters.
fn newish_wide(r: &mut Rng, usual: &[u8]) -> Vec<u8> {
    let v = newish(r, usual);
    if v == usual || r.pct(40) {
        return v;
    }
    v.iter().flat_map(|b| [*b, 0]).chain([0, 0]).collect()
}
/// Puts new literals of the code into a content, or makes it as long as one says.
pub fn season(r: &mut Rng, c: &mut Content, targets: &[u64]) {
    let f = fresh();
    if (f.ints.is_empty() && f.bytes.is_empty()) || !r.pct(25) {
        return;
    }
    for _ in 0..1 + r.below(2) {
        if let Some(n) = fresh_int(r, 30, 4 << 20) {
            if r.pct(40) && c.len <= 4 << 20 {
                c.len = n;
                continue;
            }
            let le = *r.pick(&[1usize, 2, 4, 8]);
            let b = if r.pct(50) { n.to_le_bytes()[..le].to_vec() } else { n.to_be_bytes()[8 - le..].to_vec() };
            let o = spot(r, c, targets);
            if o.checked_add(b.len() as u64).is_some_and(|e| e <= c.len) {
                c.overwrite(o, b);
            }
        } else if !f.bytes.is_empty() {
            let b = r.pick(&f.bytes).clone();
            let o = spot(r, c, targets);
            if o.checked_add(b.len() as u64).is_some_and(|e| e <= c.len) {
                c.overwrite(o, b);
            }
        }
    }
}
fn spot(r: &mut Rng, c: &Content, targets: &[u64]) -> u64 {
    match r.below(5) {
        0 | 1 if !targets.is_empty() => r.pick(targets).saturating_add(r.skew(40)),
        0 | 1 => r.below(c.len.min(100).max(1)),
        2 => r.below(c.len.max(1)),
        3 => c.len.saturating_sub(r.skew(100)),
        _ => r.skew(c.len),
    }
}
