//! Endless streams of well-formed items, one kind of item per container family: the beginning is a random
//! mixture of items, then one item repeats forever, with a telling item hidden right behind the limit.

use crate::content::{Content, Fill};
use crate::gen::*;
use crate::rng::Rng;

pub const KINDS: [&str; 14] = [
    "asf-objects", "asf-descriptors", "ebml-elements", "mp4-boxes", "rm-chunks", "zip-entries", "id3-tags",
    "pdf-bytes", "text-bytes", "xml-bytes", "sqlite-bytes", "asf-in-place", "mp4-in-place", "rm-in-place",
];

pub struct Endless {
    /// With and without the telling item beyond the limit.
    pub a: Content,
    pub b: Content,
    /// No byte at or beyond this offset may be inspected (tail excepted).
    pub bound: u64,
    pub tail_from: u64,
    /// Count only what is read after the prefix.
    pub post: bool,
}

const S: u64 = 1 << 20;

/// `pre` are the first items; the cycle `head` repeats every `stride`; the telling item replaces item
/// number `limit` (or a later one) of the whole sequence. `vary` is the part of the repeated item that differs
/// each time.
#[allow(clippy::too_many_arguments)]
fn assemble(r: &mut Rng, label: &str, head0: Vec<u8>, pre: Vec<Vec<u8>>, cyc: Vec<u8>, vary: (u64, u64), stride: u64, limit: u64, telling: Vec<u8>) -> Endless {
    let mut v = head0;
    let m = pre.len() as u64;
    for p in pre {
        v.extend(p);
    }
    let base = v.len() as u64;
    let loc = base + (limit - m) * stride;
    let bound = loc.max(base + 65_536).max(131_072);
    let later = if r.pct(70) { 0 } else { r.skew(1000) };
    let len = match r.below(4) {
        0 => u64::MAX >> 1,
        1 => 1 << 50,
        2 => loc + (later + 2) * stride + r.below(10_000),
        _ => 1 << 40,
    };
    let b = Content { len, segs: vec![(0, v)], fill: Fill::Cycle { base, stride, head: cyc, vary }, label: label.into() };
    let mut a = b.clone();
    a.segs.push((loc + later * stride, telling));
    Endless { a, b, bound, tail_from: u64::MAX, post: false }
}

/// How many of the `limit` items come before the endless part.
fn lead(r: &mut Rng, limit: u64) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => limit,
        2 => limit - 1,
        3 => r.below(10).min(limit),
        _ => r.below(limit + 1),
    }
}

const PDF: [&[u8]; 16] = [
    b"startxref\n", b"%%EOF\n", b"xref\n0 1\n", b"trailer\n<<", b"stream\n", b"endstream\n", b"1 0 obj\n", b"endobj\n",
    b"%PDF-1.5\n", b"/Linearized 1", b"/Type /Catalog", b"/Prev 100", b"%\xE2\xE3\xCF\xD3\n", b"/Encrypt", b"<?xpacket begin", b"/ObjStm",
];
const TXT: [&[u8]; 12] = [
    b"\n", b"\r\n", b"\r", b"\t", b"\xEF\xBB\xBF", b"#!/bin/sh\n", b"\x0c", b"<html>", b"{}", b"a,b;c", "\u{e9}\u{4e2d}".as_bytes(), b"end\n",
];
const XML: [&[u8]; 14] = [
    b"<!-- ", b" -->", b"<!DOCTYPE x [", b"]>", b"<?pi ", b"?>", b"<a b=\"c\">", b"</a>", b"<![CDATA[", b"]]>", b"<!ENTITY ", b"\n", b"<x:y xmlns:x=\"z\"/>", b"&lt;",
];
const SQL: [&[u8]; 8] = [
    b"CREATE TABLE t(a)", b"\x0d\0\0\0\x01\x0f\xf0\0", b"\x05\0\0\0", b"\0\0\0\x02", b"table", b"index", b"sqlite_sequence", b"\x0a\0\0\0",
];

/// Some of the words of a language, and strings the code has not always had.
fn phrase(r: &mut Rng, v: &mut Vec<u8>, words: &[&[u8]], n: usize) {
    for _ in 0..n {
        match fresh().bytes.as_slice() {
            f if !f.is_empty() && r.pct(40) => v.extend(r.pick(f)),
            _ => v.extend(*r.pick(words)),
        }
        let k = if r.pct(60) { r.below(3) } else { r.below(300) } as usize;
        v.resize(v.len() + k, b' ');
    }
}

/// What an endless stream goes on with: one byte, or a phrase every so often.
fn matter(r: &mut Rng, words: &[&[u8]], bytes: &[u8]) -> Fill {
    if r.pct(40) {
        return Fill::Byte(*r.pick(bytes));
    }
    let stride = match r.below(4) {
        0 => 1 << r.range(6, 16),
        1 => r.range(40, 70_000),
        2 => 32_768 - r.below(64),
        _ => r.range(40, 2000),
    };
    let mut head = vec![];
    let n = 1 + r.below(4) as usize;
    phrase(r, &mut head, words, n);
    // Text stays text.
    if head.len() < stride as usize && (words[0] == b"\n" || r.pct(50)) {
        head.resize(stride.min(100_000) as usize, b' ');
    }
    head.truncate(stride as usize);
    Fill::Cycle { base: 0, stride, head, vary: (0, 0) }
}

/// The type of an item no reader cares about: now and then a string the code has not always had.
fn indifferent(r: &mut Rng, usual: &[u8]) -> Vec<u8> {
    let f = &fresh().bytes;
    if f.is_empty() || r.pct(50) {
        return usual.to_vec();
    }
    let mut v = r.pick(f).clone();
    v.resize(usual.len(), usual[0]);
    // Part of a new string may be one of the old ones.
    const KNOWN: [&[u8]; 5] = [b"moov", b"trak", b"mdia", b"hdlr", b"MDPR"];
    if KNOWN.contains(&&v[..]) { usual.to_vec() } else { v }
}

fn w16(x: &str) -> Vec<u8> {
    guid(x)
}

pub fn make(r: &mut Rng, kind: usize) -> Endless {
    match kind {
        0 => {
            let mut h = w16("75b22630-668e-11cf-a6d9-00aa0062ce6c");
            le64(&mut h, 30);
            let x = *r.pick(&[0xFFFF_FFFFu64, 257, 300, 1000, 0x8000_0000, 258, 512]);
            le32(&mut h, x);
            h.extend([1, 2]);
            let m = lead(r, 256);
            let pre = (0..m)
                .map(|_| {
                    let mut v = vec![];
                    let n = if r.one_in(30) { 300 } else { r.below(40) };
                    match r.below(3) {
                        0 => {
                            v.extend(w16("b7dc0791-a9b7-11cf-8ee6-00c00c205365"));
                            le64(&mut v, 40 + n);
                            v.extend(w16("59dacfc0-59e6-11d0-a3ac-00a0c90348f6"));
                        }
                        1 => {
                            v.extend(w16("d2d0a440-e307-11d2-97f0-00a0c95ea850"));
                            le64(&mut v, 26 + n);
                            le16(&mut v, 0);
                        }
                        _ => {
                            v.extend(indifferent(r, &[9; 16]));
                            le64(&mut v, 24 + n);
                        }
                    }
                    v.resize(v.len() + n as usize, 0);
                    v
                })
                .collect();
            let mut c = vec![];
            match r.below(3) {
                0 => {
                    c.extend(w16("b7dc0791-a9b7-11cf-8ee6-00c00c205365"));
                    le64(&mut c, S);
                    c.extend(w16("59dacfc0-59e6-11d0-a3ac-00a0c90348f6"));
                }
                1 => {
                    c.extend(w16("d2d0a440-e307-11d2-97f0-00a0c95ea850"));
                    le64(&mut c, S);
                    le16(&mut c, 0);
                }
                _ => {
                    c.extend(indifferent(r, &[9; 16]));
                    le64(&mut c, S);
                }
            }
            let mut t = w16("b7dc0791-a9b7-11cf-8ee6-00c00c205365");
            le64(&mut t, S);
            t.extend(w16("bc19efc0-5b4d-11cf-a8fd-00805f5c442b"));
            let vary = if c[0] == 9 && r.pct(70) { (0, 16) } else { (0, 0) };
            assemble(r, KINDS[kind], h, pre, c, vary, S, 256, t)
        }
        1 => {
            let mut h = w16("75b22630-668e-11cf-a6d9-00aa0062ce6c");
            le64(&mut h, 30);
            le32(&mut h, 1);
            h.extend([1, 2]);
            h.extend(w16("d2d0a440-e307-11d2-97f0-00a0c95ea850"));
            le64(&mut h, 1 << 38);
            let x = *r.pick(&[65_535u64, 33, 40, 1000, 32_768, 255]);
            le16(&mut h, x);
            let m = lead(r, 32);
            let pre = (0..m)
                .map(|_| {
                    let nl = *r.pick(&[0u64, 2, 26, 64, 65, 200]);
                    let vl = r.below(50);
                    let mut v = vec![];
                    le16(&mut v, nl);
                    v.extend(indifferent(r, &vec![b'n'; nl.max(1) as usize]));
                    v.truncate(2 + nl as usize);
                    le16(&mut v, 0);
                    le16(&mut v, vl);
                    v.resize(v.len() + vl as usize, 0);
                    v
                })
                .collect();
            let nl = *r.pick(&[26u64, 64, 100, 65_535]);
            let mut c = vec![];
            le16(&mut c, nl);
            c.resize(2 + nl as usize, b'x');
            le16(&mut c, 0);
            le16(&mut c, 65_535);
            let st = 2 + nl + 4 + 65_535;
            let mut t = vec![];
            le16(&mut t, nl);
            t.extend(b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0");
            t.truncate(2 + nl as usize);
            let mut e = assemble(r, KINDS[kind], h, pre, c, (2, nl), st, 32, t);
            // The skip to the object's end may look there: far away, and nothing is there.
            e.b.len = e.b.len.max(1 << 40);
            e.a.len = e.b.len;
            e
        }
        2 => {
            let mut h = vec![0x1A, 0x45, 0xDF, 0xA3, 0x01, 0, 0, 0, 0, 0, 0, 0x1f];
            let doc = r.pct(70);
            if doc {
                h.extend([0x42, 0x82, 0x88]);
                h.extend(b"matroska");
            }
            let limit = 256 - 1 - doc as u64;
            let m = lead(r, limit);
            let pre = (0..m)
                .map(|_| match r.below(8) {
                    0 => vec![0x18, 0x53, 0x80, 0x67, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF],
                    1 => vec![0x16, 0x54, 0xAE, 0x6B, 0x81],
                    2 => vec![0xAE, 0x40, 0x10],
                    3 => vec![0xE0, 0x88],
                    4 => vec![0x53, 0xB8, 0x81, 0],
                    5 => {
                        let n = r.below(60);
                        let mut v = vec![0x86, 0x80 | n as u8];
                        v.resize(2 + n as usize, b'x');
                        v
                    }
                    6 => {
                        let mut v = vec![0x42, 0x82, 0x88];
                        v.extend(b"matroska");
                        v
                    }
                    _ => {
                        let n = r.below(120);
                        let mut v = crate::gen::ebml_id(r);
                        v.push(0x80 | n as u8);
                        v.resize(v.len() + n as usize, 0);
                        v
                    }
                })
                .collect();
            let mut c = match r.below(3) {
                0 => crate::gen::ebml_id(r),
                1 => vec![0x86],
                _ => vec![0x15, 0x49, 0xA9, 0x66],
            };
            let hl = c.len() as u64 + 8;
            let sz = (S - hl) | 1 << 56;
            c.extend(sz.to_be_bytes());
            let n = *r.pick(&[70u64, 70, 20_000, 60_000]);
            c.resize(c.len() + n as usize, b'y');
            let vary = (hl, n);
            let mut t = vec![0x86, 0x8f];
            t.extend(b"V_MPEG4/ISO/AVC");
            assemble(r, KINDS[kind], h, pre, c, vary, S, limit, t)
        }
        3 => {
            let mut h = vec![];
            be32(&mut h, 16);
            let br = r.pick(&data().mp4).clone();
            h.extend(br);
            h.resize(16, 0);
            let m = lead(r, 255);
            let pre = (0..m)
                .map(|_| {
                    let mut v = vec![];
                    match r.below(4) {
                        0 | 1 => {
                            let x = 8 + r.below(1000);
                            be32(&mut v, x);
                            v.extend(*r.pick(&[b"moov", b"trak", b"mdia"]));
                        }
                        2 => {
                            let n = r.below(40);
                            be32(&mut v, 20 + n);
                            v.extend(b"hdlr\0\0\0\0\0\0\0\0hint");
                            v.resize(20 + n as usize, 0);
                        }
                        _ => {
                            let n = r.below(100);
                            be32(&mut v, 8 + n);
                            v.extend(indifferent(r, b"free"));
                            v.resize(8 + n as usize, 0);
                        }
                    }
                    v
                })
                .collect();
            let mut c = vec![];
            be32(&mut c, S);
            let vary = if r.pct(50) {
                c.extend(indifferent(r, b"mdat"));
                (4, *r.pick(&[0u64, 4]))
            } else {
                c.extend(b"hdlr\0\0\0\0\0\0\0\0hint");
                let n = *r.pick(&[0u64, 30, 30_000]);
                c.resize(c.len() + n as usize, 0);
                (20, n)
            };
            let mut t = vec![];
            be32(&mut t, S);
            t.extend(b"hdlr\0\0\0\0\0\0\0\0vide");
            assemble(r, KINDS[kind], h, pre, c, vary, S, 255, t)
        }
        4 => {
            let mut h = b".RMF\0\0\0\x12\0\0\0\0\0\0".to_vec();
            let x = *r.pick(&[u32::MAX as u64, 66, 67, 100, 1000, 1 << 31]);
            be32(&mut h, x);
            let m = lead(r, 64);
            let mdpr = |size: u64, mime: &[u8]| {
                let mut v = b"MDPR".to_vec();
                be32(&mut v, size);
                v.extend([0; 32]);
                v.extend(b"\x03abc");
                v.push(mime.len() as u8);
                v.extend(mime);
                v
            };
            let pre = (0..m)
                .map(|_| {
                    let n = r.below(100);
                    if r.pct(50) {
                        let mut v = mdpr(8 + 32 + 4 + 1 + 7 + n, b"logical");
                        v.resize(v.len() + n as usize, 0);
                        v
                    } else {
                        let mut v = indifferent(r, b"CONT");
                        be32(&mut v, 8 + n);
                        v.resize(8 + n as usize, 0);
                        v
                    }
                })
                .collect();
            let mut vary = (0, 0);
            let c = if r.pct(50) {
                let n = *r.pick(&[0usize, 0, 16, 255]);
                vary = if n > 0 { (45, n as u64) } else { (41, 3) };
                if n > 0 { mdpr(S, &vec![b'x'; n]) } else { mdpr(S, b"logical-fileinfo") }
            } else {
                let mut v = indifferent(r, b"DATA");
                be32(&mut v, S);
                v
            };
            let t = mdpr(S, b"video/x-pn-realvideo");
            assemble(r, KINDS[kind], h, pre, c, vary, S, 64, t)
        }
        5 => {
            let entry = |name: &[u8], extra: u64, comment: u64| {
                let mut v = b"PK\x01\x02\x14\0\x14\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
                le32(&mut v, 0);
                le32(&mut v, 7);
                le16(&mut v, name.len() as u64);
                le16(&mut v, extra);
                le16(&mut v, comment);
                v.extend([0; 12]);
                v.extend(name);
                v
            };
            let mut h = b"PK\x03\x04".to_vec();
            h.resize(30, 0);
            let m = lead(r, 1024);
            let pre: Vec<Vec<u8>> = (0..m)
                .map(|i| {
                    let (x, c) = (r.below(9), r.below(9));
                    let mut v = match r.below(12) {
                        0 => entry(b"META-INF/MANIFEST.MF", x, c),
                        1 => entry(b"", x, c),
                        2 => entry(b"mimetype", x, c),
                        3 => entry(b"\xff\xfe\x80", x, c),
                        4 | 5 => {
                            let n = indifferent(r, format!("n{i}").as_bytes());
                            entry(&n, x, c)
                        }
                        _ => entry(format!("n{i}").as_bytes(), x, c),
                    };
                    v.resize(v.len() + (x + c) as usize, 0);
                    v
                })
                .collect();
            let nl = if r.pct(60) { r.below(40) } else { r.skew(60_000) };
            let mut name = format!("dir/{}", "z".repeat(nl as usize)).into_bytes();
            let start = indifferent(r, &name);
            name = start;
            let vary = (50, if r.pct(70) { nl } else { 0 });
            let (x, cm) = (65_535, 65_535 - r.below(100));
            let c = entry(&name, x, cm);
            let stride = c.len() as u64 + x + cm;
            let socd = h.len() as u64;
            let prelen: u64 = pre.iter().map(|p| p.len() as u64).sum();
            let t = entry(b"word/document.xml", 10, 10);
            let mut e = assemble(r, KINDS[kind], h, pre, c, vary, stride, 1024, t);
            let z64 = r.pct(50);
            let total: u64 = if z64 { *r.pick(&[1025u64, 1030, 65_535, 1 << 20, 1 << 40, u64::MAX]) } else { *r.pick(&[1025u64, 1030, 65_535, 2048]) };
            let items = total.min(1 << 22).max(1100);
            let at = socd + prelen + (items - m) * stride;
            let mut tail = vec![];
            if z64 {
                tail.extend(b"PK\x06\x06");
                le64(&mut tail, 44);
                tail.extend([0; 12]);
                le64(&mut tail, total);
                le64(&mut tail, total);
                le64(&mut tail, 0);
                le64(&mut tail, socd);
                tail.extend(b"PK\x06\x07");
                le32(&mut tail, 0);
                le64(&mut tail, at);
                le32(&mut tail, 1);
            }
            tail.extend(b"PK\x05\x06\0\0\0\0");
            let t16 = if z64 { 65_535 } else { total };
            le16(&mut tail, t16);
            le16(&mut tail, t16);
            le32(&mut tail, 0);
            le32(&mut tail, if z64 { u32::MAX as u64 } else { socd });
            le16(&mut tail, 0);
            for c in [&mut e.a, &mut e.b] {
                c.len = at + tail.len() as u64;
                c.segs.push((at, tail.clone()));
            }
            e.tail_from = at.saturating_sub(70_000);
            e
        }
        6 => {
            let tag = |r: &mut Rng, total: u64| {
                let ext = r.one_in(4);
                let foot = r.one_in(4);
                // total = 10 + size + footer + extended size
                let e = if ext { 6 + r.below(20) } else { 0 };
                let sz = total - 10 - e - if foot { 10 } else { 0 };
                let mut v = b"ID3\x04\0".to_vec();
                v.push(if ext { 0x40 } else { 0 } | if foot { 0x10 } else { 0 });
                for i in (0..4).rev() {
                    v.push(((sz >> (7 * i)) & 0x7f) as u8);
                }
                if ext {
                    v.extend((e as u32).to_be_bytes());
                }
                v
            };
            let m = lead(r, 64);
            let pre = (0..m)
                .map(|_| {
                    let n = 50 + r.below(200);
                    let mut v = tag(r, n);
                    v.resize(n as usize, 0);
                    v
                })
                .collect();
            let c = tag(r, S);
            // Item 64 may still be looked at (for what follows the tags), but not behind it.
            let mut e = assemble(r, KINDS[kind], vec![], pre, c, (0, 0), S, 65, b"fLaC".to_vec());
            e.bound = (e.bound - S + 65_536).max(131_072);
            e
        }
        7 => {
            let lim = 5 + 33_554_432;
            let mut h = b"%PDF-1.4\n".to_vec();
            let more = r.below(6) as usize;
            phrase(r, &mut h, &PDF, more);
            let b = Content {
                len: if r.pct(50) { 1 << 50 } else { lim + 200_000 },
                segs: vec![(0, h)],
                fill: matter(r, &PDF, b" \0A"),
                label: KINDS[kind].into(),
            };
            let mut a = b.clone();
            let off = *r.pick(&[0u64, 1, 16, 1000, 32_768, 65_536, 150_000]);
            a.segs.push((lim + off, b"AIPrivateData".to_vec()));
            Endless { a, b, bound: lim + 65_536, tail_from: u64::MAX, post: false }
        }
        8 => {
            let mut b = Content {
                len: 1 << r.range(18, 50),
                segs: vec![],
                fill: matter(r, &TXT, b" atQ"),
                label: KINDS[kind].into(),
            };
            if r.pct(40) {
                let mut h = vec![];
                let n = 1 + r.below(5) as usize;
                phrase(r, &mut h, &TXT, n);
                b.segs.push((0, h));
            }
            let nl = r.below(15);
            for _ in 0..nl {
                let at = r.below(65_000);
                b.segs.push((at, b"\n".to_vec()));
            }
            let mut a = b.clone();
            let off = *r.pick(&[0u64, 1, 16, 1000, 8192, 65_536, 150_000]);
            a.segs.push((65_536 + off, vec![*r.pick(&[0u8, 1, 0x7f, 0xff])]));
            Endless { a, b, bound: 131_072, tail_from: u64::MAX, post: false }
        }
        9 => {
            let lim = 5 + 8192;
            let mut h = if r.pct(20) { b"\xEF\xBB\xBF".to_vec() } else { vec![] };
            h.extend(*r.pick(&[&b"<?xml version=\"1.0\"?>\n"[..], b"<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>", b"<?xml"]));
            let more = if r.pct(50) { r.below(12) as usize } else { 0 };
            phrase(r, &mut h, &XML, more);
            let b = Content {
                len: 1 << r.range(15, 50),
                segs: vec![(0, h)],
                fill: matter(r, &XML, b" a\n"),
                label: KINDS[kind].into(),
            };
            let mut a = b.clone();
            let off = *r.pick(&[0u64, 1, 16, 1000, 8192, 20_000]);
            a.segs.push((lim + off, r.pick(&data().xml).as_bytes().to_vec()));
            Endless { a, b, bound: lim + 65_536, tail_from: u64::MAX, post: true }
        }
        10 => {
            let lim = 100 + 32_768;
            let mut h = b"SQLite format 3\0".to_vec();
            if r.pct(70) {
                h.extend(*r.pick(&[[1u8, 0], [0, 1], [2, 0], [0x10, 0], [0x80, 0], [0xff, 0xff]]));
                h.resize(100, 0);
                for _ in 0..r.below(12) {
                    let at = r.range(16, 99) as usize;
                    h[at] = *r.pick(&[0u8, 1, 2, 4, 8, 10, 13, 0x20, 0x40, 0x80, 0xff]);
                }
                let x = *r.pick(&[13u8, 5, 10, 2, 0]);
                h.push(x);
                let more = r.below(4) as usize;
                phrase(r, &mut h, &SQL, more);
            }
            let b = Content {
                len: 1 << r.range(17, 50),
                segs: vec![(0, h)],
                fill: matter(r, &SQL, b" a\0"),
                label: KINDS[kind].into(),
            };
            let mut a = b.clone();
            let off = *r.pick(&[0u64, 1, 26, 1000, 8192, 60_000]);
            a.segs.push((lim + off, b"com.bohemiancoding.sketch3".to_vec()));
            Endless { a, b, bound: lim + 65_536, tail_from: u64::MAX, post: true }
        }
        // Items whose declared size leads back to themselves or to an earlier item.
        11 => {
            let mut h = w16("75b22630-668e-11cf-a6d9-00aa0062ce6c");
            le64(&mut h, 30);
            le32(&mut h, u32::MAX as u64);
            h.extend([1, 2]);
            if r.pct(50) {
                h.extend([9; 16]);
                le64(&mut h, 24);
            }
            match r.below(3) {
                0 => {
                    h.extend(w16("b7dc0791-a9b7-11cf-8ee6-00c00c205365"));
                    le64(&mut h, 0);
                    h.extend([0; 16]);
                }
                1 => {
                    h.extend(w16("d2d0a440-e307-11d2-97f0-00a0c95ea850"));
                    le64(&mut h, 0);
                    le16(&mut h, 0);
                }
                _ => {
                    h.extend([9; 16]);
                    le64(&mut h, 0);
                }
            }
            h.resize(h.len() + 100, 0);
            let c = Content::bytes(KINDS[kind], h);
            Endless { a: c.clone(), b: c, bound: u64::MAX, tail_from: u64::MAX, post: false }
        }
        12 => {
            let mut h = vec![];
            be32(&mut h, 16);
            let br = r.pick(&data().mp4).clone();
            h.extend(br);
            h.resize(16, 0);
            let x = if r.pct(70) { 0 } else { 8 };
            match r.below(3) {
                0 => {
                    be32(&mut h, x);
                    h.extend(b"hdlr\0\0\0\0\0\0\0\0hint");
                }
                1 => {
                    be32(&mut h, 1);
                    h.extend(b"free");
                    be64(&mut h, u64::MAX - r.below(9));
                }
                _ => {
                    be32(&mut h, x);
                    h.extend(b"free");
                }
            }
            h.resize(h.len() + 100, 0);
            let c = Content::bytes(KINDS[kind], h);
            Endless { a: c.clone(), b: c, bound: u64::MAX, tail_from: u64::MAX, post: false }
        }
        _ => {
            let mut h = b".RMF\0\0\0\x12\0\0\0\0\0\0".to_vec();
            be32(&mut h, u32::MAX as u64);
            h.extend(*r.pick(&[b"MDPR", b"DATA"]));
            be32(&mut h, 0);
            h.resize(h.len() + 400, 0);
            let c = Content::bytes(KINDS[kind], h);
            Endless { a: c.clone(), b: c, bound: u64::MAX, tail_from: u64::MAX, post: false }
        }
    }
}
