//! Encoders for the supported compressed formats, written from the format descriptions; only deflate
//! and bzip2 streams come from libraries. Shares nothing with chopper's decoders.
use std::hash::Hasher;
use std::io::Write;

use crate::engine::Src;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Codec {
    Gz,
    Lz4Frame,
    Lz4Block,
    Lzf,
    Zst,
    Zip,
}

pub const STREAM_CODECS: [Codec; 5] = [Codec::Gz, Codec::Lz4Frame, Codec::Lz4Block, Codec::Lzf, Codec::Zst];

pub fn suffix(c: Codec) -> &'static str {
    match c {
        Codec::Gz => ".gz",
        Codec::Lz4Frame | Codec::Lz4Block => ".lz4",
        Codec::Lzf => ".lzf",
        Codec::Zst => ".zst",
        Codec::Zip => ".zip",
    }
}

pub fn codec_name(c: Codec) -> &'static str {
    match c {
        Codec::Gz => "gzip",
        Codec::Lz4Frame => "lz4 frame",
        Codec::Lz4Block => "lz4 block",
        Codec::Lzf => "lzf",
        Codec::Zst => "zstd",
        Codec::Zip => "zip",
    }
}

#[derive(Clone, Debug)]
pub struct Packed {
    pub bytes: Vec<u8>,
    pub how: String,
    /// all content is covered by checksums
    pub verified: bool,
    /// each piece of content is verified before it is delivered
    pub block_verified: bool,
    /// lengths at which the file is itself a complete file of the format (so a cut there is not damage)
    pub complete_at: Vec<usize>,
    /// number of members or frames
    pub parts: usize,
    pub blocks: usize,
}

pub fn xxh32(seed: u32, b: &[u8]) -> u32 {
    let mut h = twox_hash::XxHash32::with_seed(seed);
    h.write(b);
    h.finish() as u32
}

pub fn xxh64(b: &[u8]) -> u64 {
    let mut h = twox_hash::XxHash64::with_seed(0);
    h.write(b);
    h.finish()
}

pub fn crc32(b: &[u8]) -> u32 {
    crc32fast::hash(b)
}

// ---------------------------------------------------------------- LZ77 style raw blocks

struct Token {
    lit: std::ops::Range<usize>,
    /// (distance, length); none for the final literals
    m: Option<(usize, usize)>,
}

/// greedy parse of data[start..]; the text before start may be referred to
fn parse(data: &[u8], start: usize, max_dist: usize, min_len: usize, max_len: usize, end_guard: (usize, usize)) -> Vec<Token> {
    let mut table: std::collections::HashMap<[u8; 4], usize> = std::collections::HashMap::new();
    let n = data.len();
    let mut out = Vec::new();
    let mut anchor = start;
    // index the prefix sparsely
    let mut i = start.saturating_sub(max_dist);
    while i + 4 <= start {
        table.insert(data[i..i + 4].try_into().unwrap(), i);
        i += 1;
    }
    let mut i = start;
    while i + end_guard.0 <= n && i + 4 <= n {
        let key: [u8; 4] = data[i..i + 4].try_into().unwrap();
        let cand = table.insert(key, i);
        if let Some(c) = cand {
            if i - c <= max_dist {
                let lim = (n - end_guard.1).min(i + max_len);
                let mut l = 0;
                while i + l < lim && data[c + l] == data[i + l] {
                    l += 1;
                }
                if l >= min_len {
                    out.push(Token { lit: anchor..i, m: Some((i - c, l)) });
                    let stop = i + l;
                    let mut k = i + 1;
                    while k < stop && k + 4 <= n && k < i + 16 {
                        table.insert(data[k..k + 4].try_into().unwrap(), k);
                        k += 1;
                    }
                    i = stop;
                    anchor = i;
                    continue;
                }
            }
        }
        i += 1;
    }
    out.push(Token { lit: anchor..n, m: None });
    out
}

fn lz4_len(o: &mut Vec<u8>, mut v: usize) {
    while v >= 255 {
        o.push(255);
        v -= 255;
    }
    o.push(v as u8);
}

/// data[start..] as one LZ4 block
pub fn lz4_raw(data: &[u8], start: usize, min_len: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for t in parse(data, start, 65535, min_len.max(4), usize::MAX / 2, (13, 5)) {
        let ll = t.lit.len();
        let ml = t.m.map(|m| m.1 - 4).unwrap_or(0);
        o.push(((ll.min(15) << 4) | ml.min(15)) as u8);
        if ll >= 15 {
            lz4_len(&mut o, ll - 15);
        }
        o.extend_from_slice(&data[t.lit.clone()]);
        if let Some((d, _)) = t.m {
            o.extend_from_slice(&(d as u16).to_le_bytes());
            if ml >= 15 {
                lz4_len(&mut o, ml - 15);
            }
        }
    }
    o
}

pub fn lzf_raw(data: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for t in parse(data, 0, 8192, 4, 264, (4, 0)) {
        for part in data[t.lit.clone()].chunks(32) {
            o.push((part.len() - 1) as u8);
            o.extend_from_slice(part);
        }
        if let Some((d, l)) = t.m {
            let d = d - 1;
            if l <= 8 {
                o.push((((l - 2) << 5) | (d >> 8)) as u8);
            } else {
                o.push(((7 << 5) | (d >> 8)) as u8);
                o.push((l - 9) as u8);
            }
            o.push(d as u8);
        }
    }
    o
}

// ---------------------------------------------------------------- containers

pub fn deflate(s: &mut Src, data: &[u8]) -> Vec<u8> {
    let level = s.below(10) as u32;
    let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level));
    if s.chance(1, 4) && data.len() > 1 {
        let k = 1 + s.below(data.len() - 1);
        e.write_all(&data[..k]).unwrap();
        e.flush().unwrap();
        e.write_all(&data[k..]).unwrap();
    } else {
        e.write_all(data).unwrap();
    }
    e.finish().unwrap()
}

pub fn gz_member(s: &mut Src, data: &[u8]) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8];
    let flags = if s.chance(1, 2) { 0 } else { s.below(32) as u8 };
    o.push(flags);
    let mtime = s.draw(u32::MAX as u64) as u32;
    o.extend_from_slice(&mtime.to_le_bytes());
    o.push(*s.pick(&[0u8, 2, 4]));
    o.push(*s.pick(&[255u8, 3, 0]));
    if flags & 4 != 0 {
        let n = s.below(40);
        let mut x = vec![b'A', b'p'];
        x.extend_from_slice(&(n as u16).to_le_bytes());
        x.extend((0..n).map(|i| i as u8));
        o.extend_from_slice(&(x.len() as u16).to_le_bytes());
        o.extend_from_slice(&x);
    }
    if flags & 8 != 0 {
        o.extend_from_slice(b"name of file.csv\0");
    }
    if flags & 16 != 0 {
        o.extend_from_slice(b"a comment\0");
    }
    if flags & 2 != 0 {
        let c = crc32(&o) as u16;
        o.extend_from_slice(&c.to_le_bytes());
    }
    o.extend(deflate(s, data));
    o.extend_from_slice(&crc32(data).to_le_bytes());
    o.extend_from_slice(&(data.len() as u32).to_le_bytes());
    o
}

pub struct Lz4Opts {
    pub independent: bool,
    pub block_checksums: bool,
    pub content_checksum: bool,
    pub content_size: bool,
    pub bsize_code: u8, // 4..=7
    pub block_len: usize,
    pub raw_rate: u64, // of 10
    pub min_len: usize,
    pub end_mark: bool,
}

pub fn lz4_frame(s: &mut Src, data: &[u8], p: &Lz4Opts, blocks: &mut usize) -> Vec<u8> {
    let mut o = 0x184D_2204u32.to_le_bytes().to_vec();
    let mut flg = 1u8 << 6;
    if p.independent {
        flg |= 1 << 5;
    }
    if p.block_checksums {
        flg |= 1 << 4;
    }
    if p.content_size {
        flg |= 1 << 3;
    }
    if p.content_checksum {
        flg |= 1 << 2;
    }
    o.push(flg);
    o.push(p.bsize_code << 4);
    if p.content_size {
        o.extend_from_slice(&(data.len() as u64).to_le_bytes());
    }
    let hc = (xxh32(0, &o[4..]) >> 8) as u8;
    o.push(hc);
    let mut pos = 0;
    let maxb = 1usize << (8 + 2 * p.bsize_code as usize);
    while pos < data.len() {
        let end = (pos + p.block_len.min(maxb)).min(data.len());
        let want_raw = p.raw_rate > 0 && s.draw(9) < p.raw_rate;
        let from = if p.independent { pos } else { pos.saturating_sub(65536) };
        let c = lz4_raw(&data[from..end], pos - from, p.min_len);
        let raw = want_raw || c.len() > maxb;
        let body: &[u8] = if raw { &data[pos..end] } else { &c };
        let len = body.len() as u32 | if raw { 1 << 31 } else { 0 };
        o.extend_from_slice(&len.to_le_bytes());
        o.extend_from_slice(body);
        if p.block_checksums {
            o.extend_from_slice(&xxh32(0, body).to_le_bytes());
        }
        *blocks += 1;
        pos = end;
    }
    if p.end_mark {
        o.extend_from_slice(&0u32.to_le_bytes());
        if p.content_checksum {
            o.extend_from_slice(&xxh32(0, data).to_le_bytes());
        }
    }
    o
}

pub fn lz4_jblocks(s: &mut Src, data: &[u8], blocks: &mut usize) -> Vec<u8> {
    let level = s.below(8) as u8; // block size 1024 << level
    let bs = 1024usize << level;
    let piece = if s.chance(1, 3) { 64 + s.below(bs - 63) } else { bs };
    let raw_rate = *s.pick(&[0u64, 0, 2, 10]);
    let mut o = Vec::new();
    for part in data.chunks(piece) {
        let c = lz4_raw(part, 0, 4);
        let raw = c.len() >= part.len() || (raw_rate > 0 && s.draw(9) < raw_rate);
        let body: &[u8] = if raw { part } else { &c };
        o.extend_from_slice(b"LZ4Block");
        o.push(level | if raw { 0x10 } else { 0x20 });
        o.extend_from_slice(&(body.len() as u32).to_le_bytes());
        o.extend_from_slice(&(part.len() as u32).to_le_bytes());
        o.extend_from_slice(&(xxh32(0x9747_b28c, part) & 0x0FFF_FFFF).to_le_bytes());
        o.extend_from_slice(body);
        *blocks += 1;
    }
    o.extend_from_slice(b"LZ4Block");
    o.push(level | 0x10);
    o.extend_from_slice(&[0; 12]);
    o
}

pub fn lzf_chunks(s: &mut Src, data: &[u8], blocks: &mut usize) -> Vec<u8> {
    let piece = match s.below(3) {
        0 => 65535,
        1 => 1 + s.below(3000),
        _ => 32768,
    };
    // very small pieces only for small data
    let piece = piece.max(data.len() / 2000 + 1);
    let raw_rate = *s.pick(&[0u64, 0, 2, 10]);
    let mut o = Vec::new();
    for part in data.chunks(piece) {
        let c = lzf_raw(part);
        let raw = c.len() + 2 >= part.len() || (raw_rate > 0 && s.draw(9) < raw_rate);
        o.extend_from_slice(b"ZV");
        o.push(if raw { 0 } else { 1 });
        if raw {
            o.extend_from_slice(&(part.len() as u16).to_be_bytes());
            o.extend_from_slice(part);
        } else {
            o.extend_from_slice(&(c.len() as u16).to_be_bytes());
            o.extend_from_slice(&(part.len() as u16).to_be_bytes());
            o.extend_from_slice(&c);
        }
        *blocks += 1;
    }
    o
}

fn zst_block(o: &mut Vec<u8>, last: bool, kind: u32, size: usize) {
    let h = (last as u32) | (kind << 1) | ((size as u32) << 3);
    o.extend_from_slice(&h.to_le_bytes()[..3]);
}

/// a Zstandard frame of raw, RLE and literals-only compressed blocks
pub fn zst_frame(s: &mut Src, data: &[u8], checksum: bool, blocks: &mut usize) -> Vec<u8> {
    let mut o = 0xFD2F_B528u32.to_le_bytes().to_vec();
    let single = s.bool();
    let n = data.len();
    let mut fcs_flag = if n < 256 && single { 0 } else if n < 65792 && n >= 256 { 1 } else if n >> 32 == 0 { 2 } else { 3 };
    if !single && s.bool() {
        fcs_flag = 0; // no content size
    } else if s.chance(1, 4) {
        fcs_flag = 3;
    } else if s.chance(1, 4) {
        fcs_flag = 2;
    }
    let fhd = (fcs_flag << 6) | ((single as u8) << 5) | ((checksum as u8) << 2);
    o.push(fhd);
    let max_block;
    if !single {
        // window: exponent 7 and up, at least 128 kB so that blocks may have any size
        let exp = 7 + s.below(4) as u8;
        o.push((exp << 3) | s.below(8) as u8);
        max_block = 128 * 1024;
    } else {
        max_block = (128 * 1024).min(n.max(1));
    }
    match (fcs_flag, single) {
        (0, true) => o.push(n as u8),
        (0, false) => {}
        (1, _) => o.extend_from_slice(&((n - 256) as u16).to_le_bytes()),
        (2, _) => o.extend_from_slice(&(n as u32).to_le_bytes()),
        _ => o.extend_from_slice(&(n as u64).to_le_bytes()),
    }
    let piece = match s.below(3) {
        0 => max_block,
        1 => (1 + s.below(4000)).max(n / 500 + 1).min(max_block),
        _ => 4096.min(max_block),
    };
    let mut pos = 0;
    loop {
        let mut end = (pos + piece).min(n);
        // a run becomes an RLE block
        let run = data[pos..].iter().take(max_block).take_while(|b| **b == data[pos]).count();
        let rle = run >= 4 && pos < n && s.bool();
        if rle {
            end = pos + run;
        }
        let last = end == n;
        // an empty last block may follow
        let extra_empty = last && s.chance(1, 8);
        let part = &data[pos..end];
        if rle {
            zst_block(&mut o, last && !extra_empty, 1, run);
            o.push(data[pos]);
        } else if part.len() >= 1 && part.len() + 4 <= max_block && s.chance(1, 3) {
            // compressed block: raw or RLE literals, no sequences
            let all_same = part.iter().all(|b| *b == part[0]);
            let ltype = if all_same && s.bool() { 1u32 } else { 0 };
            let mut b = Vec::new();
            let l = part.len() as u32;
            if l < 32 && s.bool() {
                b.push((ltype | (l << 3)) as u8);
            } else if l < 4096 {
                b.extend_from_slice(&((ltype | (1 << 2) | (l << 4)) as u16).to_le_bytes());
            } else {
                b.extend_from_slice(&(ltype | (3 << 2) | (l << 4)).to_le_bytes()[..3]);
            }
            if ltype == 1 {
                b.push(part[0]);
            } else {
                b.extend_from_slice(part);
            }
            b.push(0);
            zst_block(&mut o, last && !extra_empty, 2, b.len());
            o.extend(b);
        } else {
            zst_block(&mut o, last && !extra_empty, 0, part.len());
            o.extend_from_slice(part);
        }
        *blocks += 1;
        if extra_empty {
            zst_block(&mut o, true, 0, 0);
        }
        pos = end;
        if last {
            break;
        }
    }
    if checksum {
        o.extend_from_slice(&(xxh64(data) as u32).to_le_bytes());
    }
    o
}

/// real encoder, if installed
pub fn zst_cli(level: &str, check: bool, data: &[u8]) -> Option<Vec<u8>> {
    let mut c = std::process::Command::new("zstd")
        .args(["-q", "-c", level, if check { "--check" } else { "--no-check" }])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let mut i = c.stdin.take()?;
    let d = data.to_vec();
    let t = std::thread::spawn(move || {
        let _ = i.write_all(&d);
    });
    let out = c.wait_with_output().ok()?;
    let _ = t.join();
    if out.status.success() {
        Some(out.stdout)
    } else {
        None
    }
}

fn cut_points(s: &mut Src, n: usize) -> Vec<usize> {
    let k = if s.chance(1, 3) { s.urange(1, 4) } else { 0 };
    let mut v: Vec<usize> = (0..k).map(|_| s.below(n + 1)).collect();
    v.sort();
    v
}

/// data in the given format with random encoder settings; integrity: use checksums wherever optional
pub fn pack(s: &mut Src, codec: Codec, data: &[u8], integrity: bool) -> Packed {
    let mut p = Packed { bytes: vec![], how: String::new(), verified: true, block_verified: false, complete_at: vec![], parts: 0, blocks: 0 };
    let mut parts: Vec<&[u8]> = Vec::new();
    let cuts = match codec {
        Codec::Gz | Codec::Lz4Frame | Codec::Zst => cut_points(s, data.len()),
        _ => vec![],
    };
    let mut prev = 0;
    for c in cuts {
        parts.push(&data[prev..c]);
        prev = c;
    }
    parts.push(&data[prev..]);
    p.parts = parts.len();
    let cli = codec == Codec::Zst && s.chance(1, 40);
    let level = s.pick(&["-1", "-3", "-9", "-19"]).to_string();
    let mut lz4o = Lz4Opts {
        independent: true,
        block_checksums: s.bool(),
        content_checksum: integrity || s.bool(),
        content_size: s.bool(),
        bsize_code: 4 + s.below(4) as u8,
        block_len: 0,
        raw_rate: *s.pick(&[0u64, 0, 2, 10]),
        min_len: *s.pick(&[4usize, 4, 5, 12]),
        end_mark: true,
    };
    lz4o.block_len = match s.below(3) {
        0 => 1usize << (8 + 2 * lz4o.bsize_code as usize),
        1 => (20 + s.below(5000)).max(data.len() / 300 + 1),
        _ => 65536,
    };
    let compressible = data.len() < 13 || lz4_raw(data, 0, lz4o.min_len).len() < data.len();
    if codec == Codec::Lz4Frame && compressible && s.chance(1, 3) {
        // blocks that refer to earlier ones; all of them compressed
        lz4o.independent = false;
        lz4o.raw_rate = 0;
        lz4o.block_len = lz4o.block_len.min(40_000);
    }
    let checksum = integrity || s.bool();
    for (i, part) in parts.iter().enumerate() {
        let b = match codec {
            Codec::Gz => gz_member(s, part),
            Codec::Lz4Frame => lz4_frame(s, part, &lz4o, &mut p.blocks),
            Codec::Lz4Block => lz4_jblocks(s, part, &mut p.blocks),
            Codec::Lzf => lzf_chunks(s, part, &mut p.blocks),
            Codec::Zst => match if cli { zst_cli(&level, checksum, part) } else { None } {
                Some(b) => b,
                None => zst_frame(s, part, checksum, &mut p.blocks),
            },
            Codec::Zip => unreachable!(),
        };
        if i > 0 {
            p.complete_at.push(p.bytes.len());
        }
        p.bytes.extend(b);
    }
    match codec {
        Codec::Gz => {}
        Codec::Lz4Frame => {
            p.verified = lz4o.content_checksum || lz4o.block_checksums;
            p.block_verified = lz4o.block_checksums;
        }
        Codec::Lz4Block => p.block_verified = true,
        Codec::Lzf => p.verified = false,
        Codec::Zst => p.verified = checksum,
        Codec::Zip => {}
    }
    if codec != Codec::Zst || !cli {
        // nothing
    }
    p.how = format!(
        "{} of {} bytes in {} parts, {} blocks{}{}",
        codec_name(codec),
        data.len(),
        p.parts,
        p.blocks,
        if p.verified { ", checksummed" } else { "" },
        if codec == Codec::Lz4Frame && !lz4o.independent { ", linked blocks" } else { "" }
    );
    p
}

/// content that exercises encoders: empty, tiny, runs, text, noise, repeats across blocks
pub fn gen_bytes(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.weighted(&[1, 4, 3, 2]) {
        0 => 0,
        1 => s.below(200),
        2 => s.below(max.min(20_000)),
        _ => s.below(max),
    };
    let mut o = Vec::with_capacity(n);
    let kind = s.below(4);
    let mut rng = crate::engine::Rng::new(s.draw(u64::MAX));
    while o.len() < n {
        let k = if kind == 3 { rng.next() % 3 } else { kind as u64 };
        match k {
            0 => {
                // words
                let w = rng.next() % 50;
                o.extend_from_slice(format!("word{},", w).as_bytes());
            }
            1 => {
                let b = rng.next() as u8;
                let l = 1 + (rng.next() % 700) as usize;
                o.extend(std::iter::repeat(b).take(l));
            }
            _ => {
                for _ in 0..(1 + rng.next() % 300) {
                    o.push(rng.next() as u8);
                }
            }
        }
        if rng.next() % 20 == 0 && o.len() > 50 {
            // copy from far behind
            let back = (rng.next() as usize) % o.len() + 1;
            let st = o.len() - back;
            let l = back.min(2000);
            let c = o[st..st + l].to_vec();
            o.extend(c);
        }
    }
    o.truncate(n);
    o
}
