//! C17, C18, C19: compressed inputs.
use std::io::{Cursor, Read};

use chopper::decompress::decompress;
use chopper::decompress::zip::{is_zip, new_reader_for_single_file_zip_archive};
use chopper::input::input::InputFormat;
use chopper::util::reader::ChopperBufPreviewer;

use crate::comp::*;

use crate::dcfmt::DcFile;
use crate::engine::*;
use crate::gen::*;
use crate::memio::*;
use crate::model::*;
use crate::zipw::*;

/// reads to the end or error with the given request sizes; also asks again after the end
pub fn read_all(r: &mut dyn Read, req: &Chunking, limit: usize) -> Result<(Vec<u8>, Option<String>), String> {
    let mut out = Vec::new();
    let mut buf = vec![0u8; 16384];
    let mut step = 0;
    let mut idle = 0;
    loop {
        let n = match req {
            Chunking::Whole => 8192,
            Chunking::Fixed(n) => *n,
            Chunking::Cycle(v) => {
                step += 1;
                v[(step - 1) % v.len()]
            }
        };
        let n = n.clamp(1, buf.len());
        match r.read(&mut buf[..n]) {
            Ok(0) => {
                idle += 1;
                if idle > 1 {
                    return Ok((out, None));
                }
            }
            Ok(k) => {
                if idle > 0 {
                    return Err("data after the end of the stream was reported".into());
                }
                if k > n {
                    return Err("more bytes reported than requested".into());
                }
                out.extend_from_slice(&buf[..k]);
                if out.len() > limit {
                    return Err("runaway: output much larger than the contents".into());
                }
            }
            Err(e) => {
                // after the end of damaged data the decoder may still notice the damage
                return Ok((out, Some(e.to_string())));
            }
        }
    }
}

/// decompress through the public functions; by_name: recognise by file name, else by content
pub fn decode_stream(f: MemFile, req: &Chunking, codec: Codec, by_name: bool, limit: usize) -> Result<(Vec<u8>, Option<String>), String> {
    let p = match ChopperBufPreviewer::new(Box::new(f.reader()) as Box<dyn Read>) {
        Ok(p) => p,
        Err(e) => return Ok((vec![], Some(e.to_string()))),
    };
    let fmt = if by_name {
        let name = format!("some.name{}", suffix(codec));
        match decompress::is_compressed_using_format(&name) {
            Some((f, rest)) => {
                if rest != "some.name" {
                    return Err(format!("{:?} without its compression suffix became {:?}", name, rest));
                }
                f
            }
            None => return Err(format!("{:?} not recognised as compressed", name)),
        }
    } else {
        match decompress::is_compressed_using_previewer(&p) {
            Some(f) => f,
            None => return Err("not recognised as compressed by content".into()),
        }
    };
    match decompress::decompress(fmt, p) {
        Err(e) => Ok((vec![], Some(err_text(&e)))),
        Ok(mut r) => read_all(&mut r, req, limit),
    }
}

fn same_bytes(want: &[u8], got: &[u8], err: &Option<String>) -> Outcome {
    if let Some(e) = err {
        return Err(format!("error after {} of {} bytes: {}", got.len(), want.len(), e));
    }
    if want != got {
        let i = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        return Err(format!("{} bytes instead of {}, first difference at {}", got.len(), want.len(), i));
    }
    Ok(())
}

fn c17_bytes(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let max = if s.chance(1, 12) { 600_000 } else { 60_000 };
    let codec = *s.pick(&STREAM_CODECS);
    let data = gen_bytes(s, max);
    let p = pack(s, codec, &data, false);
    let ch = gen_chunking(s, p.bytes.len());
    let req = gen_chunking(s, data.len());
    let by_name = s.bool() || p.bytes.len() < 4;
    ctx.describe(|| format!("{}; arrival {:?}; requests {:?}; recognised by {}", p.how, ch, req, if by_name { "name" } else { "content" }));
    ctx.nontrivial = !data.is_empty();
    ctx.label(codec_name(codec));
    ctx.label_if(p.parts > 1, "several members or frames");
    ctx.label_if(p.blocks > 1, "several blocks");
    ctx.label_if(data.is_empty(), "empty contents");
    ctx.label_if(p.how.contains("linked"), "linked blocks");
    ctx.label_if(data.len() > 65536, "over 64 kB");
    let (got, err) = decode_stream(MemFile::new(p.bytes.clone(), ch), &req, codec, by_name, data.len() + 1_000_000)?;
    same_bytes(&data, &got, &err).map_err(|e| format!("{}: {}", codec_name(codec), e))
}

/// contents of megabytes
fn c17_large(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let codec = *s.pick(&STREAM_CODECS);
    let n = match s.below(3) {
        0 => ((1usize << s.urange(20, 24)) + s.below(200)).saturating_sub(100),
        1 => s.urange(600_000, 20_000_000),
        _ => s.urange(600_000, 4_000_000),
    };
    let mut data = gen_bytes(s, 600_000);
    if data.is_empty() {
        data.push(b'x');
    }
    // repetitions of a part, each a little different
    let part = data.clone();
    let mut i = 0u64;
    while data.len() < n {
        i += 1;
        data.extend_from_slice(&hash_parts(&[&i.to_le_bytes()]).to_le_bytes());
        data.extend_from_slice(&part);
    }
    data.truncate(n);
    let p = pack(s, codec, &data, false);
    ctx.describe(|| format!("{} bytes; {}", n, p.how));
    ctx.nontrivial = true;
    ctx.label(codec_name(codec));
    let (got, err) = decode_stream(MemFile::whole(p.bytes.clone()), &Chunking::Whole, codec, s.bool(), data.len() + 1_000_000)?;
    same_bytes(&data, &got, &err).map_err(|e| format!("{}: {}", codec_name(codec), e))
}

/// the combination the LZ4 library is known to get wrong
fn c17_linked_raw(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let unit = ascii_word(s, 20, 60);
    let mut data = Vec::new();
    while data.len() < 300 {
        data.extend_from_slice(unit.as_bytes());
    }
    let o = |raw_rate: u64| Lz4Opts {
        independent: false,
        block_checksums: false,
        content_checksum: true,
        content_size: false,
        bsize_code: 4,
        block_len: 100,
        raw_rate,
        min_len: 4,
        end_mark: true,
    };
    let mut b = 0;
    let bytes = lz4_frame(s, &data, &o(5), &mut b);
    ctx.describe(|| format!("lz4 frame with linked blocks, some of them stored: {} bytes in {} blocks", data.len(), b));
    ctx.nontrivial = true;
    let r = guard(|| decode_stream(MemFile::whole(bytes), &Chunking::Whole, Codec::Lz4Frame, true, 1 << 20));
    let fail = |m: String| Err(format!("lz4 frame with linked blocks after a stored block: {}", m));
    match r {
        Err(p) => fail(p),
        Ok(Err(e)) => fail(e),
        Ok(Ok((got, err))) => match same_bytes(&data, &got, &err) {
            Ok(()) => Ok(()),
            Err(e) => fail(e),
        },
    }
}

/// a small CSV or DC document with a known table
pub struct Doc {
    pub table: Table,
    pub bytes: Vec<u8>,
    pub ext: &'static str,
}

/// CSV with epoch nanoseconds in column 0, or DC; readable with `csv_cfg_ns(Some(","), Yes)`
pub fn gen_doc(s: &mut Src, max_rows: usize, avg: u64) -> Doc {
    if s.bool() {
        let t = gen_table(s, max_rows, avg, false);
        let bytes = DcFile::from_table(&t).encode();
        return Doc { table: t, bytes, ext: ".dc" };
    }
    let ncols = s.urange(1, 5);
    let mut t = Table::default();
    t.names.push("timestamp".into());
    for i in 0..ncols {
        t.names.push(format!("c{}", i));
    }
    t.types = vec![Ty::Str; ncols + 1];
    let rows = s.many(0, max_rows, avg, |s| (0..ncols).map(|_| ascii_word(s, 0, 8)).collect::<Vec<_>>());
    let ts = gen_timestamps(s, rows.len());
    let mut text = t.names.join(",");
    text.push('\n');
    for (r, ts) in rows.iter().zip(&ts) {
        text.push_str(&format!("{},{}\n", ts, r.join(",")));
        let mut vals = vec![Val::Str(ts.to_string())];
        vals.extend(r.iter().map(|c| Val::Str(c.clone())));
        t.rows.push(MRow { ts: *ts, vals });
    }
    Doc { table: t, bytes: text.into_bytes(), ext: ".csv" }
}

/// how the compression is recognised
pub fn gen_way(s: &mut Src, codec: Codec, ext: &str, empty: bool) -> (String, InputFormat, &'static str) {
    let sfx = suffix(codec);
    match s.below(if empty { 2 } else { 4 }) {
        0 => (format!("data{}{}", ext, sfx), InputFormat::Auto, "by name"),
        1 => {
            let f = format!("{}{}", ext, sfx);
            let f = if s.bool() { f } else { f[1..].to_string() };
            (s.pick(&["data", "data.bin", "x.dc", "y.csv", "z.gz"]).to_string(), InputFormat::Extension(f), "by explicit format")
        }
        2 => (s.pick(&["data", "data.bin", "gz"]).to_string(), InputFormat::Auto, "by content"),
        _ => (format!("data{}", sfx), InputFormat::Auto, "compression by name, format by content"),
    }
}

pub fn doc_cfg() -> chopper::source::csv_configs::CSVInputConfig {
    csv_cfg_ns(Some(","), chopper::cli::util::YesNoAuto::Yes)
}

fn c17_rows(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (mr, av) = if s.chance(1, 10) { (3000, 800) } else { (60, 8) };
    let doc = gen_doc(s, mr, av);
    let codec = *s.pick(&STREAM_CODECS);
    let p = pack(s, codec, &doc.bytes, false);
    let (name, format, way) = gen_way(s, codec, doc.ext, false);
    let real = s.chance(1, 10);
    let ch = gen_chunking(s, p.bytes.len());
    ctx.describe(|| format!("{} as {:?} {:?} ({}); {}; {} rows", doc.ext, name, format, way, p.how, doc.table.rows.len()));
    ctx.nontrivial = !doc.table.rows.is_empty();
    ctx.label(codec_name(codec));
    ctx.label(way);
    ctx.label(doc.ext);
    let d = if real {
        let f = ctx.file(&name);
        std::fs::write(&f, &p.bytes).map_err(|e| format!("harness: {}", e))?;
        drain(open_with(doc_cfg(), None, None, f.to_str().unwrap(), format))?
    } else {
        drain(open_mem(doc_cfg(), &name, MemFile::new(p.bytes.clone(), ch), format))?
    };
    crate::p_dc::expect_table(&doc.table, &d).map_err(|e| format!("{} {}: {}", codec_name(codec), way, e))
}

fn c17_zip(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (mr, av) = if s.chance(1, 10) { (3000, 800) } else { (60, 8) };
    let doc = gen_doc(s, mr, av);
    let method = *s.pick(&[0u16, 8, 12]);
    let inner_named = s.bool();
    let member_name = if inner_named { format!("inner/data{}", doc.ext) } else { "data".to_string() };
    let mut m = gen_member(s, &member_name, doc.bytes.clone());
    m.method = method;
    let z = gen_zip(s, m, false);
    let b = build(s, &z);
    let outer = s.pick(&["a.zip", "a", "a.csv", "a.dc", "a.gz"]).to_string();
    let format = if s.chance(1, 4) { InputFormat::Extension(doc.ext.to_string()) } else { InputFormat::Auto };
    let f = ctx.file(&outer);
    std::fs::write(&f, &b.bytes).map_err(|e| format!("harness: {}", e))?;
    ctx.describe(|| format!("zip {:?} member {:?} method {} {} bytes format {:?}", outer, member_name, method, doc.bytes.len(), format));
    ctx.nontrivial = !doc.table.rows.is_empty();
    ctx.label(match method {
        0 => "stored",
        8 => "deflate",
        _ => "bzip2",
    });
    let d = drain(open_with(doc_cfg(), None, None, f.to_str().unwrap(), format));
    let _ = std::fs::remove_file(&f);
    crate::p_dc::expect_table(&doc.table, &d?)
}

/// streams from the real encoder, at all levels
fn c17_zstd(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let max = if s.chance(1, 3) { 700_000 } else { 60_000 };
    let data = gen_bytes(s, max);
    let level = format!("-{}", s.urange(1, 19));
    let check = s.bool();
    let bytes = match zst_cli(&level, check, &data) {
        Some(b) => b,
        None => return Ok(()),
    };
    let ch = gen_chunking(s, bytes.len());
    let req = gen_chunking(s, data.len());
    ctx.describe(|| format!("zstd {} {} bytes; arrival {:?}; requests {:?}", level, data.len(), ch, req));
    ctx.nontrivial = !data.is_empty();
    let (got, err) = decode_stream(MemFile::new(bytes, ch), &req, Codec::Zst, s.bool(), data.len() + 1_000_000)?;
    same_bytes(&data, &got, &err)
}

// ---------------------------------------------------------------- C18

/// damage: description, damaged bytes
pub fn damage(s: &mut Src, p: &Packed, codec: Codec, truncate_only: bool) -> (String, Vec<u8>) {
    let n = p.bytes.len();
    if truncate_only || s.chance(1, 3) {
        let cut = match s.below(3) {
            0 => s.below(n),
            1 => n - 1 - s.below(n.min(20)),
            _ => match p.complete_at.first() {
                Some(c) => (c + 1 + s.below(25)).min(n - 1),
                None => s.below(n),
            },
        };
        return (format!("cut to {} of {} bytes", cut, n), p.bytes[..cut].to_vec());
    }
    let mut b = p.bytes.clone();
    let mut d = Vec::new();
    for _ in 0..1 + s.below(3) {
        let n = b.len();
        match s.weighted(&[6, 1, 1, 3]) {
            3 => {
                // a field that was never written, or was blanked out
                // (short runs only: longer ones can rebuild a well-formed file out of anything)
                let fill = *s.pick(&[0u8, 0xff]);
                let (at, len) = match codec {
                    Codec::Zst => (n.saturating_sub(4), 4),
                    _ => match s.below(3) {
                        0 => (n.saturating_sub(8), *s.pick(&[4, 8])),
                        1 => (n.saturating_sub(4 + s.below(20)), *s.pick(&[4, 2, 1, 3])),
                        _ => (s.below(n), *s.pick(&[4, 2, 1, 3])),
                    },
                };
                for x in b.iter_mut().skip(at).take(len) {
                    *x = fill;
                }
                d.push(format!("{} bytes from {} set to {:#x}", len, at, fill));
            }
            0 => {
                let at = match s.below(3) {
                    0 => s.below(n),
                    1 => s.below(n.min(40)),
                    _ => n - 1 - s.below(n.min(16)),
                };
                let x = match s.below(2) {
                    0 => 1u8 << s.below(8),
                    _ => 1 + s.below(255) as u8,
                };
                b[at] ^= x;
                d.push(format!("byte {} xor {:#x}", at, x));
            }
            1 => {
                let at = s.below(b.len());
                b.remove(at);
                d.push(format!("byte {} removed", at));
                if b.is_empty() {
                    break;
                }
            }
            _ => {
                let at = s.below(b.len() + 1);
                b.insert(at, s.draw(255) as u8);
                d.push(format!("byte inserted at {}", at));
            }
        }
    }
    mask_sizes(&mut b, codec);
    (d.join(", "), b)
}

/// keeps declared block sizes small enough that the test itself does not run out of memory
pub fn mask_sizes(b: &mut Vec<u8>, codec: Codec) {
    if codec == Codec::Lz4Block {
        let mut i = 0;
        while i + 13 <= b.len() {
            if &b[i..i + 8] == b"LZ4Block" {
                b[i + 12] &= 0;
                b[i + 11] &= 0x3f;
            }
            i += 1;
        }
    }
}

/// the damage turned a block into an end mark (both of its sizes zero), which ends an lz4 block
/// stream; nothing that follows is part of it, as far as the format can tell
fn forged_end_mark(codec: Codec, good: &[u8], bad: &[u8]) -> bool {
    if codec != Codec::Lz4Block {
        return false;
    }
    let first = |b: &[u8]| (0..b.len().saturating_sub(16)).find(|&i| &b[i..i + 8] == b"LZ4Block" && b[i + 9..i + 17] == [0; 8]);
    match (first(good), first(bad)) {
        (Some(g), Some(b)) => b < g,
        (None, Some(_)) => true,
        _ => false,
    }
}

fn check_damaged(s: &mut Src, ctx: &mut Ctx, truncate_only: bool) -> Outcome {
    let codec = *s.pick(&[Codec::Gz, Codec::Lz4Frame, Codec::Lz4Block, Codec::Zst]);
    let data = gen_bytes(s, 3000);
    let p = pack(s, codec, &data, true);
    let (what, bad) = damage(s, &p, codec, truncate_only);
    let ch = gen_chunking(s, bad.len());
    let req = gen_chunking(s, data.len());
    ctx.describe(|| format!("{}; {}; arrival {:?}; requests {:?}", p.how, what, ch, req));
    ctx.nontrivial = bad != p.bytes;
    ctx.label(codec_name(codec));
    // a cut between members leaves a complete file; nothing in the format can tell
    if p.complete_at.contains(&bad.len()) && p.bytes.starts_with(&bad) {
        return Ok(());
    }
    let r = guard(|| decode_stream(MemFile::new(bad.clone(), ch), &req, codec, true, 40_000_000));
    let pre = format!("{} {}", codec_name(codec), what);
    let (got, err) = match r {
        Err(panic) => return Err(format!("damaged input crashes the decoder: {} ({})", panic, pre)),
        Ok(r) => r.map_err(|e| format!("{}: {}", pre, e))?,
    };
    match err {
        None => {
            ctx.label("damage had no effect on the contents");
            if forged_end_mark(codec, &p.bytes, &bad) {
                ctx.label("damage forms an end mark");
                if p.block_verified && !data.starts_with(&got) {
                    return Err(format!("{}: {} bytes delivered are not a prefix of the contents", pre, got.len()));
                }
                return Ok(());
            }
            if got != data {
                return Err(format!("{}: reading succeeded with {} bytes, the contents are {} bytes", pre, got.len(), data.len()));
            }
        }
        Some(_) => {
            ctx.label("damage reported");
            // lz4 frame: block checksums do not cover the sizes and the "stored" flag
            if p.block_verified && codec != Codec::Lz4Frame && !data.starts_with(&got) {
                return Err(format!("{}: {} bytes delivered before the error are not a prefix of the contents", pre, got.len()));
            }
        }
    }
    Ok(())
}

fn c18_alter(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    check_damaged(s, ctx, false)
}

fn c18_cut(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    check_damaged(s, ctx, true)
}

/// all cut points of one small file
fn c18_all_cuts(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let codec = *s.pick(&[Codec::Gz, Codec::Lz4Frame, Codec::Lz4Block, Codec::Zst]);
    let data = gen_bytes(s, 400);
    let p = pack(s, codec, &data, true);
    ctx.describe(|| format!("every cut of {}", p.how));
    ctx.nontrivial = !data.is_empty();
    ctx.label(codec_name(codec));
    for cut in 0..p.bytes.len() {
        if p.complete_at.contains(&cut) {
            continue;
        }
        ctx.extra_evals += 1;
        let (got, err) = match guard(|| decode_stream(MemFile::whole(p.bytes[..cut].to_vec()), &Chunking::Whole, codec, true, 10_000_000)) {
            Err(panic) => return Err(format!("damaged input crashes the decoder: {} ({} cut to {})", panic, codec_name(codec), cut)),
            Ok(r) => r?,
        };
        if err.is_none() && got != data {
            return Err(format!("{} cut to {} of {} bytes reads as {} of {} bytes without an error", codec_name(codec), cut, p.bytes.len(), got.len(), data.len()));
        }
        if p.block_verified && !data.starts_with(&got) {
            return Err(format!("{} cut to {}: bytes before the error are not a prefix", codec_name(codec), cut));
        }
    }
    Ok(())
}

fn read_zip(bytes: Vec<u8>, req: &Chunking) -> Result<(Vec<u8>, Option<String>, Option<String>), String> {
    match new_reader_for_single_file_zip_archive(Cursor::new(bytes)) {
        Err(e) => Ok((vec![], Some(e.to_string()), None)),
        Ok((mut r, name)) => {
            let (b, e) = read_all(&mut r, req, 50_000_000)?;
            Ok((b, e, Some(name)))
        }
    }
}

/// payload or checksum of a zip member altered, or the archive cut short
fn c18_zip(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_bytes(s, 3000);
    let m = gen_member(s, "data.csv", data.clone());
    let method = m.method;
    let z = gen_zip(s, m, true);
    let b = build(s, &z);
    let mut bad = b.bytes.clone();
    let (start, len) = b.data_at[0];
    let what;
    match s.below(4) {
        0 if len > 0 => {
            let at = start + s.below(len);
            let x = 1 + s.below(255) as u8;
            bad[at] ^= x;
            what = format!("data byte {} xor {:#x}", at - start, x);
        }
        3 if len > 0 => {
            // blanked checksum together with altered data
            let at = start + s.below(len);
            let x = 1 + s.below(255) as u8;
            bad[at] ^= x;
            let fill = *s.pick(&[0u8, 0xff]);
            let from = s.below(2) * 2;
            for i in from..4 {
                bad[b.cd_at + 16 + i] = fill;
            }
            what = format!("data byte {} xor {:#x}, checksum bytes {}.. set to {:#x}", at - start, x, from, fill);
        }
        1 => {
            // checksum in the central directory
            let at = b.cd_at + 16 + s.below(4);
            bad[at] ^= 1 + s.below(255) as u8;
            what = format!("checksum byte {} changed", at);
        }
        _ => {
            let cut = s.below(bad.len());
            // a cut inside of the comment leaves the end record readable
            if cut >= b.end_at + 22 {
                bad.truncate(b.end_at);
                what = "end record cut off".to_string();
            } else {
                bad.truncate(cut);
                what = format!("cut to {} of {}", cut, b.bytes.len());
            }
        }
    }
    let forged = match bad.get(b.cd_at + 16..b.cd_at + 20) {
        Some(c) => Some(u32::from_le_bytes([c[0], c[1], c[2], c[3]])),
        None => None,
    };
    let req = gen_chunking(s, data.len());
    ctx.describe(|| format!("zip method {} of {} bytes, {}", method, data.len(), what));
    ctx.nontrivial = true;
    let r = match guard(|| read_zip(bad, &req)) {
        Err(p) => return Err(format!("damaged input crashes the decoder: {} (zip {})", p, what)),
        Ok(r) => r?,
    };
    if r.1.is_none() && r.0 != data && Some(crc32(&r.0)) == forged {
        // altered data together with the checksum that belongs to it
        ctx.label("checksum forged");
        return Ok(());
    }
    if r.1.is_none() && r.0 != data {
        return Err(format!("zip method {}: {}: reading succeeded with {} bytes, the contents are {} bytes", method, what, r.0.len(), data.len()));
    }
    Ok(())
}

/// the same through the whole input path: rows delivered before the error are rows of the contents
fn c18_rows(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let doc = gen_doc(s, 200, 30);
    let codec = *s.pick(&[Codec::Gz, Codec::Lz4Frame, Codec::Lz4Block, Codec::Zst]);
    let p = pack(s, codec, &doc.bytes, true);
    let (what, bad) = damage(s, &p, codec, false);
    let ch = gen_chunking(s, bad.len());
    ctx.describe(|| format!("{} {}; {}", doc.ext, p.how, what));
    ctx.nontrivial = bad != p.bytes && !doc.table.rows.is_empty();
    if p.complete_at.contains(&bad.len()) && p.bytes.starts_with(&bad) {
        return Ok(());
    }
    let name = format!("data{}{}", doc.ext, suffix(codec));
    if forged_end_mark(codec, &p.bytes, &bad) {
        return Ok(());
    }
    let d = match guard(|| drain(open_mem(doc_cfg(), &name, MemFile::new(bad, ch), InputFormat::Auto))) {
        Err(panic) => return Err(format!("damaged input crashes the decoder: {} ({} {})", panic, codec_name(codec), what)),
        Ok(r) => r?,
    };
    let pre = format!("{} {}", codec_name(codec), what);
    if d.err.is_none() {
        return crate::p_dc::expect_table(&doc.table, &d).map_err(|e| format!("{}: read without an error, but {}", pre, e));
    }
    if p.block_verified && codec != Codec::Lz4Frame && !d.open_failed {
        let n = d.rows.len();
        if n > doc.table.rows.len() {
            return Err(format!("{}: {} rows before the error, contents have {}", pre, n, doc.table.rows.len()));
        }
        diff_rows(&doc.table.rows[..n], &d.rows).map_err(|e| format!("{}: before the error: {}", pre, e))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C19

fn show_spec(z: &ZipSpec) -> String {
    let m: Vec<String> = z
        .members
        .iter()
        .map(|m| {
            format!(
                "{:?} method {} {} bytes flags {:#x} descriptor {} extra {}/{}+{} comment {} zip64 {:#b}/{}",
                String::from_utf8_lossy(&m.name),
                m.method,
                m.data.len(),
                m.flags,
                m.data_descriptor,
                m.local_extra.len(),
                m.central_extra_before.len(),
                m.central_extra_after.len(),
                m.comment.len(),
                m.zip64_bits,
                m.zip64_local
            )
        })
        .collect();
    format!(
        "prefix {} members [{}] gaps {}/{} comment {} zip64 end {} ones {:#b}",
        z.prefix.len(),
        m.join("; "),
        z.gap_before_cd.len(),
        z.gap_before_end.len(),
        z.comment.len(),
        z.zip64_end,
        z.ones
    )
}

fn c19_layout(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = if s.chance(1, 300) {
        // compressed to more than a megabyte
        let mut d = gen_bytes(s, 1000);
        let n = s.urange(900_000, 3_000_000);
        let mut rng = Rng::new(s.draw(u64::MAX));
        while d.len() < n {
            d.extend_from_slice(&rng.next().to_le_bytes());
        }
        d
    } else {
        let max = if s.chance(1, 15) { 300_000 } else { 3000 };
        gen_bytes(s, max)
    };
    let name = s.pick(&["data.csv", "a", "dir/inner.dc", "späte Größe.csv", "x y.csv.gz", "中文.dc"]).to_string();
    let m = gen_member(s, &name, data.clone());
    let z = gen_zip(s, m, true);
    let b = build(s, &z);
    let req = gen_chunking(s, data.len());
    ctx.describe(|| show_spec(&z));
    ctx.nontrivial = !z.comment.is_empty() || z.zip64_end || !z.prefix.is_empty() || z.members[0].data_descriptor || z.members[0].zip64_bits != 0;
    ctx.label_if(z.zip64_end, "zip64 end records");
    ctx.label_if(z.members[0].zip64_bits != 0, "zip64 extra field");
    ctx.label_if(!z.comment.is_empty(), "archive comment");
    ctx.label_if(z.comment.windows(4).any(|w| w == b"PK\x05\x06"), "end signature inside the comment");
    ctx.label_if(!z.prefix.is_empty(), "prefix");
    ctx.label_if(!z.gap_before_cd.is_empty() || !z.gap_before_end.is_empty(), "gaps");
    ctx.label_if(z.members[0].data_descriptor, "data descriptor");
    let (got, err, gname) = read_zip(b.bytes.clone(), &req)?;
    same_bytes(&data, &got, &err)?;
    if gname.as_deref() != Some(name.as_str()) {
        return Err(format!("member name {:?} read as {:?}", name, gname));
    }
    let zip = is_zip(&mut Cursor::new(b.bytes.clone())).map_err(|e| e.to_string())?;
    if zip != z.prefix.is_empty() {
        // a prefix may itself start with the signature
        if !b.bytes.starts_with(b"PK\x03\x04") || !zip {
            return Err(format!("is_zip answers {}", zip));
        }
    }
    Ok(())
}

/// archives of several gigabytes, most of it holes; the records that need it in their zip64 form
fn c19_far(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_bytes(s, 3000);
    let name = "data.csv".to_string();
    let mut m = gen_member(s, &name, data.clone());
    let mut holes = [0u64; 4];
    let big = |s: &mut Src| match s.below(4) {
        0 => (1u64 << 32) - 400 + s.draw(500),
        1 => (1 << 31) - 400 + s.draw(500),
        2 => s.draw(1 << 36),
        _ => 5_000_000_000 + s.draw(1 << 20),
    };
    for _ in 0..1 + s.below(2) {
        let i = *s.pick(&[0usize, 2, 3]);
        holes[i] = big(s);
    }
    let mut z = {
        m.zip64_bits |= 4;
        gen_zip(s, m, true)
    };
    z.holes = holes;
    let far = holes[0] + holes[2];
    let mut b = build(s, &z);
    // where a field would not fit, the zip64 form is needed; otherwise this archive is the one
    // (packed anew it might be longer)
    if far + b.bytes.len() as u64 >= 0xffff_ffff {
        z.zip64_end = true;
        z.ones |= 8;
        b = build(s, &z);
    }
    ctx.nontrivial = true;
    ctx.label_if(holes[0] >= 1 << 32, "member beyond 4 GB");
    ctx.label_if(far >= 1 << 32, "central directory beyond 4 GB");
    ctx.label_if(holes[3] >= 1 << 32 || far >= 1 << 32, "end records beyond 4 GB");
    ctx.describe(|| format!("{} holes {:?}", show_spec(&z), holes));
    let req = gen_chunking(s, data.len());
    let r = Sparse { bytes: b.bytes, holes: b.holes, pos: 0 };
    match new_reader_for_single_file_zip_archive(r) {
        Err(e) => Err(format!("rejected: {}", e)),
        Ok((mut r, n)) => {
            let (got, err) = read_all(&mut r, &req, 50_000_000)?;
            same_bytes(&data, &got, &err)?;
            if n != name {
                return Err(format!("member name {:?} read as {:?}", name, n));
            }
            Ok(())
        }
    }
}

/// a stored member of several gigabytes
fn c19_giant(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_bytes(s, 3000);
    let mut m = gen_member(s, "giant.csv", data.clone());
    m.method = 0;
    m.zip64_bits |= 7;
    let hole = match s.below(3) {
        0 => (1u64 << 32) + s.draw(5000),
        1 => (1u64 << 31) + s.draw(5000),
        _ => (1 << 32) + (1 << 28) + s.draw(1 << 20),
    };
    let mut z = gen_zip(s, m, true);
    z.holes[1] = hole;
    z.zip64_end = true;
    z.ones |= 8;
    let damage = s.chance(1, 3);
    if damage {
        z.members[0].crc_xor = 1;
    }
    let b = build(s, &z);
    ctx.nontrivial = true;
    ctx.label(if damage { "wrong checksum" } else { "intact" });
    ctx.describe(|| format!("stored member of {} + {} bytes{}", data.len(), hole, if damage { ", wrong checksum" } else { "" }));
    let r = Sparse { bytes: b.bytes, holes: b.holes, pos: 0 };
    let (mut r, _) = new_reader_for_single_file_zip_archive(r).map_err(|e| format!("rejected: {}", e))?;
    let mut buf = vec![0u8; 1 << 20];
    let mut n = 0u64;
    let res = loop {
        match r.read(&mut buf) {
            Ok(0) => break Ok(()),
            Ok(k) => {
                let d = (n as usize).min(data.len());
                let part = &data[d..(d + k).min(data.len())];
                if buf[..part.len()] != *part || buf[part.len()..k].iter().any(|b| *b != 0) {
                    return Err(format!("wrong contents after byte {}", n));
                }
                n += k as u64;
            }
            Err(e) => break Err(e.to_string()),
        }
    };
    match (res, damage) {
        (Ok(()), false) if n == data.len() as u64 + hole => Ok(()),
        (Err(_), true) => Ok(()),
        (r, _) => Err(format!("{} of {} bytes, {:?}", n, data.len() as u64 + hole, r)),
    }
}

fn c19_reject(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_bytes(s, 500);
    let m = gen_member(s, "data.csv", data.clone());
    let mut z = gen_zip(s, m, true);
    let what;
    let mut patch: Option<(usize, Vec<u8>)> = None; // relative kinds applied after build
    let k = s.below(11);
    match k {
        0 => {
            z.members.clear();
            what = "no members";
        }
        1 => {
            let n = 1 + s.below(3);
            for i in 0..n {
                let m2 = gen_member(s, &format!("m{}.csv", i), gen_small(i));
                z.members.push(m2);
            }
            what = "several members";
        }
        2 => {
            z.members[0].flags |= 1;
            what = "encrypted";
        }
        3 => {
            // without zip64 records the old fields are the only ones
            z.zip64_end = false;
            if s.bool() {
                z.disk = *s.pick(&[1u16, 2, 5, 0x100, 0x8000, 0xfffe]);
            } else {
                z.cd_disk = *s.pick(&[1u16, 2, 5, 0x100, 0x8000, 0xfffe]);
            }
            what = "several disks in the end record";
        }
        4 => {
            z.zip64_end = true;
            match s.below(3) {
                0 => z.z64_disks = *s.pick(&[0u32, 2, 3, 100, 0x101, 0x1_0001, 0x8000_0001]),
                1 => z.z64_disk = *s.pick(&[1u32, 2, 3, 4, 0x100, 0x1_0000, 0x8000_0000, 0xffff_ffff]),
                // counts of which only a part looks right too
                _ => z.z64_count_delta = *s.pick(&[-1i64, 1, 2, 0xffff_ffff, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 3 << 32, 1 << 48, i64::MIN]),
            }
            what = "several disks or members in the zip64 records";
        }
        5 => {
            z.members[0].method = *s.pick(&[1u16, 2, 6, 7, 9, 10, 14, 93, 95, 98, 99, 0x0800, 0x0108]);
            what = "unsupported method";
        }
        6 => {
            z.members[0].disk_start = *s.pick(&[1u16, 2, 77, 0x100, 0x8000, 0xfffe]);
            what = "member on another disk";
        }
        7 => {
            z.zip64_end = false;
            match s.below(2) {
                0 => z.count_delta = *s.pick(&[-1, 1, 5, 0x100, 0x8000, 0xfffd]),
                _ => z.count_total_delta = *s.pick(&[-1, 1, 5, 0x100, 0x8000, 0xfffd]),
            }
            what = "inconsistent member counts";
        }
        8 => what = "local header signature",
        9 => what = "central header signature",
        _ => what = "archive cut inside of its directory",
    }
    let b = build(s, &z);
    let mut bytes = b.bytes;
    match k {
        8 => patch = Some((b.local_at[0] + s.below(4), vec![])),
        9 => patch = Some((b.cd_at + s.below(4), vec![])),
        10 => {
            let cut = b.cd_at + s.below(b.end_at + 22 - b.cd_at);
            bytes.truncate(cut);
        }
        _ => {}
    }
    if let Some((at, _)) = patch {
        bytes[at] ^= 1 + s.below(255) as u8;
    }
    ctx.describe(|| format!("{}: {}", what, show_spec(&z)));
    ctx.nontrivial = true;
    ctx.label(what);
    let (got, err, _) = read_zip(bytes.clone(), &Chunking::Whole)?;
    if err.is_none() {
        return Err(format!("{}: accepted, {} bytes read", what, got.len()));
    }
    if bytes.starts_with(b"PK\x03\x04") && s.chance(1, 4) {
        let f = ctx.file("bad.zip");
        std::fs::write(&f, &bytes).map_err(|e| e.to_string())?;
        let d = drain(open_with(doc_cfg(), None, None, f.to_str().unwrap(), InputFormat::Auto))?;
        if d.err.is_none() {
            return Err(format!("{}: opening the file succeeded", what));
        }
    }
    Ok(())
}

fn gen_small(i: usize) -> Vec<u8> {
    format!("member {}", i).into_bytes()
}

/// arbitrary damage to directory structures: an error or exactly some bytes, never a crash
fn c19_mutate(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_bytes(s, 300);
    let m = gen_member(s, "data.csv", data.clone());
    let mut z = gen_zip(s, m, true);
    // no complete records inside of fillers: an altered offset could make one of them the real one
    let m = &mut z.members[0];
    for v in [&mut m.local_extra, &mut m.central_extra_before, &mut m.central_extra_after, &mut m.comment, &mut z.prefix, &mut z.gap_before_cd, &mut z.gap_before_end, &mut z.comment, &mut z.zip64_ext] {
        v.iter_mut().filter(|b| **b == b'P').for_each(|b| *b = b'Q');
    }
    let b = build(s, &z);
    let mut bytes = b.bytes;
    let mut d = Vec::new();
    for _ in 0..1 + s.below(4) {
        let region = match s.below(3) {
            0 => (b.local_at[0], 30),
            1 => (b.cd_at, 46 + 8),
            _ => (b.cd_at, b.end_at + 22 - b.cd_at),
        };
        let at = (region.0 + s.below(region.1)).min(bytes.len() - 1);
        let v = match s.below(4) {
            0 => 0xff,
            1 => 0,
            2 => s.draw(255) as u8,
            _ => bytes[at].wrapping_add(1),
        };
        bytes[at] = v;
        d.push(format!("{}={:#x}", at, v));
    }
    ctx.describe(|| format!("{} with {}", show_spec(&z), d.join(" ")));
    ctx.nontrivial = true;
    let req = gen_chunking(s, 300);
    let (got, err, _) = read_zip(bytes, &req)?;
    ctx.label(if err.is_some() { "rejected" } else { "accepted" });
    // contents are covered by the checksum, so acceptance means the right contents
    if err.is_none() && got != data {
        // the checksum itself may have been altered together with the length; only an exact match of both passes
        return Err(format!("accepted with {} bytes that are not the contents ({} bytes)", got.len(), data.len()));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C17",
            level: "exploration",
            rule: "contents (text, runs, noise, far repeats; 0 bytes to 600 kB, up to 20 MB in the large family) encoded by the harness's own encoders with random settings, or CSV/DC documents compressed and recognised by name, content, explicit format or a mix; decoded bytes or rows compared with the original; non-trivial: contents are not empty",
            assumptions: &["deflate and bzip2 streams are produced by the flate2 and bzip2 libraries", "the zstd command, if installed, produces valid frames"],
            families: vec![
                Family { name: "bytes", f: c17_bytes, quick: 6_000, thorough: 200_000 },
                Family { name: "large", f: c17_large, quick: 40, thorough: 1_000 },
                Family { name: "rows", f: c17_rows, quick: 8_000, thorough: 250_000 },
                Family { name: "zip", f: c17_zip, quick: 4_000, thorough: 100_000 },
                Family { name: "zstd_cli", f: c17_zstd, quick: 300, thorough: 6_000 },
                Family { name: "linked_raw", f: c17_linked_raw, quick: 50, thorough: 500 },
            ],
        },
        Property {
            id: "C18",
            level: "exploration",
            rule: "valid gzip, zstd (content checksum), LZ4 frame (checksums), LZ4 block and zip inputs, cut at every or random positions or with 1-3 bytes altered, removed or inserted, read in random chunks; non-trivial: the damaged bytes differ from the original",
            assumptions: &["a cut exactly between members or frames leaves a valid file and is not damage", "32-bit checksums are not matched by chance", "declared LZ4 block sizes are kept under 4 MB when damaged"],
            families: vec![
                Family { name: "alter", f: c18_alter, quick: 60_000, thorough: 1_000_000 },
                Family { name: "cut", f: c18_cut, quick: 30_000, thorough: 300_000 },
                Family { name: "all_cuts", f: c18_all_cuts, quick: 150, thorough: 5_000 },
                Family { name: "zip", f: c18_zip, quick: 30_000, thorough: 300_000 },
                Family { name: "rows", f: c18_rows, quick: 24_000, thorough: 300_000 },
            ],
        },
        Property {
            id: "C19",
            level: "exploration",
            rule: "single-member archives with random prefix, gaps, comments (with embedded signatures), extra fields, data descriptors and zip64 records; members at offsets of several GB behind holes, and stored members of more than 4 GB (generated on the fly, never on disk); eleven kinds of archives to be rejected; random byte changes in the directory structures; non-trivial: any of these features present",
            assumptions: &["archive comments contain no complete consistent end record (ambiguous by format)", "offsets are absolute, also with prefix data"],
            families: vec![
                Family { name: "layout", f: c19_layout, quick: 15_000, thorough: 500_000 },
                Family { name: "far", f: c19_far, quick: 5_000, thorough: 200_000 },
                Family { name: "giant", f: c19_giant, quick: 4, thorough: 60 },
                Family { name: "reject", f: c19_reject, quick: 15_000, thorough: 500_000 },
                Family { name: "mutate", f: c19_mutate, quick: 15_000, thorough: 500_000 },
            ],
        },
    ]
}
