//! C05 streaming and memory, C06 read failures, C26 previews, C30 helpers.
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, BufRead, Cursor, ErrorKind, Read, Seek, SeekFrom};
use std::path::Path;
use std::rc::Rc;

use chopper::chopper::chopper::{DataSink, HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TimestampRange};
use chopper::decompress::zip::new_reader_for_single_file_zip_archive;
use chopper::error::{CliResult, Error};
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;
use chopper::input::input::InputFormat;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::csv_util::guess_common_type;
use chopper::util::file::are_contents_same;
use chopper::util::reader::{ChopperBufPreviewer, ChopperBufReader};
use chopper::util::remove_multiple::RemoveMultiple;

use crate::comp::*;
use crate::dcfmt::DcFile;
use crate::engine::*;
use crate::gen::*;
use crate::memio::*;
use crate::model::*;
use crate::p_comp::*;
use crate::p_driver::{c05_rows_family, merge_node, merged_graph, run_driver, split_node, ALL};
use crate::zipw::*;

// ---------------------------------------------------------------- C26

const PREVIEW: usize = 8192;

/// text and binary mixtures with lengths around the preview size
fn gen_preview_data(s: &mut Src) -> Vec<u8> {
    let target = match s.weighted(&[5, 4, 2, 2]) {
        0 => s.below(200),
        1 => (PREVIEW + s.below(9)).saturating_sub(4),
        2 => s.below(PREVIEW * 2),
        _ => *s.pick(&[1usize, 2, 3, 4]) * PREVIEW + s.below(6) - 3,
    };
    let kind = s.below(5);
    let mut v: Vec<u8> = Vec::new();
    let line_max = *s.pick(&[3usize, 20, 300, 9000]);
    while v.len() < target {
        let n = s.below(line_max);
        let unit: &[u8] = match kind {
            0 => b"abc,1;",
            1 => "é中😀".as_bytes(),
            2 => b"x\ry",
            _ => b"q",
        };
        let mut l: Vec<u8> = Vec::with_capacity(n + 4);
        while l.len() < n {
            l.extend_from_slice(unit);
        }
        if s.chance(1, 40) {
            l.push(*s.pick(&[0xffu8, 0x80, 0xc3, 0xe4, 0]));
        }
        match s.below(8) {
            0 => l.extend_from_slice(b"\r\n"),
            1 => l.extend_from_slice(b"\n\n"),
            2 => l.extend_from_slice(b"\r\r\n"),
            _ => l.push(b'\n'),
        }
        v.extend(l);
    }
    if s.chance(3, 4) {
        v.truncate(target);
    }
    v
}

/// acceptable line previews; None: not offered
fn ref_lines(data: &[u8]) -> Vec<Option<Vec<String>>> {
    let buf = &data[..data.len().min(PREVIEW)];
    let mut segs: Vec<&[u8]> = buf.split(|b| *b == b'\n').collect();
    let last = segs.pop().unwrap_or(&[]);
    let strip = |l: &[u8]| -> Option<String> {
        let l = if l.last() == Some(&b'\r') { &l[..l.len() - 1] } else { l };
        std::str::from_utf8(l).ok().map(|x| x.to_string())
    };
    let complete: Option<Vec<String>> = segs.iter().map(|l| strip(l)).collect();
    let mut out = Vec::new();
    let mut with = |l: Option<String>| {
        out.push(match (&complete, l) {
            (Some(c), Some(l)) => {
                let mut c = c.clone();
                c.push(l);
                Some(c)
            }
            _ => None,
        })
    };
    let seen_whole = data.len() <= PREVIEW;
    if !last.is_empty() && seen_whole {
        with(strip(last));
        with(std::str::from_utf8(last).ok().map(|x| x.to_string()));
    }
    if last.is_empty() || data.len() >= PREVIEW {
        // exactly the preview size: it is open whether the end was seen
        out.push(complete);
    }
    out
}

#[derive(Debug, Clone)]
enum ReadOp {
    Read(usize),
    Exact(usize),
    Fill(usize),
    UntilNl,
    ToEnd,
}

fn gen_read_ops(s: &mut Src) -> Vec<ReadOp> {
    s.many(0, 60, 10, |s| match s.weighted(&[4, 2, 4, 2]) {
        0 => ReadOp::Read(*s.pick(&[0usize, 1, 2, 100, 8191, 8192, 8193, 20000]) + s.below(4)),
        1 => ReadOp::Exact(s.below(3000)),
        2 => ReadOp::Fill(s.below(9000)),
        _ => ReadOp::UntilNl,
    })
}

fn run_read_ops<R: Read>(r: &mut ChopperBufReader<R>, ops: &[ReadOp], data: &[u8]) -> Outcome {
    let mut pos = 0;
    let same = |pos: &mut usize, got: &[u8], op: &ReadOp| -> Outcome {
        if *pos + got.len() > data.len() || &data[*pos..*pos + got.len()] != got {
            return Err(format!("after {} bytes, {:?} returned {} bytes that are not the next ones of {}", pos, op, got.len(), data.len()));
        }
        *pos += got.len();
        Ok(())
    };
    let io = |e: io::Error| format!("error: {}", e);
    for op in ops.iter().chain(&[ReadOp::ToEnd, ReadOp::Read(10), ReadOp::Fill(10), ReadOp::Read(9000)]) {
        match op {
            ReadOp::Read(n) => {
                let mut b = vec![0xAAu8; *n];
                let k = r.read(&mut b).map_err(io)?;
                if k > *n {
                    return Err(format!("read of {} returned {}", n, k));
                }
                if k == 0 && *n > 0 && pos < data.len() {
                    return Err(format!("end reported after {} of {} bytes", pos, data.len()));
                }
                same(&mut pos, &b[..k], op)?;
            }
            ReadOp::Exact(n) => {
                if pos + n > data.len() {
                    continue;
                }
                let mut b = vec![0u8; *n];
                r.read_exact(&mut b).map_err(io)?;
                same(&mut pos, &b, op)?;
            }
            ReadOp::Fill(n) => {
                let b = r.fill_buf().map_err(io)?.to_vec();
                if b.is_empty() && pos < data.len() {
                    return Err(format!("end reported by fill_buf after {} of {} bytes", pos, data.len()));
                }
                let b2 = r.fill_buf().map_err(io)?.to_vec();
                if b != b2 {
                    return Err("fill_buf without consume returned something else".into());
                }
                let k = (*n).min(b.len());
                r.consume(k);
                if pos + b.len() > data.len() || data[pos..pos + b.len()] != b[..] {
                    return Err(format!("after {} bytes, fill_buf shows other data than the next ones", pos));
                }
                pos += k;
            }
            ReadOp::UntilNl => {
                let mut b = Vec::new();
                r.read_until(b'\n', &mut b).map_err(io)?;
                same(&mut pos, &b, op)?;
            }
            ReadOp::ToEnd => {
                let mut b = Vec::new();
                r.read_to_end(&mut b).map_err(io)?;
                same(&mut pos, &b, op)?;
                if pos != data.len() {
                    return Err(format!("end after {} of {} bytes", pos, data.len()));
                }
            }
        }
    }
    Ok(())
}

fn c26_preview(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_preview_data(s);
    let ch = gen_chunking(s, data.len());
    let ops = gen_read_ops(s);
    let f = MemFile::new(data.clone(), ch.clone());
    ctx.describe(|| format!("{} bytes, arrival {:?}, then {:?}", data.len(), ch, ops));
    ctx.nontrivial = !data.is_empty();
    ctx.label_if(data.len() > PREVIEW, "longer than the preview");
    ctx.label_if(data.len() == PREVIEW, "exactly the preview size");
    let p = ChopperBufPreviewer::new(f.reader()).map_err(|e| e.to_string())?;
    let want = &data[..data.len().min(PREVIEW)];
    let got: &[u8] = p.get_buf();
    if got != want {
        return Err(format!("preview has {} bytes, expected the first {}", got.len(), want.len()));
    }
    let acc = ref_lines(&data);
    if !acc.contains(p.get_lines()) {
        return Err(format!(
            "lines offered: {}; expected {}",
            truncate(&format!("{:?}", p.get_lines()), 300),
            truncate(&format!("{:?}", acc[0]), 300)
        ));
    }
    ctx.label_if(acc[0].is_none(), "no lines offered");
    let mut r = p.get_reader();
    run_read_ops(&mut r, &ops, &data)
}

fn c26_reader(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_preview_data(s);
    let ch = gen_chunking(s, data.len());
    let cap = *s.pick(&[1usize, 2, 3, 7, 64, 1000, 8191, 8192, 8193, 30000]);
    let ops = gen_read_ops(s);
    let f = MemFile::new(data.clone(), ch.clone());
    ctx.describe(|| format!("reader with capacity {}: {} bytes, arrival {:?}, then {:?}", cap, data.len(), ch, ops));
    ctx.nontrivial = !data.is_empty();
    let mut r = if s.bool() { ChopperBufReader::with_capacity(cap, f.reader()) } else { ChopperBufReader::new(f.reader()) };
    run_read_ops(&mut r, &ops, &data)
}

/// the preview of an input that fails: the error is reported by the preview or by the later reads
fn c26_fault(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_preview_data(s);
    let pos = s.below(data.len() + 1);
    let ch = gen_chunking(s, data.len());
    ctx.describe(|| format!("{} bytes, arrival {:?}, fails at {}", data.len(), ch, pos));
    ctx.nontrivial = true;
    let f = MemFile::new(data.clone(), ch).with_fault(Fault { pos, kind: ErrorKind::Other, then: gen_then(s) });
    match ChopperBufPreviewer::new(f.reader()) {
        Err(_) => Ok(()),
        Ok(p) => {
            if pos < data.len().min(PREVIEW) {
                return Err("an input that failed within the preview was accepted".into());
            }
            let mut out = Vec::new();
            match p.get_reader().read_to_end(&mut out) {
                Ok(_) => Err(format!("read to the end with {} bytes although the input failed at {}", out.len(), pos)),
                Err(_) if data.starts_with(&out) => Ok(()),
                Err(_) => Err("bytes before the failure are not those of the input".into()),
            }
        }
    }
}

// ---------------------------------------------------------------- C30

fn c30_remove(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = match s.weighted(&[5, 2]) {
        0 => s.below(12),
        _ => s.below(80),
    };
    let rate = *s.pick(&[1u64, 5, 9, 10]);
    let idx: Vec<usize> = (0..n).filter(|_| s.draw(9) < rate).collect();
    let v: Vec<String> = (0..n).map(|i| format!("e{}", i)).collect();
    let want: Vec<String> = v.iter().enumerate().filter(|(i, _)| !idx.contains(i)).map(|(_, e)| e.clone()).collect();
    ctx.describe(|| format!("{} elements, remove {:?}", n, idx));
    ctx.nontrivial = !idx.is_empty();
    let mut got = v;
    got.remove_multiple(&idx);
    if got != want {
        return Err(format!("removing {:?} of {} left {:?}", idx, n, got));
    }
    Ok(())
}

fn c30_same(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let base = *s.pick(&[0usize, 1, 100, 8191, 8192, 8193, 16383, 16384, 16385, 24576, 50000]);
    let n = if s.chance(1, 3) { s.below(30000) } else { base };
    let seed = s.draw(255);
    let a: Vec<u8> = (0..n).map(|i| ((i as u64).wrapping_mul(2654435761).wrapping_add(seed) >> 7) as u8).collect();
    let mut b = a.clone();
    let how = s.below(9);
    match how {
        0 => {}
        7 => {
            let k = 8192 * (1 + s.below(3)) + *s.pick(&[0usize, 0, 0, 1]) - *s.pick(&[0usize, 0, 0, 1]);
            b.extend((0..k).map(|i| i as u8));
        }
        8 => {
            let k = 8192 * (1 + s.below(3));
            b.truncate(n.saturating_sub(k));
        }
        1 if n > 0 => {
            let at = match s.below(3) {
                0 => s.below(n),
                1 => n - 1,
                _ => (8192 * (1 + s.below(3))).min(n - 1),
            };
            b[at] ^= 1 << s.below(8);
        }
        2 => b.push(0),
        3 => {
            b.pop();
        }
        4 => {
            let k = s.below(20000);
            b.extend(vec![b'x'; k]);
        }
        5 => {
            let k = s.below(n + 1);
            b.truncate(k);
        }
        _ => {
            let i = s.below(n + 1);
            b.insert(i, 7);
            b.truncate(n);
        }
    }
    let (pa, pb) = (ctx.file("a.bin"), ctx.file("b.bin"));
    std::fs::write(&pa, &a).map_err(|e| format!("harness: {}", e))?;
    std::fs::write(&pb, &b).map_err(|e| format!("harness: {}", e))?;
    ctx.describe(|| format!("{} and {} bytes, variation {}", a.len(), b.len(), how));
    ctx.nontrivial = a != b || !a.is_empty();
    ctx.label(if a == b { "equal" } else { "different" });
    for (x, y) in [(&pa, &pb), (&pb, &pa)] {
        let r = are_contents_same(x, y).map_err(|e| e.to_string())?;
        if r != (a == b) {
            return Err(format!("answer {} for files of {} and {} bytes that are {}", r, a.len(), b.len(), if a == b { "equal" } else { "different" }));
        }
    }
    if are_contents_same(&pa, ctx.file("missing.bin")).is_ok() {
        return Err("comparing with a missing file succeeded".into());
    }
    Ok(())
}

/// files of megabytes which differ in a few places at most
fn c30_large(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = match s.below(4) {
        0 => s.urange(60_000, 300_000),
        1 => (1usize << s.urange(16, 22)) + s.below(3) - 1,
        _ => s.urange(60_000, 5_000_000),
    };
    let seed = s.draw(255);
    let unit = *s.pick(&[1usize, 7, 256, 4096, 8192]);
    let mut v: Vec<u8> = (0..n).map(|i| (((i / unit) as u64).wrapping_mul(2654435761).wrapping_add(seed) >> 7) as u8).collect();
    let (pa, pb) = (ctx.file("la.bin"), ctx.file("lb.bin"));
    std::fs::write(&pa, &v).map_err(|e| format!("harness: {}", e))?;
    let mut how = Vec::new();
    match s.below(8) {
        0 => {}
        1 => {
            let k = s.edge(n);
            v.truncate(n - k);
            how.push(format!("cut by {}", k));
        }
        2 => {
            let k = s.edge(1 << 20);
            v.extend((0..k).map(|i| i as u8));
            how.push(format!("longer by {}", k));
        }
        _ => {
            for _ in 0..*s.pick(&[1usize, 1, 1, 2, 4]) {
                let at = match s.below(5) {
                    0 => n - s.edge(n.min(100_000)),
                    1 => s.edge(n) - 1,
                    2 => (s.below(n / 8192 + 1) * 8192).min(n - 1),
                    _ => s.below(n),
                };
                v[at] ^= 1 << s.below(8);
                how.push(format!("bit in byte {}", at));
            }
            if s.chance(1, 4) {
                // sums of bytes stay as they are
                let (i, j) = (s.below(n), s.below(n));
                v.swap(i, j);
                how.push(format!("bytes {} and {} swapped", i, j));
            }
        }
    }
    std::fs::write(&pb, &v).map_err(|e| format!("harness: {}", e))?;
    let same = std::fs::read(&pa).map_err(|e| format!("harness: {}", e))? == v;
    ctx.describe(|| format!("{} and {} bytes: {:?}", n, v.len(), how));
    ctx.nontrivial = true;
    ctx.label(if same { "equal" } else { "different" });
    ctx.label_if(n > 1 << 20, "over a megabyte");
    for (x, y) in [(&pa, &pb), (&pb, &pa)] {
        let r = are_contents_same(x, y).map_err(|e| e.to_string())?;
        if r != same {
            return Err(format!("answer {} for files of {} and {} bytes that are {}", r, n, v.len(), if same { "equal" } else { "different" }));
        }
    }
    Ok(())
}

/// contents that come through pipes, a few bytes at a time and without a size known beforehand
fn c30_pipes(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    use std::io::Write;
    use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
    let n = match s.below(4) {
        0 => s.below(5),
        1 => (8192 * s.urange(1, 3) + s.below(5)).saturating_sub(2),
        _ => s.below(30_000),
    };
    let seed = s.draw(255);
    let a: Vec<u8> = (0..n).map(|i| ((i as u64).wrapping_mul(2654435761).wrapping_add(seed) >> 5) as u8).collect();
    let mut b = a.clone();
    match s.below(5) {
        0 | 1 => {}
        2 => b.truncate(n - s.below(n + 1).min(n)),
        3 => b.extend((0..s.urange(1, 9000)).map(|i| i as u8)),
        _ if n > 0 => {
            let at = s.below(n);
            b[at] ^= 1 << s.below(8);
        }
        _ => {}
    }
    let same = a == b;
    let which = s.below(3);
    let mut paths = Vec::new();
    let mut ends = Vec::new();
    let mut writers = Vec::new();
    let mut descr = Vec::new();
    for (i, v) in [a, b].into_iter().enumerate() {
        if which != 2 && which != i {
            let p = ctx.file(if i == 0 { "pa.bin" } else { "pb.bin" });
            std::fs::write(&p, &v).map_err(|e| format!("harness: {}", e))?;
            descr.push(format!("a file of {} bytes", v.len()));
            paths.push(p.to_str().unwrap().to_string());
            continue;
        }
        let mut fds = [0; 2];
        if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            return Err("harness: pipe".into());
        }
        let (r, w) = unsafe { (OwnedFd::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1])) };
        let piece = *s.pick(&[100_000usize, 8192, 8191, 1000, 4097]);
        let pause = s.chance(1, 4);
        descr.push(format!("a pipe with {} bytes, {} at a time", v.len(), piece));
        paths.push(format!("/proc/self/fd/{}", r.as_raw_fd()));
        ends.push(r);
        writers.push(std::thread::spawn(move || {
            let mut w = w;
            for c in v.chunks(piece) {
                if w.write_all(c).is_err() {
                    break;
                }
                if pause {
                    std::thread::sleep(std::time::Duration::from_micros(200));
                }
            }
        }));
    }
    ctx.describe(|| format!("{}: {}", descr.join(" and "), if same { "equal" } else { "different" }));
    ctx.nontrivial = true;
    ctx.label(if same { "equal" } else { "different" });
    let r = are_contents_same(&paths[0], &paths[1]);
    // whoever still writes stops
    drop(ends);
    for w in writers {
        let _ = w.join();
    }
    match r {
        Err(e) => Err(format!("{}: {}", descr.join(" and "), e)),
        Ok(r) if r != same => Err(format!("answer {} for {} that are {}", r, descr.join(" and "), if same { "equal" } else { "different" })),
        Ok(_) => Ok(()),
    }
}

const ALL_TYPES: [FieldType; 10] = [
    FieldType::Long,
    FieldType::Int,
    FieldType::Short,
    FieldType::Byte,
    FieldType::Char,
    FieldType::Double,
    FieldType::Float,
    FieldType::String,
    FieldType::Boolean,
    FieldType::ByteBuf,
];

fn c30_type(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let top = *s.pick(&[5usize, 7, 10]);
    let v = s.many(0, 12, 4, |s| ALL_TYPES[s.below(top)]);
    let want = if v.is_empty() || v.iter().any(|t| matches!(t, FieldType::String | FieldType::Boolean | FieldType::ByteBuf)) {
        FieldType::String
    } else if v.iter().any(|t| matches!(t, FieldType::Double | FieldType::Float)) {
        FieldType::Double
    } else {
        FieldType::Long
    };
    ctx.describe(|| format!("{:?}", v));
    ctx.nontrivial = v.len() > 1;
    let got = guess_common_type(&v);
    if got != want {
        return Err(format!("common type of {:?} is {:?}, expected {:?}", v, got, want));
    }
    Ok(())
}

fn c30_output(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let name = match s.below(5) {
        0 => format!("{}.csv", ascii_word(s, 0, 5)),
        1 => format!("{}.dc", ascii_word(s, 0, 5)),
        3 => {
            // something behind the suffix
            let stem = ascii_word(s, 0, 4);
            let ext = *s.pick(&[".csv", ".dc", ".CSV", ".csv.csv", ".cs", ".d"]);
            let tail = match s.below(4) {
                0 => s.pick(&["~", "~~", "#", ".", "..", " ", "-", "_", "0", "1", "2", ";1", ",v", "!", "?", "*", "=", "+", "@", "$", "%", "^", "&", "(1)", "]", "}", "'", "\"", "`", "|", "<", ">", "\\", "\t", "\n", "\r", "\u{a0}", "\u{feff}", "\u{200b}", "é"]).to_string(),
                1 => format!(".{}", s.pick(&["bak", "tmp", "part", "old", "orig", "new", "swp", "gz", "bz2", "xz", "zst", "lz4", "lzf", "zip", "Z", "json", "txt", "csvx", "dcx", "c", "v"])),
                2 => any_char(s).to_string(),
                _ => ascii_word(s, 1, 3),
            };
            format!("{}{}{}", stem, ext, tail.replace(['/', '\0'], "_"))
        }
        2 => s
            .pick(&["x.txt", "x.CSV", "x.Dc", "x.csv.gz", "x.dc.tmp", "csv.txt", "dc.x", "x", "x.cs", "x.d", "x.dcx", "x.csv ", "x.json", "x.parquet", ".csvx", "x.gz", "x.csv.zip"])
            .to_string(),
        _ => format!("{}.{}", ascii_word(s, 1, 5), ascii_word(s, 1, 4)),
    };
    let supported = name.ends_with(".csv") || name.ends_with(".dc");
    if !supported && (name.ends_with("csv") || name.ends_with("dc")) {
        return Ok(());
    }
    let f = ctx.file(&name);
    let _ = std::fs::remove_file(&f);
    ctx.describe(|| format!("output {:?}", name));
    ctx.nontrivial = true;
    ctx.label(if supported { "supported" } else { "refused" });
    let r = chopper::write::factory::new_header_sink(Some(f.to_str().unwrap()), None);
    let exists = f.exists();
    let ok = r.is_ok();
    drop(r);
    let _ = std::fs::remove_file(&f);
    if ok != supported {
        return Err(format!("output {:?} {}", name, if ok { "accepted" } else { "refused" }));
    }
    if exists != supported {
        return Err(format!("output {:?}: file {}", name, if exists { "created although refused" } else { "not created" }));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

const KINDS: [ErrorKind; 10] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
];

fn gen_fault_pos(s: &mut Src, len: usize) -> usize {
    match s.below(5) {
        0 => len,
        1 => len - s.below(len.min(30) + 1),
        2 => s.below(len.min(60) + 1),
        3 => (8192 * (1 + s.below(3))).min(len),
        _ => s.below(len + 1),
    }
}

fn check_prefix(t: &Table, d: &Drained, what: &str) -> Outcome {
    if d.open_failed {
        return Ok(());
    }
    if d.rows.len() > t.rows.len() {
        return Err(format!("{}: {} rows before the failure, the input has {}", what, d.rows.len(), t.rows.len()));
    }
    diff_rows(&t.rows[..d.rows.len()], &d.rows).map_err(|e| format!("{}: before the failure: {}", what, e))
}

/// enumerates fault positions of one input at the source level
fn c06_source(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let large = s.chance(1, 10);
    let doc = if large { gen_doc(s, 3000, 1000) } else { gen_doc(s, 400, 20) };
    let codec = if large || s.chance(1, 2) { Some(*s.pick(&STREAM_CODECS)) } else { None };
    // where one part of the encoded data ends and another follows
    let mut joints: Vec<usize> = vec![];
    let (bytes, name) = match codec {
        None => (doc.bytes.clone(), format!("data{}", doc.ext)),
        Some(c) => {
            let p = pack(s, c, &doc.bytes, true);
            joints = p.complete_at.iter().cloned().filter(|&b| b < p.bytes.len()).collect();
            (p.bytes, format!("data{}{}", doc.ext, suffix(c)))
        }
    };
    let kind = *s.pick(&KINDS);
    let then = gen_then(s);
    ctx.label_if(then == Then::End, "the end after the failure");
    ctx.label_if(then == Then::Data, "more data after the failure");
    let ch = gen_chunking(s, bytes.len());
    let what = match codec {
        None => doc.ext,
        Some(c) => codec_name(c),
    };
    ctx.label(what);
    ctx.label_if(kind == ErrorKind::UnexpectedEof, "failure of kind UnexpectedEof");
    ctx.nontrivial = !doc.table.rows.is_empty();
    let mut positions = Vec::new();
    if bytes.len() < 160 && s.bool() {
        positions.extend(0..=bytes.len());
        ctx.label("every position");
    } else {
        for _ in 0..4 {
            positions.push(gen_fault_pos(s, bytes.len()));
        }
        positions.extend(joints.iter().cloned());
        ctx.label_if(joints.len() > 0, "where one part of the encoded data ends");
        ctx.label_if(joints.iter().any(|j| *j > 8192), "where a part ends beyond the first 8192 bytes");
    }
    ctx.describe(|| format!("{} of {} bytes, {} rows, arrival {:?}, {:?} at {:?}", name, bytes.len(), doc.table.rows.len(), ch, kind, positions));
    ctx.extra_evals += positions.len() as u64 - 1;
    for pos in positions {
        let f = MemFile::new(bytes.clone(), ch.clone()).with_fault(Fault { pos, kind, then });
        let d = drain(open_mem(doc_cfg(), &name, f, InputFormat::Auto))?;
        let w = format!("{}: read failure ({:?}, then {:?}) at byte {} of {}", what, kind, then, pos, bytes.len());
        if d.err.is_none() {
            // the encoded data may end by itself before the failing read
            let complete = codec.is_some() && pos == bytes.len() && crate::p_dc::expect_table(&doc.table, &d).is_ok();
            if !complete {
                return Err(format!("{} was taken for the end of the data after {} of {} rows", w, d.rows.len(), doc.table.rows.len()));
            }
            ctx.label("complete before the failure");
        } else {
            check_prefix(&doc.table, &d, &w)?;
        }
    }
    Ok(())
}

struct FaultySeek {
    inner: Cursor<Vec<u8>>,
    reads_left: usize,
    after_bytes: usize,
    kind: ErrorKind,
    then: Then,
    hit: Rc<RefCell<bool>>,
}

impl Read for FaultySeek {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.reads_left == 0 || self.after_bytes == 0 {
            if *self.hit.borrow() && self.then == Then::End {
                return Ok(0);
            }
            if self.then == Then::Data {
                self.reads_left = usize::MAX;
                self.after_bytes = usize::MAX;
            }
            *self.hit.borrow_mut() = true;
            return Err(io::Error::new(self.kind, FAULT_TEXT));
        }
        self.reads_left -= 1;
        let n = buf.len().min(self.after_bytes);
        let k = self.inner.read(&mut buf[..n])?;
        self.after_bytes -= k;
        Ok(k)
    }
}
impl Seek for FaultySeek {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}

/// ends of chunks, blocks, members or frames inside an encoded file
fn part_ends(codec: Codec, p: &Packed) -> Vec<usize> {
    let b = &p.bytes;
    match codec {
        Codec::Lzf => {
            let mut v = Vec::new();
            let mut i = 0;
            while i + 5 <= b.len() {
                let n = u16::from_be_bytes([b[i + 3], b[i + 4]]) as usize;
                i += if b[i + 2] == 0 { 5 + n } else { 7 + n };
                v.push(i);
            }
            v
        }
        Codec::Lz4Block => (1..b.len().saturating_sub(8)).filter(|i| &b[*i..*i + 8] == b"LZ4Block").collect(),
        _ => p.complete_at.clone(),
    }
}

/// read failures deep inside compressed inputs, past what is read when the input is opened; at block ends
fn c06_deep(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut t = Table::default();
    t.names = vec!["timestamp".into(), "a".into()];
    t.types = vec![Ty::Str; 2];
    let rows = s.urange(300, 2500);
    let noise = s.bool();
    let mut text = String::from("timestamp,a\n");
    let mut x = s.u64_any() | 1;
    for i in 0..rows {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let v = if noise { format!("{:x}", x) } else { "a".repeat((x >> 60) as usize) };
        text.push_str(&format!("{},{}\n", i, v));
        t.rows.push(MRow { ts: i as u64, vals: vec![Val::Str(i.to_string()), Val::Str(v)] });
    }
    let dc = s.chance(1, 3);
    let content = if dc { DcFile::from_table(&t).encode() } else { text.into_bytes() };
    let ext = if dc { ".dc" } else { ".csv" };
    let (name, bytes, ends, how) = if s.chance(1, 5) {
        let n = content.len();
        (format!("data{}", ext), content, vec![], format!("plain{} of {} bytes", ext, n))
    } else {
        let codec = *s.pick(&STREAM_CODECS);
        let p = pack(s, codec, &content, true);
        ctx.label(codec_name(codec));
        let ends = part_ends(codec, &p);
        (format!("data{}{}", ext, suffix(codec)), p.bytes, ends, format!("{} {}", ext, p.how))
    };
    let kind = *s.pick(&[ErrorKind::UnexpectedEof, ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::ConnectionReset]);
    let then = gen_then(s);
    ctx.label_if(then == Then::End, "the end after the failure");
    ctx.label_if(then == Then::Data, "more data after the failure");
    let ch = gen_chunking(s, bytes.len());
    let mut positions = Vec::new();
    for _ in 0..4 {
        let pos = if !ends.is_empty() && s.chance(2, 3) { *s.pick(&ends) } else { s.below(bytes.len() + 1) };
        positions.push(pos);
    }
    ctx.label_if(kind == ErrorKind::UnexpectedEof, "failure of kind UnexpectedEof");
    ctx.label_if(bytes.len() > 8192, "longer than one read-ahead");
    ctx.nontrivial = true;
    ctx.describe(|| format!("{}, arrival {:?}, {:?} at {:?}", how, ch, kind, positions));
    ctx.extra_evals += 3;
    for pos in positions {
        let f = MemFile::new(bytes.clone(), ch.clone()).with_fault(Fault { pos, kind, then });
        let d = drain(open_mem(doc_cfg(), &name, f, InputFormat::Auto))?;
        let w = format!("{}: read failure ({:?}, then {:?}) at byte {} of {}", how, kind, then, pos, bytes.len());
        ctx.label_if(ends.contains(&pos) && !d.open_failed, "failure at the end of a part while reading rows");
        if d.err.is_none() {
            let complete = name != format!("data{}", ext) && pos == bytes.len() && crate::p_dc::expect_table(&t, &d).is_ok();
            if !complete {
                return Err(format!("{} was taken for the end of the data after {} of {} rows", w, d.rows.len(), t.rows.len()));
            }
        } else {
            check_prefix(&t, &d, &w)?;
        }
    }
    Ok(())
}

fn c06_zip(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let data = gen_bytes(s, 20_000);
    let m = gen_member(s, "data.csv", data.clone());
    let z = gen_zip(s, m, false);
    let b = build(s, &z).bytes;
    let kind = *s.pick(&KINDS);
    let then = gen_then(s);
    ctx.label_if(then == Then::End, "the end after the failure");
    ctx.label_if(then == Then::Data, "more data after the failure");
    let hit = Rc::new(RefCell::new(false));
    let by_bytes = s.bool();
    let (reads, after) = if by_bytes { (usize::MAX, s.below(b.len() + 300)) } else { (s.below(60), usize::MAX) };
    ctx.describe(|| format!("zip of {} bytes, {:?} after {} reads / {} bytes, then {:?}", b.len(), kind, reads, after, then));
    let f = FaultySeek { inner: Cursor::new(b), reads_left: reads, after_bytes: after, kind, then, hit: hit.clone() };
    let (got, err) = match new_reader_for_single_file_zip_archive(f) {
        Err(e) => (vec![], Some(e.to_string())),
        Ok((mut r, _)) => read_all(&mut r, &Chunking::Whole, 10_000_000)?,
    };
    ctx.nontrivial = *hit.borrow();
    if err.is_none() && got != data {
        return Err(format!("zip: read failure ({:?}) taken for the end of the data after {} of {} bytes", kind, got.len(), data.len()));
    }
    if err.is_none() && *hit.borrow() {
        return Err("zip: a read failed but no error was reported".into());
    }
    if err.is_some() && !*hit.borrow() {
        return Err(format!("error without a failure: {:?}", err));
    }
    if !data.starts_with(&got) {
        return Err("zip: bytes before the failure are not a prefix of the contents".into());
    }
    Ok(())
}

/// several inputs merged by the driver, one of them fails
fn c06_driver(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let k = 1 + s.below(4);
    let t = MemTransport::new();
    let mut paths = Vec::new();
    let mut tables: Vec<Table> = Vec::new();
    let bad = s.below(k);
    let mut desc = String::new();
    let kind = *s.pick(&KINDS);
    let then = gen_then(s);
    ctx.label_if(then == Then::End, "the end after the failure");
    ctx.label_if(then == Then::Data, "more data after the failure");
    let cut = s.chance(1, 4);
    let csv = !cut && s.bool();
    let mut names = vec!["timestamp".to_string()];
    names.extend((0..s.urange(1, 3)).map(|i| format!("c{}", i)));
    let types: Vec<Ty> = if csv { vec![Ty::Str; names.len()] } else { names.iter().map(|_| *s.pick(&VALUE_TYPES)).collect() };
    let begin = if s.chance(1, 4) { Some(s.u64_any()) } else { None };
    for i in 0..k {
        let n = match s.below(3) {
            0 => s.below(5),
            1 => s.below(60),
            _ => s.below(400),
        };
        let ts = gen_timestamps(s, n);
        let rows: Vec<MRow> = ts
            .iter()
            .map(|ts| {
                let mut vals: Vec<Val> = types.iter().map(|t| if csv { Val::Str(ascii_word(s, 0, 6)) } else { gen_value_small(s, *t) }).collect();
                if csv {
                    vals[0] = Val::Str(ts.to_string());
                }
                MRow { ts: *ts, vals }
            })
            .collect();
        let table = Table { names: names.clone(), types: types.clone(), rows };
        let bytes = if csv {
            let mut o = names.join(",") + "\n";
            for r in &table.rows {
                let c: Vec<&str> = r.vals.iter().map(|v| if let Val::Str(x) = v { x.as_str() } else { "" }).collect();
                o.push_str(&c.join(","));
                o.push('\n');
            }
            o.into_bytes()
        } else {
            DcFile::from_table(&table).encode()
        };
        let mut f = MemFile::new(bytes.clone(), gen_chunking(s, bytes.len()));
        if i == bad {
            if cut {
                let c = DcFile::from_table(&table);
                // a cut inside of a record
                let header_len = DcFile { rows: vec![], ..c.clone() }.encode().len();
                let pos = header_len + s.below((bytes.len() - header_len).max(1));
                let ok = record_ends(&c).contains(&pos);
                if ok {
                    return Ok(());
                }
                f = MemFile::new(bytes[..pos.min(bytes.len())].to_vec(), f.chunking.clone());
                if pos >= bytes.len() {
                    return Ok(());
                }
                desc = format!("input {} of {} cut to {} of {} bytes", i, k, pos, bytes.len());
            } else {
                let pos = gen_fault_pos(s, bytes.len());
                f = f.with_fault(Fault { pos, kind, then });
                desc = format!("input {} of {} fails ({:?}, then {:?}) at byte {} of {}", i, k, kind, then, pos, bytes.len());
            }
        }
        paths.push(t.add(&format!("f{}{}", i, if csv { ".csv" } else { ".dc" }), f));
        tables.push(table);
    }
    ctx.describe(|| desc.clone());
    ctx.nontrivial = tables.iter().any(|t| !t.rows.is_empty());
    ctx.label(if cut { "truncated binary record" } else { "read failure" });
    let cap = Capture::new();
    let run = || -> CliResult<()> {
        let mut sources = Vec::new();
        for p in &paths {
            sources.push(open_with(doc_cfg(), None, Some(vec![Box::new(t.clone())]), p, InputFormat::Auto)?);
        }
        run_driver(sources, merged_graph(k, Box::new(cap.clone()))?, TimestampRange { begin, end: None })
    };
    let r = run();
    let log = cap.0.borrow();
    if r.is_ok() {
        return Err(format!("{}: the run succeeded with {} of {} rows", desc, log.rows.len(), tables.iter().map(|t| t.rows.len()).sum::<usize>()));
    }
    // time order, and each input's rows are a prefix of its own
    let mut merged: Vec<(u64, usize, usize)> = Vec::new();
    for (i, t) in tables.iter().enumerate() {
        for (j, r) in t.rows.iter().enumerate() {
            if begin.map_or(true, |b| r.ts >= b) {
                merged.push((r.ts, i, j));
            }
        }
    }
    merged.sort();
    if log.rows.len() > merged.len() {
        return Err(format!("{}: more rows than the inputs have", desc));
    }
    // compare per timestamp group as multisets; the last group may be incomplete
    let mut at = 0;
    while at < log.rows.len() {
        let ts = merged[at].0;
        let mut end = at;
        while end < merged.len() && merged[end].0 == ts {
            end += 1;
        }
        let mut group: Vec<&MRow> = merged[at..end].iter().map(|(_, i, j)| &tables[*i].rows[*j]).collect();
        for r in &log.rows[at..end.min(log.rows.len())] {
            match group.iter().position(|g| *g == r) {
                Some(p) => {
                    group.remove(p);
                }
                None => return Err(format!("{}: row {:?} delivered before the failure is not what the undamaged inputs produce here", desc, r)),
            }
        }
        at = end;
    }
    Ok(())
}

fn record_ends(f: &DcFile) -> Vec<usize> {
    (0..=f.rows.len()).map(|n| DcFile { rows: f.rows[..n].to_vec(), ..f.clone() }.encode().len()).collect()
}

/// a file of a directory fails while being read, or cannot be opened at all
fn c06_dir(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = s.urange(1, 4);
    let bad = s.below(n);
    let dir = ctx.file("dir");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).map_err(|e| format!("harness: {}", e))?;
    let mut t = MemTransport::new();
    t.scheme = String::new();
    let mut all: Vec<MRow> = Vec::new();
    let mut ts = 1_000_000u64;
    let kind = *s.pick(&KINDS);
    let then = gen_then(s);
    ctx.label_if(then == Then::End, "the end after the failure");
    ctx.label_if(then == Then::Data, "more data after the failure");
    let way = match s.weighted(&[6, 2, 2, 2]) {
        2 if bad == 0 => 1,
        w => w,
    };
    let mut desc = String::new();
    let mut before = 0;
    let long = if s.chance(1, 12) { s.urange(1, 3000) } else { 0 };
    for i in 0..n {
        let rows = s.below(50) + if i + 1 == bad { long } else { 0 };
        let mut text = String::from("timestamp,a\n");
        if i == bad {
            before = all.len();
        }
        for _ in 0..rows {
            ts += s.draw(3);
            let v = ascii_word(s, 0, 200);
            text.push_str(&format!("{},{}\n", ts, v));
            all.push(MRow { ts, vals: vec![Val::Str(ts.to_string()), Val::Str(v)] });
        }
        let p = dir.join(format!("{}.csv", i));
        let len = text.len();
        if way == 1 && i == bad {
            std::os::unix::fs::symlink(dir.join("nowhere"), &p).map_err(|e| format!("harness: {}", e))?;
        } else {
            std::fs::write(&p, if way == 0 || way == 3 { "placeholder" } else { &text }).map_err(|e| format!("harness: {}", e))?;
        }
        let mut f = MemFile::new(text.into_bytes(), gen_chunking(s, len));
        if i == bad {
            let pos = gen_fault_pos(s, len);
            match way {
                0 => {
                    f = f.with_fault(Fault { pos, kind, then });
                    desc = format!("file {} of {} in a directory fails ({:?}, then {:?}) at byte {} of {}", i, n, kind, then, pos, len);
                }
                1 => desc = format!("file {} of {} in a directory is a link that leads nowhere", i, n),
                2 => desc = format!("file {} of {} in a directory is removed before its turn", i, n),
                _ => {
                    f = f.with_open_fault(kind);
                    desc = format!("file {} of {} in a directory cannot be opened ({:?})", i, n, kind);
                }
            }
        }
        t.add(p.to_str().unwrap(), f);
    }
    ctx.describe(|| desc.clone());
    ctx.label(["fails while read", "dangling link", "removed before its turn", "cannot be opened"][way]);
    ctx.nontrivial = !all.is_empty();
    let transports: Option<Vec<Box<dyn StreamingTransport>>> =
        if way == 0 || way == 3 { Some(vec![Box::new(t)]) } else { None };
    let src = open_with(doc_cfg(), None, transports, dir.to_str().unwrap(), InputFormat::Auto);
    if way == 2 {
        std::fs::remove_file(dir.join(format!("{}.csv", bad))).map_err(|e| format!("harness: {}", e))?;
    }
    let d = drain(src)?;
    let _ = std::fs::remove_dir_all(&dir);
    if d.err.is_none() {
        return Err(format!("{}: read to the end with {} of {} rows", desc, d.rows.len(), all.len()));
    }
    if way != 0 && d.rows.len() > before {
        return Err(format!("{}: {} rows were delivered, there are {} before that file", desc, d.rows.len(), before));
    }
    check_prefix(&Table { names: vec![], types: vec![], rows: all }, &d, &desc)
}

fn c06_missing(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let name = s.pick(&["nothing.csv", "nothing.dc", "nothing", "no/such/dir/x.csv", "nothing.csv.gz", "nothing.zip"]).to_string();
    let f = ctx.file(&name);
    ctx.describe(|| name.clone());
    ctx.nontrivial = true;
    let d = drain(open_with(doc_cfg(), None, None, f.to_str().unwrap(), InputFormat::Auto))?;
    if d.err.is_none() {
        return Err(format!("missing file {:?} was read with {} rows", name, d.rows.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C05 (bytes and memory)

/// head, then body n times (without end if n is None), then tail; produced on the fly
#[derive(Clone)]
struct Repeat {
    /// makes the i-th repetition of the body, when every repetition is to be different
    make: Option<Rc<dyn Fn(u64) -> Vec<u8>>>,
    head: Rc<Vec<u8>>,
    body: Rc<Vec<u8>>,
    n: Option<u64>,
    tail: Rc<Vec<u8>>,
    chunk: usize,
    served: Rc<RefCell<u64>>,
    limit: u64,
}

impl Repeat {
    fn reader(&self) -> RepeatReader {
        RepeatReader { r: self.clone(), stage: 0, pos: 0, done: 0, made: None }
    }
}

struct RepeatReader {
    r: Repeat,
    stage: u8,
    pos: usize,
    done: u64,
    made: Option<Vec<u8>>,
}

impl Read for RepeatReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        // without a chunk size, as much as is asked for is delivered
        let mut n = self.read_some(buf);
        while self.r.chunk >= 1 << 20 && n > 0 && n < buf.len() {
            match self.read_some(&mut buf[n..]) {
                0 => break,
                more => n += more,
            }
        }
        Ok(n)
    }
}

impl RepeatReader {
    fn read_some(&mut self, buf: &mut [u8]) -> usize {
        if buf.is_empty() {
            return 0;
        }
        loop {
            if self.stage == 1 && self.made.is_none() {
                if let Some(f) = &self.r.make {
                    self.made = Some(f(self.done));
                }
            }
            let cur: &Vec<u8> = match self.stage {
                0 => &self.r.head,
                1 => self.made.as_ref().unwrap_or(&self.r.body),
                2 => &self.r.tail,
                _ => return 0,
            };
            if self.pos < cur.len() {
                let n = buf.len().min(self.r.chunk).min(cur.len() - self.pos);
                buf[..n].copy_from_slice(&cur[self.pos..self.pos + n]);
                self.pos += n;
                let mut s = self.r.served.borrow_mut();
                *s += n as u64;
                if *s > self.r.limit {
                    drop(s);
                    panic!("runaway: more than {} bytes read of an endless input", self.r.limit);
                }
                return n;
            }
            self.pos = 0;
            match self.stage {
                0 => self.stage = if self.r.n == Some(0) { 2 } else { 1 },
                1 => {
                    self.done += 1;
                    self.made = None;
                    if Some(self.done) == self.r.n {
                        self.stage = 2;
                    }
                }
                _ => self.stage = 3,
            }
        }
    }
}

#[derive(Clone)]
struct RepeatTransport(Rc<RefCell<HashMap<String, Repeat>>>);

impl StreamingTransport for RepeatTransport {
    fn can_open(&self, path: &Path) -> bool {
        path.to_str().map_or(false, |p| self.0.borrow().contains_key(p))
    }
    fn open(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        Ok(Box::new(self.0.borrow()[path.to_str().unwrap()].reader()))
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "repeat"
    }
}

/// counts rows; optionally fails after a number of them; notes how far the input was read ahead
struct CountSink {
    n: Rc<RefCell<u64>>,
    fail_after: Option<u64>,
    served: Option<Rc<RefCell<u64>>>,
    row_end: Option<(u64, u64)>,
    max_ahead: Rc<RefCell<i64>>,
}
impl HeaderSink for CountSink {
    fn process_header(self: Box<Self>, _h: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}
impl DataSink for CountSink {
    fn write_row(&mut self, _r: &mut Vec<Row>) -> CliResult<()> {
        *self.n.borrow_mut() += 1;
        let n = *self.n.borrow();
        if let (Some(s), Some((head, per_row))) = (&self.served, self.row_end) {
            let ahead = *s.borrow() as i64 - (head + per_row * n) as i64;
            let mut m = self.max_ahead.borrow_mut();
            *m = (*m).max(ahead);
        }
        if Some(n) == self.fail_after {
            return Err(Error::from("sink has enough"));
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

const FORMS: [&str; 10] = [
    "csv", "dc", "csv gz", "csv lz4 frame", "csv lzf", "csv zst", "dc lz4 block",
    // one member or frame however long the input is
    "csv one gz member", "csv one lz4 frame", "csv one zst frame",
];

/// the gzip trailer of head and n bodies (plain contents)
fn gz_trailer(plain: &(Vec<u8>, Vec<u8>), n: u64) -> Vec<u8> {
    let mut all = plain.0.clone();
    for _ in 0..n {
        all.extend_from_slice(&plain.1);
    }
    let mut o = vec![1, 0, 0, 255, 255];
    o.extend_from_slice(&crc32(&all).to_le_bytes());
    o.extend_from_slice(&(all.len() as u32).to_le_bytes());
    o
}

/// head, repeated body, tail, rows per body, name; all body rows have the given timestamp
fn form_parts(s: &mut Src, form: usize, ts: u64, head_rows: u64, rows_per_body: u64, width: usize) -> (Vec<u8>, Vec<u8>, Vec<u8>, String, (Vec<u8>, Vec<u8>)) {
    let dc = form == 1 || form == 6;
    let cell = "z".repeat(width);
    let table = |n: u64, ts: u64| Table {
        names: vec!["timestamp".into(), "v".into()],
        types: vec![Ty::Str, Ty::Str],
        rows: (0..n).map(|i| MRow { ts, vals: vec![Val::Str(ts.to_string()), Val::Str(format!("{:06}{}", i, cell))] }).collect(),
    };
    let enc = |t: &Table, header: bool| -> Vec<u8> {
        if dc {
            let f = DcFile::from_table(t);
            let all = f.encode();
            if header {
                all
            } else {
                all[DcFile { rows: vec![], ..f.clone() }.encode().len()..].to_vec()
            }
        } else {
            let mut o = if header { "timestamp,v\n".to_string() } else { String::new() };
            for r in &t.rows {
                if let (Val::Str(a), Val::Str(b)) = (&r.vals[0], &r.vals[1]) {
                    o.push_str(&format!("{},{}\n", a, b));
                }
            }
            o.into_bytes()
        }
    };
    let head = enc(&table(head_rows, ts.saturating_sub(10)), true);
    let body = enc(&table(rows_per_body, ts), false);
    let ext = if dc { ".dc" } else { ".csv" };
    let mut b = 0;
    let lz4 = |s: &mut Src, d: &[u8], b: &mut usize| {
        let o = Lz4Opts {
            independent: true,
            block_checksums: true,
            content_checksum: true,
            content_size: false,
            bsize_code: 4,
            block_len: 30_000,
            raw_rate: 2,
            min_len: 4,
            end_mark: true,
        };
        lz4_frame(s, d, &o, b)
    };
    let plain = (head.clone(), body.clone());
    let (h, b, t, n) = match form {
        0 | 1 => (head, body, vec![], format!("x{}", ext)),
        2 => (gz_member(s, &head), gz_member(s, &body), vec![], format!("x{}.gz", ext)),
        3 => (lz4(s, &head, &mut b), lz4(s, &body, &mut b), vec![], format!("x{}.lz4", ext)),
        4 => (lzf_chunks(s, &head, &mut b), lzf_chunks(s, &body, &mut b), vec![], format!("x{}.lzf", ext)),
        5 => (zst_frame(s, &head, true, &mut b), zst_frame(s, &body, true, &mut b), vec![], format!("x{}.zst", ext)),
        6 => {
            // blocks without the empty end block, which comes last
            let cut = |v: Vec<u8>| v[..v.len() - 21].to_vec();
            let h = lz4_jblocks(s, &head, &mut b);
            let end = h[h.len() - 21..].to_vec();
            let bo = lz4_jblocks(s, &body, &mut b);
            (cut(h), cut(bo), end, format!("x{}.lz4", ext))
        }
        7 => {
            let stored = |d: &[u8]| -> Vec<u8> {
                let mut o = vec![];
                for p in d.chunks(30_000) {
                    o.push(0);
                    o.extend_from_slice(&(p.len() as u16).to_le_bytes());
                    o.extend_from_slice(&(!(p.len() as u16)).to_le_bytes());
                    o.extend_from_slice(p);
                }
                o
            };
            let mut h = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
            h.extend(stored(&head));
            (h, stored(&body), vec![], "x.csv.gz".to_string())
        }
        8 => {
            let o = Lz4Opts {
                independent: true,
                block_checksums: true,
                content_checksum: false,
                content_size: false,
                bsize_code: 4,
                block_len: 30_000,
                raw_rate: 2,
                min_len: 4,
                end_mark: false,
            };
            let h = lz4_frame(s, &head, &o, &mut b);
            let bo = lz4_frame(s, &body, &o, &mut b);
            (h, bo[7..].to_vec(), vec![0; 4], "x.csv.lz4".to_string())
        }
        _ => {
            let rle = s.bool();
            let blocks = |d: &[u8]| -> Vec<u8> {
                let mut o = vec![];
                for p in d.chunks(20_000) {
                    // a run within the text as a block of its own
                    let z = p.windows(8).position(|w| w.iter().all(|c| *c == w[0])).filter(|_| rle);
                    let (a, m, e) = match z {
                        Some(i) => {
                            let n = p[i..].iter().take_while(|c| **c == p[i]).count();
                            (&p[..i], n, &p[i + n..])
                        }
                        None => (p, 0, &p[..0]),
                    };
                    for (part, run) in &[(a, 0), (&p[..0], m), (e, 0)] {
                        if *run > 0 {
                            o.extend_from_slice(&(((*run as u32) << 3) | 2).to_le_bytes()[..3]);
                            o.push(p[z.unwrap()]);
                        } else if !part.is_empty() {
                            o.extend_from_slice(&((part.len() as u32) << 3).to_le_bytes()[..3]);
                            o.extend_from_slice(part);
                        }
                    }
                }
                o
            };
            // window of 128 kB, no contents size, no checksum
            let mut h = vec![0x28, 0xb5, 0x2f, 0xfd, 0, 7 << 3];
            h.extend(blocks(&head));
            (h, blocks(&body), vec![1, 0, 0], "x.csv.zst".to_string())
        }
    };
    (h, b, t, n, plain)
}

const SLACK: u64 = 150_000;

/// memory that grew with the input counts only if it keeps growing with an even longer one: a
/// buffer may well have a limit beyond the sizes compared first
fn keeps_growing<F: FnOnce() -> Result<u64, String>>(p1: u64, p2: u64, slack: u64, longer: F) -> Result<bool, String> {
    if p2 <= p1 + slack {
        return Ok(false);
    }
    Ok(longer()? > p2 + 2 * (p2 - p1) + slack)
}

/// peak memory of a run over an input and over one several times as long
fn c05_memory(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let form = s.below(FORMS.len());
    let width = *s.pick(&[1usize, 20, 300]);
    let rows_per_body = 1 + s.below(if width > 100 { 100 } else { 1200 }) as u64;
    let k = 1 + s.below(3);
    let (head, body, tail, name, plain) = form_parts(s, form, 1000, 5, rows_per_body, width);
    let per_body = rows_per_body * (width as u64 + 12);
    let n1 = 400_000 / per_body + 1;
    let chunk = *s.pick(&[500usize, 4096, 1 << 20]);
    let out = s.below(3);
    let bounded = s.chance(1, 3);
    let target = ctx.file(if out == 1 { "out.csv" } else { "out.dc" });
    let _ = std::fs::remove_file(&target);
    if out > 0 {
        std::os::unix::fs::symlink("/dev/null", &target).map_err(|e| format!("harness: {}", e))?;
    }
    ctx.describe(|| format!("{} x {}: {} rows of {} bytes per piece, {} and {} pieces, output {}", k, FORMS[form], rows_per_body, width + 12, n1, n1 * 6, ["none", "csv", "dc"][out]));
    ctx.nontrivial = true;
    ctx.label(FORMS[form]);
    let run = |n: u64| -> Result<(u64, u64), String> {
        let map = Rc::new(RefCell::new(HashMap::new()));
        let tail = if form == 7 { gz_trailer(&plain, n) } else { tail.clone() };
        for i in 0..k {
            let r = Repeat {
                make: None,
                head: Rc::new(head.clone()),
                body: Rc::new(body.clone()),
                n: Some(n),
                tail: Rc::new(tail.clone()),
                chunk,
                served: Rc::new(RefCell::new(0)),
                limit: u64::MAX,
            };
            map.borrow_mut().insert(format!("rep:/{}/{}", i, name), r);
        }
        let t = RepeatTransport(map);
        let count = Rc::new(RefCell::new(0));
        let (r, peak, _) = crate::alloc::measure(|| -> CliResult<()> {
            let mut sources = Vec::new();
            for i in 0..k {
                sources.push(open_with(doc_cfg(), None, Some(vec![Box::new(t.clone())]), &format!("rep:/{}/{}", i, name), InputFormat::Auto)?);
            }
            let sink: Box<dyn HeaderSink> = if out == 0 {
                Box::new(CountSink { n: count.clone(), fail_after: None, served: None, row_end: None, max_ahead: Rc::new(RefCell::new(0)) })
            } else {
                chopper::write::factory::new_header_sink(Some(target.to_str().unwrap()), None)?
            };
            let range = TimestampRange { begin: if bounded { Some(1000) } else { None }, end: None };
            run_driver(sources, merged_graph(k, sink)?, range)
        });
        r.map_err(|e| format!("run failed: {}", err_text(&e)))?;
        let c = *count.borrow();
        Ok((peak, c))
    };
    let (p1, c1) = run(n1)?;
    let (p2, c2) = run(n1 * 6)?;
    let head_rows = if bounded { 0 } else { 5 };
    if out == 0 && (c1 != k as u64 * (head_rows + n1 * rows_per_body) || c2 != k as u64 * (head_rows + n1 * 6 * rows_per_body)) {
        return Err(format!("{}: rows {} and {} do not match {} and {} pieces", FORMS[form], c1, c2, n1, n1 * 6));
    }
    if keeps_growing(p1, p2, SLACK, || run(n1 * 24).map(|r| r.0))? {
        return Err(format!("{}: peak memory grows with the input: {} bytes for {} rows, {} for {}", FORMS[form], p1, n1 * rows_per_body, p2, n1 * 6 * rows_per_body));
    }
    Ok(())
}

/// peak memory when every row is different: nothing about a row may be kept
fn c05_distinct(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    use chopper::source::csv_timestamp::TimestampUnits;
    let form = s.weighted(&[4, 4, 1, 1, 1, 1]);
    let what = ["csv", "dc", "csv gz", "dc zst", "csv lzf", "dc lz4 frame"][form];
    let dc = what.starts_with("dc");
    let ncols = 1 + s.below(5);
    let types: Vec<Ty> = (0..ncols).map(|i| if i == 0 { Ty::Str } else { *s.pick(&VALUE_TYPES) }).collect();
    let width = *s.pick(&[12usize, 12, 40, 250]);
    let per = 50 + s.below(400) as u64;
    // ways to write the time of a CSV row
    let style = s.below(5);
    let per_row_names = s.chance(1, 5);
    let rows = move |i: u64| -> Vec<MRow> {
        (i * per..(i + 1) * per)
            .map(|n| {
                let h = hash_parts(&[&n.to_le_bytes()]);
                let vals = types
                    .iter()
                    .enumerate()
                    .map(|(j, t)| match t {
                        // of many sizes, the same ones in every piece
                        Ty::Str if j == 1 && per_row_names => Val::Str(format!("{}{:020}", "x".repeat((n % per * 7 % 3000) as usize), h)),
                        Ty::Str => Val::Str(format!("{:0w$}", h.rotate_left(j as u32), w = width)),
                        Ty::Int => Val::Int(h as i32),
                        Ty::Long => Val::Long(h as i64),
                        Ty::Short => Val::Short(h as i16),
                        Ty::Byte => Val::Byte(h as u8),
                        Ty::Char => Val::Char((h as u16) % 0xd800),
                        Ty::Double => Val::Double(((h % 1_000_000_007) as f64 / 8.0).to_bits()),
                        Ty::Float => Val::Float(((h % 1_000_003) as f32 / 8.0).to_bits()),
                        _ => Val::Null,
                    })
                    .collect();
                MRow { ts: 1_500_000_000_000_000_000 + n * 1_000_000_007, vals }
            })
            .collect()
    };
    let types: Vec<Ty> = rows(0)[0]
        .vals
        .iter()
        .map(|v| match v {
            Val::Str(_) => Ty::Str,
            Val::Int(_) => Ty::Int,
            Val::Long(_) => Ty::Long,
            Val::Short(_) => Ty::Short,
            Val::Byte(_) => Ty::Byte,
            Val::Char(_) => Ty::Char,
            Val::Double(_) => Ty::Double,
            _ => Ty::Float,
        })
        .collect();
    let names: Vec<String> = (0..ncols).map(|j| format!("c{}", j)).collect();
    let enc = move |rows: &[MRow], header: bool| -> Vec<u8> {
        if dc {
            let f = DcFile::from_table(&Table { names: names.clone(), types: types.clone(), rows: vec![] });
            let mut o = if header { f.encode_header() } else { vec![] };
            for r in rows {
                f.encode_row(r, &mut o);
            }
            o
        } else {
            let mut o = if header { format!("time,{}\n", names.join(",")) } else { String::new() };
            for r in rows {
                let n = chrono::NaiveDateTime::from_timestamp((r.ts / 1_000_000_000) as i64, (r.ts % 1_000_000_000) as u32);
                o.push_str(&match style {
                    0 => r.ts.to_string(),
                    1 => n.format("%Y%m%d %H:%M:%S").to_string(),
                    2 => n.format("%Y%m%d.%H%M%S").to_string(),
                    3 => n.format("%Y-%m-%dT%H:%M:%S%.9fZ").to_string(),
                    _ => n.format("%Y/%m/%d-%H:%M:%S").to_string(),
                });
                for v in &r.vals {
                    o.push(',');
                    match v {
                        Val::Str(s) => o.push_str(s),
                        Val::Int(x) => o.push_str(&x.to_string()),
                        Val::Long(x) => o.push_str(&x.to_string()),
                        Val::Double(x) => o.push_str(&f64::from_bits(*x).to_string()),
                        v => o.push_str(&format!("\"{:?}\"", v)),
                    }
                }
                o.push('\n');
            }
            o.into_bytes()
        }
    };
    let pack = move |d: Vec<u8>| -> Vec<u8> {
        let mut s = Src::random(11);
        let mut b = 0;
        match form {
            0 | 1 => d,
            2 => gz_member(&mut s, &d),
            3 => zst_frame(&mut s, &d, true, &mut b),
            4 => lzf_chunks(&mut s, &d, &mut b),
            _ => {
                let o = Lz4Opts {
                    independent: true,
                    block_checksums: true,
                    content_checksum: true,
                    content_size: false,
                    bsize_code: 4,
                    block_len: 30_000,
                    raw_rate: 2,
                    min_len: 4,
                    end_mark: true,
                };
                lz4_frame(&mut s, &d, &o, &mut b)
            }
        }
    };
    let name = format!("x.{}", ["csv", "dc", "csv.gz", "dc.zst", "csv.lzf", "dc.lz4"][form]);
    let head = pack(enc(&[], true));
    let (k, chunk) = (1 + s.below(2), *s.pick(&[700usize, 8192, 1 << 20]));
    let zone = *s.pick(&[None, Some(chrono_tz::UTC), Some(chrono_tz::America::New_York)]);
    let tzf = || zone.map_or(chopper::util::tz::ChopperTz::new_always_fails(), chopper::util::tz::ChopperTz::from);
    let tz_needed = style != 0 && style != 3 && zone.is_none() && !dc;
    let out = s.below(3);
    let human = s.bool();
    let target = ctx.file(if out == 1 { "out.csv" } else { "out.dc" });
    let _ = std::fs::remove_file(&target);
    if out > 0 {
        std::os::unix::fs::symlink("/dev/null", &target).map_err(|e| format!("harness: {}", e))?;
    }
    ctx.describe(|| format!("{} x {}: {} columns, time style {}, width {}, {} different rows per piece, output {}", k, what, ncols, style, width, per, ["none", "csv", "dc"][out]));
    ctx.label(what);
    ctx.nontrivial = !tz_needed;
    if tz_needed {
        return Ok(());
    }
    let rows = Rc::new(rows);
    let n1 = 3000 / per + 1;
    let make: Rc<dyn Fn(u64) -> Vec<u8>> = Rc::new(move |i| pack(enc(&rows(i), false)));
    let run = |n: u64| -> Result<(u64, u64), String> {
        let map = Rc::new(RefCell::new(HashMap::new()));
        for i in 0..k {
            let r = Repeat {
                make: Some(make.clone()),
                head: Rc::new(head.clone()),
                body: Rc::new(vec![]),
                n: Some(n),
                tail: Rc::new(vec![]),
                chunk,
                served: Rc::new(RefCell::new(0)),
                limit: u64::MAX,
            };
            map.borrow_mut().insert(format!("rep:/{}/{}", i, name), r);
        }
        let t = RepeatTransport(map);
        let count = Rc::new(RefCell::new(0));
        let (r, peak, _) = crate::alloc::measure(|| -> CliResult<()> {
            let mut sources = Vec::new();
            for i in 0..k {
                let c = csv_cfg(
                    if s_auto(i) { None } else { Some(",") },
                    chopper::cli::util::YesNoAuto::Yes,
                    chopper::source::csv_configs::TimestampColConfig::Auto,
                    chopper::source::csv_configs::TimestampFmtConfig::Auto,
                    tzf(),
                )?;
                sources.push(open_with(c, None, Some(vec![Box::new(t.clone())]), &format!("rep:/{}/{}", i, name), InputFormat::Auto)?);
            }
            let sink: Box<dyn HeaderSink> = if out == 0 {
                Box::new(CountSink { n: count.clone(), fail_after: None, served: None, row_end: None, max_ahead: Rc::new(RefCell::new(0)) })
            } else {
                let c = chopper::source::csv_configs::CSVOutputConfig::new(
                    ",",
                    true,
                    None,
                    if human {
                        chopper::source::csv_configs::TimestampStyle::HumanReadable
                    } else {
                        chopper::source::csv_configs::TimestampStyle::Epoch
                    },
                    TimestampUnits::Millis,
                    chopper::util::tz::ChopperTz::from(zone.unwrap_or(chrono_tz::UTC)),
                );
                chopper::write::factory::new_header_sink(Some(target.to_str().unwrap()), Some(c))?
            };
            run_driver(sources, merged_graph(k, sink)?, ALL)
        });
        r.map_err(|e| format!("run failed: {}", err_text(&e)))?;
        let c = *count.borrow();
        Ok((peak, c))
    };
    let (p1, c1) = run(n1)?;
    let (p2, c2) = run(n1 * 8)?;
    if out == 0 && (c1 != k as u64 * n1 * per || c2 != k as u64 * n1 * 8 * per) {
        return Err(format!("{}: rows {} and {} instead of {} and {}", what, c1, c2, k as u64 * n1 * per, k as u64 * n1 * 8 * per));
    }
    if keeps_growing(p1, p2, SLACK, || run(n1 * 32).map(|r| r.0))? {
        return Err(format!("{}: peak memory grows with the input: {} bytes for {} rows, {} for {}", what, p1, n1 * per, p2, n1 * 8 * per));
    }
    Ok(())
}

/// every other input has its delimiter guessed
fn s_auto(i: usize) -> bool {
    i % 2 == 1
}

/// inputs without end: the run ends because of the end bound or because the sink stops it
fn c05_endless(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let form = s.below(FORMS.len());
    let width = *s.pick(&[1usize, 20, 300]);
    let rows_per_body = 1 + s.below(100) as u64;
    let head_rows = s.below(200) as u64;
    let k = 1 + s.below(3);
    let (head, body, tail, name, _) = form_parts(s, form, 1000, head_rows, rows_per_body, width);
    let by_sink = s.bool();
    let fail_after = 1 + s.draw(500);
    let chunk = *s.pick(&[500usize, 4096, 1 << 20]);
    let served = Rc::new(RefCell::new(0));
    ctx.describe(|| format!("{} endless {} with {} rows first, stopped by {}", k, FORMS[form], head_rows, if by_sink { "the sink" } else { "the end bound" }));
    ctx.nontrivial = true;
    ctx.label(FORMS[form]);
    ctx.label(if by_sink { "sink fails" } else { "end bound" });
    let map = Rc::new(RefCell::new(HashMap::new()));
    // generous: reads of 8 kB ahead at several levels, whole blocks of the compressed formats
    let limit = k as u64 * (head.len() as u64 + 600 * (body.len() as u64 + 1) + 4_000_000);
    for i in 0..k {
        let r = Repeat { make: None, head: Rc::new(head.clone()), body: Rc::new(body.clone()), n: None, tail: Rc::new(tail.clone()), chunk, served: served.clone(), limit };
        map.borrow_mut().insert(format!("rep:/{}/{}", i, name), r);
    }
    let t = RepeatTransport(map);
    let count = Rc::new(RefCell::new(0u64));
    let run = || -> CliResult<()> {
        let mut sources = Vec::new();
        for i in 0..k {
            sources.push(open_with(doc_cfg(), None, Some(vec![Box::new(t.clone())]), &format!("rep:/{}/{}", i, name), InputFormat::Auto)?);
        }
        let sink = CountSink { n: count.clone(), fail_after: if by_sink { Some(fail_after) } else { None }, served: None, row_end: None, max_ahead: Rc::new(RefCell::new(0)) };
        run_driver(sources, merged_graph(k, Box::new(sink))?, TimestampRange { begin: None, end: if by_sink { None } else { Some(1000) } })
    };
    let r = run();
    let n = *count.borrow();
    if by_sink {
        if r.is_ok() || n != fail_after {
            return Err(format!("{}: the sink failed at row {}, but {} rows were delivered, success: {}", FORMS[form], fail_after, n, r.is_ok()));
        }
    } else {
        if let Err(e) = r {
            return Err(format!("{}: run failed: {}", FORMS[form], err_text(&e)));
        }
        if n != k as u64 * head_rows {
            return Err(format!("{}: {} rows delivered, {} are before the end bound", FORMS[form], n, k as u64 * head_rows));
        }
        // after the bound no more than buffers were read
        let max = k as u64 * (head.len() as u64 + body.len() as u64 + 3_000_000);
        if *served.borrow() > max {
            return Err(format!("{}: {} bytes read to find {} rows before the end bound", FORMS[form], served.borrow(), n));
        }
    }
    Ok(())
}

/// rows that are all different, made when they are asked for
struct MadeRows {
    header: Header,
    at: u64,
    n: u64,
    step: u64,
    width: usize,
}

impl Source for MadeRows {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        if self.at == self.n {
            return Ok(None);
        }
        let i = self.at;
        self.at += 1;
        let h = hash_parts(&[&i.to_le_bytes()]);
        let text = FieldValue::String(format!("{:0w$}", h, w = self.width));
        Ok(Some(Row { timestamp: 1000 + i * self.step, field_values: vec![text, FieldValue::Long(h as i64), FieldValue::Int(7)] }))
    }
}

/// passes on every row this often
struct Times(usize);

impl HeaderSink for Times {
    fn process_header(self: Box<Self>, _h: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}

impl DataSink for Times {
    fn write_row(&mut self, rows: &mut Vec<Row>) -> CliResult<()> {
        match self.0 {
            0 => rows.clear(),
            n => {
                for _ in 1..n {
                    let r = rows[0].clone();
                    rows.push(r);
                }
            }
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

#[derive(Clone, Debug)]
enum Pass {
    Times(usize),
    Greater(i64),
    Equal(i32),
    EqualNone,
    Delete,
}

fn pass_nodes(ps: &[Pass]) -> Vec<HeaderNode> {
    ps.iter()
        .map(|p| {
            HeaderNode::HeaderSink(match p {
                Pass::Times(n) => Box::new(Times(*n)),
                Pass::Greater(v) => RowFilterGreaterValue::new("l", FieldValue::Long(*v)),
                Pass::Equal(v) => RowFilterEqualValue::new("i", FieldValue::Int(*v)),
                Pass::EqualNone => RowFilterEqualValue::new("s", FieldValue::String("no row has it".into())),
                Pass::Delete => ColumnFilterDelete::new("s"),
            })
        })
        .collect()
}

/// peak memory of runs over graphs with splits, merges, filters and sinks that multiply rows
fn c05_graph(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let k = 1 + s.below(4);
    let gen_pass = |s: &mut Src| -> Vec<Pass> {
        let n = s.weighted(&[3, 3, 2, 1]);
        (0..n)
            .map(|_| match s.weighted(&[4, 3, 2, 1]) {
                0 => Pass::Times(*s.pick(&[0usize, 1, 2, 2, 3, 5])),
                1 => Pass::Greater(*s.pick(&[0i64, i64::MIN, 1 << 62])),
                2 => Pass::Equal(*s.pick(&[7i32, 7, 8])),
                _ => Pass::EqualNone,
            })
            .collect()
    };
    let pre: Vec<Vec<Pass>> = (0..k).map(|_| gen_pass(s)).collect();
    let delete = s.chance(1, 3);
    let mut post = gen_pass(s);
    if delete {
        post.push(Pass::Delete);
    }
    // each branch is fed by a split in the chain of one input, or after the merge
    let branches: Vec<(usize, Vec<Pass>)> = s.many(0, 4, 2, |s| {
        let from = s.below(k + 1);
        (from, gen_pass(s))
    });
    let step = *s.pick(&[0u64, 1, 1_000_000_007]);
    let width = *s.pick(&[20usize, 20, 300]);
    let out = s.below(3);
    let bounded = s.chance(1, 3);
    let n1 = *s.pick(&[1_000u64, 3_000]);
    let target = ctx.file(if out == 1 { "out.csv" } else { "out.dc" });
    let _ = std::fs::remove_file(&target);
    if out > 0 {
        std::os::unix::fs::symlink("/dev/null", &target).map_err(|e| format!("harness: {}", e))?;
    }
    ctx.describe(|| format!("{} inputs through {:?}, merged, then {:?}; branches {:?}; {} and {} rows, {} apart, texts of {}, output {}", k, pre, post, branches, n1, n1 * 6, step, width, ["none", "csv", "dc"][out]));
    ctx.nontrivial = true;
    ctx.label_if(!branches.is_empty(), "split");
    ctx.label_if(k > 1, "merge");
    let has = |f: fn(&Pass) -> bool| pre.iter().flatten().chain(&post).chain(branches.iter().flat_map(|b| &b.1)).any(f);
    ctx.label_if(has(|p| matches!(p, Pass::Times(n) if *n > 1)), "sink that multiplies rows");
    ctx.label_if(has(|p| matches!(p, Pass::Times(0))), "sink that drops rows");
    ctx.label_if(has(|p| matches!(p, Pass::Greater(_) | Pass::Equal(_) | Pass::EqualNone)), "filter");
    let count = Rc::new(RefCell::new(0));
    let run = |n: u64| -> Result<u64, String> {
        *count.borrow_mut() = 0;
        let sink = || Box::new(CountSink { n: count.clone(), fail_after: None, served: None, row_end: None, max_ahead: Rc::new(RefCell::new(0)) });
        let (r, peak, _) = crate::alloc::measure(|| -> CliResult<()> {
            let mut sources: Vec<Box<dyn Source>> = Vec::new();
            for _ in 0..k {
                let header = Header::new(vec!["s".into(), "l".into(), "i".into()], vec![FieldType::String, FieldType::Long, FieldType::Int]);
                sources.push(Box::new(MadeRows { header, at: 0, n, step, width }));
            }
            let split = |nodes: &mut Vec<HeaderNode>, from: usize| {
                let ids: Vec<usize> = (0..branches.len()).filter(|b| branches[*b].0 == from).map(|b| k + 1 + b).collect();
                if !ids.is_empty() {
                    nodes.push(split_node(ids));
                }
            };
            let mut chains = vec![];
            for (i, p) in pre.iter().enumerate() {
                let mut nodes = pass_nodes(p);
                split(&mut nodes, i);
                nodes.push(HeaderNode::Merge(k));
                chains.push(HeaderChain::new(nodes));
            }
            let mut nodes = vec![merge_node(k)?];
            nodes.extend(pass_nodes(&post));
            split(&mut nodes, k);
            nodes.push(HeaderNode::HeaderSink(if out == 0 { sink() } else { chopper::write::factory::new_header_sink(Some(target.to_str().unwrap()), None)? }));
            chains.push(HeaderChain::new(nodes));
            for (from, b) in &branches {
                // the column may be gone by then
                let b: Vec<Pass> = b.iter().filter(|p| !(*from == k && delete && matches!(p, Pass::EqualNone))).cloned().collect();
                let mut nodes = pass_nodes(&b);
                nodes.push(HeaderNode::HeaderSink(sink()));
                chains.push(HeaderChain::new(nodes));
            }
            let range = TimestampRange { begin: if bounded { Some(1000) } else { None }, end: None };
            run_driver(sources, HeaderGraph::new(chains), range)
        });
        r.map_err(|e| format!("run failed: {}", err_text(&e)))?;
        Ok(peak)
    };
    let p1 = run(n1)?;
    let c1 = *count.borrow();
    let p2 = run(n1 * 6)?;
    ctx.label_if(c1 > 0 || out > 0, "rows arrive");
    if keeps_growing(p1, p2, SLACK, || run(n1 * 24))? {
        return Err(format!("peak memory grows with the number of rows: {} bytes for {} rows of each input, {} for {}", p1, n1, p2, n1 * 6));
    }
    Ok(())
}

/// rows are delivered while the rest of the input is still unread
fn c05_ahead(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let form = s.below(2);
    let width = *s.pick(&[1usize, 20, 300, 3000]);
    let (head, body, _, name, _) = form_parts(s, form, 1000, 0, 1, width);
    let n = 100 + s.draw(2000);
    let chunk = *s.pick(&[1usize, 100, 4096, 1 << 20]);
    ctx.describe(|| format!("{} with {} rows of {} bytes, chunks of {}", FORMS[form], n, body.len(), chunk));
    ctx.nontrivial = true;
    let measure = |n: u64| -> Result<i64, String> {
    let served = Rc::new(RefCell::new(0));
    let ahead = Rc::new(RefCell::new(0));
    let map = Rc::new(RefCell::new(HashMap::new()));
    let r = Repeat { make: None, head: Rc::new(head.clone()), body: Rc::new(body.clone()), n: Some(n), tail: Rc::new(vec![]), chunk, served: served.clone(), limit: u64::MAX };
    map.borrow_mut().insert(format!("rep:/{}", name), r);
    let t = RepeatTransport(map);
    let count = Rc::new(RefCell::new(0u64));
    let run = || -> CliResult<()> {
        let src = open_with(doc_cfg(), None, Some(vec![Box::new(t.clone())]), &format!("rep:/{}", name), InputFormat::Auto)?;
        let sink = CountSink {
            n: count.clone(),
            fail_after: None,
            served: Some(served.clone()),
            row_end: Some((head.len() as u64, body.len() as u64)),
            max_ahead: ahead.clone(),
        };
        run_driver(vec![src], merged_graph(1, Box::new(sink))?, ALL)
    };
    run().map_err(|e| err_text(&e))?;
    if *count.borrow() != n {
        return Err(format!("{} of {} rows", count.borrow(), n));
    }
    let a = *ahead.borrow();
    Ok(a)
    };
    let row = body.len() as i64;
    let mut a = measure(n)?;
    if a > 100_000 + 3 * row {
        // a large buffer, or does it not end there?
        a = measure(12_000_000 / row as u64)?;
    }
    if a > 3_000_000 + 3 * row {
        return Err(format!("{}: {} bytes were read ahead of a delivered row", FORMS[form], a));
    }
    Ok(())
}

/// directories of many small files
fn c05_many(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let rows = 1 + s.below(30) as u64;
    let packed = s.below(4);
    let n1 = 20 + s.below(40);
    let n2 = n1 * 8;
    let dir = ctx.file("many");
    let text = |i: u64| -> Vec<u8> {
        let mut o = String::from("timestamp,v\n");
        for q in 0..rows {
            o.push_str(&format!("{},{}\n", i, hash_parts(&[&i.to_le_bytes(), &q.to_le_bytes()])));
        }
        o.into_bytes()
    };
    ctx.describe(|| format!("{} and {} files of {} rows, compression {}", n1, n2, rows, packed));
    ctx.nontrivial = true;
    ctx.label(["plain", "gz", "lzf", "zip"][packed]);
    let mut b = 0;
    let mut measure = |n: usize| -> Result<(u64, usize), String> {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir(&dir).map_err(|e| format!("harness: {}", e))?;
        for i in 0..n {
            let d = text(i as u64);
            let (d, e) = match packed {
                0 => (d, ""),
                1 => (gz_member(s, &d), ".gz"),
                2 => (lzf_chunks(s, &d, &mut b), ".lzf"),
                _ => {
                    let mut m = gen_member(s, "x.csv", d);
                    m.method = if i % 2 == 0 { 0 } else { 8 };
                    (build(s, &ZipSpec { members: vec![m], ..Default::default() }).bytes, ".zip")
                }
            };
            let file = if packed == 3 { format!("{:05}.zip", i) } else { format!("{:05}.csv{}", i, e) };
            std::fs::write(dir.join(file), d).map_err(|e| format!("harness: {}", e))?;
        }
        let path = dir.clone();
        let count = Rc::new(RefCell::new(0));
        let open = Rc::new(RefCell::new(0usize));
        let (r, peak, _) = crate::alloc::measure(|| -> CliResult<()> {
            let src = open_with(doc_cfg(), None, None, path.to_str().unwrap(), InputFormat::Auto)?;
            let sink = FdSink { n: count.clone(), dir: dir.clone(), open: open.clone() };
            run_driver(vec![src], merged_graph(1, Box::new(sink))?, ALL)
        });
        r.map_err(|e| err_text(&e))?;
        if *count.borrow() != n as u64 * rows {
            return Err(format!("{} of {} rows", count.borrow(), n as u64 * rows));
        }
        let open = *open.borrow();
        Ok((peak, open))
    };
    let (first, second) = (measure(n1)?, measure(n2)?);
    let (peaks, fds) = ([first.0, second.0], [first.1, second.1]);
    let allowed = SLACK + 400 * (n2 - n1) as u64;
    let grows = keeps_growing(peaks[0], peaks[1], allowed, || measure(n2 * 8).map(|r| r.0))?;
    let _ = std::fs::remove_dir_all(&dir);
    // names and positions of the members have to be known: 400 bytes each
    if grows {
        return Err(format!("peak memory grows with the number of files: {:?} bytes for {} and {} files", peaks, n1, n2));
    }
    if fds[1] > fds[0] + 3 {
        return Err(format!("{:?} open files with {} and {} files", fds, n1, n2));
    }
    Ok(())
}

/// counts rows and, now and then, the files under a directory which this process has open
struct FdSink {
    n: Rc<RefCell<u64>>,
    dir: std::path::PathBuf,
    open: Rc<RefCell<usize>>,
}

impl HeaderSink for FdSink {
    fn process_header(self: Box<Self>, _h: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}

impl DataSink for FdSink {
    fn write_row(&mut self, rows: &mut Vec<Row>) -> CliResult<()> {
        let n = *self.n.borrow() + rows.len() as u64;
        *self.n.borrow_mut() = n;
        if n % 97 == 0 {
            let k = std::fs::read_dir("/proc/self/fd")
                .map(|d| d.flatten().filter(|e| std::fs::read_link(e.path()).map_or(false, |p| p.starts_with(&self.dir))).count())
                .unwrap_or(0);
            let m = (*self.open.borrow()).max(k);
            *self.open.borrow_mut() = m;
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// what lies behind the row at which reading has to stop is of no account: the next files of a
/// directory are not even opened, and rows come before the files after theirs are looked at
fn c05_beyond(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = s.urange(1, 4);
    let stop = s.below(n);
    let dir = ctx.file("dir");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).map_err(|e| format!("harness: {}", e))?;
    let mut t = MemTransport::new();
    t.scheme = String::new();
    let bounded = s.chance(2, 3);
    let dc = s.chance(1, 3);
    let many = if s.chance(1, 4) { s.urange(0, 5000) } else { 0 };
    let mut ts = 1_000_000u64;
    let mut expect: Vec<u64> = Vec::new();
    let mut end = None;
    let way = s.below(4);
    for i in 0..n {
        let rows = s.urange(1, 60) + if i == stop { many } else { 0 };
        let at = if i == stop { s.below(rows) } else { rows };
        let mut text = String::from("timestamp,a\n");
        let mut table = Table { names: vec!["a".into()], types: vec![Ty::Long], rows: vec![] };
        for q in 0..rows {
            ts += 1 + s.draw(2);
            if bounded && i == stop && q == at {
                end = Some(ts);
            }
            if i <= stop && end.is_none() {
                expect.push(ts);
            }
            text.push_str(&format!("{},{}\n", ts, q));
            table.rows.push(MRow { ts, vals: vec![Val::Long(q as i64)] });
        }
        let p = dir.join(format!("{:02}.{}", i, if dc { "dc" } else { "csv" }));
        let bytes = if dc { DcFile::from_table(&table).encode() } else { text.into_bytes() };
        let len = bytes.len();
        if i > stop && way == 1 {
            std::os::unix::fs::symlink(dir.join("nowhere"), &p).map_err(|e| format!("harness: {}", e))?;
        } else {
            std::fs::write(&p, "placeholder").map_err(|e| format!("harness: {}", e))?;
        }
        let mut f = MemFile::new(bytes, gen_chunking(s, len));
        if i > stop {
            f = match way {
                0 => f.with_open_fault(*s.pick(&KINDS)),
                1 | 2 => f.with_fault(Fault { pos: 0, kind: *s.pick(&KINDS), then: Then::Fail }),
                _ => MemFile::new(b"timestamp,other\nx,y\n".to_vec(), Chunking::Whole),
            };
        }
        t.add(p.to_str().unwrap(), f);
    }
    let what = format!("file {} of {} ({}) {}", stop, n, if dc { "dc" } else { "csv" }, end.map_or("is followed by unusable ones".to_string(), |e| format!("holds the end bound {}", e)));
    ctx.describe(|| format!("{}, {} rows to come", what, expect.len()));
    ctx.label(if bounded { "end bound in a file" } else { "no end bound" });
    ctx.label_if(expect.len() > 1000, "more than 1000 rows");
    ctx.nontrivial = stop + 1 < n;
    let cap = Capture::new();
    let res = (|| -> CliResult<()> {
        let src = open_with(doc_cfg(), None, Some(vec![Box::new(t)]), dir.to_str().unwrap(), InputFormat::Auto)?;
        run_driver(vec![src], merged_graph(1, Box::new(cap.clone()))?, TimestampRange { begin: None, end })
    })();
    let _ = std::fs::remove_dir_all(&dir);
    let got: Vec<u64> = cap.0.borrow().rows.iter().map(|r| r.ts).collect();
    if got != expect {
        // a row may be held back until the next one is known
        let one_back = res.is_err() && end.is_none() && got.len() + 1 == expect.len() && got[..] == expect[..got.len()];
        if !one_back {
            return Err(format!("{}: {} of {} rows delivered ({:?})", what, got.len(), expect.len(), res.map_err(|e| err_text(&e))));
        }
    }
    match (res, end.is_some() || stop + 1 == n) {
        (Ok(()), true) | (Err(_), false) => Ok(()),
        (Err(e), true) => Err(format!("{}: {}", what, err_text(&e))),
        (Ok(()), false) => Err(format!("{}: read to the end without an error", what)),
    }
}

/// directories and zip files on disk
fn c05_files(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let zip = s.bool();
    let width = *s.pick(&[5usize, 60]);
    let rows = 20_000u64;
    let dir = ctx.file("big");
    let text = |n: u64| -> Vec<u8> {
        let mut o = String::from("timestamp,v\n");
        for i in 0..n {
            o.push_str(&format!("{},{:0w$}\n", i / 3, hash_parts(&[&i.to_le_bytes()]), w = width));
        }
        o.into_bytes()
    };
    let method = *s.pick(&[0u16, 8, 12]);
    ctx.describe(|| format!("{} of {} and {} rows", if zip { "zip" } else { "directory" }, rows, rows * 4));
    ctx.nontrivial = true;
    ctx.label(if zip { "zip" } else { "directory" });
    let mut measure = |f: u64| -> Result<u64, String> {
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir(&dir).map_err(|e| format!("harness: {}", e))?;
        let path = if zip {
            let p = dir.join("x.zip");
            let mut m = gen_member(s, "x.csv", text(rows * f));
            m.method = method;
            let z = ZipSpec { members: vec![m], ..Default::default() };
            std::fs::write(&p, build(s, &z).bytes).map_err(|e| format!("harness: {}", e))?;
            p
        } else {
            for i in 0..3 {
                std::fs::write(dir.join(format!("{}.csv", i)), text(rows * f / 2)).map_err(|e| format!("harness: {}", e))?;
            }
            dir.clone()
        };
        let count = Rc::new(RefCell::new(0));
        let (r, peak, _) = crate::alloc::measure(|| -> CliResult<()> {
            let src = open_with(doc_cfg(), None, None, path.to_str().unwrap(), InputFormat::Auto)?;
            let sink = CountSink { n: count.clone(), fail_after: None, served: None, row_end: None, max_ahead: Rc::new(RefCell::new(0)) };
            run_driver(vec![src], merged_graph(1, Box::new(sink))?, ALL)
        });
        r.map_err(|e| err_text(&e))?;
        let want = if zip { rows * f } else { 3 * (rows * f / 2) };
        if *count.borrow() != want {
            return Err(format!("{} of {} rows", count.borrow(), want));
        }
        Ok(peak)
    };
    let peaks = [measure(1)?, measure(4)?];
    let grows = keeps_growing(peaks[0], peaks[1], SLACK, || measure(16))?;
    let _ = std::fs::remove_dir_all(&dir);
    if grows {
        return Err(format!("{}: peak memory grows with the input: {:?} bytes for {} and {} rows", if zip { "zip" } else { "directory" }, peaks, rows, rows * 4));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            level: "exploration",
            rule: "row level: 1-6 watched inputs (also endless) merged with bounds, every read request judged; byte level: CSV, DC, gzip, LZ4, LZF, zstd, zip and directory inputs generated on the fly, peak heap of a run compared with that of a run 4-6 times as long, endless inputs stopped by the end bound or the sink, bytes read ahead of each delivered row, open descriptors of directories of many files, directories in which nothing behind the stopping row can be used, what is fetched of a single frame; non-trivial: more than one row delivered, or always at byte level",
            assumptions: &["150 kB of peak memory is a constant, and so is what does not grow further with an even longer input", "buffers of up to 3 MB per input count as bounded read-ahead of bytes"],
            families: vec![
                c05_rows_family(),
                Family { name: "memory", f: c05_memory, quick: 90, thorough: 2_000 },
                Family { name: "distinct", f: c05_distinct, quick: 250, thorough: 6_000 },
                Family { name: "endless", f: c05_endless, quick: 600, thorough: 20_000 },
                Family { name: "ahead", f: c05_ahead, quick: 300, thorough: 8_000 },
                Family { name: "files", f: c05_files, quick: 12, thorough: 200 },
                Family { name: "beyond", f: c05_beyond, quick: 1_500, thorough: 40_000 },
                Family { name: "graph", f: c05_graph, quick: 200, thorough: 6_000 },
                Family { name: "many", f: c05_many, quick: 40, thorough: 800 },
            ],
        },
        Property {
            id: "C06",
            level: "exploration",
            rule: "CSV, DC and compressed inputs (and zip archives, directories, merged inputs) with a read failure of one of ten error kinds at every or random byte positions including the end, or a binary record cut short; non-trivial: the input has rows, or the failure was reached",
            assumptions: &["read failures of kind Interrupted mean retry and are not injected"],
            families: vec![
                Family { name: "source", f: c06_source, quick: 18_000, thorough: 200_000 },
                Family { name: "deep", f: c06_deep, quick: 6_000, thorough: 80_000 },
                Family { name: "zip", f: c06_zip, quick: 9_000, thorough: 100_000 },
                Family { name: "driver", f: c06_driver, quick: 24_000, thorough: 250_000 },
                Family { name: "dir", f: c06_dir, quick: 1_500, thorough: 40_000 },
                Family { name: "missing", f: c06_missing, quick: 30, thorough: 100 },
            ],
        },
        Property {
            id: "C26",
            level: "exploration",
            rule: "byte sequences of 0-32 kB around multiples of the preview size (text with LF/CRLF/CR, multi-byte characters, invalid bytes) in random arrival chunks; preview and lines against a reference, then a random mix of read, read_exact, read_until, fill_buf/consume and read_to_end against the data; non-trivial: not empty",
            assumptions: &[],
            families: vec![
                Family { name: "preview", f: c26_preview, quick: 180_000, thorough: 1_800_000 },
                Family { name: "reader", f: c26_reader, quick: 96_000, thorough: 960_000 },
                Family { name: "fault", f: c26_fault, quick: 36_000, thorough: 360_000 },
            ],
        },
        Property {
            id: "C30",
            level: "exploration",
            rule: "random vectors and sorted position lists; pairs of equal, altered, shortened and extended files around multiples of 8 kB, and contents that come through pipes; random lists of column types; supported and unsupported output names; non-trivial: something is removed / files not both empty / more than one type / any name",
            assumptions: &["names that merely end in csv or dc without a dot are not judged"],
            families: vec![
                Family { name: "remove", f: c30_remove, quick: 1_000_000, thorough: 10_000_000 },
                Family { name: "same", f: c30_same, quick: 200_000, thorough: 2_000_000 },
                Family { name: "large", f: c30_large, quick: 3_000, thorough: 60_000 },
            Family { name: "pipes", f: c30_pipes, quick: 8_000, thorough: 300_000 },
                Family { name: "type", f: c30_type, quick: 1_000_000, thorough: 10_000_000 },
                Family { name: "output", f: c30_output, quick: 200_000, thorough: 2_000_000 },
            ],
        },
    ]
}
