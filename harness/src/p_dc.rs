//! C14, C15, C16: the DC file format.
use chopper::chopper::chopper::Source;
use chopper::input::input::InputFormat;

use crate::alloc;
use crate::dcfmt::{self, DcFile};
use crate::engine::*;
use crate::gen::*;
use crate::memio::*;
use crate::model::*;
use crate::p_driver::{merged_graph, run_driver, ALL};

/// write rows through the real sink into a scratch file and return its bytes
pub fn write_with_sink(path: &str, t: &Table) -> Result<Vec<u8>, String> {
    let run = || {
        let sink = chopper::write::factory::new_header_sink(Some(path), None)?;
        let src: Box<dyn Source> = Box::new(VecSource::new(&t.names, &t.types, &t.rows));
        run_driver(vec![src], merged_graph(1, sink)?, ALL)
    };
    run().map_err(|e| format!("writing failed: {}", err_text(&e)))?;
    std::fs::read(path).map_err(|e| format!("no output: {}", e))
}

pub fn expect_table(t: &Table, d: &Drained) -> Outcome {
    if let Some(e) = &d.err {
        return Err(format!("error after {} of {} rows: {}", d.rows.len(), t.rows.len(), e));
    }
    if d.names != t.names {
        return Err(format!("column names differ: expected {:?} got {:?}", t.names, d.names));
    }
    if d.types != t.types {
        return Err(format!("column types differ: expected {:?} got {:?}", t.types, d.types));
    }
    if d.header_changed {
        return Err("the header changed while rows were read".into());
    }
    diff_rows(&t.rows, &d.rows)
}

fn show(t: &Table) -> String {
    format!("{} columns {:?} {} rows, first {:?}", t.names.len(), t.types, t.rows.len(), t.rows.first())
}

fn gen_dc_table(s: &mut Src) -> Table {
    let mut t = gen_dc_table_plain(s);
    if !t.names.is_empty() && s.chance(1, 60) {
        // a very long name
        let i = s.below(t.names.len());
        let n = match s.below(3) {
            0 => *s.pick(&[127usize, 128, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536]),
            1 => s.urange(200, 9000),
            _ => s.urange(200, 70_000),
        };
        let c = *s.pick(&["n", "ä", "漢", "𝄞"]);
        while t.names[i].len() < n {
            t.names[i].push_str(c);
        }
    }
    t
}

fn gen_dc_table_plain(s: &mut Src) -> Table {
    if s.big == Big::Long {
        let n = s.urange(1, 9);
        return gen_table_cols(s, n, 0, 0, false);
    }
    if s.big == Big::No && s.chance(1, 40) {
        // rows of no columns are only times
        return gen_table_cols(s, 0, 60, 6, false);
    }
    match s.weighted(&[8, 2, 1]) {
        _ if s.big != Big::No => gen_table(s, 60, 6, false),
        0 => gen_table(s, 60, 6, true),
        1 => gen_table(s, 1500, 300, false),
        _ => {
            let n = s.urange(1, 300);
            gen_table_cols(s, n, 20, 4, false)
        }
    }
}

fn label_table(t: &Table, ctx: &mut Ctx) {
    ctx.label_if(t.names.iter().any(|n| n.len() > 1000), "very long name");
    ctx.label_if(t.names.is_empty(), "no columns");
    ctx.label_if(t.names.len() > 8, "more than 8 columns");
    ctx.label_if(t.names.len() % 8 == 0, "multiple of 8 columns");
    ctx.label_if(t.rows.iter().any(|r| r.vals.contains(&Val::Null)), "nulls");
    ctx.label_if(t.rows.iter().any(|r| r.vals.iter().any(|v| matches!(v, Val::Str(x) if x.len() > 32767))), "string > 32767");
    ctx.label_if(
        t.rows.iter().any(|r| r.vals.iter().any(|v| matches!(v, Val::Str(x) if x.is_empty()))),
        "empty string",
    );
    ctx.label_if(
        t.rows.iter().any(|r| {
            r.vals.iter().any(|v| match v {
                Val::Double(b) => !f64::from_bits(*b).is_finite(),
                Val::Float(b) => !f32::from_bits(*b).is_finite(),
                _ => false,
            })
        }),
        "NaN or infinity",
    );
}

/// longer contents of an earlier run, which must disappear
fn earlier_contents(s: &mut Src, ctx: &mut Ctx, file: &str) -> Outcome {
    let p = ctx.file(file);
    let _ = std::fs::remove_file(&p);
    if s.chance(1, 6) {
        let n = *s.pick(&[1usize, 100, 10_000, 300_000]);
        std::fs::write(&p, vec![s.below(2) as u8; n]).map_err(|e| format!("harness: {}", e))?;
        ctx.label("overwrites an existing file");
    }
    Ok(())
}

fn c14(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let t = gen_dc_table(s);
    let chunking = gen_chunking(s, 20_000);
    let times = s.urange(0, 2);
    ctx.describe(|| show(&t));
    ctx.nontrivial = !t.rows.is_empty();
    label_table(&t, ctx);
    for f in &["a.dc", "b0.dc", "b1.dc"] {
        earlier_contents(s, ctx, f)?;
    }
    let p1 = ctx.file("a.dc");
    let bytes = write_with_sink(p1.to_str().unwrap(), &t)?;
    ctx.label_if(bytes.len() > 8192, "more than one buffer");
    let d = drain(open_with(csv_cfg_default(), None, None, p1.to_str().unwrap(), InputFormat::Auto))?;
    expect_table(&t, &d).map_err(|e| format!("file read back: {}", e))?;
    let d = drain(open_mem(csv_cfg_default(), "m.dc", MemFile::new(bytes.clone(), chunking), InputFormat::Auto))?;
    expect_table(&t, &d).map_err(|e| format!("read back in chunks: {}", e))?;
    // DC -> DC through a pipeline, repeatedly
    let mut cur = p1;
    for i in 0..times {
        let next = ctx.file(&format!("b{}.dc", i));
        let run = || {
            let src = open_with(csv_cfg_default(), None, None, cur.to_str().unwrap(), InputFormat::Auto)?;
            let sink = chopper::write::factory::new_header_sink(Some(next.to_str().unwrap()), None)?;
            run_driver(vec![src], merged_graph(1, sink)?, ALL)
        };
        run().map_err(|e| format!("conversion failed: {}", err_text(&e)))?;
        let again = std::fs::read(&next).map_err(|e| e.to_string())?;
        if again != bytes {
            let d = drain(open_with(csv_cfg_default(), None, None, next.to_str().unwrap(), InputFormat::Auto))?;
            expect_table(&t, &d).map_err(|e| format!("conversion {}: {}", i, e))?;
            return Err(format!("conversion {} changed the file ({} bytes became {})", i, bytes.len(), again.len()));
        }
        cur = next;
    }
    Ok(())
}

fn c14_huge(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let base = *s.pick(&[1usize << 24, (1 << 24) - 1, (1 << 24) + 1, 100_000, 1 << 17, (1 << 20) + 3]);
    let big = sized_string(s, base);
    let t = Table {
        names: vec!["a".into(), "b".into()],
        types: vec![Ty::Str, Ty::Int],
        rows: vec![
            MRow { ts: 1, vals: vec![Val::Str(big.clone()), Val::Int(7)] },
            MRow { ts: 2, vals: vec![Val::Str("tail".into()), Val::Null] },
        ],
    };
    ctx.describe(|| format!("string of {} bytes followed by a short row", base));
    ctx.nontrivial = true;
    let p1 = ctx.file("huge.dc");
    write_with_sink(p1.to_str().unwrap(), &t)?;
    let d = drain(open_with(csv_cfg_default(), None, None, p1.to_str().unwrap(), InputFormat::Auto))?;
    let _ = std::fs::remove_file(&p1);
    expect_table(&t, &d)
}

fn c14_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long]);
    c14(s, ctx)
}

fn c15_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long]);
    if s.bool() {
        c15_write(s, ctx)
    } else {
        c15_read(s, ctx)
    }
}

fn c15_write(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let t = gen_dc_table(s);
    ctx.describe(|| show(&t));
    ctx.nontrivial = !t.rows.is_empty();
    label_table(&t, ctx);
    earlier_contents(s, ctx, "w.dc")?;
    let bytes = write_with_sink(ctx.file("w.dc").to_str().unwrap(), &t)?;
    let want = DcFile::from_table(&t).encode();
    if bytes != want {
        let i = bytes.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(bytes.len().min(want.len()));
        return Err(format!(
            "file differs from the layout at byte {} ({} bytes, expected {}): got {:?} expected {:?}",
            i,
            bytes.len(),
            want.len(),
            &bytes[i..(i + 12).min(bytes.len())],
            &want[i..(i + 12).min(want.len())]
        ));
    }
    Ok(())
}

pub fn gen_dcfile(s: &mut Src) -> DcFile {
    let t = gen_dc_table(s);
    let mut f = DcFile::from_table(&t);
    f.hints = f.hints.iter().map(|_| s.range(-1, 6) as i32).collect();
    if s.chance(1, 2) {
        let n = match s.weighted(&[3, 2, 1]) {
            0 => s.urange(0, 40),
            1 => s.urange(0, 3000),
            _ => *s.pick(&[255usize, 256, 8191, 8192, 8193, 65535, 65536, 70_000]),
        };
        let fill = s.draw(255) as u8;
        f.user_header = (0..n).map(|i| fill.wrapping_add((i * 31) as u8)).collect();
    }
    for n in f.names.iter_mut() {
        if s.chance(1, 6) {
            *n = String::new();
        }
    }
    f.long_strings = s.chance(1, 4);
    f.dirty_bits = s.chance(1, 4);
    f
}

fn c15_read(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let f = gen_dcfile(s);
    let bytes = f.encode();
    let chunking = gen_chunking(s, bytes.len());
    let mut exp = Table { names: f.names.clone(), types: f.types.clone(), rows: f.rows.clone() };
    for (i, n) in exp.names.iter_mut().enumerate() {
        if n.is_empty() {
            *n = format!("col_{}", i);
        }
    }
    let (name, fmt) = match s.below(3) {
        0 => ("in.dc", InputFormat::Auto),
        1 => ("in.bin", InputFormat::Auto),
        _ => ("in.csv", InputFormat::Extension(".dc".into())),
    };
    ctx.describe(|| {
        format!("user header {} bytes, hints {:?}, long strings {}, {:?}, {}", f.user_header.len(), f.hints, f.long_strings, chunking, show(&exp))
    });
    ctx.nontrivial = !f.rows.is_empty();
    label_table(&exp, ctx);
    ctx.label_if(!f.user_header.is_empty(), "user header");
    ctx.label_if(f.names.iter().any(|n| n.is_empty()), "unnamed column");
    ctx.label_if(f.long_strings, "long string form");
    ctx.label_if(f.dirty_bits, "unused null bits set");
    ctx.label_if(f.hints.iter().any(|h| *h >= 0), "display hints");
    let d = drain(open_mem(csv_cfg_default(), name, MemFile::new(bytes, chunking), fmt))?;
    expect_table(&exp, &d)
}

// ---------------------------------------------------------------- C16

fn put_be(b: &mut Vec<u8>, pos: usize, v: u64, w: usize) {
    for i in 0..w {
        if pos + i < b.len() {
            b[pos + i] = (v >> (8 * (w - 1 - i))) as u8;
        }
    }
}

/// byte offsets and widths of every length, count, type and hint field
fn field_positions(f: &DcFile) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 8), (8, 2), (10, 4)];
    let mut p = 14 + f.user_header.len();
    v.push((p, 4));
    p += 4;
    for i in 0..f.names.len() {
        v.push((p, 4));
        p += 4 + f.names[i].len();
        v.push((p, 4));
        p += 4;
        v.push((p, 1));
        p += dcfmt::type_string(f.types[i]).len();
        v.push((p, 4));
        p += 4;
    }
    for r in f.rows.iter().take(8) {
        v.push((p, 8));
        p += 8;
        let nb = (r.vals.len() + 7) / 8;
        for i in 0..nb {
            v.push((p + i, 1));
        }
        p += nb;
        for x in &r.vals {
            match x {
                Val::Null => {}
                Val::Byte(_) => p += 1,
                Val::Char(_) | Val::Short(_) => p += 2,
                Val::Float(_) | Val::Int(_) => p += 4,
                Val::Double(_) | Val::Long(_) => p += 8,
                Val::Str(t) => {
                    v.push((p, 2));
                    if f.long_strings || t.len() > 32767 {
                        v.push((p + 2, 4));
                        p += 6 + t.len();
                    } else {
                        p += 2 + t.len();
                    }
                }
            }
        }
    }
    v
}

pub fn check_dc_bytes(bytes: Vec<u8>, chunking: Chunking, ctx: &mut Ctx) -> Outcome {
    let mut partial = Vec::new();
    let reference = dcfmt::decode(&bytes, &mut partial);
    let len = bytes.len() as u64;
    let mf = MemFile::new(bytes, chunking);
    let (d, peak, largest) = alloc::measure(|| drain(open_mem(csv_cfg_default(), "x.dc", mf.clone(), InputFormat::Auto)));
    let d = d?;
    match (&reference, &d.err) {
        (Ok(f), None) => {
            ctx.label("well-formed");
            let t = Table { names: f.names.clone(), types: f.types.clone(), rows: f.rows.clone() };
            // signalling NaNs may be quieted
            if t.rows.len() == d.rows.len() && t.rows.iter().flat_map(|r| &r.vals).any(|v| match v {
                Val::Double(b) => is_snan64(*b),
                Val::Float(b) => is_snan32(*b),
                _ => false,
            }) {
                return Ok(());
            }
            expect_table(&t, &d)?;
        }
        (Ok(_), Some(e)) => return Err(format!("a well-formed file was rejected after {} rows: {}", d.rows.len(), e)),
        (Err(w), None) => return Err(format!("a malformed file ({}) was accepted with {} rows", w, d.rows.len())),
        (Err(w), Some(_)) => {
            ctx.label(match w.as_str() {
                "truncated" => "rejected: truncated",
                "magic" | "version" => "rejected: magic or version",
                "type" => "rejected: type",
                "hint" => "rejected: hint",
                "bad utf8" => "rejected: text",
                "negative length" => "rejected: negative length",
                _ => "rejected: other",
            });
            if d.rows.len() > partial.len() {
                return Err(format!("{} rows delivered, the bytes encode only {} before the damage", d.rows.len(), partial.len()));
            }
            for (i, (a, b)) in d.rows.iter().zip(&partial).enumerate() {
                let nan = b.vals.iter().any(|v| matches!(v, Val::Double(b) if is_snan64(*b)) || matches!(v, Val::Float(b) if is_snan32(*b)));
                if a != b && !nan {
                    return Err(format!("row {} is not what the bytes encode: {:?} instead of {:?}", i, a, b));
                }
            }
        }
    }
    // every byte of input may at most become a value in a handful of live rows (here: all of them)
    let bound = 600_000 + 120 * len;
    if peak > bound || largest > 400_000 + 64 * len {
        return Err(format!("{} bytes of input made it hold {} bytes (largest request {})", len, peak, largest));
    }
    Ok(())
}

fn c16_mutate(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut f = match s.weighted(&[5, 1]) {
        0 => {
            let t = gen_table(s, 12, 3, false);
            let mut f = DcFile::from_table(&t);
            f.hints = f.hints.iter().map(|_| s.range(-1, 6) as i32).collect();
            f.long_strings = s.chance(1, 3);
            f
        }
        _ => gen_dcfile(s),
    };
    if f.user_header.len() > 5000 {
        f.user_header.truncate(5000);
    }
    // unsupported column types are valid in a header
    if !f.types.is_empty() && s.chance(1, 8) {
        let i = s.below(f.types.len());
        f.types[i] = if s.bool() { Ty::Bool } else { Ty::Buf };
        if s.bool() {
            for r in f.rows.iter_mut() {
                r.vals[i] = Val::Null;
            }
        }
        ctx.label("boolean or buffer column");
    }
    let mut b = f.encode();
    let fields = field_positions(&f);
    let n = s.urange(1, 3);
    let mut what = Vec::new();
    for _ in 0..n {
        match s.weighted(&[3, 6, 3, 1, 1, 1]) {
            0 => {
                let p = s.below(b.len() + 1);
                b.truncate(p);
                what.push(format!("cut at {}", p));
            }
            1 => {
                let (p, w) = *s.pick(&fields);
                let v = match s.weighted(&[3, 2, 2, 1]) {
                    0 => *s.pick(&[0u64, 1, 2, 0x7f, 0xff, 0x7fff, 0x8000, 0xffff, 0xfffe, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff0, 7, 8]),
                    1 => s.draw(300),
                    2 => s.draw(u64::MAX),
                    _ => {
                        let cur = b.get(p..(p + w).min(b.len())).map(|x| x.iter().fold(0u64, |a, c| a << 8 | *c as u64)).unwrap_or(0);
                        cur.wrapping_add(s.draw(4)).wrapping_sub(2)
                    }
                };
                put_be(&mut b, p, v, w);
                what.push(format!("field at {} width {} set to {:#x}", p, w, v));
            }
            2 => {
                if !b.is_empty() {
                    let p = s.below(b.len());
                    let v = s.draw(255) as u8;
                    b[p] = v;
                    what.push(format!("byte {} set to {:#x}", p, v));
                }
            }
            3 => {
                let p = s.below(b.len() + 1);
                let ins = s.many(1, 8, 3, |s| s.draw(255) as u8);
                what.push(format!("{:?} inserted at {}", ins, p));
                for (i, x) in ins.into_iter().enumerate() {
                    b.insert(p + i, x);
                }
            }
            4 => {
                if !b.is_empty() {
                    let p = s.below(b.len());
                    let e = (p + s.urange(1, 9)).min(b.len());
                    b.drain(p..e);
                    what.push(format!("bytes {}..{} removed", p, e));
                }
            }
            _ => {
                let extra = s.many(1, 30, 8, |s| s.draw(255) as u8);
                what.push(format!("{:?} appended", extra));
                b.extend(extra);
            }
        }
    }
    let chunking = gen_chunking(s, b.len());
    ctx.describe(|| format!("{} columns {} rows: {}; {:?}", f.names.len(), f.rows.len(), what.join("; "), chunking));
    ctx.nontrivial = b.len() >= 10 && b[..8] == 0x4443_4154u64.to_be_bytes();
    check_dc_bytes(b, chunking, ctx)
}

fn c16_raw(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut b: Vec<u8> = Vec::new();
    if !s.chance(1, 10) {
        b.extend_from_slice(&0x4443_4154u64.to_be_bytes());
        if !s.chance(1, 20) {
            b.extend_from_slice(&[0, 2]);
            b.extend_from_slice(&[0, 0, 0, 0]);
        }
    }
    let n = s.urange(0, 40);
    for _ in 0..n {
        match s.weighted(&[3, 2, 2, 2, 1]) {
            0 => b.extend_from_slice(&(s.below(9) as u32).to_be_bytes()),
            1 => b.extend_from_slice(s.pick(&["I", "J", "Ljava.lang.String;", "a", "Z", "S"]).as_bytes()),
            2 => b.extend_from_slice(&[0xff, 0xff, 0xff, 0xff]),
            3 => b.push(s.draw(255) as u8),
            _ => b.extend_from_slice(&[0xff, 0xff]),
        }
    }
    let chunking = gen_chunking(s, b.len());
    ctx.describe(|| format!("{} bytes: {:?}", b.len(), b));
    ctx.nontrivial = b.len() > 14;
    check_dc_bytes(b, chunking, ctx)
}

/// a valid file cut at every position: an error unless cut between rows
fn c16_cuts(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let t = gen_table(s, 5, 2, false);
    let mut f = DcFile::from_table(&t);
    f.long_strings = s.chance(1, 3);
    let b = f.encode();
    if b.len() > 1200 {
        ctx.label("skipped: long");
        return Ok(());
    }
    let chunking = gen_chunking(s, b.len());
    ctx.describe(|| format!("{} bytes cut everywhere: {}", b.len(), show(&t)));
    ctx.nontrivial = !t.rows.is_empty();
    for p in 0..b.len() {
        ctx.extra_evals += 1;
        check_dc_bytes(b[..p].to_vec(), chunking.clone(), ctx).map_err(|e| format!("cut at {}: {}", p, e))?;
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C14",
            level: "exploration",
            rule: "schemas of 1-300 columns of the 8 supported types and up to 1500 rows, in the big family up to 70000 columns or rows (nulls, extremes, NaN/infinities, strings up to 70 kB, 16 MB in the huge family, non-ASCII and very long names and text) written by DCSink and read back from the file and in generated chunks, then converted DC to DC up to twice; non-trivial: at least one row",
            assumptions: &["signalling NaN payloads are not generated (moving floats may quiet them)", "column names are non-empty (unnamed columns read as col_i, see C15)"],
            families: vec![
                Family { name: "roundtrip", f: c14, quick: 60_000, thorough: 1_000_000 },
                Family { name: "huge", f: c14_huge, quick: 24, thorough: 400 },
                Family { name: "big", f: c14_big, quick: 200, thorough: 6_000 },
            ],
        },
        Property {
            id: "C15",
            level: "exploration",
            rule: "write: the bytes DCSink writes for a generated table compared with an independent encoder; read: files of an independent encoder (user headers, hints, unnamed columns, long string form, unused null bits set) read back; non-trivial: at least one row",
            assumptions: &["tables have at least one column"],
            families: vec![
                Family { name: "write", f: c15_write, quick: 120_000, thorough: 1_500_000 },
                Family { name: "read", f: c15_read, quick: 120_000, thorough: 1_500_000 },
                Family { name: "big", f: c15_big, quick: 250, thorough: 6_000 },
            ],
        },
        Property {
            id: "C16",
            level: "exploration",
            rule: "valid DC files with 1-3 mutations (length/count/type/hint fields set to extremes, byte changes, cuts, insertions, deletions), grammar-like raw bytes, and every truncation of small files, each compared with a strict reference decoder and an allocation bound; non-trivial: magic intact (mutate), rows present (cuts)",
            assumptions: &["signalling NaN payloads are compared loosely"],
            families: vec![
                Family { name: "mutate", f: c16_mutate, quick: 400_000, thorough: 4_000_000 },
                Family { name: "raw", f: c16_raw, quick: 200_000, thorough: 2_000_000 },
                Family { name: "cuts", f: c16_cuts, quick: 1_500, thorough: 60_000 },
            ],
        },
    ]
}
