//! C08, C09, C10, C28: CSV input structure.
use chopper::chopper::types::FieldType;
use chopper::cli::util::YesNoAuto;
use chopper::input::input::InputFormat;
use chopper::source::csv_configs::{CSVInputConfig, TimestampColConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::csv_util;
use chopper::util::tz::ChopperTz;

use crate::csvgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::memio::*;
use crate::model::*;

fn ns_cfg(delim: Option<&str>, header: YesNoAuto, col: usize) -> CSVInputConfig {
    csv_cfg(delim, header, TimestampColConfig::Index(col), TimestampFmtConfig::Epoch(TimestampUnits::Nanos), ChopperTz::new_always_fails())
        .ok()
        .expect("cfg")
}

fn open_csv(ctx: &mut Ctx, s: &mut Src, cfg: CSVInputConfig, text: Vec<u8>) -> Result<Drained, String> {
    if s.chance(1, 12) {
        let p = ctx.file("t.csv");
        std::fs::write(&p, &text).map_err(|e| format!("harness: {}", e))?;
        ctx.label("real file");
        return drain(open_with(cfg, None, None, p.to_str().unwrap(), InputFormat::Auto));
    }
    let ch = gen_chunking(s, text.len());
    drain(open_mem(cfg, "t.csv", MemFile::new(text, ch), InputFormat::Auto))
}

fn gen_delim(s: &mut Src) -> (u8, String) {
    let d = match s.weighted(&[4, 3, 2]) {
        0 => b',',
        1 => *s.pick(&[b'\t', b' ', b';', b'|', b':']),
        _ => *s.pick(&[b'#', b'/', b'a', b'0', b'-', b'\\', b'~', b'_', b'=', b'\'', 1u8, 31]),
    };
    let arg = if d == b'\t' && s.bool() { "\\t".to_string() } else { (d as char).to_string() };
    (d, arg)
}

/// decimal digits that do not contain the delimiter
fn ts_text(s: &mut Src, d: u8) -> (u64, String) {
    let t = match s.below(3) {
        0 => s.draw(1000),
        1 => 1_500_000_000_000_000_000 + s.draw(1_000_000),
        _ => s.u64_any(),
    };
    let txt = t.to_string();
    if d == b'0' && txt.contains('0') {
        return (17, "17".into());
    }
    (t, txt)
}

fn show_text(t: &[u8]) -> String {
    truncate(&format!("{:?}", String::from_utf8_lossy(t)), 700)
}

fn check_rows(names: &[String], rows: &[Vec<Val>], ts: &[u64], d: &Drained) -> Outcome {
    if let Some(e) = &d.err {
        return Err(format!("error after {} of {} rows: {}", d.rows.len(), rows.len(), e));
    }
    if d.names != names {
        return Err(format!("column names {:?}, expected {:?}", d.names, names));
    }
    if d.types != vec![Ty::Str; names.len()] {
        return Err(format!("column types {:?} are not all text", d.types));
    }
    if d.header_changed {
        return Err("the header changed while rows were read".into());
    }
    let exp: Vec<MRow> = rows.iter().zip(ts).map(|(v, t)| MRow { ts: *t, vals: v.clone() }).collect();
    diff_rows(&exp, &d.rows)
}

fn c08(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (delim, darg) = gen_delim(s);
    let ncols = s.urange(1, 7);
    let ncols = s.big(Big::Wide, 20_000).unwrap_or(ncols);
    let tcol = if ncols > 1000 && s.bool() { ncols - 1 - s.below(3) } else { s.below(ncols) };
    let has_header = s.bool();
    let nrows = match s.weighted(&[6, 2, 1]) {
        _ if s.big == Big::Wide => s.urange(1, 3),
        0 => s.urange(0, 8),
        1 => s.urange(10, 120),
        _ => s.urange(200, 900),
    };
    let ncols = if s.big == Big::Long { ncols.min(tcol + 2) } else { ncols };
    let nrows = s.big(Big::Long, 70_000).unwrap_or(nrows);
    let kind = if nrows > 5000 || ncols > 2000 || (nrows > 150 && s.bool()) { CellKind::Plain } else { CellKind::Any };
    let mut doc = CsvDoc { delim, ..Default::default() };
    if has_header {
        doc.header = Some((0..ncols).map(|_| gen_cell(s, &kind)).collect());
    }
    let mut ts = Vec::new();
    for _ in 0..nrows {
        let (t, txt) = ts_text(s, delim);
        ts.push(t);
        let mut r: Vec<String> = Vec::new();
        for c in 0..ncols {
            r.push(if c == tcol { txt.clone() } else { gen_cell(s, &kind) });
        }
        doc.rows.push(r);
    }
    // an unquoted cell must not look like the start of a quoted one or be merged by trimming
    let st = gen_style(s);
    render(s, &mut doc, &st);
    ctx.describe(|| format!("delimiter {:?} header {} ts column {} text {}", delim as char, has_header, tcol, show_text(&doc.text)));
    ctx.nontrivial = nrows > 0;
    ctx.label_if(doc.quoted > 0, "quoted cells");
    ctx.label_if(doc.line_breaks_inside > 0, "line breaks inside cells");
    ctx.label_if(doc.blank_lines > 0, "blank lines");
    ctx.label_if(doc.text.len() > 8192, "larger than the preview");
    ctx.label_if(doc.text.len() > 65536, "larger than 64 kB");
    ctx.label_if(!st.final_newline, "no final newline");
    ctx.label_if(nrows == 0, "no rows");
    let hdr = if has_header { YesNoAuto::Yes } else { YesNoAuto::No };
    let cfg = ns_cfg(Some(&darg), hdr, tcol);
    let d = open_csv(ctx, s, cfg, doc.text.clone())?;
    let r = ref_table(doc.header.as_ref().map(|h| &h[..]), &doc.rows);
    check_rows(&r.names, &r.rows, &ts, &d)
}

fn c08_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long]);
    c08(s, ctx)
}

// ---------------------------------------------------------------- C09

fn ref_guess_delim(line: &str) -> u8 {
    let mut best = (b',', 0usize);
    for d in [b',', b'\t', b' '] {
        let n = line.bytes().filter(|b| *b == d).count();
        if n > best.1 {
            best = (d, n);
        }
    }
    best.0
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Kind {
    Int,
    Dec,
    Text,
}

/// a cell of a known kind; never contains comma, tab, space, quote
fn gen_kinded(s: &mut Src) -> (Kind, String) {
    match s.weighted(&[4, 3, 4]) {
        0 => (
            Kind::Int,
            match s.below(5) {
                0 => s.draw(9).to_string(),
                1 => s.draw(2_000_000_000_000_000_000).to_string(),
                2 => format!("-{}", s.draw(100000)),
                3 => format!("+{}", s.draw(100000)),
                _ => s.pick(&["0", "9223372036854775807", "-9223372036854775808", "007", "-0"]).to_string(),
            },
        ),
        1 => (
            Kind::Dec,
            match s.below(4) {
                0 => format!("{}.{}", s.draw(1000), s.draw(1000)),
                1 => format!("-{}.{:03}", s.draw(10), s.draw(999)),
                2 => format!("{}e{}", s.draw(99), s.range(-20, 20)),
                _ => s.pick(&["1.", ".5", "9223372036854775808", "-9223372036854775809", "1E5", "123456789012345678901234567890", "0.0"]).to_string(),
            },
        ),
        _ => (
            Kind::Text,
            match s.below(4) {
                0 => format!("x{}", ascii_word(s, 0, 5)),
                1 => String::new(),
                2 => s.pick(&["1a", "a1", "--1", "1.2.3", "e5", "2019-01-01", "12:30", "0x10", "1_000", "é", "-", ".", "+", "1e", "time", "true"]).to_string(),
                _ => format!("{}y", s.draw(1000)),
            },
        ),
    }
}

/// the return values of the detection functions
fn c09_funcs(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    // delimiter
    let line: String = if s.chance(1, 20) {
        // many of each, around powers of two
        let mut parts: Vec<String> = Vec::new();
        for d in [",", "\t", " ", "a", "é"] {
            let n = *s.pick(&[0usize, 0, 1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1024, 65_535, 65_536, 65_537]);
            let n = if n > 60_000 && !s.chance(1, 10) { n % 1000 } else { n };
            let k = 1 + s.below(3);
            for j in 0..k {
                parts.push(d.repeat(n / k + (j < n % k) as usize));
            }
        }
        for k in (1..parts.len()).rev() {
            let j = s.below(k + 1);
            parts.swap(k, j);
        }
        ctx.label("long line");
        parts.concat()
    } else { s
        .many(0, 60, 12, |s| match s.weighted(&[2, 2, 2, 3, 1]) {
            0 => ',',
            1 => '\t',
            2 => ' ',
            3 => (b'a' + s.below(26) as u8) as char,
            _ => any_char(s),
        })
        .into_iter()
        .collect() };
    let want = ref_guess_delim(&line);
    let got = csv_util::guess_delimiter(&line, b",\t ");
    ctx.nontrivial = line.bytes().any(|b| b == b',' || b == b'\t' || b == b' ');
    if got != want {
        return Err(format!("delimiter of {:?} is guessed as {:?}, expected {:?}", truncate(&line, 300), got as char, want as char));
    }
    // delimiter option
    let arg = any_string(s, 3);
    let arg = if s.chance(1, 5) { "\\t".to_string() } else { arg };
    let got = csv_util::parse_into_delimiter(&arg).ok();
    let want = if arg == "\\t" {
        Some(b'\t')
    } else if arg.chars().count() == 1 && arg.is_ascii() {
        Some(arg.as_bytes()[0])
    } else {
        None
    };
    if got != want {
        return Err(format!("delimiter option {:?} is parsed as {:?}, expected {:?}", arg, got, want));
    }
    // header
    let delim = *s.pick(&[b',', b'\t', b' ', b';']);
    let n1 = if s.chance(1, 8) { s.edge(600) } else { s.urange(1, 5) };
    ctx.label_if(n1 > 5, "many cells");
    let row1: Vec<(Kind, String)> = (0..n1).map(|_| gen_kinded(s)).collect();
    let row2: Vec<(Kind, String)> = match s.below(3) {
        0 => row1
            .iter()
            .map(|(k, _)| loop {
                let (k2, t) = gen_kinded_of(s, *k);
                if k2 == *k {
                    break (k2, t);
                }
            })
            .collect(),
        1 => {
            let mut r = row1.clone();
            let i = s.below(n1);
            r[i] = gen_kinded(s);
            r
        }
        _ if n1 > 5 => {
            // the start of the other line, or longer
            let mut r = row1.clone();
            if s.bool() {
                r.truncate(s.urange(1, n1));
            } else {
                for _ in 0..s.urange(1, 3) {
                    r.push(gen_kinded(s));
                }
            }
            r
        }
        _ => {
            let n2 = s.urange(1, 5);
            (0..n2).map(|_| gen_kinded(s)).collect()
        }
    };
    let pad = |s: &mut Src, t: &str| -> String {
        if delim == b' ' || delim == b'\t' {
            t.to_string()
        } else {
            format!("{}{}{}", s.pick(&["", " ", "\t"]), t, s.pick(&["", "  "]))
        }
    };
    let join = |s: &mut Src, r: &[(Kind, String)]| -> String {
        let v: Vec<String> = r.iter().map(|x| pad(s, &x.1)).collect();
        v.join(&(delim as char).to_string())
    };
    let l1 = join(s, &row1);
    let l2 = join(s, &row2);
    let want = row1.iter().map(|x| x.0).collect::<Vec<_>>() != row2.iter().map(|x| x.0).collect::<Vec<_>>();
    ctx.describe(|| format!("line {:?}; option {:?}; lines {:?} / {:?}", truncate(&line, 300), arg, l1, l2));
    ctx.label(if want { "header expected" } else { "no header expected" });
    let got = csv_util::guess_has_header(Some(&l1), Some(&l2), delim);
    if got != want {
        return Err(format!("header of {:?} / {:?} guessed as {}, expected {}", l1, l2, got, want));
    }
    if csv_util::guess_has_header(Some(&l1), None, delim) || csv_util::guess_has_header(None, None, delim) {
        return Err("a header was guessed from fewer than two lines".into());
    }
    for (k, t) in row1.iter().chain(&row2) {
        let got = csv_util::guess_type(t);
        let want = match k {
            Kind::Int => FieldType::Long,
            Kind::Dec => FieldType::Double,
            Kind::Text => FieldType::String,
        };
        if got != want {
            return Err(format!("kind of {:?} is {:?}, expected {:?}", t, got, want));
        }
    }
    Ok(())
}

fn gen_kinded_of(s: &mut Src, k: Kind) -> (Kind, String) {
    for _ in 0..6 {
        let x = gen_kinded(s);
        if x.0 == k {
            return x;
        }
    }
    match k {
        Kind::Int => (k, "12".into()),
        Kind::Dec => (k, "1.5".into()),
        Kind::Text => (k, "abc".into()),
    }
}

/// split a line of unquoted cells
fn split_line(l: &str, d: u8) -> Vec<String> {
    l.split(d as char).map(|x| x.to_string()).collect()
}

/// detection through a source: nothing lost, duplicated or altered
fn c09_source(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    // lines made of cells and a mix of the candidate delimiters
    let main = *s.pick(&[b',', b'\t', b' ']);
    // the first two lines are to fit into the preview
    let wide = s.chance(1, 25);
    let ncols = if wide { *s.pick(&[100usize, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 512, 513, 514, 770, 1023, 1024, 1025, 1026, 1300, 1500, 2040]) } else { s.urange(1, 5) };
    let nrows = match s.weighted(&[8, 1]) {
        _ if wide => s.urange(1, 4),
        0 => s.urange(1, 7),
        _ => s.urange(100, 1200),
    };
    ctx.label_if(wide, "wide");
    let header_like = s.bool();
    let mut lines: Vec<String> = Vec::new();
    // noise: another candidate inside cells (also at equal frequency, for the tie rule)
    let noise = *s.pick(&[0u64, 0, 1, 3]);
    let quotes = s.chance(1, 6);
    ctx.label_if(quotes, "quotes inside cells");
    for i in 0..nrows {
        let mut cells: Vec<String> = Vec::new();
        for c in 0..ncols {
            let mut t = if ncols > 1000 && c > 0 && c + 3 < ncols {
                s.pick(&["1", "a", "", "2"]).to_string()
            } else if wide && c > 0 {
                s.pick(&["1", "a", "2.5", "", "-3", "bc"]).to_string()
            } else if i == 0 && header_like {
                if c == 0 && s.bool() {
                    "time".into()
                } else {
                    gen_kinded(s).1
                }
            } else if c == 0 {
                (1_500_000_000_000_000_000u64 + s.draw(1000)).to_string()
            } else {
                gen_kinded(s).1
            };
            if noise > 0 && c > 0 && s.draw(3) < noise && (!wide || s.chance(1, 8)) {
                let o = *s.pick(&[',', '\t', ' ']);
                // inside, so that trimming does not matter
                t = format!("a{}b", o);
            }
            if quotes && c > 0 && s.chance(1, 4) {
                // a quote that does not open a cell is part of it
                t = s.pick(&["5\"", "a\"b", "12.5\"x", "x\"\"y", "5'6\"", "q\"\"\""]).to_string();
            }
            cells.push(t);
        }
        lines.push(cells.join(&(main as char).to_string()));
    }
    if lines.len() > 1 && s.chance(1, 6) {
        // the two lines differ in at most one cell
        let mut cells = split_line(&lines[0], main);
        let at = s.below(cells.len());
        if at > 0 && s.chance(4, 5) {
            cells[at] = s.pick(&["1", "a", "2.5", "-3", "bc"]).to_string();
        }
        if cells[0].parse::<u64>().is_err() {
            cells[0] = "1500000000000000000".into();
        }
        lines[1] = cells.join(&(main as char).to_string());
        ctx.label("lines that differ in at most a cell or two");
    }
    let header_opt = *s.pick(&[YesNoAuto::Auto, YesNoAuto::Auto, YesNoAuto::Yes, YesNoAuto::No]);
    let explicit = if s.chance(1, 4) { Some(*s.pick(&[b',', b'\t', b' ', b';'])) } else { None };
    let delim = explicit.unwrap_or_else(|| ref_guess_delim(&lines[0]));
    let kinds = |l: &str| -> Vec<Kind> {
        split_line(l, delim)
            .iter()
            .map(|c| {
                let c = c.trim();
                if c.parse::<i64>().is_ok() {
                    Kind::Int
                } else if c.parse::<f64>().is_ok() {
                    Kind::Dec
                } else {
                    Kind::Text
                }
            })
            .collect()
    };
    let has_header = match header_opt {
        YesNoAuto::Yes => true,
        YesNoAuto::No => false,
        YesNoAuto::Auto => lines.len() >= 2 && kinds(&lines[0]) != kinds(&lines[1]),
    };
    // blank lines would count as lines for detection; an empty single cell makes one
    if lines.iter().any(|l| l.is_empty()) {
        ctx.label("discarded: blank line");
        return Ok(());
    }
    if lines.iter().take(2).map(|l| l.len() + 2).sum::<usize>() > 8192 {
        ctx.label("discarded: longer than the preview");
        return Ok(());
    }
    let crlf = s.bool();
    let eol = if crlf { "\r\n" } else { "\n" };
    let mut text = lines.join(eol);
    if !s.chance(1, 4) {
        text.push_str(eol);
    }
    let mut recs: Vec<Vec<String>> = lines.iter().map(|l| split_line(l, delim)).collect();
    let header = if has_header { Some(recs.remove(0)) } else { None };
    let r = ref_table(header.as_ref().map(|h| &h[..]), &recs);
    ctx.describe(|| {
        format!("option header {:?} delimiter {:?}; expected delimiter {:?} header {}; text {}", header_opt_name(header_opt), explicit.map(|d| d as char), delim as char, has_header, show_text(text.as_bytes()))
    });
    ctx.nontrivial = !recs.is_empty() && (explicit.is_none() || matches!(header_opt, YesNoAuto::Auto));
    ctx.label(match delim {
        b',' => "comma",
        b'\t' => "tab",
        b' ' => "space",
        _ => "other",
    });
    ctx.label(if has_header { "header" } else { "no header" });
    ctx.label_if(lines.len() == 1, "single line");
    ctx.label_if(text.len() > 8192, "larger than the preview");
    let darg = explicit.map(|d| (d as char).to_string());
    let cfg = ns_cfg(darg.as_deref(), header_opt, 0);
    let d = open_csv(ctx, s, cfg, text.into_bytes())?;
    // rows up to the first record that is too wide or whose time is not a number
    let mut ts = Vec::new();
    let mut bad = r.err_at;
    for (i, rec) in recs.iter().enumerate() {
        if Some(i) == r.err_at {
            break;
        }
        match rec[0].trim().parse::<u64>() {
            Ok(t) => ts.push(t),
            Err(_) => {
                bad = Some(i);
                break;
            }
        }
    }
    match bad {
        None => check_rows(&r.names, &r.rows, &ts, &d),
        Some(i) => {
            ctx.label("error expected");
            if d.err.is_none() {
                return Err(format!("record {} should have been an error; {} rows were delivered", i, d.rows.len()));
            }
            if d.rows.len() > i {
                return Err(format!("{} rows delivered although record {} is in error", d.rows.len(), i));
            }
            let exp: Vec<MRow> = r.rows.iter().zip(&ts).take(d.rows.len()).map(|(v, t)| MRow { ts: *t, vals: v.clone() }).collect();
            diff_rows(&exp, &d.rows)
        }
    }
}

fn header_opt_name(h: YesNoAuto) -> &'static str {
    match h {
        YesNoAuto::Yes => "yes",
        YesNoAuto::No => "no",
        YesNoAuto::Auto => "auto",
    }
}

// ---------------------------------------------------------------- C28

fn c28_csv(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (delim, darg) = gen_delim(s);
    let base = s.urange(1, 6);
    let base = s.big(Big::Wide, 20_000).unwrap_or(base);
    let has_header = s.bool();
    let tcol = if s.chance(1, 4) { s.below(base) } else { 0 };
    let rag = *s.pick(&[0u64, 2, 5, 8]);
    let widths = |s: &mut Src, first: bool| -> usize {
        if s.draw(9) < rag {
            let w = match s.weighted(&[4, 1]) {
                0 if s.big == Big::Wide && s.bool() => (base + if first { 2 } else { 0 }).saturating_sub(s.below(5)),
                0 => s.urange(1, base + if first { 2 } else { 0 }),
                _ => base + s.urange(0, 2),
            };
            w.max(1)
        } else {
            base
        }
    };
    let mut doc = CsvDoc { delim, ..Default::default() };
    if has_header {
        let w = widths(s, true);
        // names need not be different from one another
        let of = match s.below(4) {
            0 => 1,
            1 => 1 + s.below(w.max(1)),
            _ => w.max(1),
        };
        let stem = s.pick(&["h", "col_", "", "a b "]).to_string();
        let mut names: Vec<String> = (0..w).map(|i| format!("{}{}", stem, if of == w.max(1) { i } else { i % of + 1 })).collect();
        if w > 1 && s.chance(1, 5) {
            // columns without a name, as from a delimiter at the end of the line
            let k = if s.chance(2, 3) { w - 1 } else { s.below(w) };
            names[k] = String::new();
            ctx.label("column without a name");
        }
        doc.header = Some(names);
    }
    let nrows = match s.weighted(&[6, 1]) {
        _ if s.big == Big::Wide => s.urange(1, 3),
        0 => s.urange(0, 8),
        _ => s.urange(20, 200),
    };
    let nrows = s.big(Big::Long, 70_000).unwrap_or(nrows);
    let kind = if s.bool() || s.big != Big::No { CellKind::Plain } else { CellKind::Any };
    // most of a long table must not be behind an error
    let calm = s.big == Big::Long && s.chance(2, 3);
    let mut ts: Vec<u64> = Vec::new();
    let mut short_ts = None;
    for i in 0..nrows {
        let w = widths(s, i == 0);
        let w = if calm { w.max(tcol + 1).min(base) } else { w };
        let (t, txt) = ts_text(s, delim);
        let r: Vec<String> = (0..w).map(|c| if c == tcol { txt.clone() } else { gen_cell(s, &kind) }).collect();
        if w <= tcol && short_ts.is_none() {
            short_ts = Some(i);
        }
        ts.push(t);
        doc.rows.push(r);
    }
    let st = gen_style(s);
    render(s, &mut doc, &st);
    let r = ref_table(doc.header.as_ref().map(|h| &h[..]), &doc.rows);
    let bad = match (r.err_at, short_ts) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    };
    ctx.describe(|| format!("delimiter {:?} header {} ts column {} text {}", delim as char, has_header, tcol, show_text(&doc.text)));
    let ragged = doc.rows.iter().any(|x| x.len() != r.names.len()) || doc.header.as_ref().map_or(false, |h| !doc.rows.is_empty() && h.len() != r.names.len());
    ctx.nontrivial = ragged;
    ctx.label_if(ragged, "ragged");
    ctx.label_if(r.err_at.is_some(), "too wide a record");
    ctx.label_if(short_ts.is_some(), "record without the time column");
    ctx.label_if(r.rows.iter().any(|x| x.contains(&Val::Null)), "missing values");
    let hdr = if has_header { YesNoAuto::Yes } else { YesNoAuto::No };
    let d = open_csv(ctx, s, ns_cfg(Some(&darg), hdr, tcol), doc.text.clone())?;
    check_shape(&d)?;
    match bad {
        None => check_rows(&r.names, &r.rows, &ts, &d),
        Some(i) => {
            if d.err.is_none() {
                return Err(format!("record {} should have been an error; {} rows were delivered", i, d.rows.len()));
            }
            if d.rows.len() > i {
                return Err(format!("{} rows delivered although record {} is in error", d.rows.len(), i));
            }
            let exp: Vec<MRow> = r.rows.iter().zip(&ts).take(d.rows.len()).map(|(v, t)| MRow { ts: *t, vals: v.clone() }).collect();
            diff_rows(&exp, &d.rows)
        }
    }
}

fn c28_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long]);
    c28_csv(s, ctx)
}

/// the universal part: every row matches the declared header
pub fn check_shape(d: &Drained) -> Outcome {
    if d.names.len() != d.types.len() {
        return Err(format!("{} names but {} types", d.names.len(), d.types.len()));
    }
    if d.header_changed {
        return Err("the header changed while rows were read".into());
    }
    for (i, r) in d.rows.iter().enumerate() {
        if r.vals.len() != d.names.len() {
            return Err(format!("row {} has {} values for {} columns", i, r.vals.len(), d.names.len()));
        }
        for (c, v) in r.vals.iter().enumerate() {
            if let Some(t) = val_type(v) {
                if t != d.types[c] {
                    return Err(format!("row {} column {} holds a {:?}, declared {:?}", i, c, t, d.types[c]));
                }
            }
        }
    }
    Ok(())
}

/// arbitrary text and DC bytes: whatever is delivered matches the header
fn c28_any(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (bytes, name): (Vec<u8>, &str) = match s.below(3) {
        0 => {
            let f = crate::p_dc::gen_dcfile(s);
            let mut b = f.encode();
            if s.bool() && !b.is_empty() {
                let n = s.urange(1, 4);
                for _ in 0..n {
                    let p = s.below(b.len());
                    b[p] = s.draw(255) as u8;
                }
            }
            (b, "x.dc")
        }
        _ => {
            let t = s.many(0, 200, 60, |s| match s.weighted(&[5, 3, 2, 1, 3]) {
                0 => (b'0' + s.below(10) as u8) as char,
                1 => ',',
                2 => '\n',
                3 => '"',
                _ => *s.pick(&['a', ' ', '\t', '\r', '.', '-', 'é', '"']),
            });
            (t.into_iter().collect::<String>().into_bytes(), "x.csv")
        }
    };
    ctx.describe(|| format!("{} {}", name, show_text(&bytes)));
    let hdr = *s.pick(&[YesNoAuto::Auto, YesNoAuto::Yes, YesNoAuto::No]);
    let cfg = if s.bool() { ns_cfg(Some(","), hdr, 0) } else { csv_cfg_default() };
    let ch = gen_chunking(s, bytes.len());
    let d = drain(open_mem(cfg, name, MemFile::new(bytes, ch), InputFormat::Auto))?;
    ctx.nontrivial = !d.rows.is_empty();
    check_shape(&d)
}

// ---------------------------------------------------------------- C10

const UNITS: [(&str, u64, TimestampUnits); 4] = [
    ("seconds", 1_000_000_000, TimestampUnits::Seconds),
    ("millis", 1_000_000, TimestampUnits::Millis),
    ("micros", 1_000, TimestampUnits::Micros),
    ("nanos", 1, TimestampUnits::Nanos),
];

fn recase(s: &mut Src, t: &str) -> String {
    match s.below(4) {
        0 => t.to_string(),
        1 => t.to_uppercase(),
        2 => {
            let mut c = t.chars();
            match c.next() {
                Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
                None => String::new(),
            }
        }
        _ => t.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Sel {
    /// column, nanoseconds per unit when a suffix decides
    One(usize, Option<u64>),
    Pair(usize, usize),
}

fn unit_of(suffix: &str) -> Option<u64> {
    UNITS.iter().find(|u| u.0 == suffix).map(|u| u.1)
}

/// the documented priority, written from its description; None: description is ambiguous
fn ref_select(names: &[String]) -> Option<Sel> {
    let low: Vec<String> = names.iter().map(|n| n.trim().to_lowercase()).collect();
    let leftmost = |f: &dyn Fn(&str) -> bool| low.iter().position(|n| f(n));
    // 1. 'time' plus unit
    if let Some(i) = leftmost(&|n| n.starts_with("time") && unit_of(&n[4..]).is_some()) {
        return Some(Sel::One(i, unit_of(&low[i][4..])));
    }
    // 2. 'date' (+ 'time')
    let time = leftmost(&|n| n == "time");
    if let Some(d) = leftmost(&|n| n == "date") {
        return Some(match time {
            Some(t) => Sel::Pair(d, t),
            None => Sel::One(d, None),
        });
    }
    // 3. 'time'
    if let Some(t) = time {
        return Some(Sel::One(t, None));
    }
    // 4. prefixed time with unit
    let ptu = |n: &str| -> Option<u64> {
        for (u, f, _) in UNITS.iter() {
            let suf = format!("time{}", u);
            if n.len() > suf.len() && n.ends_with(&suf) {
                return Some(*f);
            }
        }
        None
    };
    if let Some(i) = leftmost(&|n| ptu(n).is_some()) {
        return Some(Sel::One(i, ptu(&low[i])));
    }
    // 5. prefixed date (+ prefixed time of the same prefix)
    let ptimes: Vec<(usize, String)> =
        low.iter().enumerate().filter(|(_, n)| n.len() > 4 && n.ends_with("time")).map(|(i, n)| (i, n[..n.len() - 4].to_string())).collect();
    if let Some(d) = leftmost(&|n| n.len() > 4 && n.ends_with("date")) {
        let prefix = &low[d][..low[d].len() - 4];
        return match ptimes.first() {
            None => Some(Sel::One(d, None)),
            Some((t, p)) if p == prefix => Some(Sel::Pair(d, *t)),
            Some(_) if ptimes.iter().any(|(_, p)| p == prefix) => None,
            Some(_) => Some(Sel::One(d, None)),
        };
    }
    // 6. prefixed time
    if let Some((t, _)) = ptimes.first() {
        return Some(Sel::One(*t, None));
    }
    Some(Sel::One(0, None))
}

fn gen_col_name(s: &mut Src, prefixes: &[String]) -> String {
    let p = s.pick(prefixes).clone();
    let u = s.pick(&UNITS).0;
    let base = match s.weighted(&[2, 2, 2, 2, 2, 2, 2, 4]) {
        0 => format!("time{}", u),
        1 => "date".to_string(),
        2 => "time".to_string(),
        3 => format!("{}time{}", p, u),
        4 => format!("{}date", p),
        5 => format!("{}time", p),
        6 => s
            .pick(&[
                "timestamp", "dates", "xtimes", "timex", "a time b", "seconds", "millis", "nano", "dat", "tim", "timesecond", "updated_at", "times", "daten",
                "datemillis", "bidsize", "x_timestamp", "timestampnanos", "timemilli", "timenanosx",
            ])
            .to_string(),
        _ => ascii_word(s, 1, 6),
    };
    recase(s, &base)
}

/// fill cells so that every possible wrong choice of column gives another instant or an error
fn cells_for(sel: &Sel, ncols: usize, row: u64) -> (Vec<String>, u64) {
    // other columns: distinct epoch nanos (2010..), autodetected
    let mut cells: Vec<String> = (0..ncols).map(|c| (1_300_000_000_000_000_000u64 + c as u64 * 1_000_003 + row * 31).to_string()).collect();
    let ts = match sel {
        Sel::One(i, None) => 1_300_000_000_000_000_000u64 + *i as u64 * 1_000_003 + row * 31,
        Sel::One(i, Some(f)) => {
            let v = 4_000 + *i as u64 * 100 + row;
            cells[*i] = v.to_string();
            v * f
        }
        Sel::Pair(d, t) => {
            let secs = crate::cal::days_from_civil(2012, 3, 4) * 86400 + 3600 * 5 + 60 * 6 + row as i64;
            let c = crate::cal::civil(secs);
            cells[*d] = format!("{:04}{:02}{:02}", c.y, c.mo, c.d);
            cells[*t] = format!("{:02}:{:02}:{:02}", c.h, c.mi, c.s);
            secs as u64 * 1_000_000_000
        }
    };
    (cells, ts)
}

fn utc() -> ChopperTz {
    ChopperTz::from(chrono_tz::UTC)
}

fn c10_auto(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut prefixes: Vec<String> = vec![ascii_word(s, 1, 4), "event_".into(), "x".into(), "date".into(), "bid".into()];
    // prefixes that repeat the recognised words, or hold letters whose case mapping changes their length
    let frag = ["time", "date", "millis", "nanos", "runtime", "up", "_", "é", "İ", "日", "\u{212a}", "x", "s"];
    for _ in 0..3 {
        let p: String = s.many(1, 4, 2, |s| *s.pick(&frag)).concat();
        prefixes.push(p);
    }
    let prefixes: Vec<String> = prefixes.into_iter().filter(|p| !p.starts_with("time") && !"time".starts_with(p.as_str()) || p == "x").collect();
    let mut names: Vec<String> = s.many(1, 8, 4, |s| gen_col_name(s, &prefixes));
    if let Some(n) = s.big(Big::Wide, 20_000) {
        // columns that mean nothing in between
        let mut all: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
        for name in names.drain(..) {
            let at = match s.below(3) {
                0 => s.below(all.len() + 1),
                1 => all.len(),
                _ => s.below(all.len().min(300)),
            };
            all.insert(at, name);
        }
        names = all;
    }
    // names that start with 'time' without being 'time' or 'time'+unit are nothing at all, whatever they end with
    for n in &names {
        let l = n.to_lowercase();
        if l.starts_with("time") && l != "time" && unit_of(&l[4..]).is_none() && (l.ends_with("date") || l.ends_with("time") || l[4..].contains("time")) {
            ctx.label("discarded: ambiguous name");
            return Ok(());
        }
    }
    let sel = match ref_select(&names) {
        Some(x) => x,
        None => {
            ctx.label("discarded: several prefixed times");
            return Ok(());
        }
    };
    let nrows = s.urange(1, 4) as u64;
    let nrows = s.big(Big::Long, 40_000).map_or(nrows, |n| n as u64);
    let mut text = names.join(",") + "\n";
    let mut exp = Vec::new();
    for r in 0..nrows {
        let (cells, ts) = cells_for(&sel, names.len(), r);
        text.push_str(&cells.join(","));
        text.push('\n');
        exp.push(ts);
    }
    ctx.describe(|| format!("{} columns {}: expected {:?}", names.len(), truncate(&format!("{:?}", names), 2000), sel));
    ctx.nontrivial = names.len() > 1;
    ctx.label(match &sel {
        Sel::One(0, None) => "first column",
        Sel::One(_, None) => "one column",
        Sel::One(_, Some(_)) => "unit suffix",
        Sel::Pair(_, _) => "date and time",
    });
    let cfg = csv_cfg(Some(","), YesNoAuto::Yes, TimestampColConfig::Auto, TimestampFmtConfig::Auto, utc()).map_err(|e| err_text(&e))?;
    let d = open_csv(ctx, s, cfg, text.into_bytes())?;
    if let Some(e) = &d.err {
        return Err(format!("expected {:?}, got error {}", sel, e));
    }
    let got: Vec<u64> = d.rows.iter().map(|r| r.ts).collect();
    if got != exp {
        let i = got.iter().zip(&exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
        let near = |v: &Vec<u64>| v[i.min(v.len())..(i + 3).min(v.len())].to_vec();
        return Err(format!("{} timestamps, row {}: {:?}, expected {:?} from {:?}", got.len(), i, near(&got), near(&exp), sel));
    }
    Ok(())
}

fn c10_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Wide, Big::Long]);
    if s.bool() {
        c10_auto(s, ctx)
    } else {
        c10_explicit(s, ctx)
    }
}

fn c10_explicit(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ncols = s.urange(1, 6);
    let ncols = s.big(Big::Wide, 20_000).unwrap_or(ncols);
    // also tempting names that automatic selection would take
    let names: Vec<String> = (0..ncols)
        .map(|i| match s.below(6) {
            _ if i > 3 && s.big == Big::Wide && !s.chance(1, 200) => format!("n{}", i),
            0 => "time".into(),
            1 => "date".into(),
            2 => "Stamp".into(),
            3 => format!("c{}", s.below(3)),
            4 => format!("{}{}", s.pick(&["x", "", "a_", "time", "millis", "é"]), s.pick(&UNITS).0),
            _ => format!("n{}", i),
        })
        .collect();
    let find = |n: &str| names.iter().position(|x| x == n);
    let mut pick_name = |s: &mut Src| -> String {
        if s.chance(1, 5) {
            s.pick(&["missing", "TIME", "stamp", "N0", "", "time "]).to_string()
        } else {
            s.pick(&names).clone()
        }
    };
    let mut pick_idx = |s: &mut Src| -> usize {
        if s.chance(1, 5) {
            match s.below(6) {
                // where a narrower number would wrap
                0 => s.below(ncols) + *s.pick(&[256usize, 65_536, 1 << 32]),
                _ => ncols + s.below(3),
            }
        } else if s.chance(1, 4) {
            ncols - 1
        } else {
            s.below(ncols)
        }
    };
    let header = s.chance(3, 4);
    let ok = |i: usize| if i < ncols { Some(i) } else { None };
    // a single column named with a unit at its end is read in that unit
    let one = |i: usize| Sel::One(i, if header { UNITS.iter().find(|u| names[i].ends_with(u.0)).map(|u| u.1) } else { None });
    let (col, want): (TimestampColConfig, Option<Sel>) = match s.below(4) {
        0 => {
            let n = pick_name(s);
            let w = find(&n).map(&one);
            (TimestampColConfig::Name(n), w)
        }
        1 => {
            let i = pick_idx(s);
            (TimestampColConfig::Index(i), ok(i).map(&one))
        }
        2 => {
            let a = pick_name(s);
            let b = pick_name(s);
            let w = match (find(&a), find(&b)) {
                (Some(x), Some(y)) => Some(Sel::Pair(x, y)),
                _ => None,
            };
            (TimestampColConfig::DateTimeName(a, b), w)
        }
        _ => {
            let a = pick_idx(s);
            let b = pick_idx(s);
            let w = match (ok(a), ok(b)) {
                (Some(x), Some(y)) => Some(Sel::Pair(x, y)),
                _ => None,
            };
            (TimestampColConfig::DateTimeIndex(a, b), w)
        }
    };
    if let Some(Sel::Pair(a, b)) = want {
        if a == b {
            ctx.label("discarded: same column twice");
            return Ok(());
        }
    }
    // without a header the names are col_0, col_1, ...
    let by_name = matches!(col, TimestampColConfig::Name(_) | TimestampColConfig::DateTimeName(_, _));
    let want = if !header && by_name { None } else { want };
    let mut text = String::new();
    if header {
        text = names.join(",") + "\n";
    }
    let nrows = s.urange(1, 3) as u64;
    let nrows = s.big(Big::Long, 40_000).map_or(nrows, |n| n as u64);
    let mut exp = Vec::new();
    for r in 0..nrows {
        let (cells, ts) = cells_for(want.as_ref().unwrap_or(&Sel::One(0, None)), ncols, r);
        text.push_str(&cells.join(","));
        text.push('\n');
        exp.push(ts);
    }
    ctx.describe(|| format!("header {} {} columns {} option {:?}: expected {:?}", header, names.len(), truncate(&format!("{:?}", names), 2000), col, want));
    ctx.nontrivial = ncols > 1;
    ctx.label(if want.is_some() { "found" } else { "error expected" });
    let hdr = if header { YesNoAuto::Yes } else { YesNoAuto::No };
    let cfg = csv_cfg(Some(","), hdr, col, TimestampFmtConfig::Auto, utc()).map_err(|e| err_text(&e))?;
    let d = open_csv(ctx, s, cfg, text.into_bytes())?;
    match (&want, &d.err) {
        (None, None) => Err(format!("no error; timestamps {:?}", d.rows.iter().map(|r| r.ts).collect::<Vec<_>>())),
        (None, Some(_)) => Ok(()),
        (Some(w), Some(e)) => Err(format!("expected {:?}, got error {}", w, e)),
        (Some(w), None) => {
            let got: Vec<u64> = d.rows.iter().map(|r| r.ts).collect();
            if got != exp {
                return Err(format!("timestamps {:?}, expected {:?} from {:?}", got, exp, w));
            }
            Ok(())
        }
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C08",
            level: "exploration",
            rule: "tables of 1-7 columns and 0-900 rows of arbitrary cell texts rendered with random quoting, padding, LF/CRLF mix, blank lines, optional final newline and any ASCII delimiter, read in generated chunks (big family: very many columns, rows, or very long cells); the cell texts are the oracle; non-trivial: at least one row",
            assumptions: &["padding is only put around unquoted cells", "text is UTF-8 without a byte order mark"],
            families: vec![
                Family { name: "table", f: c08, quick: 120_000, thorough: 4_000_000 },
                Family { name: "big", f: c08_big, quick: 400, thorough: 10_000 },
            ],
        },
        Property {
            id: "C09",
            level: "exploration",
            rule: "functions: guess_delimiter, parse_into_delimiter, guess_has_header, guess_type against a reference; source: files of unquoted cells with mixed candidate delimiters and every combination of explicit and detected settings, compared with a reference split; non-trivial: something is detected and rows exist",
            assumptions: &["the first two lines are unquoted, non-blank and lie within the 8 KiB preview"],
            families: vec![
                Family { name: "functions", f: c09_funcs, quick: 400_000, thorough: 4_000_000 },
                Family { name: "source", f: c09_source, quick: 300_000, thorough: 3_000_000 },
            ],
        },
        Property {
            id: "C28",
            level: "exploration",
            rule: "csv: records and header line (names repeated or not) of independently varying widths, in the big family up to 20000 columns or 70000 records, rendered as in C08, compared with the stated rule; any: arbitrary text and damaged DC bytes, every delivered row checked against the header; non-trivial: ragged input / at least one row",
            assumptions: &["text is UTF-8 without a byte order mark"],
            families: vec![
                Family { name: "csv", f: c28_csv, quick: 150_000, thorough: 4_000_000 },
                Family { name: "any", f: c28_any, quick: 150_000, thorough: 4_000_000 },
                Family { name: "big", f: c28_big, quick: 400, thorough: 10_000 },
            ],
        },
        Property {
            id: "C10",
            level: "exploration",
            rule: "auto: 1-8 columns named from fragments of every kind (any case, decoys), cells filled so that any other choice gives another instant or an error; explicit: names and indexes, present or missing; non-trivial: more than one column",
            assumptions: &["names starting with 'time' that are neither 'time' nor 'time'+unit but end in date/time are not generated", "several prefixed times of different prefixes beside a prefixed date are not generated when the leftmost is not the date's"],
            families: vec![
                Family { name: "auto", f: c10_auto, quick: 600_000, thorough: 6_000_000 },
                Family { name: "explicit", f: c10_explicit, quick: 360_000, thorough: 3_600_000 },
                Family { name: "big", f: c10_big, quick: 500, thorough: 10_000 },
            ],
        },
    ]
}
