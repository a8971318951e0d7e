//! C25: the command line, run as a process (the real main of /repo/chop linked to /repo's library).
use std::fs::File;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use chrono_tz::Tz;

use crate::cal::*;
use crate::comp::*;
use crate::dcfmt::{self, DcFile};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p_out::{match_pieces, render_ref, OutCfg, Style, UNITS};
use crate::p_time::{gen_zone, resolve};
use crate::zipw::*;

// ---------------------------------------------------------------- running the tool

#[derive(Clone, Debug, PartialEq)]
enum StdinKind {
    Null,
    File(PathBuf),
    Pipe(Vec<u8>, usize),
    Dir(PathBuf),
}

#[derive(Clone, Debug, PartialEq)]
enum StdoutKind {
    File,
    Full,
    ClosedPipe,
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    stdout: Vec<u8>,
    stderr: String,
}

fn chop_path() -> PathBuf {
    let exe = std::env::current_exe().expect("own path");
    exe.parent().expect("directory").join("chop")
}

/// stands for the byte 0xFF, which no text contains, in arguments
const RAW_FF: char = '\u{10FEDC}';

fn os_arg(a: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut out = vec![];
    for c in a.chars() {
        if c == RAW_FF {
            out.push(0xFF);
        } else {
            out.extend(c.to_string().bytes());
        }
    }
    std::ffi::OsString::from_vec(out)
}

fn run_chop(ctx: &Ctx, args: &[String], env: &[(String, String)], cwd: &Path, stdin: &StdinKind, stdout: &StdoutKind) -> Result<Ran, String> {
    let h = |e: std::io::Error| format!("harness: {}", e);
    let op = ctx.file("stdout");
    let ep = ctx.file("stderr");
    let mut c = Command::new(chop_path());
    c.args(args.iter().map(|a| os_arg(a))).env_clear().envs(env.iter().map(|(a, b)| (a.as_str(), b.as_str()))).current_dir(cwd);
    match stdin {
        StdinKind::Null => c.stdin(Stdio::null()),
        StdinKind::File(p) | StdinKind::Dir(p) => c.stdin(File::open(p).map_err(h)?),
        StdinKind::Pipe(..) => c.stdin(Stdio::piped()),
    };
    match stdout {
        StdoutKind::File => {
            c.stdout(File::create(&op).map_err(h)?);
        }
        StdoutKind::Full => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(h)?);
        }
        StdoutKind::ClosedPipe => {
            let (r, w) = std::io::pipe().map_err(h)?;
            drop(r);
            c.stdout(w);
        }
    }
    c.stderr(File::create(&ep).map_err(h)?);
    // never outlive the test
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(h)?;
    if let StdinKind::Pipe(data, step) = stdin {
        let mut w = ch.stdin.take().expect("pipe");
        for part in data.chunks((*step).max(1)) {
            // the tool may stop reading early
            if w.write_all(part).is_err() {
                break;
            }
            let _ = w.flush();
        }
    }
    let start = Instant::now();
    let st = loop {
        match ch.try_wait().map_err(h)? {
            Some(s) => break s,
            None => {
                if start.elapsed() > Duration::from_secs(60) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err("the tool did not end within 60 seconds".into());
                }
                std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 20 { 200 } else { 5000 }));
            }
        }
    };
    let mut out = Vec::new();
    if *stdout == StdoutKind::File {
        File::open(&op).and_then(|mut f| f.read_to_end(&mut out)).map_err(h)?;
    }
    let mut err = Vec::new();
    File::open(&ep).and_then(|mut f| f.read_to_end(&mut err)).map_err(h)?;
    Ok(Ran { code: st.code(), signal: st.signal(), stdout: out, stderr: String::from_utf8_lossy(&err).to_string() })
}

fn crashed(r: &Ran) -> Option<String> {
    if let Some(s) = r.signal {
        return Some(format!("ended by signal {}; stderr {}", s, truncate(&r.stderr, 300)));
    }
    if r.stderr.contains("panicked at") || r.code == Some(101) {
        return Some(format!("crashed: status {:?}, stderr {}", r.code, truncate(&r.stderr, 400)));
    }
    None
}

fn expect_failure(r: &Ran) -> Outcome {
    if let Some(c) = crashed(r) {
        return Err(c);
    }
    if r.code != Some(1) {
        return Err(format!("exit status {:?}, expected 1; stdout {:?} stderr {:?}", r.code, truncate(&String::from_utf8_lossy(&r.stdout), 200), truncate(&r.stderr, 200)));
    }
    if r.stderr.trim().is_empty() {
        return Err("exit status 1 without a message on stderr".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- scenarios

/// how the time is written in CSV inputs
#[derive(Clone, Debug)]
enum TimeIn {
    Epoch(usize),
    /// format, how to render
    Local(LocalFmt),
    Offset(i64),
    Split(usize, usize),
    AutoIso,
    AutoEpoch(usize),
}

#[derive(Clone, Debug)]
struct LocalFmt {
    fmt: &'static str,
}

const DATES: [(&str, &str); 4] = [("%Y-%m-%d", "-"), ("%d/%m/%Y", "/"), ("%Y%m%d", ""), ("%m.%d.%Y", ".")];
const TIMES: [&str; 3] = ["%H:%M:%S", "%H%M%S", "%H-%M-%S"];

fn date_text(i: usize, c: &Civil) -> String {
    match i {
        0 => format!("{:04}-{:02}-{:02}", c.y, c.mo, c.d),
        1 => format!("{:02}/{:02}/{:04}", c.d, c.mo, c.y),
        2 => format!("{:04}{:02}{:02}", c.y, c.mo, c.d),
        _ => format!("{:02}.{:02}.{:04}", c.mo, c.d, c.y),
    }
}

fn time_text(i: usize, c: &Civil) -> String {
    match i {
        0 => format!("{:02}:{:02}:{:02}", c.h, c.mi, c.s),
        1 => format!("{:02}{:02}{:02}", c.h, c.mi, c.s),
        _ => format!("{:02}-{:02}-{:02}", c.h, c.mi, c.s),
    }
}

const LOCALS: [&str; 4] = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%dT%H:%M:%S%.f", "%d/%m/%Y-%H%M%S", "%Y%m%d%H%M%S"];

fn local_text(f: &str, c: &Civil, nanos: i64) -> String {
    match f {
        "%Y-%m-%d %H:%M:%S" => format!("{} {}", date_text(0, c), time_text(0, c)),
        "%Y-%m-%dT%H:%M:%S%.f" => format!("{}T{}.{:09}", date_text(0, c), time_text(0, c), nanos),
        "%d/%m/%Y-%H%M%S" => format!("{}-{}", date_text(1, c), time_text(1, c)),
        _ => format!("{}{}", date_text(2, c), time_text(1, c)),
    }
}

#[derive(Clone, Debug)]
struct InFile {
    name: String,
    bytes: Vec<u8>,
    /// rows of the file
    how: String,
}

#[derive(Clone, Debug)]
enum InKind {
    Stdin(InFile),
    One(InFile),
    Dir(String, Vec<InFile>),
    /// the input of that number once more
    Again(usize),
}

struct Scenario {
    table: Table,
    inputs: Vec<InKind>,
    /// options of which each is one group of arguments
    opts: Vec<Vec<String>>,
    formats: Vec<String>,
    env: Vec<(String, String)>,
    begin: Option<u64>,
    end: Option<u64>,
    out: OutCfg,
    out_file: Option<String>,
    zone: Option<Tz>,
    local_input: bool,
    local_bound: bool,
    any_csv: bool,
    csv_cols: Vec<(String, Vec<String>)>,
}

/// `--name value`, `--name=value` and, for short names, `-n value`, `-nvalue`, `-n=value`
fn opt(s: &mut Src, long: &str, short: &str, value: &str) -> Vec<String> {
    let plain = !value.is_empty() && !value.starts_with('-') && !value.starts_with('=');
    if !short.is_empty() && s.bool() {
        return match s.below(3) {
            0 if plain => vec![format!("-{}", short), value.into()],
            1 if plain => vec![format!("-{}{}", short, value)],
            _ => vec![format!("-{}={}", short, value)],
        };
    }
    if plain && s.bool() {
        vec![format!("--{}", long), value.into()]
    } else {
        vec![format!("--{}={}", long, value)]
    }
}

fn any_case(s: &mut Src, v: &str) -> String {
    match s.below(4) {
        0 => v.to_uppercase(),
        1 => {
            let mut o = v.to_string();
            o[..1].make_ascii_uppercase();
            o
        }
        _ => v.into(),
    }
}

/// text for an instant as a bound
fn bound_text(s: &mut Src, ts: u64, zone: Option<Tz>) -> (String, bool) {
    let secs = (ts / 1_000_000_000) as i64;
    let nanos = (ts % 1_000_000_000) as i64;
    if let Some(z) = zone {
        if s.chance(1, 3) && nanos == 0 {
            let l = secs + crate::p_time::off_at(z, secs);
            if resolve(z, l).len() == 1 {
                let c = civil(l);
                let mut forms = vec![format!("{}-{}", date_text(2, &c), time_text(0, &c)), format!("{} {}", date_text(0, &c), time_text(0, &c))];
                if c.h == 0 && c.mi == 0 && c.s == 0 {
                    forms.insert(0, date_text(2, &c));
                    if c.d == 1 {
                        forms.insert(0, format!("{:04}{:02}", c.y, c.mo));
                        if c.mo == 1 {
                            forms.insert(0, format!("{:04}", c.y));
                        }
                    }
                }
                let n = forms.len();
                // the short forms when there are any
                let i = if n > 2 && s.chance(3, 4) { 0 } else { s.below(n) };
                return (forms[i].clone(), true);
            }
        }
    }
    for (_, scale, _, _) in UNITS.iter() {
        if ts % scale == 0 && s.bool() {
            return ((ts / scale).to_string(), false);
        }
    }
    if s.bool() {
        let off = *s.pick(&[0i64, 0, 19_800, -12_600, 3600]);
        let c = civil(secs + off);
        let o = if off == 0 && s.bool() { "Z".into() } else { offset_str(off) };
        let f = if nanos == 0 { String::new() } else { format!(".{:09}", nanos) };
        return (format!("{}T{}{}{}", date_text(0, &c), time_text(0, &c), f, o), false);
    }
    (ts.to_string(), false)
}

fn shuffle<T>(s: &mut Src, v: &mut Vec<T>) {
    for k in (1..v.len()).rev() {
        let j = s.below(k + 1);
        v.swap(k, j);
    }
}

fn gen_scenario(s: &mut Src, ctx: &mut Ctx) -> Scenario {
    let mode = s.weighted(&[5, 3, 2]); // csv, dc, both
    let any_csv = mode != 1;
    let zone = if s.chance(3, 4) { Some(gen_zone(s)) } else { None };
    let tin = match s.weighted(&[4, if zone.is_some() { 3 } else { 0 }, 2, if zone.is_some() { 2 } else { 0 }, 2, 2]) {
        0 => TimeIn::Epoch(s.below(4)),
        1 => TimeIn::Local(LocalFmt { fmt: *s.pick(&LOCALS) }),
        2 => TimeIn::Offset(*s.pick(&[0i64, 19_800, -12_600, 50_400])),
        3 => TimeIn::Split(s.below(4), s.below(3)),
        4 => TimeIn::AutoIso,
        _ => TimeIn::AutoEpoch(s.below(4)),
    };
    let quantum: u64 = if !any_csv {
        1
    } else {
        match &tin {
            TimeIn::Epoch(u) | TimeIn::AutoEpoch(u) => UNITS[*u].1,
            TimeIn::Local(f) if f.fmt.contains("%.f") => 1,
            TimeIn::AutoIso => 1_000_000,
            _ => 1_000_000_000,
        }
    };
    let local_input = any_csv && matches!(tin, TimeIn::Local(_) | TimeIn::Split(..));
    let is_epoch = matches!(tin, TimeIn::Epoch(_) | TimeIn::AutoEpoch(_));

    // columns
    let ncols = s.urange(1, 4);
    let mut names: Vec<String> = ["a", "b", "val", "x1"].iter().take(ncols).map(|x| x.to_string()).collect();
    let wide = s.chance(1, 20);
    if wide {
        let n = *s.pick(&[8usize, 9, 16, 33, 64, 127, 128, 129, 255, 256, 257, 258, 300]);
        names.extend((names.len()..n).map(|i| format!("w{}", i)));
    }
    let ncols = names.len();
    let mut types: Vec<Ty> = (0..ncols).map(|_| if any_csv { Ty::Str } else { *s.pick(&VALUE_TYPES) }).collect();
    let split = any_csv && matches!(tin, TimeIn::Split(..));
    let mut tcol = usize::MAX;
    let mut dcol = usize::MAX;
    let mut header = true;
    if any_csv {
        if split {
            let p = s.below(names.len() + 1);
            names.insert(p, "dd".into());
            types.push(Ty::Str);
        }
        let p = if wide && s.bool() { names.len() } else { s.below(names.len() + 1) };
        names.insert(p, s.pick(&["timestamp", "time", "when", "t"]).to_string());
        types.push(Ty::Str);
        tcol = p;
        dcol = names.iter().position(|n| n == "dd").unwrap_or(usize::MAX);
        header = s.chance(3, 4);
        if !header {
            for (i, n) in names.iter_mut().enumerate() {
                *n = format!("col_{}", i);
            }
        }
    }

    // rows
    let nrows = match s.weighted(&[6, 1]) {
        _ if wide => s.urange(0, 8),
        0 => s.urange(0, 12),
        _ => s.urange(50, 400),
    };
    let mut t = {
        let z = s.range(800_000_000, 1_900_000_000) as u64;
        let z = if s.chance(1, 3) { z / 86400 * 86400 } else { z };
        z * 1_000_000_000
    };
    let step = *s.pick(&[1u64, 1_000_000, 1_000_000_000, 3_600_000_000_000, 86_400_000_000_000]);
    let mut table = Table { names: names.clone(), types: types.clone(), rows: vec![] };
    let mut same = Vec::new(); // same time as the row before
    for i in 0..nrows {
        let dup = i > 0 && s.chance(1, 6);
        if !dup {
            t += quantum.max(step) * s.draw(5).max(1);
            t = t / quantum * quantum;
            if local_input {
                // local times that are unique
                for _ in 0..20 {
                    let z = zone.unwrap();
                    let secs = (t / 1_000_000_000) as i64;
                    if resolve(z, secs + crate::p_time::off_at(z, secs)).len() == 1 {
                        break;
                    }
                    t += 1_800_000_000_000;
                }
            }
        }
        if t > 1_990_000_000_000_000_000 {
            break;
        }
        same.push(dup);
        let secs = (t / 1_000_000_000) as i64;
        let nanos = (t % 1_000_000_000) as i64;
        let mut vals: Vec<Val> = Vec::new();
        for (k, ty) in types.iter().enumerate() {
            if any_csv && (k == tcol || k == dcol) {
                let txt = match &tin {
                    TimeIn::Epoch(u) | TimeIn::AutoEpoch(u) => (t / UNITS[*u].1).to_string(),
                    TimeIn::Local(f) => local_text(f.fmt, &civil(secs + crate::p_time::off_at(zone.unwrap(), secs)), nanos),
                    TimeIn::Offset(o) => {
                        let c = civil(secs + o);
                        format!("{} {}{}", date_text(0, &c), time_text(0, &c), offset_str(*o).replace(':', ""))
                    }
                    TimeIn::Split(d, ti) => {
                        let c = civil(secs + crate::p_time::off_at(zone.unwrap(), secs));
                        if k == dcol {
                            date_text(*d, &c)
                        } else {
                            time_text(*ti, &c)
                        }
                    }
                    TimeIn::AutoIso => {
                        let c = civil(secs);
                        format!("{}T{}.{:03}Z", date_text(0, &c), time_text(0, &c), nanos / 1_000_000)
                    }
                };
                vals.push(Val::Str(txt));
            } else if any_csv {
                vals.push(Val::Str(format!("x{}", ascii_word(s, 0, 5))));
            } else if s.chance(1, 8) {
                vals.push(Val::Null);
            } else {
                let mut v = gen_value_small(s, *ty);
                if let Val::Str(x) = &mut v {
                    *x = ascii_word(s, 0, 6);
                }
                if let Val::Char(c) = &mut v {
                    *c = b'a' as u16 + *c % 26;
                }
                vals.push(v);
            }
        }
        table.rows.push(MRow { ts: t, vals });
    }

    // distribution over the inputs; rows of one time stay together
    let ninputs = if s.chance(1, 8) {
        0
    } else if s.chance(1, 16) {
        s.urange(4, 40)
    } else {
        s.weighted(&[0, 5, 3, 1])
    };
    let k = ninputs.max(1);
    let mut parts: Vec<Vec<MRow>> = vec![Vec::new(); k];
    let mut w = 0;
    for (r, d) in table.rows.iter().zip(&same) {
        if !d {
            w = s.below(k);
        }
        parts[w].push(r.clone());
    }
    let delim = *s.pick(&[",", ",", ";", "\t", "|"]);
    // the header is left to detection only where the rule is clear
    let mut detect_header = any_csv && is_epoch && s.bool();
    let detect_delim = delim == "," && names.len() > 1 && s.bool() && !tin_has_comma(&tin);
    let override_fmt = s.chance(1, 4);
    let mut formats: Vec<String> = Vec::new();
    let mut inputs = Vec::new();
    let mut need_rows_ok = true;
    for (i, rows) in parts.iter().enumerate() {
        let dc = mode == 1 || (mode == 2 && s.bool());
        let nfiles = if ninputs > 0 && s.chance(1, 5) { s.urange(1, 3) } else { 0 };
        let mut chunks: Vec<Vec<MRow>> = Vec::new();
        if nfiles == 0 {
            chunks.push(rows.clone());
        } else {
            let mut at = 0;
            for j in 0..nfiles {
                let n = if j + 1 == nfiles { rows.len() - at } else { s.urange(0, rows.len() - at) };
                chunks.push(rows[at..at + n].to_vec());
                at += n;
            }
        }
        if !dc {
            if chunks.iter().any(|c| c.is_empty()) {
                if !header {
                    need_rows_ok = false;
                }
                detect_header = false;
            }
        }
        let mut files = Vec::new();
        let base = *s.pick(&["in", "data file", "x.y", "é"]);
        // one format for the whole input
        let comp = if s.chance(1, 5) { Some(*s.pick(&STREAM_CODECS)) } else { None };
        for (j, c) in chunks.iter().enumerate() {
            let tb = Table { names: names.clone(), types: types.clone(), rows: c.clone() };
            let plain = if dc { DcFile::from_table(&tb).encode() } else { csv_text(s, &tb, header, delim) };
            let ext = if dc { ".dc" } else { ".csv" };
            let (bytes, full, how) = match comp {
                Some(cd) => {
                    let p = pack(s, cd, &plain, true);
                    (p.bytes, format!("{}{}", ext, suffix(cd)), p.how)
                }
                None if !override_fmt && s.chance(1, 10) && (ninputs > 0) => {
                    let m = gen_member(s, &format!("inner{}", ext), plain);
                    let z = gen_zip(s, m, false);
                    (build(s, &z).bytes, ".zip".to_string(), "zip".into())
                }
                None => (plain, ext.to_string(), "plain".to_string()),
            };
            let stem = format!("{}{}{}", base, i, j);
            let name = if override_fmt && s.bool() {
                format!("{}{}", stem, s.pick(&["", ".txt", ".dc", ".csv", ".gz"]))
            } else if s.chance(1, 8) && comp.is_none() && how == "plain" && !plain_starts_oddly(&bytes) {
                stem
            } else {
                format!("{}{}", stem, full)
            };
            files.push(InFile { name, bytes, how });
            if j == 0 && override_fmt {
                let f = full.trim_start_matches('.').to_string();
                formats.push(f);
            }
        }
        inputs.push(if ninputs == 0 {
            InKind::Stdin(files.remove(0))
        } else if nfiles > 0 {
            InKind::Dir(format!("dir{}", i), files)
        } else {
            InKind::One(files.remove(0))
        });
    }
    // one and the same file or directory may be given more than once
    let mut k = k;
    if ninputs > 0 && s.chance(1, 10) {
        let i = s.below(k);
        if parts[i].windows(2).all(|w| w[0].ts < w[1].ts) {
            let twice: Vec<u64> = parts[i].iter().map(|r| r.ts).collect();
            let mut rows = Vec::new();
            for r in table.rows.drain(..) {
                if twice.binary_search(&r.ts).is_ok() {
                    rows.push(r.clone());
                }
                rows.push(r);
            }
            table.rows = rows;
            inputs.push(InKind::Again(i));
            if override_fmt {
                let f = formats[i].clone();
                formats.push(f);
            }
            k += 1;
            ctx.label("an input given twice");
        }
    }
    ctx.label_if(k > 8, "more than eight inputs");
    if !need_rows_ok {
        // a file without header and rows has no columns: give the header instead
        ctx.label("discarded: empty file without header");
    }
    // formats may stop early if the rest is the same as the last
    if override_fmt {
        while formats.len() > 1 && formats[formats.len() - 1] == formats[formats.len() - 2] && s.bool() {
            formats.pop();
        }
        for f in formats.iter_mut() {
            if s.chance(1, 4) {
                f.insert(0, '.');
            }
        }
    } else if s.chance(1, 8) {
        formats.push("auto".into());
    }
    // more formats than inputs: the rest is of no use
    if !formats.is_empty() && s.chance(1, 5) {
        while formats.len() < k {
            let l = formats[formats.len() - 1].clone();
            formats.push(l);
        }
        for _ in 0..s.urange(1, 2) {
            formats.push(s.pick(&["csv", "dc", "auto", "csv.gz"]).to_string());
        }
    }

    // options
    let mut opts: Vec<Vec<String>> = Vec::new();
    if any_csv {
        if !detect_delim {
            let v = if delim == "\t" && s.bool() { "\\t" } else { delim };
            opts.push(opt(s, "csv-in-delimiter", "", v));
        }
        if !detect_header {
            let v = any_case(s, if header { "yes" } else { "no" });
            opts.push(opt(s, "csv-in-has-header", "", &v));
        } else if s.bool() {
            let v = any_case(s, "auto");
            opts.push(opt(s, "csv-in-has-header", "", &v));
        }
        if split {
            let by_name = header && s.bool();
            let (d, ti) = if by_name { (names[dcol].clone(), names[tcol].clone()) } else { (dcol.to_string(), tcol.to_string()) };
            opts.push(opt(s, "csv-in-ts-col-date", "", &d));
            opts.push(opt(s, "csv-in-ts-col-time", "", &ti));
            if let TimeIn::Split(d, ti) = &tin {
                opts.push(opt(s, "csv-in-ts-fmt-date", "", DATES[*d].0));
                opts.push(opt(s, "csv-in-ts-fmt-time", "", TIMES[*ti]));
            }
        } else {
            let auto_ok = (header && names[tcol] == "time") || tcol == 0;
            if !auto_ok || s.bool() {
                let v = if header && s.bool() { names[tcol].clone() } else { tcol.to_string() };
                opts.push(opt(s, "csv-in-ts-col", "", &v));
            }
            match &tin {
                TimeIn::Epoch(u) => opts.push(opt(s, "csv-in-epoch", "", ["s", "ms", "us", "ns"][*u])),
                TimeIn::Local(f) => opts.push(opt(s, "csv-in-ts-fmt", "", f.fmt)),
                TimeIn::Offset(_) => opts.push(opt(s, "csv-in-ts-fmt", "", "%Y-%m-%d %H:%M:%S%z")),
                _ => {}
            }
        }
    }
    let mut env: Vec<(String, String)> = Vec::new();
    if let Some(z) = zone {
        match s.below(3) {
            0 => env.push(("CHOPPER_TZ".into(), z.name().into())),
            1 => opts.push(opt(s, "timezone", "z", z.name())),
            _ => {
                // the option wins
                opts.push(opt(s, "timezone", "z", z.name()));
                let other = s.pick(&["UTC", "Asia/Tokyo", "nonsense", ""]).to_string();
                env.push(("CHOPPER_TZ".into(), other));
            }
        }
    }
    for (k, vs) in [("TZ", ["America/St_Johns", "Asia/Kathmandu", "UTC", ":garbage"]), ("LC_ALL", ["C", "de_DE.UTF-8", "tr_TR", "POSIX"]), ("HOME", ["/", "/nonexistent", "", "/tmp"])] {
        if s.bool() {
            env.push((k.into(), s.pick(&vs).to_string()));
        }
    }
    // bounds
    let (mut begin, mut end, mut local_bound) = (None, None, false);
    let pick = |s: &mut Src, table: &Table| -> u64 {
        let base = if table.rows.is_empty() { 1_500_000_000_000_000_000 } else { table.rows[s.below(table.rows.len())].ts };
        match s.weighted(&[4, 1, 1, 2, 2]) {
            0 => base,
            1 => base + 1,
            2 => base - 1,
            3 => base / 1_000_000_000 * 1_000_000_000,
            _ => {
                // the start of a local day, month or year
                let z = zone.unwrap_or(chrono_tz::UTC);
                let secs = (base / 1_000_000_000) as i64;
                let l = civil(secs + crate::p_time::off_at(z, secs));
                let c = match s.below(3) {
                    0 => Civil { h: 0, mi: 0, s: 0, ..l },
                    1 => Civil { d: 1, h: 0, mi: 0, s: 0, ..l },
                    _ => Civil { mo: 1, d: 1, h: 0, mi: 0, s: 0, ..l },
                };
                match resolve(z, secs_of(&c)).first() {
                    Some(x) if *x > 700_000_000 => *x as u64 * 1_000_000_000,
                    _ => base,
                }
            }
        }
    };
    if s.chance(1, 3) {
        begin = Some(pick(s, &table));
    }
    if s.chance(1, 3) {
        end = Some(pick(s, &table));
    }
    if let (Some(b), Some(e)) = (begin, end) {
        // an interval the wrong way round is an empty one
        if b > e && !s.chance(1, 4) {
            begin = Some(e);
            end = Some(b);
        } else if b == e {
            end = None;
        }
    }
    for (v, long, short) in [(begin, "begin", "b"), (end, "end", "e")] {
        if let Some(v) = v {
            let (txt, l) = bound_text(s, v, zone);
            local_bound |= l;
            opts.push(opt(s, long, short, &txt));
        }
    }
    // output
    let out_file = if s.bool() { Some(s.pick(&["out.csv", "out.dc", "sub dir/o.csv", "o.x.dc", "csv", "é.csv"]).to_string()) } else { None };
    let human = if zone.is_some() { s.bool() } else { s.chance(1, 6) };
    let unit = s.below(4);
    let odelim = s.pick(&[",", ",", ",", ";", "\t", "||", "é", " "]).to_string();
    let out = OutCfg {
        delim: if s.bool() { ",".into() } else { odelim },
        print: s.chance(4, 5),
        name: if s.chance(1, 4) { Some(s.pick(&["T", "time", "é t", "x"]).to_string()) } else { None },
        style: if human { Style::Human(zone) } else { Style::Epoch },
        unit: if s.bool() { 3 } else { unit },
    };
    if out.delim != "," || s.bool() {
        opts.push(opt(s, "delimiter", "", &out.delim));
    }
    if !out.print || s.bool() {
        let v = any_case(s, if out.print { "yes" } else { "no" });
        opts.push(opt(s, "print-time", "", &v));
    }
    if let Some(n) = &out.name {
        opts.push(opt(s, "time-col-name", "", n));
    }
    if human {
        if s.bool() {
            opts.push(vec![s.pick(&["-H", "--human"]).to_string()]);
        }
    } else {
        opts.push(vec![s.pick(&["-E", "--epoch"]).to_string()]);
    }
    if out.unit != 3 || s.bool() {
        opts.push(opt(s, "granularity", "g", ["s", "ms", "us", "ns"][out.unit]));
    }
    if let Some(f) = &out_file {
        opts.push(opt(s, "output", "o", f));
    }
    if !formats.is_empty() {
        opts.push(opt(s, "format", "f", &formats.join(",")));
    }
    if s.chance(1, 10) {
        opts.push(vec!["--backtrace".into()]);
    }
    let csv_cols = vec![(delim.to_string(), names)];
    let mut sc = Scenario { table, inputs, opts, formats, env, begin, end, out, out_file, zone, local_input, local_bound, any_csv, csv_cols };
    if !need_rows_ok {
        sc.inputs.clear();
    }
    sc
}

fn tin_has_comma(_: &TimeIn) -> bool {
    false
}

/// contents that another format's detection would claim
fn plain_starts_oddly(b: &[u8]) -> bool {
    b.is_empty()
}

fn csv_text(s: &mut Src, t: &Table, header: bool, delim: &str) -> Vec<u8> {
    let eol = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let mut o = String::new();
    if header {
        o.push_str(&t.names.join(delim));
        o.push_str(eol);
    }
    for r in &t.rows {
        let cells: Vec<&str> = r.vals.iter().map(|v| if let Val::Str(x) = v { x.as_str() } else { "" }).collect();
        o.push_str(&cells.join(delim));
        o.push_str(eol);
    }
    o.into_bytes()
}

struct Laid {
    args: Vec<String>,
    stdin: StdinKind,
    cwd: PathBuf,
}

fn lay_out(s: &mut Src, ctx: &mut Ctx, sc: &Scenario) -> Result<Laid, String> {
    let h = |e: std::io::Error| format!("harness: {}", e);
    let root = ctx.file("cli");
    let _ = std::fs::remove_dir_all(&root);
    let inp = root.join("inputs");
    let cwd = root.join("cwd");
    std::fs::create_dir_all(&inp).map_err(h)?;
    std::fs::create_dir_all(cwd.join("sub dir")).map_err(h)?;
    let mut paths: Vec<String> = Vec::new();
    let mut stdin = if s.bool() { StdinKind::Null } else { StdinKind::Pipe(b"t,a\n1,from stdin\n".to_vec(), 5) };
    for i in &sc.inputs {
        match i {
            InKind::Stdin(f) => {
                stdin = if s.bool() {
                    let p = root.join("stdin file.csv.gz");
                    std::fs::write(&p, &f.bytes).map_err(h)?;
                    StdinKind::File(p)
                } else {
                    StdinKind::Pipe(f.bytes.clone(), *s.pick(&[1usize << 20, 4096, 100, 7, 1]))
                };
            }
            InKind::Again(i) => {
                let p = paths[*i].clone();
                paths.push(p);
            }
            InKind::One(f) => {
                std::fs::write(inp.join(&f.name), &f.bytes).map_err(h)?;
                paths.push(f.name.clone());
            }
            InKind::Dir(d, fs) => {
                std::fs::create_dir(inp.join(d)).map_err(h)?;
                for f in fs {
                    std::fs::write(inp.join(d).join(&f.name), &f.bytes).map_err(h)?;
                }
                paths.push(format!("{}{}", d, s.pick(&["", "/"])));
            }
        }
    }
    let paths: Vec<String> = paths
        .into_iter()
        .map(|p| match s.below(3) {
            0 => format!("{}/{}", inp.to_str().unwrap(), p),
            1 => format!("../inputs/{}", p),
            _ => format!("./../cwd/../inputs/{}", p),
        })
        .collect();
    let mut groups: Vec<Vec<String>> = sc.opts.clone();
    shuffle(s, &mut groups);
    let mut args: Vec<String> = Vec::new();
    // inputs keep their order among the options
    let mut at: Vec<usize> = paths.iter().map(|_| s.below(groups.len() + 1)).collect();
    at.sort();
    let dashes = s.chance(1, 6);
    let mut p = 0;
    for (i, g) in groups.iter().enumerate() {
        while !dashes && p < paths.len() && at[p] == i {
            args.push(paths[p].clone());
            p += 1;
        }
        args.extend(g.iter().cloned());
    }
    if dashes && !paths.is_empty() {
        args.push("--".into());
    }
    while p < paths.len() {
        args.push(paths[p].clone());
        p += 1;
    }
    if let Some(f) = &sc.out_file {
        if s.chance(1, 4) {
            std::fs::write(cwd.join(f), vec![b'#'; 70_000]).map_err(h)?;
        }
    }
    Ok(Laid { args, stdin, cwd })
}

fn describe(ctx: &mut Ctx, sc: &Scenario, l: &Laid) {
    ctx.describe(|| {
        format!(
            "chop {:?} env {:?} stdin {} inputs {:?} columns {:?}, {} rows",
            l.args,
            sc.env,
            truncate(&format!("{:?}", l.stdin), 60),
            sc.inputs
                .iter()
                .map(|i| match i {
                    InKind::Stdin(f) => format!("stdin ({}, {} bytes)", f.how, f.bytes.len()),
                    InKind::Again(i) => format!("input {} again", i),
                    InKind::One(f) => format!("{} ({}) {}", f.name, f.how, truncate(&format!("{:?}", String::from_utf8_lossy(&f.bytes)), 150)),
                    InKind::Dir(d, fs) => format!("{}/{:?}", d, fs.iter().map(|f| format!("{} ({}, {} bytes)", f.name, f.how, f.bytes.len())).collect::<Vec<_>>()),
                })
                .collect::<Vec<_>>(),
            sc.csv_cols,
            sc.table.rows.len()
        )
    });
}

fn in_range(sc: &Scenario) -> Vec<MRow> {
    sc.table.rows.iter().filter(|r| sc.begin.map_or(true, |b| r.ts >= b) && sc.end.map_or(true, |e| r.ts < e)).cloned().collect()
}

fn check_output(sc: &Scenario, r: &Ran, cwd: &Path) -> Outcome {
    if let Some(c) = crashed(r) {
        return Err(c);
    }
    let rows = in_range(sc);
    // what cannot work
    let csv_out = sc.out_file.as_ref().map_or(true, |f| f.ends_with("csv"));
    let no_zone = sc.zone.is_none() && csv_out && sc.out.print && matches!(sc.out.style, Style::Human(_)) && !rows.is_empty();
    if no_zone {
        return expect_failure(r).map_err(|e| format!("a time cannot be printed without a zone: {}", e));
    }
    if r.code != Some(0) {
        return Err(format!("exit status {:?}: {}", r.code, truncate(&r.stderr, 400)));
    }
    if !r.stderr.is_empty() {
        return Err(format!("exit status 0 but a message on stderr: {}", truncate(&r.stderr, 300)));
    }
    let bytes = match &sc.out_file {
        Some(f) => {
            if !r.stdout.is_empty() {
                return Err(format!("an output file was given but {} bytes went to stdout", r.stdout.len()));
            }
            std::fs::read(cwd.join(f)).map_err(|e| format!("no output file: {}", e))?
        }
        None => r.stdout.clone(),
    };
    if csv_out {
        return match_pieces(&render_ref(&sc.table.names, &rows, &sc.out), &bytes).map_err(|e| format!("CSV output: {}", e));
    }
    let mut part = Vec::new();
    let f = dcfmt::decode(&bytes, &mut part).map_err(|e| format!("DC output: {}", e))?;
    let t = f;
    if t.names != sc.table.names || t.types != sc.table.types {
        return Err(format!("DC output has columns {:?} {:?}, expected {:?} {:?}", t.names, t.types, sc.table.names, sc.table.types));
    }
    diff_rows(&rows, &t.rows)
}

fn c25_valid(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let sc = gen_scenario(s, ctx);
    if sc.inputs.is_empty() {
        return Ok(());
    }
    let l = lay_out(s, ctx, &sc)?;
    describe(ctx, &sc, &l);
    ctx.nontrivial = !sc.table.rows.is_empty();
    ctx.label_if(sc.inputs.len() > 1, "several inputs");
    ctx.label_if(matches!(sc.inputs[0], InKind::Stdin(_)), "stdin");
    ctx.label_if(sc.inputs.iter().any(|i| matches!(i, InKind::Dir(..))), "directory");
    ctx.label_if(sc.begin.is_some() || sc.end.is_some(), "bounds");
    ctx.label_if(sc.local_bound, "bound in local time");
    ctx.label_if(sc.local_input, "input in local time");
    ctx.label_if(matches!(sc.out.style, Style::Human(_)), "human-readable time");
    ctx.label_if(sc.formats.iter().any(|f| f != "auto"), "format list");
    ctx.label_if(sc.out_file.as_ref().map_or(false, |f| f.ends_with("dc")), "DC output");
    ctx.label_if(sc.any_csv, "CSV input");
    let n = in_range(&sc).len();
    ctx.label_if(n > 0 && n < sc.table.rows.len(), "part of the rows in range");
    let r = run_chop(ctx, &l.args, &sc.env, &l.cwd, &l.stdin, &StdoutKind::File)?;
    check_output(&sc, &r, &l.cwd)
}

/// a long text that is no value of any option
fn long_text(s: &mut Src, heads: &[&str]) -> String {
    let n = match s.below(3) {
        0 => s.urange(1, 40),
        1 => s.urange(40, 300),
        _ => *s.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4097]),
    };
    let tail = crate::gen::sized_string(s, n.max(4));
    format!("{}{}", s.pick(heads), tail)
}

/// one thing wrong with an otherwise valid call
fn c25_invalid(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut sc = gen_scenario(s, ctx);
    if sc.inputs.is_empty() {
        return Ok(());
    }
    let drop_opt = |sc: &mut Scenario, long: &str, short: &str| {
        sc.opts.retain(|g| !(g[0] == format!("--{}", long) || g[0].starts_with(&format!("--{}=", long)) || (!short.is_empty() && g[0].starts_with(&format!("-{}", short)) && !g[0].starts_with("--"))));
    };
    let mut damage: Option<usize> = None;
    let mut stdout = StdoutKind::File;
    let mut stdin_dir = false;
    let mut extra_input: Option<String> = None;
    let what: &'static str = match s.below(18) {
        0 => {
            let o = s.pick(&["--frobnicate", "-Q", "--begine=2020", "--epochs", "-zz=UTC"]).to_string();
            if o == "-zz=UTC" {
                drop_opt(&mut sc, "timezone", "z");
            }
            sc.opts.push(vec![o]);
            "unknown option or zone"
        }
        1 => {
            let (o, short, v) = *s.pick(&[
                ("granularity", "g", "days"),
                ("granularity", "g", "NS"),
                ("csv-in-has-header", "", "maybe"),
                ("print-time", "", "1"),
                ("csv-in-epoch", "", "h"),
                ("csv-in-delimiter", "", ",,"),
                ("csv-in-delimiter", "", "é"),
                ("csv-in-delimiter", "", ""),
            ]);
            drop_opt(&mut sc, o, short);
            sc.opts.push(vec![format!("--{}={}", o, v)]);
            if o == "csv-in-epoch" {
                for o in ["csv-in-ts-fmt", "csv-in-ts-col-date", "csv-in-ts-col-time", "csv-in-ts-fmt-date", "csv-in-ts-fmt-time"] {
                    drop_opt(&mut sc, o, "");
                }
            }
            "impossible option value"
        }
        2 => {
            extra_input = Some(s.pick(&["nonexistent.csv", "no/such/file.dc", "", "x.csv.gz"]).to_string());
            "missing input file"
        }
        3 => {
            drop_opt(&mut sc, "output", "o");
            let o = s.pick(&["out.txt", "no such dir/out.csv", "out", "out.csv.gz", "out.cs", "sub dir/../no/x.dc", ""]).to_string();
            sc.out_file = None;
            sc.opts.push(vec![format!("--output={}", o)]);
            "impossible output file"
        }
        4 => {
            drop_opt(&mut sc, "timezone", "z");
            let mut z = s.pick(&["Mars/Phobos", "New_York", "+05:00", "", "UTC ", "EST5"]).to_string();
            if s.chance(1, 4) {
                z = long_text(s, &["", "UTC", "Europe/"]);
            }
            if s.bool() {
                sc.opts.push(vec![format!("--timezone={}", z)]);
            } else {
                sc.env.retain(|e| e.0 != "CHOPPER_TZ");
                sc.env.push(("CHOPPER_TZ".into(), z));
            }
            "unknown zone"
        }
        5 => {
            let (l, sh) = *s.pick(&[("begin", "b"), ("end", "e")]);
            drop_opt(&mut sc, l, sh);
            let mut v = s.pick(&["garbage", "20201301", "2020-02-30 00:00:00", "", "20200101-250000", "1", "12345678901234567890123", "2020-01-01T00:00:00", "-5"]).to_string();
            if s.chance(1, 3) {
                v = long_text(s, &["", "2020", "20200101-", "1500000000"]);
            }
            // a local time needs a zone
            if v == "2020-01-01T00:00:00" {
                drop_opt(&mut sc, "timezone", "z");
                sc.env.retain(|e| e.0 != "CHOPPER_TZ");
            }
            sc.opts.push(vec![format!("--{}={}", l, v)]);
            "impossible bound"
        }
        6 => {
            drop_opt(&mut sc, "epoch", "E");
            drop_opt(&mut sc, "human", "H");
            sc.opts.push(vec![s.pick(&["-E", "--epoch"]).to_string()]);
            sc.opts.push(vec![s.pick(&["-H", "--human"]).to_string()]);
            "conflicting output options"
        }
        7 => {
            for o in ["csv-in-ts-fmt", "csv-in-ts-col", "csv-in-ts-col-date", "csv-in-ts-col-time", "csv-in-ts-fmt-date", "csv-in-ts-fmt-time", "csv-in-epoch"] {
                drop_opt(&mut sc, o, "");
            }
            let sets: [&[&str]; 8] = [
                &["--csv-in-ts-col-date=0"],
                &["--csv-in-ts-col-time=0"],
                &["--csv-in-ts-fmt-date=%Y"],
                &["--csv-in-ts-fmt-time=%H"],
                &["--csv-in-ts-col-date=0", "--csv-in-ts-col-time=1", "--csv-in-ts-col=0"],
                &["--csv-in-ts-col-date=0", "--csv-in-ts-col-time=1", "--csv-in-ts-fmt=%Y"],
                &["--csv-in-epoch=s", "--csv-in-ts-fmt=%s"],
                &["--csv-in-epoch=s", "--csv-in-ts-col-date=0", "--csv-in-ts-col-time=1"],
            ];
            for a in *s.pick(&sets) {
                sc.opts.push(vec![a.to_string()]);
            }
            "conflicting or incomplete input options"
        }
        8 => {
            drop_opt(&mut sc, "format", "f");
            let mut f = s.pick(&["xyz", "gz", "csv.bz2", "CSV", "dc.txt", "Auto"]).to_string();
            if s.chance(1, 4) {
                f = long_text(s, &["", "csv", "dc."]);
            }
            sc.opts.push(vec![format!("--format={}", f)]);
            "unknown format"
        }
        9 => {
            // two options of one kind
            let (a, b) = s.pick(&[("--begin=2020", "--begin=2020"), ("-zUTC", "--timezone=UTC"), ("--output=a.csv", "-o=a.csv"), ("-gns", "-gns")]).clone();
            let o = match a {
                "--begin=2020" => ("begin", "b"),
                "-zUTC" => ("timezone", "z"),
                "-gns" => ("granularity", "g"),
                _ => ("output", "o"),
            };
            drop_opt(&mut sc, o.0, o.1);
            sc.opts.push(vec![a.into()]);
            sc.opts.push(vec![b.into()]);
            "repeated option"
        }
        10 => {
            // data that is damaged in range; columns that differ
            sc.opts.retain(|_| true);
            drop_opt(&mut sc, "begin", "b");
            drop_opt(&mut sc, "end", "e");
            sc.begin = None;
            sc.end = None;
            damage = Some(s.below(4));
            "damaged or unfitting input"
        }
        11 => {
            if sc.any_csv {
                for o in ["csv-in-ts-col", "csv-in-ts-col-date", "csv-in-ts-col-time", "csv-in-ts-fmt-date", "csv-in-ts-fmt-time", "csv-in-ts-fmt"] {
                    drop_opt(&mut sc, o, "");
                }
                let v = if s.bool() { "nosuchcolumn" } else { "17" };
                sc.opts.push(vec![format!("--csv-in-ts-col={}", v)]);
            }
            "no such time column"
        }
        12 => {
            drop_opt(&mut sc, "output", "o");
            sc.out_file = None;
            stdout = StdoutKind::Full;
            "stdout full"
        }
        13 => {
            drop_opt(&mut sc, "output", "o");
            sc.out_file = None;
            sc.out_file = Some(s.pick(&["full.csv", "full.dc"]).to_string());
            sc.opts.push(vec!["-o".into(), sc.out_file.clone().unwrap()]);
            "output file full"
        }
        14 => {
            drop_opt(&mut sc, "output", "o");
            sc.out_file = None;
            stdout = StdoutKind::ClosedPipe;
            "stdout closed"
        }
        15 => {
            // the machine's own zone is of no interest
            if !(sc.local_bound || (sc.local_input && csv_input_with_rows(&sc))) {
                ctx.label("discarded: no zone needed");
                return Ok(());
            }
            let z = sc.zone.map_or("UTC", |z| z.name());
            drop_opt(&mut sc, "timezone", "z");
            sc.env.retain(|e| e.0 != "CHOPPER_TZ" && e.0 != "TZ");
            let v = match s.below(6) {
                0 | 1 => z.to_string(),
                2 => "UTC".to_string(),
                3 => format!(":{}", z),
                4 => "EST5EDT".to_string(),
                _ => "UTC0".to_string(),
            };
            if s.chance(5, 6) {
                sc.env.push((s.pick(&["TZ", "TZ", "TZ", "TZDIR", "CHOPPER_TIMEZONE", "TIMEZONE", "chopper_tz"]).to_string(), v));
            }
            "no zone for local times"
        }
        16 => {
            // an argument that is no text
            let (o, short, v) = *s.pick(&[
                ("timezone", "z", "UTC"),
                ("begin", "b", "2020"),
                ("end", "e", "20200101-10:00"),
                ("output", "o", "out.csv"),
                ("format", "f", "csv"),
                ("granularity", "g", "ns"),
                ("csv-in-ts-fmt", "", "%Y"),
                ("csv-in-delimiter", "", ""),
                ("delimiter", "", ""),
                ("", "", "in.csv"),
            ]);
            let at = s.below(v.len() + 1);
            let v = format!("{}{}{}", &v[..at], RAW_FF, &v[at..]);
            if o.is_empty() {
                extra_input = Some(v);
            } else {
                drop_opt(&mut sc, o, short);
                if o == "output" {
                    sc.out_file = None;
                }
                sc.opts.push(if s.bool() { vec![format!("--{}={}", o, v)] } else { vec![format!("--{}", o), v] });
            }
            "argument that is no text"
        }
        _ => {
            if let InKind::Stdin(_) = sc.inputs[0] {
                stdin_dir = true;
            } else {
                sc.opts.retain(|_| true);
                sc.inputs.clear();
                sc.inputs.push(InKind::Stdin(InFile { name: String::new(), bytes: vec![], how: "directory".into() }));
                stdin_dir = true;
            }
            "stdin is a directory"
        }
    };
    // the expectation holds only if the damaged part matters
    if what == "damaged or unfitting input" && !apply_damage(s, &mut sc, damage.unwrap()) {
        ctx.label("discarded: nothing to damage");
        return Ok(());
    }
    if what == "no such time column" && (!sc.any_csv || !csv_input_with_rows(&sc)) {
        ctx.label("discarded: no CSV rows");
        return Ok(());
    }
    if what == "unknown format" && sc.inputs.is_empty() {
        return Ok(());
    }
    let mut l = lay_out(s, ctx, &sc)?;
    if let Some(e) = extra_input {
        let at = if l.args.iter().any(|a| a == "--") { l.args.len() } else { 0 };
        l.args.insert(at, e);
    }
    if stdin_dir {
        l.stdin = StdinKind::Dir(l.cwd.clone());
    }
    if what == "output file full" {
        let _ = std::fs::remove_file(l.cwd.join(sc.out_file.as_ref().unwrap()));
        std::os::unix::fs::symlink("/dev/full", l.cwd.join(sc.out_file.as_ref().unwrap())).map_err(|e| format!("harness: {}", e))?;
    }
    describe(ctx, &sc, &l);
    ctx.nontrivial = true;
    ctx.label(what);
    // without a header line nothing is written
    let r = run_chop(ctx, &l.args, &sc.env, &l.cwd, &l.stdin, &stdout)?;
    if what == "stdout closed" {
        if let Some(c) = crashed(&r) {
            return Err(c);
        }
        if r.code != Some(1) {
            return Err(format!("exit status {:?} although the output could not be written", r.code));
        }
        return Ok(());
    }
    let out = expect_failure(&r).map_err(|e| format!("{}: {}", what, e));
    if out.is_ok() && !matches!(what, "missing input file" | "no zone for local times" | "damaged or unfitting input" | "no such time column" | "stdin is a directory" | "stdout full" | "output file full") && !r.stdout.is_empty() {
        return Err(format!("{}: output was written although the call is invalid: {:?}", what, truncate(&String::from_utf8_lossy(&r.stdout), 200)));
    }
    out
}

fn csv_input_with_rows(sc: &Scenario) -> bool {
    sc.inputs.iter().any(|i| match i {
        InKind::One(f) | InKind::Stdin(f) => f.how == "plain" && !f.bytes.starts_with(&[0, 0, 0, 0, b'D']) && f.bytes.iter().filter(|b| **b == b'\n').count() > 1,
        InKind::Dir(..) | InKind::Again(_) => false,
    })
}

fn apply_damage(s: &mut Src, sc: &mut Scenario, kind: usize) -> bool {
    let n = sc.inputs.len();
    let i = s.below(n);
    let f = match &mut sc.inputs[i] {
        InKind::Again(_) => return false,
        InKind::Stdin(f) | InKind::One(f) => f,
        InKind::Dir(_, fs) => {
            let k = s.below(fs.len());
            &mut fs[k]
        }
    };
    if f.how != "plain" || f.bytes.is_empty() {
        return false;
    }
    let dc = f.bytes.starts_with(&[0, 0, 0, 0, b'D']);
    match (dc, kind) {
        (true, 0) | (true, 1) => {
            // cut inside
            if f.bytes.len() < 12 {
                return false;
            }
            f.bytes.pop();
            // with no rows the cut is in the header
            true
        }
        (true, _) => {
            f.bytes.extend_from_slice(&[0, 0, 0]);
            true
        }
        (false, 0) => {
            // not UTF-8
            f.bytes.extend_from_slice(b"\xff\xfe,\xff\n");
            true
        }
        (false, 1) => {
            // more cells than columns
            let d = sc.csv_cols[0].0.clone();
            if f.bytes.iter().filter(|b| **b == b'\n').count() < 2 {
                return false;
            }
            let lines = String::from_utf8(f.bytes.clone()).unwrap();
            let last = lines.trim_end().rsplit('\n').next().unwrap().trim_end_matches('\r').to_string();
            f.bytes.extend_from_slice(format!("{}{}q{}q\n", last, d, d).as_bytes());
            true
        }
        (false, _) => {
            // a time that is none
            if f.bytes.iter().filter(|b| **b == b'\n').count() < 2 {
                return false;
            }
            let d = sc.csv_cols[0].0.clone();
            let n = sc.csv_cols[0].1.len();
            f.bytes.extend_from_slice(vec!["zz"; n].join(&d).as_bytes());
            true
        }
    }
}

/// help and version
fn c25_help(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let a = s.pick(&["--help", "-h", "--version", "-V"]).to_string();
    let cwd = ctx.file("cli");
    let _ = std::fs::create_dir_all(&cwd);
    let extra = if s.bool() { vec!["-E".to_string()] } else { vec![] };
    let mut args = extra;
    args.push(a.clone());
    ctx.describe(|| format!("chop {:?}", args));
    ctx.nontrivial = true;
    let r = run_chop(ctx, &args, &[], &cwd, &StdinKind::Null, &StdoutKind::File)?;
    if let Some(c) = crashed(&r) {
        return Err(c);
    }
    if r.code != Some(0) || r.stdout.is_empty() || !r.stderr.is_empty() {
        return Err(format!("{}: exit status {:?}, {} bytes of output, stderr {:?}", a, r.code, r.stdout.len(), r.stderr));
    }
    let t = String::from_utf8_lossy(&r.stdout).to_string();
    if a.to_lowercase().contains('h') {
        for o in [
            "--output", "--format", "--timezone", "--begin", "--end", "--time-col-name", "--epoch", "--human", "--granularity", "--csv-in-delimiter", "--delimiter", "--csv-in-has-header",
            "--print-time", "--csv-in-ts-col", "--csv-in-ts-col-date", "--csv-in-ts-col-time", "--csv-in-ts-fmt", "--csv-in-ts-fmt-date", "--csv-in-ts-fmt-time", "--csv-in-epoch",
        ] {
            if !t.contains(o) {
                return Err(format!("the help does not mention {}", o));
            }
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C25",
        level: "exploration",
        rule: "valid: the real chop process over generated calls (0-40 inputs: stdin, files, directories, some given twice; CSV, DC, compressed, zip; every option in every spelling, CHOPPER_TZ and hostile environment), output compared byte for byte with a reference computed from the model; invalid: one thing wrong with such a call (18 kinds, including damaged data, full or closed outputs), exit status 1 with a message and no crash; help: non-trivial: rows exist / the call is invalid",
        assumptions: &["times lie between 1995 and 2030 and at local times that are unique, as the details of time parsing belong to C11-C13", "times of different inputs differ, as the order of ties between inputs is not specified"],
        families: vec![
            Family { name: "valid", f: c25_valid, quick: 12_000, thorough: 200_000 },
            Family { name: "invalid", f: c25_invalid, quick: 8_000, thorough: 100_000 },
            Family { name: "help", f: c25_help, quick: 16, thorough: 16 },
        ],
    }]
}

// ---------------------------------------------------------------- C07: where the output goes

#[derive(Clone, Debug, PartialEq)]
enum Dest {
    File,
    /// what a reader gets who reads slowly
    Pipe(usize),
    /// nobody reads
    Closed,
    /// the reader goes away after that many bytes
    ClosedAfter(usize),
    Full,
    /// the file may not grow beyond that size
    Limit(usize),
}

/// the tool's output to files, pipes and devices that take all of it, a part of it or nothing
pub fn c07_process(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let h = |e: std::io::Error| format!("harness: {}", e);
    let rows = match s.weighted(&[1, 3, 3, 3]) {
        0 => 0,
        1 => 1 + s.below(5),
        2 => 100 + s.below(400),
        _ => 3000 + s.below(12_000),
    };
    let width = *s.pick(&[1usize, 12, 60]);
    let dc_out = s.chance(1, 4);
    let by_option = dc_out || s.chance(1, 3);
    let k = 1 + s.below(2);
    let dir = ctx.file("c07");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).map_err(h)?;
    let mut texts = vec![String::from("t,v\n"); k];
    let mut expect = String::from("timestampNanos,t,v\n");
    let mut table = Table { names: vec!["t".into(), "v".into()], types: vec![Ty::Str; 2], rows: vec![] };
    for i in 0..rows {
        let v = format!("{:0w$}", i, w = width);
        texts[i % k].push_str(&format!("{},{}\n", i, v));
        expect.push_str(&format!("{},{},{}\n", i, i, v));
        table.rows.push(MRow { ts: i as u64, vals: vec![Val::Str(i.to_string()), Val::Str(v)] });
    }
    let expect = if dc_out { DcFile::from_table(&table).encode() } else { expect.into_bytes() };
    let total = expect.len();
    let cut = |s: &mut Src| match s.below(3) {
        0 => s.below(total + 1),
        1 => total.saturating_sub(1 + s.below(8)),
        _ => (s.below(total / 4096 + 1) * 4096).min(total),
    };
    let dest = match s.weighted(&[2, if by_option { 0 } else { 2 }, if by_option { 0 } else { 4 }, if by_option { 0 } else { 3 }, 3, 5]) {
        0 => Dest::File,
        1 => Dest::Pipe(1 + s.below(70_000)),
        2 => Dest::Closed,
        3 => Dest::ClosedAfter(cut(s)),
        4 => Dest::Full,
        _ => Dest::Limit(cut(s)),
    };
    ctx.describe(|| format!("{} rows, {} bytes of {} to {:?}{}", rows, total, if dc_out { "dc" } else { "csv" }, dest, if by_option { " (option -o)" } else { " (stdout)" }));
    ctx.nontrivial = true;
    ctx.label(match dest {
        Dest::File => "file",
        Dest::Pipe(_) => "pipe",
        Dest::Closed => "pipe closed at once",
        Dest::ClosedAfter(_) => "pipe closed later",
        Dest::Full => "full device",
        Dest::Limit(_) => "file size limit",
    });
    ctx.label(if by_option { "-o" } else { "stdout" });
    let out = dir.join(if dc_out { "out.dc" } else { "out.csv" });
    let mut args: Vec<String> = vec!["-E".into(), "--csv-in-has-header=yes".into(), "--csv-in-ts-col=t".into(), "--csv-in-epoch=ns".into()];
    if by_option {
        args.push("-o".into());
        args.push(out.to_str().unwrap().into());
        if dest == Dest::Full {
            std::os::unix::fs::symlink("/dev/full", &out).map_err(h)?;
        }
    }
    for (i, t) in texts.iter().enumerate() {
        let p = dir.join(format!("in{}.csv", i));
        std::fs::write(&p, t).map_err(h)?;
        args.push(p.to_str().unwrap().into());
    }
    let mut c = Command::new(chop_path());
    c.args(&args).env_clear().current_dir(&dir).stdin(Stdio::null());
    let mut reader = None;
    if by_option {
        c.stdout(Stdio::null());
    } else {
        match dest {
            Dest::Full => {
                c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(h)?);
            }
            Dest::File | Dest::Limit(_) => {
                c.stdout(File::create(&out).map_err(h)?);
            }
            _ => {
                let (r, w) = std::io::pipe().map_err(h)?;
                c.stdout(w);
                if dest != Dest::Closed {
                    reader = Some(r);
                }
            }
        }
    }
    let errp = dir.join("stderr");
    c.stderr(File::create(&errp).map_err(h)?);
    let limit = if let Dest::Limit(n) = dest { Some(n as libc::rlim_t) } else { None };
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(n) = limit {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: n, rlim_max: n });
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(h)?;
    drop(c); // our copy of the pipe's write end
    let mut got = Vec::new();
    if let Some(mut r) = reader {
        match dest {
            Dest::Pipe(step) => {
                let mut buf = vec![0; step];
                loop {
                    let n = r.read(&mut buf).map_err(h)?;
                    if n == 0 {
                        break;
                    }
                    got.extend_from_slice(&buf[..n]);
                }
            }
            Dest::ClosedAfter(n) => {
                r.take(n as u64).read_to_end(&mut got).map_err(h)?;
            }
            _ => {}
        }
    }
    let start = Instant::now();
    let st = loop {
        match ch.try_wait().map_err(h)? {
            Some(s) => break s,
            None => {
                if start.elapsed() > Duration::from_secs(60) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Err("the tool did not end within 60 seconds".into());
                }
                std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 20 { 200 } else { 5000 }));
            }
        }
    };
    let err = std::fs::read_to_string(&errp).unwrap_or_default();
    let taken = match dest {
        Dest::File => true,
        Dest::Pipe(_) => true,
        Dest::Limit(n) => n >= total,
        Dest::Closed | Dest::Full => false,
        Dest::ClosedAfter(n) => {
            // what lies in the pipe when the reader goes cannot be told apart
            if n < total && total - n <= 70_000 {
                if st.success() && got[..] != expect[..n] {
                    return Err("success, but what was read is not the beginning of the output".into());
                }
                return Ok(());
            }
            n >= total
        }
    };
    let r = if taken {
        if !st.success() {
            Err(format!("status {:?} although the destination takes everything; stderr {}", st.code(), truncate(&err, 300)))
        } else {
            if dest == Dest::File || matches!(dest, Dest::Limit(_)) {
                got = std::fs::read(&out).map_err(h)?;
            }
            if got == expect {
                Ok(())
            } else {
                Err(format!("success, but {} bytes arrived, {} expected; they differ from byte {}", got.len(), total,
                    got.iter().zip(&expect).take_while(|(a, b)| a == b).count()))
            }
        }
    } else if st.success() {
        Err(format!("success although the destination took only a part of the {} bytes", total))
    } else {
        Ok(())
    };
    let _ = std::fs::remove_dir_all(&dir);
    r
}
