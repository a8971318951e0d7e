//! C11, C12, C13: text to instants.
use chopper::chopper::types::TimestampRange;
use chopper::cli::util::YesNoAuto;
use chopper::input::input::InputFormat;
use chopper::source::csv_configs::{TimestampColConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::timestamp_util::parse_datetime_range_element;
use chopper::util::tz::ChopperTz;
use chrono::{Offset, TimeZone};
use chrono_tz::Tz;

use crate::cal::*;
use crate::engine::*;
use crate::memio::*;
use crate::model::*;

use std::collections::HashMap;

const MAX_SECS: i64 = (u64::MAX / 1_000_000_000) as i64;

/// a number of seconds: anything representable, edges, and (when `wild`) outside the range
fn gen_secs(s: &mut Src, wild: bool) -> i64 {
    let v = match s.weighted(&[6, 3, 2, 2]) {
        0 => s.range(0, 2_500_000_000),
        1 => {
            // around day, month, year boundaries
            let d = days_from_civil(s.range(1970, 2550), s.range(1, 12), 1) * 86400;
            d + s.range(-2, 2)
        }
        2 => {
            let y = *s.pick(&[1972i64, 2000, 2020, 2100, 2400, 1999, 2004]);
            days_from_civil(y, *s.pick(&[2, 3]), s.range(1, 28)) * 86400 + s.range(0, 86399)
        }
        _ => s.range(0, MAX_SECS),
    };
    if wild && s.chance(1, 12) {
        return match s.below(4) {
            0 => s.range(-100_000, -1),
            1 => MAX_SECS + s.range(-3, 3),
            2 => days_from_civil(s.range(2555, 9998), 7, 1) * 86400,
            _ => days_from_civil(s.range(1, 1969), 1, 1) * 86400 + s.range(0, 86399),
        };
    }
    v.max(0)
}

/// fraction text (with the dot, maybe empty) and its nanoseconds
fn gen_fraction(s: &mut Src, max_digits: usize) -> (String, i64) {
    let n = match s.weighted(&[3, 3, 2]) {
        0 => 0,
        1 => *s.pick(&[3usize, 6, 9]),
        _ => s.urange(1, 9),
    }
    .min(max_digits);
    if n == 0 {
        return (String::new(), 0);
    }
    let max = 10u64.pow(n as u32) - 1;
    let v = match s.below(4) {
        0 => max,
        1 => 1,
        _ => s.draw(max),
    };
    (format!(".{:0w$}", v, w = n), v as i64 * 10i64.pow(9 - n as u32))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Notation {
    Iso,
    YmdDotHms,
    YmdSpHms,
    YmdSpHcms,
    SlashDash,
    DateOnly,
    SplitMillis,
    SplitHms,
    SplitHcms,
    SplitHm,
    Epoch(u64),
}

const LOCALS: [Notation; 9] = [
    Notation::YmdDotHms,
    Notation::YmdSpHms,
    Notation::YmdSpHcms,
    Notation::SlashDash,
    Notation::DateOnly,
    Notation::SplitMillis,
    Notation::SplitHms,
    Notation::SplitHcms,
    Notation::SplitHm,
];

fn is_split(n: Notation) -> bool {
    matches!(n, Notation::SplitMillis | Notation::SplitHms | Notation::SplitHcms | Notation::SplitHm)
}

/// texts (one or two cells) of a local civil time; the part of the time the notation can hold is kept
fn render_local(n: Notation, c: &Civil, ms: i64) -> (Vec<String>, Civil, i64) {
    let ymd = format!("{:04}{:02}{:02}", c.y, c.mo, c.d);
    let mut k = *c;
    let mut nanos = 0;
    let v = match n {
        Notation::YmdDotHms => vec![format!("{}.{:02}{:02}{:02}", ymd, c.h, c.mi, c.s)],
        Notation::YmdSpHms => vec![format!("{} {:02}{:02}{:02}", ymd, c.h, c.mi, c.s)],
        Notation::YmdSpHcms => vec![format!("{} {:02}:{:02}:{:02}", ymd, c.h, c.mi, c.s)],
        Notation::SlashDash => vec![format!("{:04}/{:02}/{:02}-{:02}:{:02}:{:02}", c.y, c.mo, c.d, c.h, c.mi, c.s)],
        Notation::DateOnly => {
            k.h = 0;
            k.mi = 0;
            k.s = 0;
            vec![ymd]
        }
        Notation::SplitMillis => {
            nanos = ms * 1_000_000;
            vec![ymd, format!("{:02}{:02}{:02}{:03}", c.h, c.mi, c.s, ms)]
        }
        Notation::SplitHms => vec![ymd, format!("{:02}{:02}{:02}", c.h, c.mi, c.s)],
        Notation::SplitHcms => vec![ymd, format!("{:02}:{:02}:{:02}", c.h, c.mi, c.s)],
        Notation::SplitHm => {
            k.s = 0;
            vec![ymd, format!("{:02}:{:02}", c.h, c.mi)]
        }
        Notation::Iso | Notation::Epoch(_) => unreachable!(),
    };
    (v, k, nanos)
}

/// ISO 8601 text and the instant it denotes (None: not representable)
fn gen_iso(s: &mut Src, wild: bool) -> (String, Option<u64>) {
    let secs = gen_secs(s, wild);
    let off = match s.weighted(&[2, 2, 3]) {
        0 => 0,
        1 => *s.pick(&[3600i64, -5 * 3600, 19800, 20700, -12600, 14 * 3600, -12 * 3600, 45 * 60]),
        _ => s.range(-23 * 60, 23 * 60) * 60,
    };
    let (f, nanos) = gen_fraction(s, 9);
    let zulu = off == 0 && s.bool();
    let c = civil(secs + off);
    if c.y < 1 {
        return ("1970-01-01T00:00:00Z".into(), Some(0));
    }
    let o = if zulu { "Z".to_string() } else { offset_str(off) };
    let mut instant = to_nanos(secs, nanos);
    let mut ss = c.s;
    if c.s == 59 && s.chance(1, 4) {
        // second 60 denotes the following second
        ss = 60;
        instant = to_nanos(secs + 1, nanos);
    }
    (format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{}", c.y, c.mo, c.d, c.h, c.mi, ss, f, o), instant)
}

const UNITS: [(u64, TimestampUnits, u64, u64); 4] = [
    (1_000_000_000, TimestampUnits::Seconds, 630_000_000, 2_000_000_000),
    (1_000_000, TimestampUnits::Millis, 630_000_000_000, 2_000_000_000_000),
    (1_000, TimestampUnits::Micros, 630_000_000_000_000, 2_000_000_000_000_000),
    (1, TimestampUnits::Nanos, 630_000_000_000_000_000, 2_000_000_000_000_000_000),
];

/// number inside the autodetection window of the unit
fn gen_windowed(s: &mut Src, u: usize) -> u64 {
    let (_, _, lo, hi) = UNITS[u];
    match s.weighted(&[1, 1, 4]) {
        0 => lo + s.draw(2),
        1 => hi - 1 - s.draw(2),
        _ => lo + s.draw(hi - lo - 1),
    }
}

/// zone given to the reader: UTC semantics in C11
fn any_utc(s: &mut Src) -> (ChopperTz, i64) {
    let zones = ["UTC", "Etc/UTC", "Etc/GMT+5", "Etc/GMT-14", "Etc/GMT"];
    let offs = [0i64, 0, -5 * 3600, 14 * 3600, 0];
    let i = s.below(zones.len());
    (ChopperTz::new_from_cli_arg(Some(zones[i]), None).ok().expect("zone"), offs[i])
}

/// a value that no reading of the notation accepts
fn bad_value(s: &mut Src, n: Notation, good: &[String]) -> Vec<String> {
    let mut g = good.to_vec();
    // of a date and a time either may be wrong
    if g.len() > 1 && s.chance(1, 3) {
        g[0] = match s.below(6) {
            0 | 1 => String::new(),
            2 => format!("{}x", g[0]),
            3 => format!("x{}", g[0]),
            4 => s.pick(&["abc", "20191301", "20190230", "20210229", "20190100"]).to_string(),
            _ => g[1].clone() + "?",
        };
        if s.chance(1, 4) {
            g[1] = String::new();
        }
        return g;
    }
    let i = g.len() - 1;
    match s.below(6) {
        0 => g[i] = String::new(),
        1 => g[i] = format!("{}x", g[i]),
        2 => g[i] = format!("x{}", g[i]),
        3 => g[i] = "abc".into(),
        4 => {
            // last character missing its sense
            let mut t = g[i].clone();
            t.pop();
            g[i] = t + "?";
        }
        _ => match n {
            Notation::Epoch(_) => g[i] = s.pick(&["-5", "1.5", "18446744073709551616", "1e9", "0x10", "1 2", "--1"]).to_string(),
            Notation::Iso => {
                g[i] = s
                    .pick(&["2019-13-01T00:00:00Z", "2019-02-30T00:00:00Z", "2019-01-01T25:00:00Z", "2019-01-01T00:61:00Z", "2019-01-01T00:00:00", "2019-01-01", "20190101 000000"])
                    .to_string()
            }
            Notation::DateOnly => g[i] = s.pick(&["20191301", "20190230", "20190100", "2019", "20190101 000000", "20210229"]).to_string(),
            Notation::YmdDotHms => g[i] = s.pick(&["20191301.000000", "20190230.000000", "20190101.250000", "20190101.006100", "20190101", "20190101 000000"]).to_string(),
            Notation::YmdSpHms => g[i] = s.pick(&["20191301 000000", "20190230 000000", "20190101 250000", "20190101 006100", "20190101", "20190101.000000"]).to_string(),
            Notation::YmdSpHcms => g[i] = s.pick(&["20191301 00:00:00", "20190230 00:00:00", "20190101 25:00:00", "20190101 00:61:00", "20190101", "20190101 000000"]).to_string(),
            Notation::SlashDash => g[i] = s.pick(&["2019/13/01-00:00:00", "2019/02/30-00:00:00", "2019/01/01-25:00:00", "2019/01/01", "20190101 00:00:00"]).to_string(),
            Notation::SplitMillis => g[i] = s.pick(&["250000000", "006100000", "000000", "00:00:00"]).to_string(),
            Notation::SplitHms => g[i] = s.pick(&["250000", "006100", "000000123", "00:00:00"]).to_string(),
            Notation::SplitHcms => g[i] = s.pick(&["25:00:00", "00:61:00", "000000", "00:00"]).to_string(),
            Notation::SplitHm => g[i] = s.pick(&["25:00", "00:61", "0000", "00:00:00"]).to_string(),
        },
    }
    g
}

enum Case {
    Good(u64),
    Bad,
}

fn run_rows(
    ctx: &mut Ctx,
    s: &mut Src,
    col: TimestampColConfig,
    fmt: TimestampFmtConfig,
    tz: ChopperTz,
    header: &str,
    rows: &[(Vec<String>, Case)],
) -> Outcome {
    let mut text = String::new();
    text.push_str(header);
    text.push('\n');
    for (cells, _) in rows {
        text.push_str(&cells.join(","));
        text.push_str(",v\n");
    }
    let cfg = csv_cfg(Some(","), YesNoAuto::Yes, col, fmt, tz).map_err(|e| err_text(&e))?;
    ctx.describe(|| truncate(&text, 900));
    let ch = gen_chunking(s, text.len());
    let d = drain(open_mem(cfg, "t.csv", MemFile::new(text.into_bytes(), ch), InputFormat::Auto))?;
    let bad = rows.iter().position(|r| matches!(r.1, Case::Bad));
    for (i, r) in d.rows.iter().enumerate() {
        match rows.get(i).map(|x| &x.1) {
            Some(Case::Good(t)) => {
                if r.ts != *t {
                    return Err(format!("row {} {:?} read as {}, denotes {}", i, rows[i].0, r.ts, t));
                }
            }
            Some(Case::Bad) => return Err(format!("row {} {:?} should be an error, read as {}", i, rows[i].0, r.ts)),
            None => return Err("too many rows".into()),
        }
    }
    match (bad, &d.err) {
        (None, Some(e)) => Err(format!("error after {} of {} rows: {} (row {:?})", d.rows.len(), rows.len(), e, rows.get(d.rows.len()).map(|r| &r.0))),
        (Some(i), None) => Err(format!("no error for row {} {:?}", i, rows[i].0)),
        (None, None) if d.rows.len() != rows.len() => Err(format!("{} of {} rows delivered", d.rows.len(), rows.len())),
        _ => Ok(()),
    }
}

/// autodetected notations
fn c11_auto(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let n = match s.weighted(&[3, 6, 4]) {
        0 => Notation::Iso,
        1 => *s.pick(&LOCALS),
        _ => Notation::Epoch(UNITS[s.below(4)].0),
    };
    ctx.label(match n {
        Notation::Iso => "ISO 8601",
        Notation::YmdDotHms => "Ymd.HMS",
        Notation::YmdSpHms => "Ymd HMS",
        Notation::YmdSpHcms => "Ymd H:M:S",
        Notation::SlashDash => "Y/m/d-H:M:S",
        Notation::DateOnly => "Ymd",
        Notation::SplitMillis => "split HMSmmm",
        Notation::SplitHms => "split HMS",
        Notation::SplitHcms => "split H:M:S",
        Notation::SplitHm => "split H:M",
        Notation::Epoch(_) => "epoch",
    });
    let (tz, off) = any_utc(s);
    let nrows = s.urange(1, 6);
    let bad_rate = *s.pick(&[0u64, 0, 0, 2]);
    let mut rows: Vec<(Vec<String>, Case)> = Vec::new();
    for i in 0..nrows {
        let wild = true;
        let (cells, case) = match n {
            Notation::Iso => {
                let (t, v) = gen_iso(s, wild);
                (vec![t], v.map(Case::Good).unwrap_or(Case::Bad))
            }
            Notation::Epoch(f) => {
                let u = UNITS.iter().position(|x| x.0 == f).unwrap();
                let v = if i == 0 || s.chance(2, 3) { gen_windowed(s, u) } else { s.u64_any() };
                (vec![v.to_string()], v.checked_mul(f).map(Case::Good).unwrap_or(Case::Bad))
            }
            l => {
                let secs = gen_secs(s, wild);
                let mut c = civil(secs + off);
                if c.y < 1 {
                    c = civil(0);
                }
                let ms = s.draw(999) as i64;
                let (v, k, nanos) = render_local(l, &c, ms);
                (v, to_nanos(secs_of(&k) - off, nanos).map(Case::Good).unwrap_or(Case::Bad))
            }
        };
        if i > 0 && bad_rate > 0 && s.draw(9) < bad_rate {
            rows.push((bad_value(s, n, &cells), Case::Bad));
        } else {
            rows.push((cells, case));
        }
    }
    ctx.label_if(rows.iter().any(|r| matches!(r.1, Case::Bad)), "error expected");
    ctx.nontrivial = matches!(rows[0].1, Case::Good(_));
    let (header, col) = if is_split(n) {
        match s.below(3) {
            0 => ("date,time,v", TimestampColConfig::Auto),
            1 => ("a,b,v", TimestampColConfig::DateTimeIndex(0, 1)),
            _ => ("xdate,xtime,v", TimestampColConfig::Auto),
        }
    } else {
        match s.below(4) {
            0 => ("time,v", TimestampColConfig::Auto),
            1 => ("a,v", TimestampColConfig::Auto),
            2 => ("a,v", TimestampColConfig::Name("a".into())),
            _ => ("date,v", TimestampColConfig::Index(0)),
        }
    };
    run_rows(ctx, s, col, TimestampFmtConfig::Auto, tz, header, &rows)
}

/// unit by column suffix, explicit unit, explicit formats
fn c11_explicit(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let nrows = s.urange(1, 5);
    let kind = s.below(3);
    let (tz, off) = any_utc(s);
    if kind < 2 {
        let u = s.below(4);
        let f = UNITS[u].0;
        let names = [["timeSeconds", "ttimeseconds", "TIMESECONDS"], ["timeMillis", "x_timemillis", "Timemillis"], ["timeMicros", "ztimemicros", "timemicros"], ["timeNanos", "qtimenanos", "timestampNanos"]];
        let mut rows = Vec::new();
        for _ in 0..nrows {
            let v = match s.below(3) {
                0 => gen_windowed(s, u),
                1 => s.u64_any(),
                _ => (u64::MAX / f).wrapping_add(s.draw(4)).wrapping_sub(2),
            };
            if s.chance(1, 10) {
                rows.push((bad_value(s, Notation::Epoch(f), &[v.to_string()]), Case::Bad));
            } else {
                let pad = if s.chance(1, 10) { "00" } else { "" };
                rows.push((vec![format!("{}{}", pad, v)], v.checked_mul(f).map(Case::Good).unwrap_or(Case::Bad)));
            }
        }
        ctx.nontrivial = true;
        if kind == 0 {
            ctx.label("unit by column name");
            let h = names[u][s.below(3)];
            if h == "timestampNanos" {
                // not one of the documented unit names
                return Ok(());
            }
            return run_rows(ctx, s, TimestampColConfig::Auto, TimestampFmtConfig::Auto, tz, &format!("{},v", h), &rows);
        }
        ctx.label("explicit unit");
        // an explicit unit wins over whatever the column name says
        let h = s.pick(&["a,v", "time,v", "timeMillis,v", "timeSeconds,v"]).to_string();
        let col = if s.bool() { TimestampColConfig::Auto } else { TimestampColConfig::Index(0) };
        return run_rows(ctx, s, col, TimestampFmtConfig::Epoch(UNITS[u].1), tz, &h, &rows);
    }
    ctx.label("explicit format");
    let which = s.below(7);
    let fmts = ["%d/%m/%Y %H:%M:%S", "%Y-%m-%d %H:%M:%S%.f", "%d.%m.%Y", "%Y-%m-%dT%H:%M:%S%z", "%m/%d/%Y %H:%M:%S", "%d%m%Y#%H:%M:%S", "%Y.%m.%d#%H%M"];
    let mut rows = Vec::new();
    for i in 0..nrows {
        let secs = gen_secs(s, true);
        let mut c = civil(secs + off);
        if c.y < 1 {
            c = civil(0);
        }
        let (f, fnanos) = gen_fraction(s, 9);
        let mut nanos = 0;
        let mut own_off = off;
        let cells = match which {
            0 => vec![format!("{:02}/{:02}/{:04} {:02}:{:02}:{:02}", c.d, c.mo, c.y, c.h, c.mi, c.s)],
            1 => {
                nanos = fnanos;
                vec![format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}{}", c.y, c.mo, c.d, c.h, c.mi, c.s, f)]
            }
            2 => {
                c.h = 0;
                c.mi = 0;
                c.s = 0;
                vec![format!("{:02}.{:02}.{:04}", c.d, c.mo, c.y)]
            }
            3 => {
                own_off = s.range(-14 * 60, 14 * 60) * 60;
                let o = offset_str(own_off).replace(':', "");
                vec![format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}", c.y, c.mo, c.d, c.h, c.mi, c.s, o)]
            }
            4 => vec![format!("{:02}/{:02}/{:04} {:02}:{:02}:{:02}", c.mo, c.d, c.y, c.h, c.mi, c.s)],
            5 => vec![format!("{:02}{:02}{:04}", c.d, c.mo, c.y), format!("{:02}:{:02}:{:02}", c.h, c.mi, c.s)],
            _ => {
                c.s = 0;
                vec![format!("{:04}.{:02}.{:02}", c.y, c.mo, c.d), format!("{:02}{:02}", c.h, c.mi)]
            }
        };
        if s.chance(1, 12) {
            let mut b = cells.clone();
            let l = b.len() - 1;
            b[l] = match s.below(4) {
                0 => String::new(),
                1 => format!("{}!", b[l]),
                2 => "20190101 000000".into(),
                _ => "1500000000000000000".into(),
            };
            rows.push((b, Case::Bad));
            if i == 0 {
                break;
            }
        } else {
            rows.push((cells, to_nanos(secs_of(&c) - own_off, nanos).map(Case::Good).unwrap_or(Case::Bad)));
        }
    }
    ctx.label_if(rows.iter().any(|r| matches!(r.1, Case::Bad)), "error expected");
    ctx.nontrivial = matches!(rows[0].1, Case::Good(_));
    if which >= 5 {
        let (a, b) = fmts[which].split_at(fmts[which].find('#').unwrap());
        let fmt = TimestampFmtConfig::DateTimeExplicit(a.to_string(), b[1..].to_string());
        let col = TimestampColConfig::DateTimeName("d".into(), "t".into());
        return run_rows(ctx, s, col, fmt, tz, "d,t,v", &rows);
    }
    let h = s.pick(&["a,v", "time,v", "timeMillis,v"]).to_string();
    run_rows(ctx, s, TimestampColConfig::Index(0), TimestampFmtConfig::Explicit(fmts[which].to_string()), tz, &h, &rows)
}

/// first values that no autodetected notation covers
fn c11_unknown(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (tz, _) = any_utc(s);
    let v = match s.below(3) {
        0 => {
            // digits outside every window and not a date
            // (7, 13 and 14 digits can be read by the date formats with lenient field widths)
            let n = match s.below(5) {
                0 => s.draw(999_999),
                1 => 100_000_000 + s.draw(529_999_999),
                2 => 2_000_000_000 + s.draw(627_999_999_999 - 2_000_000_000),
                3 => 100_000_000_000_000 + s.draw(529_999_999_999_999),
                _ => 2_000_000_000_000_000_000 + s.draw(10_000_000_000_000_000_000),
            };
            n.to_string()
        }
        1 => s.pick(&["", "abc", "2019-01-01", "01/02/2019", "12:30", "2019-01-01 00:00:00", "1.5", "-1500000000", "20190101-000000", "2019", "201901", "20191301", "1500000000x"]).to_string(),
        _ => crate::gen::ascii_word(s, 1, 8),
    };
    ctx.nontrivial = true;
    run_rows(ctx, s, TimestampColConfig::Index(0), TimestampFmtConfig::Auto, tz, "a,v", &[(vec![v], Case::Bad)])
}

// ---------------------------------------------------------------- C12

pub fn off_at(tz: Tz, secs: i64) -> i64 {
    let ndt = chrono::NaiveDateTime::from_timestamp(secs, 0);
    tz.offset_from_utc_datetime(&ndt).fix().local_minus_utc() as i64
}

/// all instants whose local time in the zone is the given one
pub fn resolve(tz: Tz, local_secs: i64) -> Vec<i64> {
    // all offsets in force within 3 days around
    let mut offs: Vec<i64> = Vec::new();
    let mut u = local_secs - 3 * 86400;
    while u <= local_secs + 3 * 86400 {
        let o = off_at(tz, u);
        if !offs.contains(&o) {
            offs.push(o);
        }
        u += 3600;
    }
    let mut v: Vec<i64> = offs.iter().map(|o| local_secs - o).filter(|u| off_at(tz, *u) == local_secs - u).collect();
    v.sort();
    v.dedup();
    v
}

const ZONES: [&str; 40] = [
    "America/New_York", "Europe/London", "Europe/Berlin", "Australia/Lord_Howe", "Asia/Kathmandu", "Africa/Monrovia", "America/St_Johns", "Asia/Kolkata",
    "Pacific/Apia", "Pacific/Kwajalein", "America/Sao_Paulo", "Africa/Casablanca", "Asia/Tehran", "Europe/Moscow", "America/Caracas", "Asia/Pyongyang",
    "Antarctica/Troll", "Europe/Dublin", "America/Havana", "Asia/Gaza", "Pacific/Auckland", "Pacific/Chatham", "America/Los_Angeles", "UTC", "Asia/Tokyo",
    "America/Argentina/San_Luis", "Europe/Lisbon", "Africa/Cairo", "Asia/Amman", "America/Scoresbysund", "Europe/Istanbul", "Asia/Dhaka", "America/Anchorage",
    "Etc/GMT+12", "US/Central", "Asia/Singapore", "Europe/Volgograd", "America/Godthab", "Antarctica/Casey", "Asia/Hong_Kong",
];

pub fn gen_zone(s: &mut Src) -> Tz {
    if s.chance(1, 4) {
        *s.pick(&chrono_tz::TZ_VARIANTS)
    } else {
        s.pick(&ZONES).parse().expect("zone")
    }
}

/// an instant at which the zone's offset changes, near the given one
pub fn near_transition(tz: Tz, from: i64) -> Option<i64> {
    let step = 20 * 86400;
    let mut a = from;
    let mut oa = off_at(tz, a);
    for _ in 0..40 {
        let b = a + step;
        let ob = off_at(tz, b);
        if ob != oa {
            let (mut lo, mut hi) = (a, b);
            while hi - lo > 1 {
                let m = (lo + hi) / 2;
                if off_at(tz, m) == oa {
                    lo = m
                } else {
                    hi = m
                }
            }
            return Some(hi);
        }
        a = b;
        oa = ob;
    }
    None
}

/// local civil seconds, biased to clock changes
fn gen_local(s: &mut Src, tz: Tz, ctx: &mut Ctx) -> i64 {
    let base = s.range(30_000_000, 2_100_000_000);
    if s.chance(2, 3) {
        if let Some(t) = near_transition(tz, base) {
            ctx.label("near a clock change");
            let before = off_at(tz, t - 1);
            let after = off_at(tz, t);
            let (lo, hi) = (t + before.min(after), t + before.max(after));
            return match s.below(4) {
                0 => lo + s.range(-2, 2),
                1 => hi + s.range(-2, 2),
                2 => s.range(lo, hi),
                _ => s.range(lo - 7200, hi + 7200),
            };
        }
    }
    base
}

fn c12_csv(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    c12_rows(s, ctx, false)
}

/// many rows of a few hours: what was worked out for one row is not what the next one needs
fn c12_close(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    c12_rows(s, ctx, true)
}

fn c12_rows(s: &mut Src, ctx: &mut Ctx, close: bool) -> Outcome {
    let tz = if close && s.chance(1, 5) { Tz::Australia__Lord_Howe } else { gen_zone(s) };
    let n = *s.pick(&LOCALS);
    let nrows = if close { s.urange(2, 24) } else { s.urange(1, 4) };
    let configured = !s.chance(1, if close { 40 } else { 10 });
    let mut rows = Vec::new();
    // local times within hours of one change of the clocks
    let centre = gen_local(s, tz, ctx);
    for _ in 0..nrows {
        let mut local = if !close { gen_local(s, tz, ctx) } else { 0 };
        if close {
            let ambiguous = s.chance(1, 5);
            for _ in 0..4 {
                local = centre
                    + match s.weighted(&[3, 3, 2, 1]) {
                        0 => s.range(-3600, 3600),
                        1 => s.range(-4 * 3600, 4 * 3600),
                        2 => s.range(-60, 60),
                        _ => 86_400 * s.range(-2, 2) + s.range(-3600, 3600),
                    };
                if ambiguous == (resolve(tz, local).len() != 1) {
                    break;
                }
            }
        }
        let c = civil(local);
        let (v, k, nanos) = render_local(n, &c, s.draw(999) as i64);
        let r = resolve(tz, secs_of(&k));
        ctx.label(match r.len() {
            0 => "local time that never occurs",
            1 => "unique local time",
            _ => "local time that occurs twice",
        });
        let case = if r.len() == 1 && configured { to_nanos(r[0], nanos).map(Case::Good).unwrap_or(Case::Bad) } else { Case::Bad };
        rows.push((v, case));
    }
    ctx.label_if(!configured, "no zone");
    ctx.nontrivial = configured;
    let chz = if configured {
        match s.below(3) {
            0 => ChopperTz::from(tz),
            1 => ChopperTz::new_from_cli_arg(Some(tz.name()), None).map_err(|e| err_text(&e))?,
            _ => {
                let mut m = std::collections::HashMap::new();
                m.insert("alias", tz);
                m.insert("UTC", tz);
                ChopperTz::new_from_cli_arg(Some(if s.bool() { "alias" } else { "UTC" }), Some(m)).map_err(|e| err_text(&e))?
            }
        }
    } else {
        ChopperTz::new_always_fails()
    };
    let (header, col, fmt) = if is_split(n) {
        ("date,time,v", TimestampColConfig::Auto, TimestampFmtConfig::Auto)
    } else if n == Notation::SlashDash && s.bool() {
        ("a,v", TimestampColConfig::Index(0), TimestampFmtConfig::Explicit("%Y/%m/%d-%H:%M:%S".into()))
    } else if n == Notation::DateOnly && s.bool() {
        ("a,v", TimestampColConfig::Index(0), TimestampFmtConfig::Explicit("%Y%m%d".into()))
    } else {
        ("time,v", TimestampColConfig::Auto, TimestampFmtConfig::Auto)
    };
    let out = run_rows(ctx, s, col, fmt, chz, header, &rows);
    out.map_err(|e| format!("zone {}: {}", tz.name(), e))
}

/// times with their own offset ignore the zone (and need none)
fn c12_offset(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let tz = gen_zone(s);
    let nrows = s.urange(1, 4);
    let rows: Vec<(Vec<String>, Case)> = (0..nrows)
        .map(|_| {
            let (t, v) = gen_iso(s, false);
            (vec![t], v.map(Case::Good).unwrap_or(Case::Bad))
        })
        .collect();
    let chz = if s.bool() { ChopperTz::from(tz) } else { ChopperTz::new_always_fails() };
    ctx.nontrivial = true;
    for (t, v) in &rows {
        let got = parse_datetime_range_element(&t[0], &chz).map_err(|e| err_text(&e));
        match (v, got) {
            (Case::Good(a), Ok(b)) if *a == b => {}
            (Case::Good(a), g) => return Err(format!("bound {:?} is {:?}, denotes {}", t[0], g, a)),
            (Case::Bad, Err(_)) => {}
            (Case::Bad, Ok(b)) => return Err(format!("bound {:?} accepted as {}", t[0], b)),
        }
    }
    run_rows(ctx, s, TimestampColConfig::Auto, TimestampFmtConfig::Auto, chz, "time,v", &rows)
}

fn c12_bound(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let tz = gen_zone(s);
    let local = gen_local(s, tz, ctx);
    let (text, want_secs, nanos) = gen_local_bound(s, civil(local));
    let r = resolve(tz, want_secs);
    let configured = !s.chance(1, 10);
    let want = if r.len() == 1 && configured { to_nanos(r[0], nanos) } else { None };
    ctx.nontrivial = configured;
    ctx.label(match r.len() {
        0 => "local time that never occurs",
        1 => "unique local time",
        _ => "local time that occurs twice",
    });
    let chz = if configured { ChopperTz::from(tz) } else { ChopperTz::new_always_fails() };
    ctx.describe(|| format!("{:?} in {} (configured {})", text, tz.name(), configured));
    let got = parse_datetime_range_element(&text, &chz);
    match (want, got) {
        (Some(a), Ok(b)) if a == b => Ok(()),
        (None, Err(_)) => Ok(()),
        (a, b) => Err(format!("{:?} in {} gives {:?}, expected {:?} (candidates {:?})", text, tz.name(), b.map_err(|e| err_text(&e)), a, r)),
    }
}

static ENV: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// which zone is configured: argument, else CHOPPER_TZ, looked up in the given map and then by name
fn c12_resolve(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let own = ["here", "UTC", "Europe/London", "NYC", "Z", "", "utc "];
    let mut map: Option<HashMap<&str, Tz>> = None;
    if s.bool() {
        let mut m = HashMap::new();
        for n in own {
            if s.chance(1, 3) {
                m.insert(n, gen_zone(s));
            }
        }
        map = Some(m);
    }
    let name = |s: &mut Src| -> String {
        match s.weighted(&[4, 3, 2]) {
            0 => gen_zone(s).name().to_string(),
            1 => s.pick(&own).to_string(),
            _ => s.pick(&["nowhere", "EST5EDT", "utc", "GMT+1", "America/New York", "Etc/GMT-14", ":UTC", "é"]).to_string(),
        }
    };
    let arg = if s.bool() { Some(name(s)) } else { None };
    let env = if s.bool() { Some(name(s)) } else { None };
    let others: Vec<(&str, Option<String>)> =
        ["TZ", "TZDIR", "TIMEZONE"].iter().map(|k| (*k, if s.bool() { Some(name(s)) } else { None })).collect();
    let lookup = |n: &str| -> Result<Tz, ()> {
        match map.as_ref().and_then(|m| m.get(n)) {
            Some(z) => Ok(*z),
            None => chrono_tz::TZ_VARIANTS.iter().find(|z| z.name() == n).copied().ok_or(()),
        }
    };
    let want: Result<Option<Tz>, ()> = match (&arg, &env) {
        (Some(a), _) => lookup(a).map(Some),
        (None, Some(e)) => lookup(e).map(Some),
        (None, None) => Ok(None),
    };
    ctx.describe(|| format!("-z {:?}, CHOPPER_TZ {:?}, other variables {:?}, map {:?}: expect {:?}", arg, env, others, map, want));
    ctx.nontrivial = arg.is_some() || env.is_some() || others.iter().any(|o| o.1.is_some());
    ctx.label(match &want {
        Err(_) => "unknown zone",
        Ok(None) => "no zone",
        Ok(Some(_)) if arg.is_some() => "zone from the argument",
        Ok(Some(_)) => "zone from CHOPPER_TZ",
    });
    let got = {
        let _g = ENV.lock().unwrap_or_else(|e| e.into_inner());
        let set = |k: &str, v: &Option<String>| match v {
            Some(v) => std::env::set_var(k, v),
            None => std::env::remove_var(k),
        };
        let old: Vec<(&str, Option<String>)> =
            others.iter().map(|o| o.0).chain(["CHOPPER_TZ"]).map(|k| (k, std::env::var(k).ok())).collect();
        for (k, v) in &others {
            set(k, v);
        }
        set("CHOPPER_TZ", &env);
        let r = guard(|| ChopperTz::new_from_cli_arg(arg.as_deref(), map.clone()));
        for (k, v) in &old {
            set(k, v);
        }
        r?
    };
    match (&want, got) {
        (Err(_), Err(_)) => Ok(()),
        (Err(_), Ok(z)) => Err(format!("an unknown zone was accepted as {:?}", z)),
        (Ok(_), Err(e)) => Err(format!("refused: {}", err_text(&e))),
        (Ok(w), Ok(got)) => {
            for secs in [1_593_561_600i64, 1_577_880_000, 1_000_000_000 + s.range(-500_000_000, 900_000_000)] {
                let dt = chrono::NaiveDateTime::from_timestamp(secs, 5);
                let g = got.from_local_datetime(&dt).ok().map(|d| d.timestamp_nanos());
                let e = w.and_then(|z| match &resolve(z, secs)[..] {
                    [one] => Some(one * 1_000_000_000 + 5),
                    _ => None,
                });
                if g != e {
                    return Err(format!("local time {} is {:?}, expected {:?}", dt, g, e));
                }
                let back = got.timestamp(secs as u64 * 1_000_000_000 + 7).ok().map(|d| (d.naive_local().timestamp(), d.timestamp_subsec_nanos()));
                let e = w.map(|z| (secs + off_at(z, secs), 7));
                if back != e {
                    return Err(format!("instant {} is shown as {:?}, expected {:?}", secs, back, e));
                }
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C13

/// text of a documented local form; the civil seconds and nanoseconds it denotes
fn gen_local_bound(s: &mut Src, c: Civil) -> (String, i64, i64) {
    let c = Civil { y: c.y.clamp(1000, 9999), ..c };
    match s.weighted(&[1, 1, 1, 6]) {
        0 => (format!("{:04}", c.y), days_from_civil(c.y, 1, 1) * 86400, 0),
        1 => (format!("{:04}{:02}", c.y, c.mo), days_from_civil(c.y, c.mo, 1) * 86400, 0),
        2 => (format!("{:04}{:02}{:02}", c.y, c.mo, c.d), days_from_civil(c.y, c.mo, c.d) * 86400, 0),
        _ => {
            let d = match s.below(3) {
                0 => format!("{:04}{:02}{:02}", c.y, c.mo, c.d),
                1 => format!("{:04}/{:02}/{:02}", c.y, c.mo, c.d),
                _ => format!("{:04}-{:02}-{:02}", c.y, c.mo, c.d),
            };
            let sep = *s.pick(&[" ", "-", "T"]);
            let t = if s.bool() { format!("{:02}:{:02}:{:02}", c.h, c.mi, c.s) } else { format!("{:02}{:02}{:02}", c.h, c.mi, c.s) };
            let (f, nanos) = gen_fraction(s, 9);
            (format!("{}{}{}{}", d, sep, t, f), secs_of(&c), nanos)
        }
    }
}

fn c13(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (tz, off) = any_utc(s);
    let mut one = |s: &mut Src, ctx: &mut Ctx| -> (String, Option<u64>) {
        match s.weighted(&[6, 3, 4, 4]) {
            0 => {
                ctx.label("local form");
                let secs = gen_secs(s, true);
                let c = civil(secs);
                let (t, w, n) = gen_local_bound(s, c);
                (t, to_nanos(w - off, n))
            }
            1 => {
                ctx.label("ISO 8601");
                gen_iso(s, true)
            }
            2 => {
                ctx.label("epoch");
                let u = s.below(4);
                let v = gen_windowed(s, u);
                (v.to_string(), Some(v * UNITS[u].0))
            }
            _ => {
                ctx.label("rejected form");
                let t = match s.below(7) {
                    6 => {
                        // however long it is and whatever it is written in
                        let n = match s.below(3) {
                            0 => s.urange(1, 40),
                            1 => s.urange(40, 300),
                            _ => *s.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 4097, 70_000]),
                        };
                        let head = match s.below(3) {
                            0 => String::new(),
                            1 => {
                                let c = civil(gen_secs(s, false));
                                gen_local_bound(s, c).0
                            }
                            _ => "1".repeat(s.urange(1, 30)),
                        };
                        let tail = crate::gen::sized_string(s, n.max(4));
                        head + &tail
                    }
                    5 => {
                        // a valid number with something around or within
                        let c = civil(gen_secs(s, false));
                        let y = c.y.clamp(1000, 9999);
                        let d = match s.below(4) {
                            0 => format!("{:04}", y),
                            1 => format!("{:04}{:02}", y, c.mo),
                            2 => format!("{:04}{:02}{:02}", y, c.mo, c.d),
                            _ => {
                                let u = s.below(4);
                                gen_windowed(s, u).to_string()
                            }
                        };
                        let x = *s.pick(&[" ", "\t", "\n", "+", "-", "_", ",", "\u{a0}", "\"", "'", "\0", "\u{feff}"]);
                        // thirteen digits parted by a date's delimiter may be a date and time with short fields
                        let x = if d.len() > 8 && (x == "-" || x.trim().is_empty()) { "." } else { x };
                        match s.below(4) {
                            0 => format!("{}{}", x, d),
                            1 => format!("{}{}", d, x),
                            2 => format!("{}{}{}", x, d, x),
                            _ => {
                                let p = 1 + s.below(d.len() - 1);
                                format!("{}{}{}", &d[..p], x, &d[p..])
                            }
                        }
                    }
                    0 => {
                        // digits that are neither a date form nor in a window
                        let n = match s.below(6) {
                            0 => s.draw(999),
                            1 => 10_000 + s.draw(89_999),
                            2 => 100_000_000_000_000 + s.draw(529_999_999_999_999),
                            3 => *s.pick(&[629_999_999u64, 2_000_000_000, 629_999_999_999, 2_000_000_000_000, 629_999_999_999_999, 2_000_000_000_000_000, 629_999_999_999_999_999, 2_000_000_000_000_000_000, u64::MAX]),
                            4 => 100_000_000 + s.draw(529_999_999),
                            _ => 2_000_000_000_000_000_000 + s.draw(10_000_000_000_000_000_000),
                        };
                        n.to_string()
                    }
                    1 => s
                        .pick(&[
                            "", "abc", "201913", "20191301", "20190230", "20210229", "2019-01", "2019/01/01", "2019-01-01", "20190101-25:00:00", "20190101-00:61:00", "18446744073709551616",
                            "99999999999999999999999", "-2019", "20190101-000000Z", "2019-01-01T00:00:00+25:99x", "2019-02-29T00:00:00Z", "2019-01-01T24:00:01Z", "20190101-", "T00:00:00",
                            "2019-01-01_00:00:00", "20190100", "201900", "20190101-00:00:00.", "20190101-00:00:00.x", "2019-01-01T00:00:00X", "1500000000.5", "1e9", "20190431",
                        ])
                        .to_string(),
                    2 => {
                        let c = civil(gen_secs(s, false));
                        let (t, _, _) = gen_local_bound(s, c);
                        format!("{}{}", t, s.pick(&["x", " am", ":", "/", "-"]))
                    }
                    3 => {
                        let c = civil(gen_secs(s, false));
                        format!("x{}", gen_local_bound(s, c).0)
                    }
                    _ => crate::gen::ascii_word(s, 1, 10),
                };
                (t, None)
            }
        }
    };
    let (a, wa) = one(s, ctx);
    let (b, wb) = one(s, ctx);
    ctx.describe(|| format!("{:?} -> {:?}; {:?} -> {:?} (zone offset {})", a, wa, b, wb, off));
    ctx.nontrivial = wa.is_some() || wb.is_some();
    for (t, w) in [(&a, wa), (&b, wb)] {
        let got = guard(|| parse_datetime_range_element(t, &tz)).map_err(|e| format!("bound {:?}: {}", truncate(t, 300), e))?;
        match (w, got) {
            (Some(x), Ok(y)) if x == y => {}
            (None, Err(_)) => {}
            (w, g) => return Err(format!("bound {:?} gives {:?}, expected {:?}", t, g.map_err(|e| err_text(&e)), w)),
        }
    }
    let ua = if s.chance(1, 6) { None } else { Some(&a[..]) };
    let ub = if s.chance(1, 6) { None } else { Some(&b[..]) };
    let want = match (ua.map(|_| wa), ub.map(|_| wb)) {
        (Some(None), _) | (_, Some(None)) => None,
        (x, y) => Some((x.flatten(), y.flatten())),
    };
    match (want, TimestampRange::new(ua, ub, &tz)) {
        (Some((x, y)), Ok(r)) if r.begin == x && r.end == y => Ok(()),
        (None, Err(_)) => Ok(()),
        (w, g) => Err(format!("range {:?}..{:?} gives {:?}, expected {:?}", ua, ub, g.map(|r| (r.begin, r.end)).map_err(|e| err_text(&e)), w)),
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            level: "exploration",
            rule: "auto: files in one of 14 autodetected notations, instants over and beyond the representable range, later rows malformed or of another notation; explicit: unit by column name, by option, explicit formats; unknown: first values no notation covers. Oracle: own calendar arithmetic; non-trivial: the first row is valid",
            assumptions: &["years have four digits", "fractions have at most nine digits"],
            families: vec![
                Family { name: "auto", f: c11_auto, quick: 750_000, thorough: 7_500_000 },
                Family { name: "explicit", f: c11_explicit, quick: 600_000, thorough: 6_000_000 },
                Family { name: "unknown", f: c11_unknown, quick: 200_000, thorough: 2_000_000 },
            ],
        },
        Property {
            id: "C12",
            level: "exploration",
            rule: "local times (2/3 within hours of a clock change; files of up to 24 rows around one change) in any IANA zone, in every zone-less notation and as bounds; the set of instants having that local time, derived from the UTC-to-local direction, decides between one instant and an error; ISO times with offset under any zone; which zone is configured for all combinations of argument, CHOPPER_TZ, zone map and unrelated environment variables; non-trivial: a zone is configured, or some variable is set",
            assumptions: &["chrono-tz's UTC-to-local offsets are right"],
            families: vec![
                Family { name: "csv", f: c12_csv, quick: 240_000, thorough: 2_400_000 },
                Family { name: "close", f: c12_close, quick: 160_000, thorough: 1_600_000 },
                Family { name: "bound", f: c12_bound, quick: 240_000, thorough: 2_400_000 },
                Family { name: "offset", f: c12_offset, quick: 160_000, thorough: 1_600_000 },
                Family { name: "resolve", f: c12_resolve, quick: 80_000, thorough: 800_000 },
            ],
        },
        Property {
            id: "C13",
            level: "exploration",
            rule: "bounds in every documented form (years 1000-9999, fractions of 0-9 digits, window edges), ISO with any offset, and texts outside the documented forms (blanks and other characters put around or within numbers, and texts of up to 70 kB, included); oracle: own calendar arithmetic; non-trivial: at least one valid bound",
            assumptions: &["fractions have at most nine digits"],
            families: vec![Family { name: "bounds", f: c13, quick: 4_500_000, thorough: 45_000_000 }],
        },
    ]
}

#[allow(dead_code)]
fn _unused(_: &MRow) {}
