//! C22 built-in filters, C23 CSV output, C24 CSV output read back.
use chopper::chopper::chopper::{HeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderGraph, HeaderNode};
use chopper::cli::util::YesNoAuto;
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;
use chopper::filter::row_filter_equal_value::RowFilterEqualValue;
use chopper::filter::row_filter_greater_value::RowFilterGreaterValue;
use chopper::input::input::InputFormat;
use chopper::source::csv_configs::{CSVOutputConfig, TimestampColConfig, TimestampFmtConfig, TimestampStyle};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::util::tz::ChopperTz;
use chopper::write::factory::new_header_sink;
use chrono_tz::Tz;

use crate::cal::*;
use crate::engine::*;
use crate::gen::*;
use crate::memio::*;
use crate::model::*;
use crate::p_driver::{merge_node, run_driver, ALL};
use crate::p_time::{gen_zone, near_transition, off_at};

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug)]
enum Filter {
    Delete(String),
    Equal(String, Val),
    Greater(String, Val),
}

impl Filter {
    fn name(&self) -> &str {
        match self {
            Filter::Delete(n) | Filter::Equal(n, _) | Filter::Greater(n, _) => n,
        }
    }
    fn sink(&self) -> Box<dyn HeaderSink> {
        match self {
            Filter::Delete(n) => ColumnFilterDelete::new(n),
            Filter::Equal(n, v) => RowFilterEqualValue::new(n, val_to(v)),
            Filter::Greater(n, v) => RowFilterGreaterValue::new(n, val_to(v)),
        }
    }
}

fn same_name(a: &str, b: &str) -> bool {
    a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| x.to_ascii_lowercase() == y.to_ascii_lowercase())
}

fn ref_equal(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Null, Val::Null) => true,
        (Val::Double(x), Val::Double(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (Val::Float(x), Val::Float(y)) => f32::from_bits(*x) == f32::from_bits(*y),
        (x, y) => x == y,
    }
}

fn ref_greater(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Byte(x), Val::Byte(y)) => x > y,
        (Val::Char(x), Val::Char(y)) => x > y,
        (Val::Short(x), Val::Short(y)) => x > y,
        (Val::Int(x), Val::Int(y)) => x > y,
        (Val::Long(x), Val::Long(y)) => x > y,
        (Val::Double(x), Val::Double(y)) => f64::from_bits(*x) > f64::from_bits(*y),
        (Val::Float(x), Val::Float(y)) => f32::from_bits(*x) > f32::from_bits(*y),
        (Val::Str(x), Val::Str(y)) => x.as_bytes() > y.as_bytes(),
        _ => false,
    }
}

/// applies the filter to the table; None if its column does not exist
fn ref_apply(t: &Table, f: &Filter) -> Option<Table> {
    let i = t.names.iter().position(|n| same_name(n, f.name()))?;
    let mut o = t.clone();
    match f {
        Filter::Delete(_) => {
            o.names.remove(i);
            o.types.remove(i);
            for r in &mut o.rows {
                r.vals.remove(i);
            }
        }
        Filter::Equal(_, v) => o.rows.retain(|r| ref_equal(&r.vals[i], v)),
        Filter::Greater(_, v) => o.rows.retain(|r| ref_greater(&r.vals[i], v)),
    }
    Some(o)
}

fn flip_case(s: &mut Src, n: &str) -> String {
    n.chars()
        .map(|c| {
            if s.chance(1, 3) {
                if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            } else {
                c
            }
        })
        .collect()
}

fn gen_filter_name(s: &mut Src, i: usize) -> String {
    match s.below(4) {
        0 => format!("f{}", i),
        1 => s.pick(&["a", "A", "ab", "Ab", "aB", "b", "é", "É", "x y", "straße", "k", "\u{212a}", "ı", "i", "I", "a[", "a{", "A["]).to_string(),
        _ => {
            let w = ascii_word(s, 1, 2);
            flip_case(s, &w)
        }
    }
}

/// a value that differs from the given one in as little as possible
fn neighbour(s: &mut Src, v: Val) -> Val {
    let by = *s.pick(&[1i64, -1, 1, -1, 2, 256, 65_536, 1 << 32, i64::MIN]);
    match v {
        Val::Byte(x) => Val::Byte(x.wrapping_add(by as u8)),
        Val::Char(x) => Val::Char(x.wrapping_add(by as u16)),
        Val::Short(x) => Val::Short(x.wrapping_add(by as i16)),
        Val::Int(x) => Val::Int(x.wrapping_add(by as i32)),
        Val::Long(x) => Val::Long(x.wrapping_add(by)),
        Val::Double(b) => {
            let c = b.wrapping_add(by as u64);
            Val::Double(if is_snan64(c) { b } else { c })
        }
        Val::Float(b) => {
            let c = if by == i64::MIN { b ^ 0x8000_0000 } else { b.wrapping_add(by as u32) };
            Val::Float(if is_snan32(c) { b } else { c })
        }
        Val::Str(mut x) => {
            match s.below(4) {
                0 => {
                    x.pop();
                }
                1 => x.push(*s.pick(&['\0', ' ', 'a', '\u{10ffff}'])),
                2 => {
                    let c = x.pop().unwrap_or('a');
                    x.push(char::from_u32(c as u32 + 1).unwrap_or('b'));
                }
                _ => x = flip_case(s, &x),
            }
            Val::Str(x)
        }
        v => v,
    }
}

/// values that collide often, including the edges of the type
fn gen_close_value(s: &mut Src, t: Ty, pool: &[Val]) -> Val {
    if !pool.is_empty() && s.chance(2, 3) {
        let v = s.pick(pool).clone();
        return if s.chance(1, 3) { neighbour(s, v) } else { v };
    }
    gen_value_small(s, t)
}

fn gen_filter_table(s: &mut Src) -> Table {
    let ncols = s.urange(1, 6);
    let ncols = s.big(Big::Wide, 5_000).unwrap_or(ncols);
    let mut t = Table::default();
    for i in 0..ncols {
        let plain = i > 5 && !s.chance(1, 50);
        t.names.push(if plain { format!("f{}", i) } else { gen_filter_name(s, i) });
        t.types.push(*s.pick(&VALUE_TYPES));
    }
    let null_rate = *s.pick(&[0u64, 1, 3]);
    let mut pools: Vec<Vec<Val>> = (0..ncols).map(|c| s.many(1, 4, 2, |s| gen_value_small(s, t.types[c]))).collect();
    if s.chance(1, 10) {
        // long text with a common beginning
        let n = s.urange(1, 300);
        let head = sized_string(s, n);
        for v in pools.iter_mut().flatten() {
            if let Val::Str(x) = v {
                *x = format!("{}{}", head, x);
            }
        }
    }
    let long = s.big(Big::Long, 70_000);
    let most = if s.big == Big::Wide { 6 } else { 40 };
    let row = |s: &mut Src| {
        (0..ncols)
            .map(|c| if s.draw(9) < null_rate { Val::Null } else { gen_close_value(s, t.types[c], &pools[c]) })
            .collect::<Vec<_>>()
    };
    let rows: Vec<Vec<Val>> = match long {
        Some(n) => (0..n).map(|_| row(s)).collect(),
        None => s.many(0, most, 8, row),
    };
    let ts = gen_timestamps(s, rows.len());
    t.rows = rows.into_iter().zip(ts).map(|(vals, ts)| MRow { ts, vals }).collect();
    t
}

/// a filter for the table as it arrives there; `missing` allows names of no column
fn gen_filter(s: &mut Src, t: &Table, missing: bool) -> Filter {
    let name = if t.names.is_empty() || (missing && s.chance(1, 12)) {
        s.pick(&["zz", "", "É", "f99", "k", "\u{212a}", " a"]).to_string()
    } else {
        let n = if s.big == Big::Wide && s.chance(1, 3) { t.names[t.names.len() - 1].clone() } else { s.pick(&t.names).clone() };
        flip_case(s, &n)
    };
    let col = t.names.iter().position(|n| same_name(n, &name));
    let ty = col.map(|c| t.types[c]).unwrap_or(Ty::Int);
    let present: Vec<Val> = match col {
        Some(c) => t.rows.iter().map(|r| r.vals[c].clone()).filter(|v| *v != Val::Null).collect(),
        None => vec![],
    };
    match s.weighted(&[3, 3, 4]) {
        0 => Filter::Delete(name),
        1 => {
            let v = match s.weighted(&[8, 1, 1]) {
                0 => gen_close_value(s, ty, &present),
                1 => Val::Null,
                _ => {
                    let ty = *s.pick(&VALUE_TYPES);
                    gen_value_small(s, ty)
                }
            };
            Filter::Equal(name, v)
        }
        _ => Filter::Greater(name, if s.chance(1, 15) { Val::Null } else { gen_close_value(s, ty, &present) }),
    }
}

fn brief<T: std::fmt::Debug>(x: &T) -> String {
    truncate(&format!("{:?}", x), 1500)
}

fn c22_chain(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let input = gen_filter_table(s);
    let nf = s.urange(1, 4);
    let nf = s.big(Big::Deep, 1100).unwrap_or(nf);
    let mut cur = input.clone();
    let mut filters = Vec::new();
    let mut failed = false;
    for _ in 0..nf {
        let missing = s.big == Big::No || s.chance(1, 200);
        let mut f = gen_filter(s, &cur, missing);
        if s.big == Big::Deep && !s.chance(1, 400) {
            // keeps columns and most rows
            f = match f {
                Filter::Delete(n) | Filter::Equal(n, _) | Filter::Greater(n, _) => match cur.names.iter().position(|x| same_name(x, &n)).map(|c| cur.types[c]) {
                    Some(Ty::Int) => Filter::Greater(n, Val::Int(i32::min_value() + s.below(3) as i32)),
                    Some(Ty::Byte) => Filter::Greater(n, Val::Byte(0)),
                    Some(Ty::Str) => Filter::Greater(n, Val::Str(String::new())),
                    Some(Ty::Double) => Filter::Greater(n, Val::Double(f64::NEG_INFINITY.to_bits())),
                    Some(Ty::Char) => Filter::Greater(n, Val::Char(0)),
                    Some(Ty::Short) => Filter::Greater(n, Val::Short(i16::min_value())),
                    Some(Ty::Float) => Filter::Greater(n, Val::Float(f32::NEG_INFINITY.to_bits())),
                    _ => Filter::Greater(n, Val::Long(i64::min_value())),
                },
            };
        }
        filters.push(f.clone());
        match ref_apply(&cur, &f) {
            Some(t) => cur = t,
            None => {
                failed = true;
                break;
            }
        }
    }
    ctx.describe(|| {
        format!("{} columns {}, {} rows {}, {} filters {}", input.names.len(), brief(&(&input.names, &input.types)), input.rows.len(), brief(&input.rows.iter().take(6).collect::<Vec<_>>()), filters.len(), brief(&filters))
    });
    ctx.nontrivial = !input.rows.is_empty() && !failed;
    ctx.label_if(failed, "no such column");
    ctx.label_if(cur.rows.len() < input.rows.len(), "drops rows");
    ctx.label_if(!cur.rows.is_empty() && cur.rows.len() < input.rows.len(), "drops some rows only");
    ctx.label_if(cur.names.is_empty(), "all columns deleted");
    ctx.label_if(
        filters.iter().any(|f| input.names.iter().filter(|n| same_name(n, f.name())).count() > 1),
        "several columns match the name",
    );
    ctx.label_if(filters.len() > 1, "several filters");
    let cap = Capture::new();
    let mut nodes: Vec<HeaderNode> = filters.iter().map(|f| HeaderNode::HeaderSink(f.sink())).collect();
    nodes.push(HeaderNode::HeaderSink(Box::new(cap.clone())));
    let graph = HeaderGraph::new(vec![HeaderChain::new(nodes)]);
    let src: Box<dyn Source> = Box::new(VecSource::new(&input.names, &input.types, &input.rows));
    let r = run_driver(vec![src], graph, ALL);
    let log = cap.0.borrow();
    if failed {
        if r.is_ok() {
            return Err("a filter on a column that does not exist was accepted".into());
        }
        if !log.rows.is_empty() {
            return Err("rows were delivered although a filter's column does not exist".into());
        }
        return Ok(());
    }
    if let Err(e) = r {
        return Err(format!("error: {}", err_text(&e)));
    }
    match &log.header {
        Some((n, t)) if *n == cur.names && *t == cur.types => {}
        h => return Err(format!("schema behind the filters {}, expected {}", brief(h), brief(&(&cur.names, &cur.types)))),
    }
    if let Some(b) = &log.bad {
        return Err(b.clone());
    }
    diff_rows(&cur.rows, &log.rows)
}

/// row filters per input ahead of a merge, any filters behind it
fn c22_merged(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let k = s.urange(2, 4);
    let all = gen_filter_table(s);
    // distinct times, so that the order is fixed
    let mut tables: Vec<Table> = (0..k).map(|_| Table { names: all.names.clone(), types: all.types.clone(), rows: vec![] }).collect();
    let mut whole = Table { names: all.names.clone(), types: all.types.clone(), rows: vec![] };
    for (i, r) in all.rows.iter().enumerate() {
        let r = MRow { ts: 10 * i as u64, vals: r.vals.clone() };
        let w = s.below(k);
        tables[w].rows.push(r.clone());
        whole.rows.push(r);
    }
    let mut chains = Vec::new();
    let mut before: Vec<MRow> = Vec::new();
    let mut desc = Vec::new();
    for t in &tables {
        let mut nodes = Vec::new();
        let mut cur = t.clone();
        for _ in 0..s.below(3) {
            let f = gen_filter(s, &whole, false);
            if let Filter::Delete(_) = f {
                continue;
            }
            cur = ref_apply(&cur, &f).unwrap();
            nodes.push(HeaderNode::HeaderSink(f.sink()));
            desc.push(f);
        }
        before.extend(cur.rows);
        nodes.push(HeaderNode::Merge(k));
        chains.push(HeaderChain::new(nodes));
    }
    before.sort_by_key(|r| r.ts);
    let mut cur = Table { names: whole.names.clone(), types: whole.types.clone(), rows: before };
    let mut last = vec![merge_node(k).map_err(|e| err_text(&e))?];
    for _ in 0..s.below(3) {
        let f = gen_filter(s, &cur, false);
        match ref_apply(&cur, &f) {
            Some(t) => cur = t,
            None => break,
        }
        last.push(HeaderNode::HeaderSink(f.sink()));
        desc.push(f);
    }
    ctx.describe(|| format!("{} inputs of columns {}, {} rows, filters {}", k, brief(&(&all.names, &all.types)), all.rows.len(), brief(&desc)));
    ctx.nontrivial = !desc.is_empty() && !all.rows.is_empty();
    ctx.label_if(!cur.rows.is_empty() && cur.rows.len() < all.rows.len(), "drops some rows only");
    let cap = Capture::new();
    last.push(HeaderNode::HeaderSink(Box::new(cap.clone())));
    chains.push(HeaderChain::new(last));
    let srcs: Vec<Box<dyn Source>> = tables.iter().map(|t| Box::new(VecSource::new(&t.names, &t.types, &t.rows)) as Box<dyn Source>).collect();
    if let Err(e) = run_driver(srcs, HeaderGraph::new(chains), ALL) {
        return Err(format!("error: {}", err_text(&e)));
    }
    let log = cap.0.borrow();
    match &log.header {
        Some((n, t)) if *n == cur.names && *t == cur.types => {}
        h => return Err(format!("schema behind the filters {}, expected {}", brief(h), brief(&(&cur.names, &cur.types)))),
    }
    diff_rows(&cur.rows, &log.rows)
}

fn c22_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long, Big::Deep]);
    if s.big != Big::Deep && s.chance(1, 3) {
        c22_merged(s, ctx)
    } else {
        c22_chain(s, ctx)
    }
}

// ---------------------------------------------------------------- C23

pub const UNITS: [(TimestampUnits, u64, &str, usize); 4] = [
    (TimestampUnits::Seconds, 1_000_000_000, "Seconds", 0),
    (TimestampUnits::Millis, 1_000_000, "Millis", 3),
    (TimestampUnits::Micros, 1_000, "Micros", 6),
    (TimestampUnits::Nanos, 1, "Nanos", 9),
];

#[derive(Clone, Debug)]
pub enum Style {
    Epoch,
    Human(Option<Tz>),
}

#[derive(Clone, Debug)]
pub struct OutCfg {
    pub delim: String,
    pub print: bool,
    pub name: Option<String>,
    pub style: Style,
    pub unit: usize,
}

impl OutCfg {
    pub fn to(&self) -> CSVOutputConfig {
        let (st, tz) = match &self.style {
            Style::Epoch => (TimestampStyle::Epoch, ChopperTz::new_always_fails()),
            Style::Human(None) => (TimestampStyle::HumanReadable, ChopperTz::new_always_fails()),
            Style::Human(Some(z)) => (TimestampStyle::HumanReadable, ChopperTz::from(*z)),
        };
        CSVOutputConfig::new(&self.delim, self.print, self.name.clone(), st, UNITS[self.unit].0, tz)
    }
    pub fn time_name(&self) -> String {
        match (&self.name, &self.style) {
            (Some(n), _) => n.clone(),
            (None, Style::Epoch) => format!("timestamp{}", UNITS[self.unit].2),
            (None, Style::Human(_)) => "time".to_string(),
        }
    }
    /// accepted renderings of a time
    pub fn time(&self, ts: u64) -> Vec<String> {
        match &self.style {
            Style::Epoch => vec![(ts / UNITS[self.unit].1).to_string()],
            Style::Human(None) => vec![],
            Style::Human(Some(z)) => human(*z, ts, UNITS[self.unit].3),
        }
    }
}

/// renderings of the instant with the given number of fractional digits; two where the zone's offset has seconds
pub fn human(z: Tz, ts: u64, digits: usize) -> Vec<String> {
    let secs = (ts / 1_000_000_000) as i64;
    let nanos = ts % 1_000_000_000;
    let off = off_at(z, secs);
    let c = civil(secs + off);
    let mut base = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", c.y, c.mo, c.d, c.h, c.mi, c.s);
    if digits > 0 {
        base.push('.');
        base.push_str(&format!("{:09}", nanos)[..digits]);
    }
    let mut v = Vec::new();
    for o in vec![off, off.signum() * (off.abs() + 30)] {
        let t = format!("{}{}", base, offset_str(o));
        if !v.contains(&t) {
            v.push(t);
        }
        if off % 60 == 0 {
            break;
        }
    }
    v
}

pub enum Piece {
    Lit(String),
    Any(Vec<String>),
    F64(u64),
    F32(u32),
}

pub fn render_ref(names: &[String], rows: &[MRow], c: &OutCfg) -> Vec<Piece> {
    let mut o = Vec::new();
    let mut head: Vec<String> = Vec::new();
    if c.print {
        head.push(c.time_name());
    }
    head.extend(names.iter().cloned());
    o.push(Piece::Lit(head.join(&c.delim) + "\n"));
    for r in rows {
        let mut first = true;
        if c.print {
            o.push(Piece::Any(c.time(r.ts)));
            first = false;
        }
        for v in &r.vals {
            if !first {
                o.push(Piece::Lit(c.delim.clone()));
            }
            first = false;
            o.push(match v {
                Val::Null => continue,
                Val::Byte(x) => Piece::Lit(x.to_string()),
                Val::Char(x) => Piece::Lit(x.to_string()),
                Val::Int(x) => Piece::Lit(x.to_string()),
                Val::Long(x) => Piece::Lit(x.to_string()),
                Val::Short(x) => Piece::Lit(x.to_string()),
                Val::Str(x) => Piece::Lit(x.clone()),
                Val::Double(b) => Piece::F64(*b),
                Val::Float(b) => Piece::F32(*b),
            });
        }
        o.push(Piece::Lit("\n".into()));
    }
    o
}

pub fn match_pieces(p: &[Piece], out: &[u8]) -> Outcome {
    let mut at = 0;
    let show = |at: usize| truncate(&format!("{:?}", String::from_utf8_lossy(&out[at.saturating_sub(30)..(at + 60).min(out.len())])), 200);
    for x in p {
        match x {
            Piece::Lit(t) => {
                if !out[at..].starts_with(t.as_bytes()) {
                    return Err(format!("at byte {}: expected {:?}, output around it {}", at, truncate(t, 120), show(at)));
                }
                at += t.len();
            }
            Piece::Any(v) => match v.iter().find(|t| out[at..].starts_with(t.as_bytes())) {
                Some(t) => at += t.len(),
                None => return Err(format!("at byte {}: expected the time {:?}, output around it {}", at, v, show(at))),
            },
            Piece::F64(_) | Piece::F32(_) => {
                let n = out[at..].iter().take_while(|b| b"0123456789+-.eEinfaNINFA".contains(b)).count();
                let t = std::str::from_utf8(&out[at..at + n]).unwrap();
                let ok = match x {
                    Piece::F64(b) => match t.parse::<f64>() {
                        Ok(y) => y.to_bits() == *b || (y.is_nan() && f64::from_bits(*b).is_nan()),
                        Err(_) => false,
                    },
                    Piece::F32(b) => match t.parse::<f32>() {
                        Ok(y) => y.to_bits() == *b || (y.is_nan() && f32::from_bits(*b).is_nan()),
                        Err(_) => false,
                    },
                    _ => unreachable!(),
                };
                if !ok {
                    let want = match x {
                        Piece::F64(b) => format!("{:e}", f64::from_bits(*b)),
                        Piece::F32(b) => format!("{:e} (32 bit)", f32::from_bits(*b)),
                        _ => unreachable!(),
                    };
                    return Err(format!("at byte {}: {:?} does not parse back to {}", at, t, want));
                }
                at += n;
            }
        }
    }
    if at != out.len() {
        return Err(format!("{} additional bytes at the end: {}", out.len() - at, show(at)));
    }
    Ok(())
}

fn gen_out_ts(s: &mut Src, z: Option<Tz>) -> u64 {
    let nanos = match s.weighted(&[3, 2, 2, 3]) {
        0 => s.draw(999_999_999),
        1 => *s.pick(&[0u64, 1, 999_999_999, 999_999, 1_000_000, 999_000_000, 1_000, 999, 123_456_789, 10_000_000]),
        2 => 0,
        _ => s.draw(999) * 1_000_000,
    };
    let secs = match s.weighted(&[3, 3, 3, 1]) {
        0 => s.range(0, 18_446_744_072),
        1 => s.range(1_400_000_000, 1_700_000_000),
        2 => {
            let base = s.range(0, 2_200_000_000);
            match z.and_then(|z| near_transition(z, base)) {
                Some(t) => (t + s.range(-3, 3)).max(0),
                None => base,
            }
        }
        _ => *s.pick(&[0i64, 1, 59, 86399, 86400, 68169599, 951782399, 951782400, 951868800, 4107542400, 18_446_744_072]),
    };
    if s.chance(1, 20) {
        return *s.pick(&[u64::MAX, u64::MAX - 1, 0, 1, 1 << 63]);
    }
    secs as u64 * 1_000_000_000 + nanos
}

fn gen_out_cfg(s: &mut Src, single_byte: bool) -> OutCfg {
    let delim = if single_byte || s.chance(4, 5) {
        s.pick(&[",", "\t", ";", "|", " ", ":", "#", "~", "_"]).to_string()
    } else {
        s.pick(&["||", " , ", "é", "::", ";\t", "\u{1}"]).to_string()
    };
    let style = match s.weighted(&[5, 5]) {
        0 => Style::Epoch,
        _ => Style::Human(Some(gen_zone(s))),
    };
    OutCfg {
        delim,
        print: s.chance(4, 5),
        name: match s.below(3) {
            0 => Some(match s.below(4) {
                0 => "t".to_string(),
                1 => any_string(s, 6).replace('\n', ""),
                2 => s.pick(&["", "timestamp", "Time", "time", "when?"]).to_string(),
                _ => ascii_word(s, 1, 8),
            }),
            _ => None,
        },
        style,
        unit: s.below(4),
    }
}

fn write_csv(ctx: &mut Ctx, s: &mut Src, t: &Table, cfg: &CSVOutputConfig, file: &str) -> Result<Vec<u8>, String> {
    let p = ctx.file(file);
    if s.chance(1, 8) {
        // longer contents of an earlier run
        std::fs::write(&p, vec![b'!'; 200_000]).map_err(|e| format!("harness: {}", e))?;
        ctx.label("overwrites an existing file");
    }
    let sink = new_header_sink(p.to_str(), Some(cfg.clone())).map_err(|e| format!("creating the output: {}", err_text(&e)))?;
    if s.bool() {
        // straight into the sink
        let mut h = header_to(&t.names, &t.types);
        let mut d = sink.process_header(&mut h).map_err(|e| format!("header: {}", err_text(&e)))?;
        for r in &t.rows {
            let mut v = vec![row_to(r)];
            d.write_row(&mut v).map_err(|e| format!("row: {}", err_text(&e)))?;
            if v.len() != 1 || row_from(&v[0])? != *r {
                return Err("the sink changed the row".into());
            }
            // flushing early changes nothing
            if s.big == Big::No && s.chance(1, 12) {
                d.flush().map_err(|e| format!("flush: {}", err_text(&e)))?;
            }
        }
        d.flush().map_err(|e| format!("flush: {}", err_text(&e)))?;
        // the output is complete when flush has returned
        return std::fs::read(&p).map_err(|e| format!("harness: {}", e));
    }
    let src: Box<dyn Source> = Box::new(VecSource::new(&t.names, &t.types, &t.rows));
    let graph = HeaderGraph::new(vec![HeaderChain::new(vec![HeaderNode::HeaderSink(sink)])]);
    run_driver(vec![src], graph, ALL).map_err(|e| format!("driver: {}", err_text(&e)))?;
    std::fs::read(&p).map_err(|e| format!("harness: {}", e))
}

fn c23_render(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let cfg = gen_out_cfg(s, false);
    let zone = match &cfg.style {
        Style::Human(z) => *z,
        _ => None,
    };
    let ncols = s.below(6);
    let ncols = s.big(Big::Wide, 20_000).unwrap_or(ncols);
    let rows = if s.chance(1, 60) { 400 } else { 30 };
    let big = s.chance(1, 10);
    let mut t = gen_table_cols(s, ncols, rows, 5, big);
    if ncols > 0 && s.chance(1, 5) {
        // columns without a name, or one that looks like something else
        for _ in 0..s.urange(1, 2) {
            let k = if s.bool() { 0 } else { s.below(ncols) };
            t.names[k] = s.pick(&["", "", "", " ", "\"", "\"\"", "timestampNanos", "0", "-", "None", ","]).to_string();
        }
    }
    let mut ts: Vec<u64> = t.rows.iter().map(|_| gen_out_ts(s, zone)).collect();
    ts.sort();
    for (r, ts) in t.rows.iter_mut().zip(ts) {
        r.ts = ts;
    }
    ctx.describe(|| format!("{:?}, {} columns {}, {} rows {}", cfg, t.names.len(), brief(&(&t.names, &t.types)), t.rows.len(), brief(&t.rows.iter().take(200).collect::<Vec<_>>())));
    ctx.nontrivial = !t.rows.is_empty();
    ctx.label(match cfg.style {
        Style::Epoch => "epoch",
        _ => "human",
    });
    ctx.label_if(!cfg.print, "no time column");
    ctx.label_if(ncols == 0, "no columns");
    ctx.label_if(t.rows.iter().any(|r| r.vals.contains(&Val::Null)), "nulls");
    ctx.label_if(t.types.contains(&Ty::Double) || t.types.contains(&Ty::Float), "floating point");
    ctx.label_if(zone.map(|z| t.rows.iter().any(|r| off_at(z, (r.ts / 1_000_000_000) as i64) % 60 != 0)).unwrap_or(false), "offset with seconds");
    let out = write_csv(ctx, s, &t, &cfg.to(), "o.csv")?;
    match_pieces(&render_ref(&t.names, &t.rows, &cfg), &out)
}

fn c23_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long]);
    c23_render(s, ctx)
}

/// human-readable times without a zone are an error when the first row is written, others are not
fn c23_nozone(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut cfg = gen_out_cfg(s, true);
    cfg.style = if s.chance(3, 4) { Style::Human(None) } else { Style::Epoch };
    let ncols = s.urange(1, 3);
    let t = gen_table_cols(s, ncols, 5, 2, false);
    ctx.describe(|| format!("{:?}, columns {:?}, rows {:?}", cfg, t.names, t.rows));
    ctx.nontrivial = !t.rows.is_empty();
    let expect_err = cfg.print && matches!(cfg.style, Style::Human(None)) && !t.rows.is_empty();
    match (write_csv(ctx, s, &t, &cfg.to(), "o.csv"), expect_err) {
        (Ok(out), false) => match_pieces(&render_ref(&t.names, &t.rows, &cfg), &out),
        (Ok(_), true) => Err("a human-readable time was written without a zone".into()),
        (Err(_), true) => Ok(()),
        (Err(e), false) => Err(e),
    }
}

/// the configuration used when none is given
fn c23_default(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ncols = s.below(4);
    let t = gen_table_cols(s, ncols, 8, 3, false);
    ctx.describe(|| format!("columns {:?}, rows {:?}", t.names, t.rows));
    ctx.nontrivial = !t.rows.is_empty();
    let cfg = OutCfg { delim: ",".into(), print: true, name: None, style: Style::Epoch, unit: 3 };
    let p = ctx.file("d.csv");
    let sink = new_header_sink(p.to_str(), None).map_err(|e| err_text(&e))?;
    let src: Box<dyn Source> = Box::new(VecSource::new(&t.names, &t.types, &t.rows));
    let graph = HeaderGraph::new(vec![HeaderChain::new(vec![HeaderNode::HeaderSink(sink)])]);
    run_driver(vec![src], graph, ALL).map_err(|e| err_text(&e))?;
    let out = std::fs::read(&p).map_err(|e| format!("harness: {}", e))?;
    match_pieces(&render_ref(&t.names, &t.rows, &cfg), &out)
}

// ---------------------------------------------------------------- C24

const WINDOWS: [(u64, u64); 4] = [
    (630_000_000, 2_000_000_000),
    (630_000_000_000, 2_000_000_000_000),
    (630_000_000_000_000, 2_000_000_000_000_000),
    (630_000_000_000_000_000, 2_000_000_000_000_000_000),
];

fn simple_text(s: &mut Src, delim: char) -> String {
    let n = s.urange(0, 10);
    let mut o = String::new();
    for _ in 0..n {
        let c = match s.weighted(&[6, 2, 1]) {
            0 => (b'!' + s.below(94) as u8) as char,
            1 => *s.pick(&['é', 'Ж', '中', '😀', 'a', '0', '.', '-']),
            _ => ' ',
        };
        if c != delim && c != '"' {
            o.push(c);
        }
    }
    o.trim().to_string()
}

fn gen_simple_table(s: &mut Src, delim: char, zone: Option<Tz>, max_rows: usize) -> Table {
    let ncols = s.urange(1, 5);
    let ncols = s.big(Big::Wide, 20_000).unwrap_or(ncols);
    let long = s.big(Big::Long, 40_000);
    let max_rows = if s.big == Big::Wide { 3 } else { max_rows };
    let mut t = Table::default();
    for i in 0..ncols {
        t.names.push(format!("c{}", i));
        t.types.push(*s.pick(&VALUE_TYPES));
    }
    let row = |s: &mut Src| {
        t.types
            .iter()
            .map(|ty| match ty {
                Ty::Str => Val::Str(simple_text(s, delim)),
                ty => {
                    let mut v = gen_value_small(s, *ty);
                    // delimiters that can occur in numbers are not used
                    if s.chance(1, 12) {
                        v = Val::Null;
                    }
                    v
                }
            })
            .collect::<Vec<_>>()
    };
    let rows: Vec<Vec<Val>> = match long {
        Some(n) => (0..n).map(|_| row(s)).collect(),
        None => s.many(0, max_rows, 8, row),
    };
    let mut ts: Vec<u64> = rows.iter().map(|_| gen_out_ts(s, zone)).collect();
    ts.sort();
    t.rows = rows.into_iter().zip(ts).map(|(vals, ts)| MRow { ts, vals }).collect();
    t
}

fn text_matches(v: &Val, got: &Val) -> bool {
    let t = match got {
        Val::Str(t) => t,
        _ => return false,
    };
    match v {
        Val::Null => t.is_empty(),
        Val::Str(x) => t == x,
        Val::Byte(x) => *t == x.to_string(),
        Val::Char(x) => *t == x.to_string(),
        Val::Short(x) => *t == x.to_string(),
        Val::Int(x) => *t == x.to_string(),
        Val::Long(x) => *t == x.to_string(),
        Val::Double(b) => t.parse::<f64>().map(|y| y.to_bits() == *b || (y.is_nan() && f64::from_bits(*b).is_nan())).unwrap_or(false),
        Val::Float(b) => t.parse::<f32>().map(|y| y.to_bits() == *b || (y.is_nan() && f32::from_bits(*b).is_nan())).unwrap_or(false),
    }
}

fn c24_round(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut cfg = gen_out_cfg(s, true);
    cfg.print = true;
    cfg.name = match s.below(4) {
        0 => Some(ascii_word(s, 1, 6)),
        1 => Some(s.pick(&["time", "timestamp", "date", "eventTime"]).to_string()),
        _ => None,
    };
    if let Some(n) = &mut cfg.name {
        // a unit in the name would be taken for that of the numbers
        if ["seconds", "millis", "micros", "nanos"].iter().any(|u| n.to_lowercase().ends_with(u)) {
            n.push('x');
        }
    }
    if matches!(cfg.style, Style::Human(_)) && cfg.delim == ":" {
        cfg.delim = ",".into();
    }
    let delim = cfg.delim.chars().next().unwrap();
    let zone = match &cfg.style {
        Style::Human(z) => *z,
        _ => None,
    };
    let max_rows = if s.chance(1, 20) { 400 } else { 40 };
    let mut t = gen_simple_table(s, delim, zone, max_rows);
    if let Some(z) = zone {
        // offsets with seconds cannot be printed exactly
        t.rows.retain(|r| off_at(z, (r.ts / 1_000_000_000) as i64) % 60 == 0);
    }
    let time_name = cfg.time_name();
    let duplicate = t.names.contains(&time_name);
    let per = UNITS[cfg.unit].1;
    let printed: Vec<u64> = t.rows.iter().map(|r| r.ts / per).collect();
    let in_window = printed.first().map(|v| *v >= WINDOWS[cfg.unit].0 && *v < WINDOWS[cfg.unit].1).unwrap_or(true);
    // how the time column is found and read
    let col = match s.below(3) {
        0 if !duplicate && time_name == time_name.trim() && !time_name.is_empty() => TimestampColConfig::Name(time_name.clone()),
        1 if cfg.name.is_none() || !time_name.to_lowercase().ends_with("date") => TimestampColConfig::Auto,
        _ => TimestampColConfig::Index(0),
    };
    let fmt = match (&cfg.style, s.below(2)) {
        (Style::Epoch, 0) if in_window => TimestampFmtConfig::Auto,
        (Style::Epoch, _) => TimestampFmtConfig::Epoch(UNITS[cfg.unit].0),
        (_, 0) => TimestampFmtConfig::Auto,
        (_, _) => TimestampFmtConfig::Explicit(
            s.pick(&if cfg.unit == 0 { ["%Y-%m-%dT%H:%M:%S%:z", "%+", "%FT%T%.f%:z"] } else { ["%Y-%m-%dT%H:%M:%S%.f%:z", "%+", "%FT%T%.f%z"] }).to_string(),
        ),
    };
    // a text above a number is detected as a header line
    let hdr = if s.chance(3, 4) || t.rows.is_empty() || zone.is_some() || s.big == Big::Wide { YesNoAuto::Yes } else { YesNoAuto::Auto };
    let in_delim = Some(if delim == '\t' && s.bool() { "\\t".to_string() } else { delim.to_string() });
    ctx.describe(|| format!("{:?} read with column {:?} format {:?} header {:?}, {} columns {}, {} rows {}", cfg, col, fmt, hdr, t.names.len(), brief(&t.names), t.rows.len(), brief(&t.rows.iter().take(200).collect::<Vec<_>>())));
    ctx.nontrivial = !t.rows.is_empty();
    ctx.label(match cfg.style {
        Style::Epoch => "epoch",
        _ => "human",
    });
    ctx.label_if(matches!(fmt, TimestampFmtConfig::Auto), "format detected");
    ctx.label_if(matches!(col, TimestampColConfig::Auto), "column detected");
    let out = write_csv(ctx, s, &t, &cfg.to(), "r.csv")?;
    let icfg = csv_cfg(in_delim.as_deref(), hdr, col, fmt, ChopperTz::new_always_fails()).map_err(|e| err_text(&e))?;
    let d = if s.bool() {
        let ch = gen_chunking(s, out.len());
        drain(open_mem(icfg, "r.csv", MemFile::new(out, ch), InputFormat::Auto))?
    } else {
        let p = ctx.file("r.csv");
        drain(open_with(icfg, None, None, p.to_str().unwrap(), InputFormat::Auto))?
    };
    if let Some(e) = &d.err {
        return Err(format!("reading back: error after {} of {} rows: {}", d.rows.len(), t.rows.len(), e));
    }
    let mut names = vec![time_name];
    names.extend(t.names.iter().cloned());
    if d.names != names {
        return Err(format!("reading back: columns {:?}, expected {:?}", d.names, names));
    }
    if d.rows.len() != t.rows.len() {
        return Err(format!("reading back: {} rows, expected {}", d.rows.len(), t.rows.len()));
    }
    for (i, (e, a)) in t.rows.iter().zip(&d.rows).enumerate() {
        if a.ts != printed[i] * per {
            return Err(format!("reading back row {}: timestamp {}, expected {} (written {})", i, a.ts, printed[i] * per, e.ts));
        }
        for (c, v) in e.vals.iter().enumerate() {
            if !text_matches(v, &a.vals[c + 1]) {
                return Err(format!("reading back row {} column {}: {:?}, written {:?}", i, c, a.vals[c + 1], v));
            }
        }
    }
    Ok(())
}

/// CSV read and written with a fixed configuration, again and again
fn c24_idempotent(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let delim_b = *s.pick(&[b',', b'\t', b';', b'|', b'#']);
    let delim = (delim_b as char).to_string();
    let ncols = s.urange(1, 5);
    let ncols = s.big(Big::Wide, 20_000).unwrap_or(ncols);
    let tcol = s.below(ncols);
    let long = s.big(Big::Long, 40_000);
    let mut text = (0..ncols).map(|i| format!("c{}", i)).collect::<Vec<_>>().join(&delim) + "\n";
    let mut nrows = 0;
    let row = |s: &mut Src| (0..ncols).map(|_| simple_text(s, delim_b as char)).collect::<Vec<_>>();
    let rows: Vec<Vec<String>> = match long {
        Some(n) => (0..n).map(|_| row(s)).collect(),
        None => s.many(0, if s.big == Big::Wide { 3 } else { 60 }, 10, row),
    };
    let pad = *s.pick(&["", "", " ", "  "]);
    for r in rows {
        let mut r: Vec<String> = r.iter().map(|c| format!("{}{}{}", pad, c, pad)).collect();
        r[tcol] = s.u64_any().to_string();
        if s.chance(1, 10) {
            // missing cells at the end
            let keep = (tcol + 1).max(s.urange(1, ncols));
            r.truncate(keep);
        }
        if s.chance(1, 6) && r.len() > 1 {
            let k = s.below(r.len());
            if k != tcol {
                r[k] = format!("\"{}\"", r[k]);
            }
        }
        text.push_str(&r.join(&delim));
        text.push_str(*s.pick(&["\n", "\n", "\r\n"]));
        nrows += 1;
    }
    let with_time = s.chance(1, 3);
    let unit = s.below(4);
    let out_cfg = OutCfg { delim: delim.clone(), print: with_time, name: Some("T".into()), style: Style::Epoch, unit };
    ctx.describe(|| format!("delimiter {:?}, time column {}, printed time {}, text {:?}", delim, tcol, with_time, truncate(&text, 600)));
    ctx.nontrivial = nrows > 0;
    ctx.label_if(with_time, "with a time column");
    let icfg = |col: usize, u: usize| {
        csv_cfg(Some(&delim), YesNoAuto::Yes, TimestampColConfig::Index(col), TimestampFmtConfig::Epoch(UNITS[u].0), ChopperTz::new_always_fails())
            .ok()
            .expect("cfg")
    };
    let pass = |ctx: &mut Ctx, input: &[u8], col: usize, u: usize, file: &str| -> Result<Vec<u8>, String> {
        let src = open_mem(icfg(col, u), "i.csv", MemFile::whole(input.to_vec()), InputFormat::Auto).map_err(|e| format!("opening: {}", err_text(&e)))?;
        let p = ctx.file(file);
        let sink = new_header_sink(p.to_str(), Some(out_cfg.to())).map_err(|e| err_text(&e))?;
        let graph = HeaderGraph::new(vec![HeaderChain::new(vec![HeaderNode::HeaderSink(sink)])]);
        run_driver(vec![src], graph, ALL).map_err(|e| format!("driver: {}", err_text(&e)))?;
        std::fs::read(&p).map_err(|e| format!("harness: {}", e))
    };
    // the texts keep their order only if times do; the driver takes rows as they come from one input
    let one = pass(ctx, text.as_bytes(), tcol, 3, "1.csv")?;
    if with_time {
        let two = pass(ctx, &one, 0, unit, "2.csv")?;
        // the second pass adds a copy of the first pass's time column
        let l1: Vec<&[u8]> = one.split(|b| *b == b'\n').collect();
        let l2: Vec<&[u8]> = two.split(|b| *b == b'\n').collect();
        if l1.len() != l2.len() {
            return Err(format!("second pass has {} lines, first {}", l2.len(), l1.len()));
        }
        for (a, b) in l1.iter().zip(&l2) {
            if a.is_empty() && b.is_empty() {
                continue;
            }
            let first = a.split(|x| *x == delim_b).next().unwrap();
            let mut e = first.to_vec();
            e.push(delim_b);
            e.extend_from_slice(a);
            if e != *b {
                return Err(format!("second pass turned {:?} into {:?}", String::from_utf8_lossy(a), String::from_utf8_lossy(b)));
            }
        }
        return Ok(());
    }
    let two = pass(ctx, &one, tcol, 3, "2.csv")?;
    if one != two {
        let i = one.iter().zip(&two).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "second pass differs at byte {}: {:?} then {:?}",
            i,
            truncate(&String::from_utf8_lossy(&one[i.saturating_sub(20)..]), 120),
            truncate(&String::from_utf8_lossy(&two[i.saturating_sub(20)..]), 120)
        ));
    }
    Ok(())
}

fn c24_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long]);
    if s.bool() {
        c24_round(s, ctx)
    } else {
        c24_idempotent(s, ctx)
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C22",
            level: "exploration",
            rule: "chains of 1-4 delete, equality and greater-than filters with values drawn from the column (neighbouring numbers, texts sharing a prefix, another type, or missing), names with other case, of several or no column, behind one input or before and after a merge; oracle: own filter model; non-trivial: rows present and all names exist",
            assumptions: &["greater-than is compared with values of the column's type or a missing value", "boolean and byte buffer columns are not supported by the filters"],
            families: vec![
                Family { name: "chain", f: c22_chain, quick: 1_200_000, thorough: 12_000_000 },
                Family { name: "merged", f: c22_merged, quick: 320_000, thorough: 3_200_000 },
                Family { name: "big", f: c22_big, quick: 300, thorough: 8_000 },
            ],
        },
        Property {
            id: "C23",
            level: "exploration",
            rule: "tables of 0-5 columns of every type written with every style, unit, zone, delimiter, time column name; oracle: own renderer with own calendar (floating-point cells are parsed back), compared byte by byte; non-trivial: at least one row",
            assumptions: &["chrono-tz's UTC-to-local offsets are right", "offsets that are not whole minutes may be rounded either way"],
            families: vec![
                Family { name: "render", f: c23_render, quick: 600_000, thorough: 6_000_000 },
                Family { name: "big", f: c23_big, quick: 300, thorough: 8_000 },
                Family { name: "nozone", f: c23_nozone, quick: 40_000, thorough: 400_000 },
                Family { name: "default", f: c23_default, quick: 25_000, thorough: 250_000 },
            ],
        },
        Property {
            id: "C24",
            level: "exploration",
            rule: "tables of numbers and texts without delimiters, quotes, line breaks or surrounding blanks written with every style, unit and zone and read back with a matching configuration (time column by position, name or detection; format given or detected); CSV texts passed twice through the same configuration; non-trivial: at least one row",
            assumptions: &["zone offsets in use are whole minutes", "detected epoch units only for times in the documented windows"],
            families: vec![
                Family { name: "round", f: c24_round, quick: 240_000, thorough: 4_000_000 },
                Family { name: "idempotent", f: c24_idempotent, quick: 120_000, thorough: 2_000_000 },
                Family { name: "big", f: c24_big, quick: 300, thorough: 8_000 },
            ],
        },
    ]
}
