//! C01 merge, C02 range, C03 graph routing, C04 chain/schema mapping, C05 streaming, C07 flush/failure.
use std::cell::RefCell;
use std::rc::Rc;

use chopper::chopper::chopper::{ChopperDriver, DataSink, HeaderSink, MergeHeaderSink, Source};
use chopper::chopper::header_graph::{HeaderChain, HeaderCountTracker, HeaderGraph, HeaderNode};
use chopper::chopper::types::{FieldType, FieldValue, Header, Row, TimestampRange};
use chopper::driver::driver::Driver;
use chopper::driver::merge_join::MergeJoin;
use chopper::driver::split::Split;
use chopper::error::{CliResult, Error};
use chopper::filter::column_filter_delete_col::ColumnFilterDelete;

use crate::engine::*;
use crate::gen::*;
use crate::memio::*;
use crate::model::*;

pub fn merge_node(n: usize) -> CliResult<HeaderNode> {
    let m = MergeJoin::new(n)?;
    let t = m.get_new_header_count_tracker();
    Ok(HeaderNode::MergeHeaderSink(m, t))
}

pub fn split_node(ids: Vec<usize>) -> HeaderNode {
    let s = Split::new(ids);
    let t = s.get_new_header_count_tracker();
    HeaderNode::SplitHeaderSink(s, t)
}

/// the graph the command line builds: every input merged into one sink
pub fn merged_graph(k: usize, sink: Box<dyn HeaderSink>) -> CliResult<HeaderGraph> {
    let mut chains = Vec::new();
    let mut last = Vec::new();
    if k > 1 {
        for _ in 0..k {
            chains.push(HeaderChain::new(vec![HeaderNode::Merge(k)]));
        }
        last.push(merge_node(k)?);
    }
    last.push(HeaderNode::HeaderSink(sink));
    chains.push(HeaderChain::new(last));
    Ok(HeaderGraph::new(chains))
}

pub fn run_driver(sources: Vec<Box<dyn Source>>, graph: HeaderGraph, range: TimestampRange) -> CliResult<()> {
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let mut d = Driver::new(sources, graph, range, headers)?;
    d.drive()
}

// ---------------------------------------------------------------- inputs for C01/C02

#[derive(Debug, Clone)]
struct Inputs {
    names: Vec<String>,
    types: Vec<Ty>,
    rows: Vec<Vec<MRow>>,
    /// the rows do not say which input they come from
    anonymous: bool,
}

fn gen_inputs(s: &mut Src) -> Inputs {
    let k = match s.weighted(&[5, 4, 1]) {
        0 => s.urange(1, 3),
        1 => s.urange(2, 6),
        _ => s.urange(7, 40),
    };
    let k = s.big(Big::Wide, 1100).unwrap_or(k);
    // the input with a great many rows
    let long = s.big(Big::Long, 70_000).map(|n| (s.below(k), n));
    let extra = s.below(2) == 1;
    let mut names = vec!["src".to_string(), "seq".to_string()];
    let mut types = vec![Ty::Int, Ty::Long];
    if extra {
        names.push("x".into());
        types.push(*s.pick(&VALUE_TYPES));
    }
    let shared_base = match s.weighted(&[3, 2, 1, 1]) {
        0 => 0,
        1 => 1_500_000_000_000_000_000u64,
        2 => u64::MAX - 40,
        _ => s.u64_any(),
    };
    let scale = *s.pick(&[1u64, 1, 1, 3, 1000, 1 << 40]);
    // rows that are alike in every cell are rows all the same
    let (repeats, anonymous) = match s.weighted(&[6, 2, 1]) {
        0 => (false, false),
        1 => (true, false),
        _ => (true, true),
    };
    let mut rows = Vec::new();
    for i in 0..k {
        let style = s.weighted(&[4, 2, 2, 1, 1]);
        let n = match style {
            3 => 0,
            4 => s.urange(20, 120),
            _ => s.many(0, if s.big == Big::Wide { 3 } else { 40 }, 6, |_| ()).len(),
        };
        let n = match long {
            Some((j, n)) if j == i => n,
            _ => n,
        };
        let start = s.draw(6);
        let mut t = shared_base.saturating_add(start.saturating_mul(scale));
        let mut v = Vec::new();
        for q in 0..n {
            if q > 0 {
                let step = match style {
                    1 => 0,
                    2 => s.draw(1),
                    _ => match s.weighted(&[4, 8, 1]) {
                        0 => 0,
                        1 => s.draw(4),
                        _ => s.draw(40),
                    },
                };
                t = t.saturating_add(step.saturating_mul(scale));
            }
            let mut vals = vec![Val::Int(if anonymous { 0 } else { i as i32 }), Val::Long(if anonymous { 0 } else { q as i64 })];
            if repeats && q > 0 && s.bool() {
                let prev: &MRow = &v[q - 1];
                let ts = if s.bool() { prev.ts } else { t };
                t = ts;
                let again = MRow { ts, vals: prev.vals.clone() };
                v.push(again);
                continue;
            }
            if extra {
                vals.push(if s.chance(1, 6) { Val::Null } else { gen_value_small(s, types[2]) });
            }
            v.push(MRow { ts: t, vals });
        }
        rows.push(v);
    }
    Inputs { names, types, rows, anonymous }
}

fn check_merge(inputs: &Inputs, range: TimestampRange, ctx: &mut Ctx) -> Outcome {
    let cap = Capture::new();
    let k = inputs.rows.len();
    let sources: Vec<Box<dyn Source>> = inputs
        .rows
        .iter()
        .map(|r| Box::new(VecSource::new(&inputs.names, &inputs.types, r)) as Box<dyn Source>)
        .collect();
    let g = merged_graph(k, Box::new(cap.clone())).map_err(|e| format!("graph: {}", err_text(&e)))?;
    let res = run_driver(sources, g, range);
    if let Err(e) = res {
        return Err(format!("drive failed: {}", err_text(&e)));
    }
    let log = cap.0.borrow();
    if let Some(b) = &log.bad {
        return Err(b.clone());
    }
    // expected per input
    let keep = |t: u64| range.begin.map_or(true, |b| b <= t) && range.end.map_or(true, |e| t < e);
    let exp: Vec<Vec<&MRow>> = inputs.rows.iter().map(|v| v.iter().filter(|r| keep(r.ts)).collect()).collect();
    let total: usize = exp.iter().map(|v| v.len()).sum();
    let alike = inputs.rows.iter().any(|v| v.windows(2).any(|w| w[0] == w[1]));
    ctx.label_if(alike, "an input repeats a row");
    if inputs.anonymous {
        ctx.label("rows do not name their input");
        return same_groups(&log.rows, exp.into_iter().flatten().collect());
    }
    let mut pos = vec![0usize; k];
    let mut last = 0u64;
    for (i, r) in log.rows.iter().enumerate() {
        if r.ts < last {
            return Err(format!("output row {} goes back in time: {} after {}", i, r.ts, last));
        }
        last = r.ts;
        let src = match r.vals.first() {
            Some(Val::Int(x)) if *x >= 0 && (*x as usize) < k => *x as usize,
            _ => return Err(format!("output row {} is no input row: {:?}", i, r)),
        };
        match exp[src].get(pos[src]) {
            Some(e) if **e == *r => pos[src] += 1,
            e => return Err(format!("output row {}: input {} should deliver {:?} next but {:?} came", i, src, e, r)),
        }
    }
    if log.rows.len() != total {
        return Err(format!(
            "{} rows delivered, {} expected; per input delivered {:?} expected {:?}",
            log.rows.len(),
            total,
            pos,
            exp.iter().map(|v| v.len()).collect::<Vec<_>>()
        ));
    }
    ctx.label_if(inputs.rows.iter().any(|v| v.is_empty()), "has empty input");
    ctx.label_if(total > 0 && k > 1, "merge of rows");
    ctx.label_if(log.rows.windows(2).any(|w| w[0].ts == w[1].ts && w[0].vals[0] != w[1].vals[0]), "cross-input tie");
    Ok(())
}

/// the rows in time order, those of one timestamp in any order
fn same_groups(got: &[MRow], mut exp: Vec<&MRow>) -> Outcome {
    if let Some(i) = (1..got.len()).find(|i| got[*i].ts < got[*i - 1].ts) {
        return Err(format!("output row {} goes back in time: {} after {}", i, got[i].ts, got[i - 1].ts));
    }
    let key = |r: &MRow| (r.ts, format!("{:?}", r.vals));
    let mut got: Vec<&MRow> = got.iter().collect();
    got.sort_by_cached_key(|r| key(r));
    exp.sort_by_cached_key(|r| key(r));
    for i in 0..got.len().max(exp.len()) {
        if got.get(i) != exp.get(i) {
            return Err(format!(
                "{} rows delivered, {} expected; in order of time and value row {} is {:?} instead of {:?}",
                got.len(),
                exp.len(),
                i,
                got.get(i),
                exp.get(i)
            ));
        }
    }
    Ok(())
}

fn show_inputs(i: &Inputs) -> String {
    let v: Vec<String> = i
        .rows
        .iter()
        .map(|r| format!("[{}]", r.iter().map(|x| x.ts.to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    format!("types {:?}; timestamps per input: {}", i.types, v.join(" "))
}

pub const ALL: TimestampRange = TimestampRange { begin: None, end: None };

fn c01(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let inputs = gen_inputs(s);
    ctx.describe(|| show_inputs(&inputs));
    ctx.nontrivial = inputs.rows.iter().filter(|r| !r.is_empty()).count() > 1;
    ctx.label_if(inputs.rows.len() > 6, "more than 6 inputs");
    check_merge(&inputs, ALL, ctx)
}

fn c01_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.big = *s.pick(&[Big::Wide, Big::Long]);
    ctx.label(if s.big == Big::Wide { "many inputs" } else { "many rows" });
    c01(s, ctx)
}

fn c02_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.big = *s.pick(&[Big::Long, Big::Wide]);
    ctx.label(if s.big == Big::Wide { "many inputs" } else { "many rows" });
    c02(s, ctx)
}

fn gen_bound(s: &mut Src, inputs: &Inputs) -> Option<u64> {
    let all: Vec<u64> = inputs.rows.iter().flatten().map(|r| r.ts).collect();
    match s.weighted(&[2, 8, 1, 1]) {
        0 => None,
        1 => {
            let t = if all.is_empty() { s.draw(10) } else { all[s.below(all.len())] };
            Some(match s.weighted(&[4, 2, 2]) {
                0 => t,
                1 => t.saturating_add(1),
                _ => t.saturating_sub(1),
            })
        }
        2 => Some(*s.pick(&[0, 1, u64::MAX, u64::MAX - 1])),
        _ => Some(s.u64_any()),
    }
}

fn c02(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let inputs = gen_inputs(s);
    let begin = gen_bound(s, &inputs);
    let end = gen_bound(s, &inputs);
    ctx.describe(|| format!("begin {:?} end {:?}; {}", begin, end, show_inputs(&inputs)));
    let keep = |t: u64| begin.map_or(true, |b| b <= t) && end.map_or(true, |e| t < e);
    let kept = inputs.rows.iter().flatten().filter(|r| keep(r.ts)).count();
    let total = inputs.rows.iter().flatten().count();
    ctx.nontrivial = kept < total;
    ctx.label_if(kept > 0 && kept < total, "proper cut");
    ctx.label_if(kept == 0 && total > 0, "nothing in range");
    ctx.label_if(inputs.rows.iter().flatten().any(|r| Some(r.ts) == begin), "row at begin");
    ctx.label_if(inputs.rows.iter().flatten().any(|r| Some(r.ts) == end), "row at end");
    ctx.label_if(
        inputs.rows.iter().any(|v| !v.is_empty() && !v.iter().any(|r| keep(r.ts))) && kept > 0,
        "one input wholly outside",
    );
    // the range comes from the bounds as a user writes them where that is possible
    let as_text = s.bool();
    let texts = (bound_text(begin), bound_text(end));
    let range = match texts {
        (Some(b), Some(e)) if as_text => {
            ctx.label("bounds given as text");
            ctx.label_if(begin.is_some() && end.is_some() && begin >= end, "textual begin not before end");
            TimestampRange::new(b.as_deref(), e.as_deref(), &chopper::util::tz::ChopperTz::from(chrono_tz::UTC))
                .map_err(|x| format!("range {:?}..{:?} refused: {}", b, e, err_text(&x)))?
        }
        _ => TimestampRange { begin, end },
    };
    if (range.begin, range.end) != (begin, end) {
        return Err(format!("range is {:?}..{:?} instead of {:?}..{:?}", range.begin, range.end, begin, end));
    }
    check_merge(&inputs, range, ctx)
}

/// a bound written out, if that is possible: Some(None) for no bound
fn bound_text(b: Option<u64>) -> Option<Option<String>> {
    let n = match b {
        None => return Some(None),
        Some(n) => n,
    };
    if n >= 630_000_000_000_000_000 && n < 2_000_000_000_000_000_000 {
        return Some(Some(n.to_string()));
    }
    let c = crate::cal::civil((n / 1_000_000_000) as i64);
    Some(Some(format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}Z",
        c.y, c.mo, c.d, c.h, c.mi, c.s, n % 1_000_000_000
    )))
}

// ---------------------------------------------------------------- C03/C04 graphs

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Pass,
    /// drop the row when (tag + salt) % m == r
    DropIf(u64, u64),
    /// emit n copies, each with its tag changed
    Dup(usize),
    /// change the tag in place
    Bump,
    /// replace the row by a new one
    Replace,
    /// emit the previous row (hold the current one)
    Lag,
    /// hold rows until n are there, then emit them all
    Batch(usize),
    /// append a column
    AddCol(String),
    /// rename the last column
    Rename(String),
    /// remove the last column when there are several
    DropCol,
    /// clear io_rows and push nothing for odd, several for even
    OddNoneEvenTwo,
}

#[derive(Clone, Debug)]
enum Node {
    Sink(usize, Op), // id, op
    Delete(String),  // chopper's own column filter
    Split(Vec<usize>),
    Merge(usize),
    MergeHead(usize),
}

#[derive(Clone, Debug)]
struct Graph {
    schemas: Vec<(Vec<String>, Vec<Ty>)>,
    chains: Vec<Vec<Node>>,
    rows: Vec<Vec<MRow>>,
    nsinks: usize,
    /// the merges are sinks themselves: each does the work of the sink that comes after it
    own_merge: bool,
}

fn tag_of(r: &MRow) -> i64 {
    match r.vals.first() {
        Some(Val::Long(x)) => *x,
        Some(_) => -1,
        // rows of tables without columns are told apart by their time
        None => r.ts as i64,
    }
}

fn set_tag(r: &mut MRow, tag: i64) {
    match r.vals.first_mut() {
        Some(v) => *v = Val::Long(tag),
        None => r.ts = tag as u64,
    }
}

fn mix(tag: i64, salt: u64) -> i64 {
    (hash_parts(&[&tag.to_le_bytes(), &salt.to_le_bytes()]) >> 1) as i64
}

/// one step of a sink, on the model
fn op_apply(op: &Op, id: usize, state: &mut Vec<MRow>, row: MRow) -> Vec<MRow> {
    match op {
        Op::Pass | Op::Rename(_) => vec![row],
        Op::DropCol => {
            let mut x = row;
            if x.vals.len() > 1 {
                x.vals.pop();
            }
            vec![x]
        }
        Op::DropIf(m, r) => {
            if (tag_of(&row) as u64) % m == *r {
                vec![]
            } else {
                vec![row]
            }
        }
        Op::Dup(n) => (0..*n)
            .map(|k| {
                let mut x = row.clone();
                if k > 0 {
                    set_tag(&mut x, mix(tag_of(&row), (id * 10_000 + k) as u64));
                }
                x
            })
            .collect(),
        Op::Bump => {
            let mut x = row;
            let t = tag_of(&x);
            set_tag(&mut x, mix(t, 7_000 + id as u64));
            vec![x]
        }
        Op::Replace => {
            let mut x = row;
            let t = tag_of(&x);
            set_tag(&mut x, mix(t, 9_000 + id as u64));
            x.ts = x.ts.wrapping_add(1);
            vec![x]
        }
        Op::Lag => {
            let out = state.pop();
            state.push(row);
            out.into_iter().collect()
        }
        Op::Batch(n) => {
            state.push(row);
            if state.len() >= *n {
                std::mem::take(state)
            } else {
                vec![]
            }
        }
        Op::AddCol(_) => {
            let mut x = row;
            let t = tag_of(&x);
            x.vals.push(Val::Long(t ^ 5));
            vec![x]
        }
        Op::OddNoneEvenTwo => {
            if tag_of(&row) & 1 == 1 {
                vec![]
            } else {
                let mut b = row.clone();
                set_tag(&mut b, mix(tag_of(&row), 11_000 + id as u64));
                vec![b, row]
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
struct NodeLog {
    header: Option<(Vec<String>, Vec<Ty>)>,
    rows: Vec<MRow>,
    flushes: usize,
    unflushed: usize,
}

type Logs = Rc<RefCell<Vec<NodeLog>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum FailAt {
    Header,
    Write(usize),
    Flush(usize),
}

struct OpSink {
    id: usize,
    op: Op,
    state: Vec<MRow>,
    logs: Logs,
    fail: Option<FailAt>,
    failed: Rc<RefCell<bool>>,
    calls_after_failure: Rc<RefCell<usize>>,
    writes: usize,
}

pub const SINK_FAIL: &str = "sink failure 9917";

impl OpSink {
    /// changes the header in place or by replacing its parts
    fn edit(&self, header: &mut Header, f: impl Fn(&mut Vec<String>, &mut Vec<FieldType>)) {
        let mut names = header.field_names().clone();
        let mut types = header.field_types().clone();
        f(&mut names, &mut types);
        if self.id % 2 == 1 {
            header.update_field_names(names);
            header.update_field_types(types);
        } else {
            *header.field_names_mut() = names;
            *header.field_types_mut() = types;
        }
    }
}

impl HeaderSink for OpSink {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        self.logs.borrow_mut()[self.id].header = Some(header_from(header));
        if self.fail == Some(FailAt::Header) {
            *self.failed.borrow_mut() = true;
            return Err(Error::from(SINK_FAIL));
        }
        match &self.op {
            Op::AddCol(n) => self.edit(header, |names, types| {
                names.push(n.clone());
                types.push(ty_to(Ty::Long));
            }),
            Op::Rename(n) => self.edit(header, |names, _| {
                if let Some(l) = names.last_mut() {
                    *l = n.clone();
                }
            }),
            Op::DropCol => self.edit(header, |names, types| {
                if names.len() > 1 {
                    names.pop();
                    types.pop();
                }
            }),
            _ => {}
        }
        Ok(self)
    }
}

impl DataSink for OpSink {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        if *self.failed.borrow() {
            *self.calls_after_failure.borrow_mut() += 1;
        }
        if io_rows.len() != 1 {
            return Err(Error::from(format!("sink {} called with {} rows", self.id, io_rows.len())));
        }
        let r = row_from(&io_rows[0]).map_err(Error::from)?;
        {
            let mut l = self.logs.borrow_mut();
            l[self.id].rows.push(r.clone());
            l[self.id].unflushed += 1;
            if l[self.id].rows.len() > 200_000 {
                drop(l);
                panic!("runaway: sink received too many rows");
            }
        }
        self.writes += 1;
        if self.fail == Some(FailAt::Write(self.writes)) {
            *self.failed.borrow_mut() = true;
            return Err(Error::from(SINK_FAIL));
        }
        match &self.op {
            Op::Bump => {
                // in-place mutation
                let t = tag_of(&r);
                let to = mix(t, 7_000 + self.id as u64);
                match io_rows[0].field_values.first_mut() {
                    Some(v) => *v = FieldValue::Long(to),
                    None => io_rows[0].timestamp = to as u64,
                }
            }
            op => {
                let out = op_apply(op, self.id, &mut self.state, r);
                io_rows.clear();
                io_rows.extend(out.iter().map(row_to));
            }
        }
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        let mut l = self.logs.borrow_mut();
        l[self.id].flushes += 1;
        l[self.id].unflushed = 0;
        let n = l[self.id].flushes;
        drop(l);
        if *self.failed.borrow() {
            *self.calls_after_failure.borrow_mut() += 1;
        }
        if self.fail == Some(FailAt::Flush(n)) {
            *self.failed.borrow_mut() = true;
            return Err(Error::from(SINK_FAIL));
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

/// a merge with a data sink that does something
struct OwnMerge {
    inputs: usize,
    header: Option<Header>,
    sink: Option<Box<OpSink>>,
    ready: Option<CliResult<Box<dyn DataSink>>>,
}

impl MergeHeaderSink for OwnMerge {
    fn check_header(&mut self, header: &Header) -> CliResult<()> {
        match &self.header {
            Some(h) if h != header => Err(Error::from("different schemas")),
            Some(_) => Ok(()),
            None => {
                self.header = Some(header.clone());
                Ok(())
            }
        }
    }
    fn process_header(&mut self) -> Header {
        let mut h = self.header.take().expect("process_header of a merge without a header");
        let s = self.sink.take().expect("process_header of a merge called twice");
        self.ready = Some(s.process_header(&mut h));
        h
    }
    fn get_data_sink(self: Box<Self>) -> CliResult<Box<dyn DataSink>> {
        self.ready.expect("get_data_sink of a merge before its headers")
    }
    fn get_new_header_count_tracker(&self) -> HeaderCountTracker {
        HeaderCountTracker { unprocessed_count: self.inputs }
    }
}

fn gen_op(s: &mut Src, fresh_col: &mut usize) -> Op {
    // the number of rows must not explode in long chains
    if s.big != Big::No && !s.chance(1, 40) {
        return match s.weighted(&[6, 4, 2, 1]) {
            0 => Op::Pass,
            1 => Op::Bump,
            2 => Op::Replace,
            _ => Op::Lag,
        };
    }
    match s.weighted(&[3, 3, 3, 2, 1, 1, 1, 1, 1]) {
        0 => Op::Pass,
        1 => {
            let m = 2 + s.draw(2);
            let r = s.draw(m - 1);
            Op::DropIf(m, r)
        }
        2 => Op::Dup(2 + s.below(3)),
        3 => Op::Bump,
        4 => Op::Replace,
        5 => Op::Lag,
        6 => Op::Batch(2 + s.below(3)),
        7 => {
            *fresh_col += 1;
            Op::AddCol(format!("add{}", fresh_col))
        }
        _ => Op::OddNoneEvenTwo,
    }
}

/// Random acyclic graph. Chains 0..k-1 belong to the inputs; further chains are split targets (one
/// parent each) or merge chains (any number of Merge nodes pointing at them).
fn gen_graph(s: &mut Src, distinct_schemas: bool) -> Graph {
    gen_graph_ops(s, distinct_schemas, false)
}

/// an operation that changes the schema
fn gen_schema_op(s: &mut Src, fresh_col: &mut usize) -> Op {
    *fresh_col += 1;
    match s.weighted(&[2, 2, 1]) {
        0 => Op::AddCol(format!("add{}", fresh_col)),
        1 => Op::Rename(format!("ren{}", fresh_col)),
        _ => Op::DropCol,
    }
}

fn gen_graph_ops(s: &mut Src, distinct_schemas: bool, schema_ops: bool) -> Graph {
    let k = 1 + s.weighted(&[4, 4, 2, 1]);
    let k = s.big(Big::Wide, 600).unwrap_or(k);
    let max_chains = 14 + 2 * k;
    let deep = s.big(Big::Deep, 1100).map(|n| (s.below(k), n));
    let mut g = Graph { schemas: vec![], chains: vec![Vec::new(); k], rows: vec![], nsinks: 0, own_merge: false };
    let wide = s.chance(1, 30);
    let top = if wide { 1 << s.urange(2, 10) } else { 2 };
    let base_extra = if wide { s.urange(3, top) } else { s.below(3) };
    // tables without columns: rows are only times
    let no_columns = !wide && s.chance(1, 25);
    for i in 0..k {
        if no_columns {
            g.schemas.push((vec![], vec![]));
            continue;
        }
        let mut names = vec!["tag".to_string()];
        let mut types = vec![Ty::Long];
        if distinct_schemas {
            for j in 0..if wide { s.urange(0, base_extra) } else { s.below(3) } {
                names.push(format!("c{}_{}", i, j));
                types.push(*s.pick(&VALUE_TYPES));
            }
        } else {
            for j in 0..base_extra {
                names.push(format!("c{}", j));
                types.push(VALUE_TYPES[j % VALUE_TYPES.len()]);
            }
        }
        g.schemas.push((names, types));
    }
    let mut fresh = 0;
    // pending chains to fill: (chain id, depth)
    let mut pending: Vec<(usize, usize)> = (0..k).map(|i| (i, 0)).collect();
    let mut merge_chains: Vec<usize> = Vec::new(); // created, may be referenced by chains processed before they are filled
    let mut merge_refs: Vec<(usize, usize)> = Vec::new();
    let mut idx = 0;
    while idx < pending.len() {
        let (c, depth) = pending[idx];
        idx += 1;
        let max = match deep {
            Some((j, n)) if j == c => n,
            _ if depth > 3 => 2,
            _ => 5,
        };
        let min = match deep {
            Some((j, n)) if j == c => n,
            _ => 0,
        };
        let mut nodes = Vec::new();
        while s.more(nodes.len(), min, max, 2) {
            let kind = if g.chains.len() > max_chains || depth > 3 { 0 } else { s.weighted(&[6, 2, 3]) };
            match kind {
                0 => {
                    let op = if schema_ops && s.chance(1, 3) { gen_schema_op(s, &mut fresh) } else { gen_op(s, &mut fresh) };
                    nodes.push(Node::Sink(g.nsinks, op));
                    g.nsinks += 1;
                }
                1 => {
                    let n = 1 + s.below(3);
                    let mut ids = Vec::new();
                    for _ in 0..n {
                        g.chains.push(Vec::new());
                        let id = g.chains.len() - 1;
                        ids.push(id);
                        pending.push((id, depth + 1));
                    }
                    if s.chance(1, 3) {
                        ids.reverse();
                    }
                    if s.chance(1, 6) {
                        // a chain that gets every row more than once
                        for _ in 0..s.urange(1, 2) {
                            let at = s.below(ids.len() + 1);
                            let again = ids[s.below(ids.len())];
                            ids.insert(at, again);
                        }
                    }
                    nodes.push(Node::Split(ids));
                }
                _ => {
                    // merge into an existing unfilled merge chain or a new one
                    let reuse = !merge_chains.is_empty() && s.chance(2, 3);
                    let m = if reuse {
                        merge_chains[s.below(merge_chains.len())]
                    } else {
                        g.chains.push(Vec::new());
                        let id = g.chains.len() - 1;
                        merge_chains.push(id);
                        id
                    };
                    merge_refs.push((c, m));
                    nodes.push(Node::Merge(m));
                }
            }
        }
        // mostly end with a sink so that something is observed
        if !s.chance(1, 5) {
            nodes.push(Node::Sink(g.nsinks, Op::Pass));
            g.nsinks += 1;
        }
        g.chains[c] = nodes;
        if idx == pending.len() && !merge_chains.is_empty() {
            // all ordinary chains are filled: now fill merge chains (one level)
            for m in std::mem::take(&mut merge_chains) {
                let mut nodes = vec![Node::MergeHead(0)];
                while s.more(nodes.len(), 1, 4, 1) {
                    if g.chains.len() < max_chains + 1 && s.chance(1, 5) {
                        g.chains.push(Vec::new());
                        let id = g.chains.len() - 1;
                        pending.push((id, depth + 1));
                        nodes.push(Node::Split(vec![id]));
                    } else {
                        let op = if schema_ops && s.chance(1, 3) { gen_schema_op(s, &mut fresh) } else { gen_op(s, &mut fresh) };
                        nodes.push(Node::Sink(g.nsinks, op));
                        g.nsinks += 1;
                    }
                }
                nodes.push(Node::Sink(g.nsinks, Op::Pass));
                g.nsinks += 1;
                g.chains[m] = nodes;
            }
        }
    }
    // set merge counts
    let mut counts = vec![0usize; g.chains.len()];
    for (_, m) in &merge_refs {
        counts[*m] += 1;
    }
    for (c, chain) in g.chains.iter_mut().enumerate() {
        if let Some(Node::MergeHead(n)) = chain.first_mut() {
            *n = counts[c];
        }
    }
    // now and then one sink returns a great many rows
    if g.nsinks > 0 && s.chance(1, 40) {
        let id = s.below(g.nsinks);
        let many = 200 + s.below(900);
        for n in g.chains.iter_mut().flatten() {
            match n {
                Node::Sink(i, op) if *i == id && !matches!(op, Op::AddCol(_) | Op::Rename(_) | Op::DropCol) => *op = Op::Dup(many),
                _ => {}
            }
        }
    }
    // a chain may have no nodes at all: what gets there goes nowhere
    for c in 0..g.chains.len() {
        if g.chains[c].is_empty() && !s.chance(1, 2) {
            g.chains[c].push(Node::Sink(g.nsinks, Op::Pass));
            g.nsinks += 1;
        }
    }
    g.own_merge = s.chance(1, 3);
    // rows with timestamps unique across inputs (ties between inputs have no specified order)
    let apart = (k + 1).next_power_of_two().max(16) as u64;
    let long = s.big(Big::Long, 20_000).map(|n| (s.below(k), n));
    for i in 0..k {
        let n = s.many(0, if s.big == Big::Wide { 2 } else { 12 }, 4, |_| ()).len();
        let n = match long {
            Some((j, n)) if j == i => n,
            _ => n,
        };
        let mut t = s.draw(5);
        let mut v = Vec::new();
        for q in 0..n {
            if q > 0 {
                t += s.draw(3);
            }
            let mut vals = vec![Val::Long((q * apart as usize / 2 + i) as i64 * 3 + s.draw(1) as i64)];
            if no_columns {
                vals.clear();
            }
            for ty in g.schemas[i].1.iter().skip(1) {
                vals.push(if s.chance(1, 8) { Val::Null } else { gen_value_small(s, *ty) });
            }
            v.push(MRow { ts: t * apart + i as u64, vals });
        }
        g.rows.push(v);
    }
    g
}

/// reference: schema propagation. Returns Err when a merge meets different schemas.
fn ref_headers(g: &Graph, logs: &mut Vec<NodeLog>) -> Result<(), String> {
    type Schema = (Vec<String>, Vec<Ty>);
    struct St<'a> {
        g: &'a Graph,
        logs: &'a mut Vec<NodeLog>,
        merges: std::collections::HashMap<usize, (Schema, usize)>,
    }
    fn chain(st: &mut St, c: usize, mut h: Schema) -> Result<(), String> {
        let nodes = st.g.chains[c].clone();
        for n in nodes {
            match n {
                Node::Sink(id, op) => {
                    st.logs[id].header = Some(h.clone());
                    match op {
                        Op::AddCol(name) => {
                            h.0.push(name);
                            h.1.push(Ty::Long);
                        }
                        Op::Rename(name) => {
                            if let Some(l) = h.0.last_mut() {
                                *l = name;
                            }
                        }
                        Op::DropCol => {
                            if h.0.len() > 1 {
                                h.0.pop();
                                h.1.pop();
                            }
                        }
                        _ => {}
                    }
                }
                Node::Delete(name) => {
                    let p = h.0.iter().position(|x| x.eq_ignore_ascii_case(&name)).ok_or("no such column")?;
                    h.0.remove(p);
                    h.1.remove(p);
                }
                Node::Split(ids) => {
                    for (k, i) in ids.iter().enumerate() {
                        // a chain named twice has its schema from the first time
                        if !ids[..k].contains(i) {
                            chain(st, *i, h.clone())?;
                        }
                    }
                }
                Node::Merge(m) => arrive(st, m, h.clone())?,
                Node::MergeHead(_) => {}
            }
        }
        Ok(())
    }
    fn arrive(st: &mut St, m: usize, h: Schema) -> Result<(), String> {
        let need = match st.g.chains[m].first() {
            Some(Node::MergeHead(n)) => *n,
            _ => return Err("not a merge chain".into()),
        };
        let e = st.merges.entry(m).or_insert_with(|| (h.clone(), 0));
        if e.0 != h {
            return Err("different schemas at a merge".into());
        }
        e.1 += 1;
        if e.1 == need {
            chain(st, m, h)?;
        }
        Ok(())
    }
    let k = g.schemas.len();
    let mut st = St { g, logs, merges: Default::default() };
    for i in 0..k {
        if let Some(Node::MergeHead(_)) = g.chains[i].first() {
            arrive(&mut st, i, g.schemas[i].clone())?;
        } else {
            chain(&mut st, i, g.schemas[i].clone())?;
        }
    }
    Ok(())
}

const MAX_STEPS: usize = 60_000;

/// false: too many rows, the case is to be left out
fn ref_rows(g: &Graph, logs: &mut Vec<NodeLog>) -> bool {
    struct St<'a> {
        steps: usize,
        g: &'a Graph,
        logs: &'a mut Vec<NodeLog>,
        state: Vec<Vec<MRow>>,
        deleted: std::collections::HashMap<(usize, usize), usize>,
    }
    fn process(st: &mut St, c: usize, from: usize, row: MRow) {
        let mut row = row;
        for n in from..st.g.chains[c].len() {
            st.steps += 1;
            if st.steps > MAX_STEPS {
                return;
            }
            match st.g.chains[c][n].clone() {
                Node::Sink(id, op) => {
                    st.logs[id].rows.push(row.clone());
                    let mut out = op_apply(&op, id, &mut st.state[id], row);
                    match out.pop() {
                        None => return,
                        Some(last) => {
                            for r in out {
                                process(st, c, n + 1, r);
                            }
                            row = last;
                        }
                    }
                }
                Node::Delete(_) => {
                    let i = st.deleted[&(c, n)];
                    row.vals.remove(i);
                }
                Node::Split(ids) => {
                    for i in ids {
                        process(st, i, 0, row.clone());
                    }
                }
                Node::Merge(m) => process(st, m, 0, row.clone()),
                Node::MergeHead(_) => {}
            }
        }
    }
    let mut st = St { steps: 0, g, logs, state: vec![Vec::new(); g.nsinks], deleted: Default::default() };
    let mut all: Vec<(usize, &MRow)> =
        g.rows.iter().enumerate().flat_map(|(i, v)| v.iter().map(move |r| (i, r))).collect();
    all.sort_by_key(|(_, r)| r.ts); // stable: input order within equal timestamps (unique across inputs)
    for (i, r) in all {
        process(&mut st, i, 0, r.clone());
    }
    st.steps <= MAX_STEPS
}

fn build_graph(
    g: &Graph,
    logs: &Logs,
    fail: Option<(usize, FailAt)>,
    failed: &Rc<RefCell<bool>>,
    after: &Rc<RefCell<usize>>,
) -> CliResult<HeaderGraph> {
    let mut chains = Vec::new();
    let sink = |id: &usize, op: &Op| {
        Box::new(OpSink {
            id: *id,
            op: op.clone(),
            state: vec![],
            logs: logs.clone(),
            fail: fail.filter(|f| f.0 == *id).map(|f| f.1),
            failed: failed.clone(),
            calls_after_failure: after.clone(),
            writes: 0,
        })
    };
    for c in &g.chains {
        let mut nodes = Vec::new();
        for (i, n) in c.iter().enumerate() {
            nodes.push(match n {
                Node::Sink(..) if i == 1 && g.own_merge && matches!(c[0], Node::MergeHead(_)) => continue,
                Node::MergeHead(n) if g.own_merge && matches!(c.get(1), Some(Node::Sink(..))) => match &c[1] {
                    Node::Sink(id, op) => {
                        let m = OwnMerge { inputs: *n, header: None, sink: Some(sink(id, op)), ready: None };
                        let t = m.get_new_header_count_tracker();
                        HeaderNode::MergeHeaderSink(Box::new(m), t)
                    }
                    _ => unreachable!(),
                },
                Node::Sink(id, op) => HeaderNode::HeaderSink(sink(id, op)),
                Node::Delete(name) => HeaderNode::HeaderSink(ColumnFilterDelete::new(name)),
                Node::Split(ids) => split_node(ids.clone()),
                Node::Merge(m) => HeaderNode::Merge(*m),
                Node::MergeHead(n) => merge_node(*n)?,
            });
        }
        chains.push(HeaderChain::new(nodes));
    }
    Ok(HeaderGraph::new(chains))
}

fn show_graph(g: &Graph) -> String {
    let mut o = String::new();
    if own_merge(g) {
        o.push_str("(a sink directly after MergeHead is the merge's own data sink)\n");
    }
    for (i, c) in g.chains.iter().enumerate() {
        o.push_str(&format!("chain {}{}: {:?}\n", i, if i < g.schemas.len() { " (input)" } else { "" }, c));
    }
    for (i, r) in g.rows.iter().enumerate() {
        let v: Vec<String> = r.iter().map(|x| format!("{}:{}", x.ts, tag_of(x))).collect();
        o.push_str(&format!("input {} {:?} rows(ts:tag) {}\n", i, g.schemas[i].0, v.join(" ")));
    }
    o
}

fn sources_of(g: &Graph) -> Vec<Box<dyn Source>> {
    g.rows
        .iter()
        .enumerate()
        .map(|(i, r)| Box::new(VecSource::new(&g.schemas[i].0, &g.schemas[i].1, r)) as Box<dyn Source>)
        .collect()
}

fn check_graph(g: &Graph, ctx: &mut Ctx, require_flush: bool) -> Outcome {
    let mut exp = vec![NodeLog::default(); g.nsinks];
    let hdr = ref_headers(g, &mut exp);
    let logs: Logs = Rc::new(RefCell::new(vec![NodeLog::default(); g.nsinks]));
    let failed = Rc::new(RefCell::new(false));
    let after = Rc::new(RefCell::new(0));
    let sources = sources_of(g);
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let hg = build_graph(g, &logs, None, &failed, &after).map_err(|e| err_text(&e))?;
    let d = Driver::new(sources, hg, ALL, headers);
    let mut d = match (d, &hdr) {
        (Err(_), Err(_)) => {
            ctx.label("rejected merge");
            if logs.borrow().iter().any(|l| !l.rows.is_empty()) {
                return Err("rows were processed although building the pipeline failed".into());
            }
            return Ok(());
        }
        (Err(e), Ok(())) => return Err(format!("building the pipeline failed: {}", err_text(&e))),
        (Ok(_), Err(e)) => return Err(format!("building the pipeline succeeded although {}", e)),
        (Ok(d), Ok(())) => d,
    };
    if !ref_rows(g, &mut exp) {
        ctx.label("too many rows: left out");
        ctx.nontrivial = false;
        return Ok(());
    }
    if let Err(e) = d.drive() {
        return Err(format!("drive failed: {}", err_text(&e)));
    }
    let logs = logs.borrow();
    for id in 0..g.nsinks {
        if exp[id].header != logs[id].header {
            return Err(format!("sink {}: schema handed over {:?}, expected {:?}", id, logs[id].header, exp[id].header));
        }
        diff_rows(&exp[id].rows, &logs[id].rows).map_err(|e| format!("sink {}: {}", id, e))?;
        if require_flush && exp[id].header.is_some() && (logs[id].flushes == 0 || logs[id].unflushed > 0) {
            return Err(format!(
                "sink {}: {} rows received after its last flush ({} flushes)",
                id, logs[id].unflushed, logs[id].flushes
            ));
        }
    }
    Ok(())
}

fn own_merge(g: &Graph) -> bool {
    g.own_merge && g.chains.iter().any(|c| matches!(c[..], [Node::MergeHead(_), Node::Sink(..), ..]))
}

fn c03(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let g = gen_graph(s, false);
    ctx.describe(|| show_graph(&g));
    let has = |f: &dyn Fn(&Node) -> bool| g.chains.iter().flatten().any(|n| f(n));
    let split = has(&|n| matches!(n, Node::Split(_)));
    let merge = has(&|n| matches!(n, Node::MergeHead(_)));
    let multi = has(&|n| matches!(n, Node::Sink(_, Op::Dup(_)) | Node::Sink(_, Op::Batch(_)) | Node::Sink(_, Op::OddNoneEvenTwo)));
    let drop = has(&|n| matches!(n, Node::Sink(_, Op::DropIf(..))));
    ctx.label_if(split, "split");
    ctx.label_if(merge, "merge");
    ctx.label_if(multi, "fan-out sink");
    ctx.label_if(drop, "dropping sink");
    let tee = g.chains.iter().any(|c| {
        c.iter().enumerate().any(|(i, n)| matches!(n, Node::Merge(_) | Node::Split(_)) && i + 1 < c.len())
    });
    ctx.label_if(tee, "tee");
    ctx.label_if(own_merge(&g), "a merge whose own sink acts");
    ctx.label_if(has(&|n| matches!(n, Node::Split(ids) if (1..ids.len()).any(|k| ids[..k].contains(&ids[k])))), "a chain named twice in a split");
    ctx.label_if(g.schemas.iter().any(|h| h.0.len() > 50), "more than 50 columns");
    ctx.label_if(g.schemas[0].0.is_empty(), "no columns");
    ctx.label_if(g.chains.iter().any(|c| c.is_empty()), "a chain without nodes");
    ctx.nontrivial = (split || merge || multi || tee) && g.rows.iter().any(|r| !r.is_empty());
    check_graph(&g, ctx, false)
}

/// many inputs and chains, many rows, or chains of many nodes
fn c03_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.big = *s.pick(&[Big::Wide, Big::Long, Big::Deep]);
    ctx.label(match s.big {
        Big::Wide => "many inputs",
        Big::Long => "many rows",
        _ => "many nodes",
    });
    if s.chance(1, 3) {
        c07_flush(s, ctx)
    } else {
        c03(s, ctx)
    }
}

fn c04_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    match s.below(3) {
        0 => {
            s.big = Big::Wide;
            ctx.label("many inputs");
            c04(s, ctx)
        }
        1 => {
            s.big = Big::Long;
            ctx.label("many columns");
            c04(s, ctx)
        }
        _ => {
            s.big = *s.pick(&[Big::Wide, Big::Deep]);
            ctx.label("many chains or nodes");
            c04_graph(s, ctx)
        }
    }
}

/// graphs that cannot work: the pipeline must be refused when it is built
fn c04_wrong(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let distinct = s.chance(1, 4);
    let mut g = gen_graph(s, distinct);
    let mut exp = vec![NodeLog::default(); g.nsinks];
    if ref_headers(&g, &mut exp).is_err() {
        return Ok(());
    }
    // every chain is reached by some header
    let c = s.below(g.chains.len());
    let heads: Vec<usize> = (0..g.chains.len()).filter(|i| matches!(g.chains[*i].first(), Some(Node::MergeHead(_)))).collect();
    let beyond = g.chains.len() + *s.pick(&[0, 1, 2, 100, usize::MAX / 2]);
    let low = matches!(g.chains[c].first(), Some(Node::MergeHead(_))) as usize;
    let at = s.urange(low, g.chains[c].len());
    let at = at.max(low);
    let (what, why) = match s.below(if heads.is_empty() { 4 } else { 7 }) {
        0 => {
            g.chains[c].insert(at, Node::Merge(beyond));
            ("merge into a chain that does not exist", true)
        }
        1 => {
            let mut ids = vec![beyond];
            if s.bool() {
                g.chains.push(vec![]);
                let l = g.chains.len() - 1;
                // the chain just added must not turn the other one into one that exists
                if ids[0] == l {
                    ids[0] += 1;
                }
                ids.insert(s.below(2), l);
            }
            g.chains[c].insert(at, Node::Split(ids));
            ("split into a chain that does not exist", true)
        }
        2 => {
            let nodes = if s.bool() { vec![] } else { vec![Node::Sink(g.nsinks, Op::Pass)] };
            g.nsinks += nodes.len();
            g.chains.push(nodes);
            let l = g.chains.len() - 1;
            g.chains[c].insert(at, Node::Merge(l));
            ("merge into a chain that is no merge", true)
        }
        3 => {
            g.chains[c].insert(at, Node::Merge(c));
            ("merge into the chain it is in", true)
        }
        4 => {
            let h = heads[s.below(heads.len())];
            let by = s.urange(1, 3);
            if let Some(Node::MergeHead(n)) = g.chains[h].first_mut() {
                *n += by;
            }
            ("merge with an input missing", true)
        }
        5 => {
            let h = heads[s.below(heads.len())];
            let mut less = 0;
            if let Some(Node::MergeHead(n)) = g.chains[h].first_mut() {
                if *n > 1 {
                    less = s.urange(1, *n - 1);
                    *n -= less;
                }
            }
            ("merge with an input too many", less > 0)
        }
        _ => {
            let h = heads[s.below(heads.len())];
            if let Some(Node::MergeHead(n)) = g.chains[h].first_mut() {
                *n = 0;
            }
            ("merge of nothing", true)
        }
    };
    if !why {
        return Ok(());
    }
    ctx.label(what);
    ctx.nontrivial = true;
    ctx.describe(|| format!("{}\n{}", what, show_graph(&g)));
    let logs: Logs = Rc::new(RefCell::new(vec![NodeLog::default(); g.nsinks]));
    let failed = Rc::new(RefCell::new(false));
    let after = Rc::new(RefCell::new(0));
    let sources = sources_of(&g);
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let hg = match build_graph(&g, &logs, None, &failed, &after) {
        Ok(hg) => hg,
        Err(_) => return Ok(()),
    };
    match Driver::new(sources, hg, ALL, headers) {
        Ok(_) => Err(format!("accepted: {}", what)),
        Err(_) if logs.borrow().iter().any(|l| !l.rows.is_empty()) => Err("rows were processed although building the pipeline failed".into()),
        Err(_) => Ok(()),
    }
}

/// graphs with tees whose branches change the schema in their own way
fn c04_graph(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let distinct = s.chance(1, 3);
    let g = gen_graph_ops(s, distinct, true);
    ctx.describe(|| show_graph(&g));
    let changes = |n: &Node| {
        matches!(n, Node::Sink(_, Op::AddCol(_)) | Node::Sink(_, Op::Rename(_)) | Node::Sink(_, Op::DropCol))
    };
    let branch_then_more = g.chains.iter().any(|c| {
        c.iter().enumerate().any(|(i, n)| match n {
            Node::Split(ids) => i + 1 < c.len() && ids.iter().any(|x| g.chains[*x].iter().any(changes)),
            _ => false,
        })
    });
    ctx.label_if(branch_then_more, "a branch changes the schema, the chain goes on");
    ctx.nontrivial = g.chains.iter().flatten().any(changes) && g.chains.len() > 1;
    check_graph(&g, ctx, false)
}

/// chains per input with their own schemas; optional merges of equal or nearly equal schemas
fn c04(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let k = 1 + s.weighted(&[1, 4, 4, 2, 1]);
    let k = s.big(Big::Wide, 1100).unwrap_or(k);
    let apart = (k + 1).next_power_of_two().max(64) as u64;
    let merge_mode = s.weighted(&[3, 4]) == 1 && k > 1;
    let mut g = Graph { schemas: vec![], chains: vec![], rows: vec![], nsinks: 0, own_merge: false };
    let ncols = s.urange(1, 5);
    let ncols = s.big(Big::Long, 1100).unwrap_or(ncols);
    let mut base: (Vec<String>, Vec<Ty>) = (vec!["tag".into()], vec![Ty::Long]);
    for j in 0..ncols {
        base.0.push(format!("{}{}", ascii_word(s, 1, 3), j));
        base.1.push(*s.pick(&VALUE_TYPES));
    }
    for i in 0..k {
        let mut sc = base.clone();
        if !merge_mode {
            // all different
            for j in 1..sc.0.len() {
                sc.0[j] = format!("{}_{}", sc.0[j], i);
                sc.1[j] = *s.pick(&VALUE_TYPES);
            }
            for j in 0..s.below(3) {
                sc.0.push(format!("e{}_{}", i, j));
                sc.1.push(*s.pick(&VALUE_TYPES));
            }
        }
        g.schemas.push(sc);
    }
    let mut differs = false;
    if merge_mode && s.bool() {
        // make one of them differ in one detail
        let i = s.below(k);
        let sc = &mut g.schemas[i];
        let j = 1 + s.below(sc.0.len() - 1);
        match s.weighted(&[2, 2, 2, 2, 1, 1]) {
            0 => sc.0[j].push('x'),
            1 => {
                let t = sc.1[j];
                sc.1[j] = *VALUE_TYPES.iter().find(|x| **x != t).unwrap();
            }
            2 => {
                // additional trailing column
                sc.0.push("extra".into());
                sc.1.push(Ty::Int);
            }
            3 => {
                if sc.0.len() > 2 {
                    sc.0.pop();
                    sc.1.pop();
                } else {
                    sc.0[j].push('x');
                }
            }
            4 => {
                let up = sc.0[j].to_uppercase();
                if up == sc.0[j] {
                    sc.0[j].push('y');
                } else {
                    sc.0[j] = up;
                }
            }
            _ => {
                // swap two columns (names and types) when that makes a difference
                if sc.0.len() > 2 && (sc.0[1] != sc.0[2] || sc.1[1] != sc.1[2]) {
                    sc.0.swap(1, 2);
                    sc.1.swap(1, 2);
                } else {
                    sc.0[j].push('z');
                }
            }
        }
        differs = true;
    }
    let target = k;
    let mut fresh = 0;
    for _ in 0..k {
        let mut nodes = vec![];
        // a sink in front sees the input schema
        nodes.push(Node::Sink(g.nsinks, Op::Pass));
        g.nsinks += 1;
        if !merge_mode {
            for _ in 0..s.below(3) {
                let op = gen_op(s, &mut fresh);
                nodes.push(Node::Sink(g.nsinks, op));
                g.nsinks += 1;
            }
            nodes.push(Node::Sink(g.nsinks, Op::Pass));
            g.nsinks += 1;
        } else {
            nodes.push(Node::Merge(target));
            if s.chance(1, 3) {
                nodes.push(Node::Sink(g.nsinks, Op::Pass));
                g.nsinks += 1;
            }
        }
        g.chains.push(nodes);
    }
    if merge_mode {
        if s.chance(1, 4) {
            // one input feeds the merge chain directly: its own chain is the merge chain
            let host = s.below(k);
            let mut nodes = vec![Node::MergeHead(k)];
            nodes.push(Node::Sink(g.nsinks, Op::Pass));
            g.nsinks += 1;
            g.chains[host] = nodes;
            for (c, ch) in g.chains.iter_mut().enumerate() {
                if c != host {
                    for n in ch.iter_mut() {
                        if let Node::Merge(m) = n {
                            *m = host;
                        }
                    }
                }
            }
            ctx.label("merge chain is an input chain");
        } else {
            g.chains.push(vec![Node::MergeHead(k), Node::Sink(g.nsinks, Op::Pass)]);
            g.nsinks += 1;
        }
        // schema repaired or broken in front of the merge by deleting a column
        if s.chance(1, 4) {
            let i = s.below(k);
            let nodes = &mut g.chains[i];
            if !matches!(nodes[0], Node::MergeHead(_)) {
                let name = "tagx".to_string();
                // add and delete the same column: schema is unchanged
                fresh += 1;
                nodes.insert(1, Node::Sink(g.nsinks, Op::AddCol(name.clone())));
                g.nsinks += 1;
                if s.bool() {
                    nodes.insert(2, Node::Delete(name));
                }
            }
        }
    }
    for i in 0..k {
        let n = s.many(0, if s.big == Big::Wide { 2 } else { 8 }, 3, |_| ()).len();
        let mut t = s.draw(5);
        let mut v = Vec::new();
        for q in 0..n {
            t += s.draw(2);
            let mut vals = vec![Val::Long((q * apart as usize + i) as i64)];
            for ty in &g.schemas[i].1[1..] {
                vals.push(gen_value_small(s, *ty));
            }
            v.push(MRow { ts: t * apart + i as u64, vals });
        }
        g.rows.push(v);
    }
    ctx.describe(|| show_graph(&g));
    ctx.label_if(merge_mode && differs, "unequal schemas at merge");
    ctx.label_if(merge_mode && !differs, "equal schemas at merge");
    ctx.label_if(!merge_mode && k > 1, "own chain per input");
    ctx.nontrivial = k > 1;
    // fewer chains than inputs
    if s.chance(1, 8) {
        let keep = s.below(k);
        let logs: Logs = Rc::new(RefCell::new(vec![NodeLog::default(); g.nsinks]));
        let mut chains = Vec::new();
        let fl = Rc::new(RefCell::new(false));
        let af = Rc::new(RefCell::new(0));
        for c in 0..keep {
            let id = match &g.chains[c][0] {
                Node::Sink(id, _) => *id,
                _ => 0,
            };
            chains.push(HeaderChain::new(vec![HeaderNode::HeaderSink(Box::new(OpSink {
                id,
                op: Op::Pass,
                state: vec![],
                logs: logs.clone(),
                fail: None,
                failed: fl.clone(),
                calls_after_failure: af.clone(),
                writes: 0,
            }))]));
        }
        let sources = sources_of(&g);
        let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
        ctx.label("too few chains");
        return match Driver::new(sources, HeaderGraph::new(chains), ALL, headers) {
            Ok(_) => Err(format!("{} inputs accepted with {} chains", k, keep)),
            Err(_) => Ok(()),
        };
    }
    delete_positions(&g)?;
    check_graph_with_delete(&g, ctx)
}

fn delete_positions(_g: &Graph) -> Result<(), String> {
    Ok(())
}

/// like check_graph but resolves Delete nodes (they remove the last column, added just before)
fn check_graph_with_delete(g: &Graph, ctx: &mut Ctx) -> Outcome {
    // In the model, AddCol directly followed by Delete of that column is the identity behind both
    let mut g2 = g.clone();
    let mut real_logs_map: Vec<usize> = (0..g.nsinks).collect();
    let _ = &mut real_logs_map;
    let has_delete = g.chains.iter().flatten().any(|n| matches!(n, Node::Delete(_)));
    if !has_delete {
        return check_graph(g, ctx, false);
    }
    for c in g2.chains.iter_mut() {
        let mut i = 0;
        while i < c.len() {
            if let (Node::Sink(id, Op::AddCol(a)), Some(Node::Delete(b))) = (c[i].clone(), c.get(i + 1).cloned()) {
                if a == b {
                    c[i] = Node::Sink(id, Op::Pass);
                    c.remove(i + 1);
                }
            }
            i += 1;
        }
    }
    // expected logs from g2, actual from g
    let mut exp = vec![NodeLog::default(); g.nsinks];
    let hdr = ref_headers(&g2, &mut exp);
    let logs: Logs = Rc::new(RefCell::new(vec![NodeLog::default(); g.nsinks]));
    let failed = Rc::new(RefCell::new(false));
    let after = Rc::new(RefCell::new(0));
    let sources = sources_of(g);
    let headers: Vec<Header> = sources.iter().map(|s| s.header().clone()).collect();
    let hg = build_graph(g, &logs, None, &failed, &after).map_err(|e| err_text(&e))?;
    match (Driver::new(sources, hg, ALL, headers), &hdr) {
        (Err(_), Err(_)) => Ok(()),
        (Err(e), Ok(())) => Err(format!("building the pipeline failed: {}", err_text(&e))),
        (Ok(_), Err(e)) => Err(format!("building the pipeline succeeded although {}", e)),
        (Ok(mut d), Ok(())) => {
            if !ref_rows(&g2, &mut exp) {
                return Ok(());
            }
            if let Err(e) = d.drive() {
                return Err(format!("drive failed: {}", err_text(&e)));
            }
            let logs = logs.borrow();
            for id in 0..g.nsinks {
                if exp[id].header != logs[id].header {
                    return Err(format!("sink {}: schema {:?}, expected {:?}", id, logs[id].header, exp[id].header));
                }
                diff_rows(&exp[id].rows, &logs[id].rows).map_err(|e| format!("sink {}: {}", id, e))?;
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C07

fn c07_flush(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let g = gen_graph(s, false);
    ctx.describe(|| show_graph(&g));
    ctx.nontrivial = g.rows.iter().any(|r| !r.is_empty());
    check_graph(&g, ctx, true)
}

fn c07_fail(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let g = gen_graph(s, false);
    // reference: how many writes does each sink get
    let mut exp = vec![NodeLog::default(); g.nsinks];
    if ref_headers(&g, &mut exp).is_err() {
        return Ok(());
    }
    if !ref_rows(&g, &mut exp) {
        return Ok(());
    }
    let reachable: Vec<usize> = (0..g.nsinks).filter(|i| exp[*i].header.is_some()).collect();
    if reachable.is_empty() {
        return Ok(());
    }
    let id = reachable[s.below(reachable.len())];
    let writes = exp[id].rows.len();
    let fail = match s.weighted(&[6, 4, 1]) {
        0 if writes > 0 => FailAt::Write(1 + s.below(writes)),
        2 => FailAt::Header,
        _ => FailAt::Flush(1),
    };
    ctx.describe(|| format!("sink {} fails at {:?}\n{}", id, fail, show_graph(&g)));
    ctx.nontrivial = true;
    ctx.label(match fail {
        FailAt::Write(_) => "fails at write",
        FailAt::Flush(_) => "fails at flush",
        FailAt::Header => "fails at header",
    });
    let logs: Logs = Rc::new(RefCell::new(vec![NodeLog::default(); g.nsinks]));
    let failed = Rc::new(RefCell::new(false));
    let after = Rc::new(RefCell::new(0));
    let hg = build_graph(&g, &logs, Some((id, fail)), &failed, &after).map_err(|e| err_text(&e))?;
    let res = run_driver(sources_of(&g), hg, ALL);
    match res {
        Ok(()) => Err(format!(
            "run succeeded although sink {} fails at {:?} (failure {})",
            id,
            fail,
            if *failed.borrow() { "was raised" } else { "was never reached" }
        )),
        Err(e) => {
            let t = err_text(&e);
            if !t.contains(SINK_FAIL) {
                return Err(format!("the sink's error was replaced by: {}", t));
            }
            if *after.borrow() > 0 {
                return Err(format!("{} sink calls after the failure", after.borrow()));
            }
            let logs = logs.borrow();
            for i in 0..g.nsinks {
                if logs[i].rows.len() > exp[i].rows.len() || logs[i].rows[..] != exp[i].rows[..logs[i].rows.len()] {
                    return Err(format!("sink {} did not receive a prefix of its rows", i));
                }
            }
            Ok(())
        }
    }
}

/// real writers: complete file on success, error when the device refuses
fn c07_files(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let ncols = s.urange(1, 4);
    let wide = s.urange(0, 60);
    let nrows = match s.weighted(&[1, 3, 2, 2]) {
        0 => 0,
        1 => s.urange(1, 5),
        2 => s.urange(50, 300),
        _ => s.urange(300, 1500),
    };
    let k = 1 + s.below(3);
    let csv = s.bool();
    let full = s.chance(1, 2);
    let names: Vec<String> = (0..ncols).map(|i| format!("c{}", i)).collect();
    let types = vec![Ty::Str; ncols];
    let cell = "y".repeat(wide);
    let mut rows: Vec<Vec<MRow>> = vec![vec![]; k];
    for i in 0..nrows {
        let src = (i * 7 + i / 3) % k;
        rows[src].push(MRow { ts: i as u64, vals: (0..ncols).map(|c| Val::Str(format!("{}-{}-{}", i, c, cell))).collect() });
    }
    if s.chance(1, 4) {
        rows[0].clear();
    }
    let mut all: Vec<MRow> = rows.iter().flatten().cloned().collect();
    all.sort_by_key(|r| r.ts);
    let target = ctx.file(if csv { "out.csv" } else { "out.dc" });
    let _ = std::fs::remove_file(&target);
    if full {
        std::os::unix::fs::symlink("/dev/full", &target).map_err(|e| format!("harness: {}", e))?;
    } else if s.chance(1, 3) {
        // longer previous content must disappear
        std::fs::write(&target, vec![b'#'; 400_000]).map_err(|e| format!("harness: {}", e))?;
        ctx.label("overwrites an existing file");
    }
    let expect: Vec<u8> = if csv {
        let mut o = format!("timestampNanos,{}\n", names.join(","));
        for r in &all {
            o.push_str(&r.ts.to_string());
            for v in &r.vals {
                if let Val::Str(x) = v {
                    o.push(',');
                    o.push_str(x);
                }
            }
            o.push('\n');
        }
        o.into_bytes()
    } else {
        crate::dcfmt::DcFile::from_table(&Table { names: names.clone(), types: types.clone(), rows: all.clone() }).encode()
    };
    ctx.describe(|| {
        format!("{} inputs with {:?} rows of {} columns to {} ({} bytes){}", k, rows.iter().map(|r| r.len()).collect::<Vec<_>>(), ncols,
            if csv { "csv" } else { "dc" }, expect.len(), if full { " on a full device" } else { "" })
    });
    ctx.nontrivial = !all.is_empty();
    ctx.label(if full { "full device" } else { "regular file" });
    ctx.label_if(expect.len() > 8192, "more than one write buffer");
    let run = || -> CliResult<()> {
        let sink = chopper::write::factory::new_header_sink(Some(target.to_str().unwrap()), None)?;
        let sources: Vec<Box<dyn Source>> =
            rows.iter().map(|r| Box::new(VecSource::new(&names, &types, r)) as Box<dyn Source>).collect();
        run_driver(sources, merged_graph(k, sink)?, ALL)
    };
    let res = run();
    let out = match (&res, full) {
        (Ok(()), true) => Err("run succeeded although the device is full".to_string()),
        (Err(_), true) => Ok(()),
        (Err(e), false) => Err(format!("run failed: {}", err_text(e))),
        (Ok(()), false) => {
            let got = std::fs::read(&target).map_err(|e| format!("output unreadable: {}", e))?;
            if got != expect {
                Err(format!("output differs: {} bytes, expected {}", got.len(), expect.len()))
            } else {
                Ok(())
            }
        }
    };
    let _ = std::fs::remove_file(&target);
    out
}

// ---------------------------------------------------------------- C05 (row level)

#[derive(Default, Debug)]
struct Watch {
    reads: Vec<u64>,
    skipped: Vec<u64>,
    delivered: Vec<u64>,
    ended: Vec<bool>,
    past_end_reads: Vec<u64>,
    violation: Option<String>,
}

struct WatchedSource {
    header: Header,
    i: usize,
    t: u64,
    step: u64,
    n: u64,
    limit: Option<u64>,
    begin: Option<u64>,
    end: Option<u64>,
    w: Rc<RefCell<Watch>>,
}

impl Source for WatchedSource {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        let mut w = self.w.borrow_mut();
        w.reads[self.i] += 1;
        let ahead = w.reads[self.i] - w.delivered[self.i] - w.skipped[self.i];
        if ahead > 1 && w.violation.is_none() {
            w.violation = Some(format!(
                "input {} asked for row {} although {} earlier rows were not yet delivered",
                self.i,
                self.n,
                ahead - 1
            ));
        }
        if w.past_end_reads[self.i] > 0 && w.violation.is_none() {
            w.violation = Some(format!("input {} was read again after a row at or past the end bound", self.i));
        }
        if w.reads[self.i] > 50_000 {
            drop(w);
            panic!("runaway: input read without end");
        }
        if let Some(l) = self.limit {
            if self.n >= l {
                w.reads[self.i] -= 1;
                w.ended[self.i] = true;
                return Ok(None);
            }
        }
        let t = self.t;
        if self.end.map_or(false, |e| t >= e) {
            w.past_end_reads[self.i] += 1;
        } else if self.begin.map_or(false, |b| t < b) {
            w.skipped[self.i] += 1;
        }
        let row = Row { timestamp: t, field_values: vec![FieldValue::Int(self.i as i32), FieldValue::Long(self.n as i64)] };
        self.n += 1;
        self.t = self.t.saturating_add(if self.n % 3 == 0 { self.step } else { self.step / 2 });
        Ok(Some(row))
    }
}

struct WatchSink {
    w: Rc<RefCell<Watch>>,
}
impl HeaderSink for WatchSink {
    fn process_header(self: Box<Self>, _h: &mut Header) -> CliResult<Box<dyn DataSink>> {
        Ok(self)
    }
}
impl DataSink for WatchSink {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        let mut w = self.w.borrow_mut();
        if let Some(FieldValue::Int(i)) = io_rows[0].field_values.first() {
            let i = *i as usize;
            w.delivered[i] += 1;
        }
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}

fn c05_rows(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let k = 1 + s.below(6);
    let infinite = s.chance(2, 3);
    let begin = if s.bool() { Some(s.draw(500)) } else { None };
    let end = if infinite || s.bool() { Some(s.draw(2000)) } else { None };
    let w = Rc::new(RefCell::new(Watch {
        reads: vec![0; k],
        skipped: vec![0; k],
        delivered: vec![0; k],
        ended: vec![false; k],
        past_end_reads: vec![0; k],
        violation: None,
    }));
    let mut sources: Vec<Box<dyn Source>> = Vec::new();
    let mut desc = Vec::new();
    for i in 0..k {
        let limit = if infinite && (i == 0 || s.bool()) { None } else { Some(s.draw(200)) };
        let t = s.draw(300);
        let step = 1 + s.draw(20);
        // an endless input must reach the end bound: step of at least 2 per three rows
        let step = if limit.is_none() { step.max(2) } else { step };
        desc.push(format!("(start {} step {} limit {:?})", t, step, limit));
        sources.push(Box::new(WatchedSource {
            header: header_to(&["src".to_string(), "seq".to_string()], &[Ty::Int, Ty::Long]),
            i,
            t,
            step,
            n: 0,
            limit,
            begin,
            end,
            w: w.clone(),
        }));
    }
    ctx.describe(|| format!("begin {:?} end {:?} inputs {}", begin, end, desc.join(" ")));
    ctx.label_if(infinite, "endless input");
    let g = merged_graph(k, Box::new(WatchSink { w: w.clone() })).map_err(|e| err_text(&e))?;
    run_driver(sources, g, TimestampRange { begin, end }).map_err(|e| format!("drive failed: {}", err_text(&e)))?;
    let w = w.borrow();
    ctx.nontrivial = w.delivered.iter().sum::<u64>() > 1;
    if let Some(v) = &w.violation {
        return Err(v.clone());
    }
    for i in 0..k {
        if w.reads[i] != w.delivered[i] + w.skipped[i] + w.past_end_reads[i] {
            return Err(format!(
                "input {}: {} rows read, {} delivered, {} before begin, {} past end",
                i, w.reads[i], w.delivered[i], w.skipped[i], w.past_end_reads[i]
            ));
        }
    }
    Ok(())
}

pub fn c05_rows_family() -> Family {
    Family { name: "rows", f: c05_rows, quick: 20_000, thorough: 400_000 }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            level: "exploration",
            rule: "1-40 in-memory inputs with independent lengths (0-120), ties, clustered or extreme u64 timestamps, driven through the merge graph of the command line (rows repeated exactly, also without a mark of their input; in the big family up to 1100 inputs or 70000 rows); non-trivial: at least two inputs have rows",
            assumptions: &["inputs are individually non-decreasing in time (documented precondition)"],
            families: vec![
                Family { name: "merge", f: c01, quick: 600_000, thorough: 6_000_000 },
                Family { name: "big", f: c01_big, quick: 300, thorough: 8_000 },
            ],
        },
        Property {
            id: "C02",
            level: "exploration",
            rule: "inputs as in C01 with begin/end bounds drawn from row timestamps (exact, +1, -1), extremes or none, also given as text (big family as in C01); non-trivial: the bounds exclude at least one row",
            assumptions: &["inputs are individually non-decreasing in time (documented precondition)"],
            families: vec![
                Family { name: "range", f: c02, quick: 600_000, thorough: 6_000_000 },
                Family { name: "big", f: c02_big, quick: 300, thorough: 8_000 },
            ],
        },
        Property {
            id: "C03",
            level: "exploration",
            rule: "random acyclic graphs (1-4 inputs, up to ~16 chains) of programmable sinks (pass, drop, duplicate, mutate, replace, lag, batch with up to thousands of rows at once, add column), splits, merges and tees over generated rows; every sink's received rows compared with a reference interpreter; non-trivial: graph has a split, merge, tee or fan-out sink and rows flow",
            assumptions: &["split targets have one parent and merges have the declared number of inputs, as the public builders require"],
            families: vec![
                Family { name: "graph", f: c03, quick: 150_000, thorough: 4_000_000 },
                Family { name: "big", f: c03_big, quick: 600, thorough: 15_000 },
            ],
        },
        Property {
            id: "C04",
            level: "exploration",
            rule: "1-5 inputs with distinct or (nearly) equal schemas, own chains or merged, too few chains; graphs that name missing chains or whose merges get more or fewer inputs than announced; graphs of tees, splits and merges whose sinks add, rename and remove columns; non-trivial: more than one input, or a schema-changing sink in a graph of several chains",
            assumptions: &[],
            families: vec![
                Family { name: "schema", f: c04, quick: 450_000, thorough: 4_500_000 },
                Family { name: "graph", f: c04_graph, quick: 240_000, thorough: 2_400_000 },
                Family { name: "wrong", f: c04_wrong, quick: 100_000, thorough: 1_000_000 },
                Family { name: "big", f: c04_big, quick: 400, thorough: 10_000 },
            ],
        },
        Property {
            id: "C07",
            level: "exploration",
            rule: "graphs as in C03 checked for a flush after the last row of every sink; the same with one sink failing at a chosen header, write or flush call; real CSV/DC files on a regular file or a full device; the chop process writing to a file, a pipe, a closed pipe, a full device; non-trivial: rows flow, or a failure is injected",
            assumptions: &["/dev/full refuses writes"],
            families: vec![
                Family { name: "flush", f: c07_flush, quick: 45_000, thorough: 450_000 },
                Family { name: "fail", f: c07_fail, quick: 75_000, thorough: 750_000 },
                Family { name: "files", f: c07_files, quick: 6_000, thorough: 120_000 },
                Family { name: "process", f: crate::p_cli::c07_process, quick: 400, thorough: 8_000 },
            ],
        },
    ]
}
