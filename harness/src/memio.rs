//! In-memory byte inputs with controlled chunking and faults, exposed through a StreamingTransport;
//! row-level sources and recording sinks.
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, Read};
use std::path::Path;
use std::rc::Rc;

use chopper::chopper::chopper::{DataSink, HeaderSink, Source};
use chopper::chopper::types::{Header, Row};
use chopper::cli::util::YesNoAuto;
use chopper::error::{CliResult, Error};
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::InputFactory;
use chopper::source::csv_configs::{CSVInputConfig, TimestampColConfig, TimestampConfig, TimestampFmtConfig};
use chopper::source::source_factory::SourceFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::tz::ChopperTz;

use crate::engine::Src;
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Chunking {
    Whole,
    Fixed(usize),
    Cycle(Vec<usize>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub pos: usize,
    pub kind: io::ErrorKind,
    pub then: Then,
}

/// what reads give after the one that failed
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Then {
    Fail,
    End,
    Data,
}

pub fn gen_then(s: &mut crate::engine::Src) -> Then {
    match s.weighted(&[3, 2, 1]) {
        0 => Then::Fail,
        1 => Then::End,
        _ => Then::Data,
    }
}

pub const FAULT_TEXT: &str = "injected fault 7041";

#[derive(Clone, Debug)]
pub struct MemFile {
    pub data: Rc<Vec<u8>>,
    pub chunking: Chunking,
    pub fault: Option<Fault>,
    /// the transport says it can open this, but opening fails
    pub open_fault: Option<io::ErrorKind>,
    /// number of Interrupted errors to deliver before data at these positions (std says: retry)
    pub served: Rc<RefCell<ReadStats>>,
}

#[derive(Clone, Debug, Default)]
pub struct ReadStats {
    pub opens: usize,
    pub reads: u64,
    pub bytes: usize,
    pub reads_after_end: u64,
}

impl MemFile {
    pub fn new(data: Vec<u8>, chunking: Chunking) -> MemFile {
        MemFile { data: Rc::new(data), chunking, fault: None, open_fault: None, served: Rc::new(RefCell::new(ReadStats::default())) }
    }
    pub fn whole(data: Vec<u8>) -> MemFile {
        MemFile::new(data, Chunking::Whole)
    }
    pub fn with_fault(mut self, f: Fault) -> MemFile {
        self.fault = Some(f);
        self
    }
    pub fn with_open_fault(mut self, k: io::ErrorKind) -> MemFile {
        self.open_fault = Some(k);
        self
    }
    pub fn reader(&self) -> MemReader {
        MemReader { f: self.clone(), pos: 0, step: 0, failed: false }
    }
}

pub struct MemReader {
    f: MemFile,
    pos: usize,
    step: usize,
    failed: bool,
}

impl Read for MemReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut st = self.f.served.borrow_mut();
        st.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut end = self.f.data.len();
        let fault = self.f.fault.filter(|x| !self.failed || x.then != Then::Data);
        if let Some(fault) = fault {
            if self.pos >= fault.pos && self.failed && fault.then == Then::End {
                st.reads_after_end += 1;
                return Ok(0);
            }
            if self.pos >= fault.pos {
                self.failed = true;
                st.reads_after_end += 1;
                if st.reads_after_end > 20_000 {
                    drop(st);
                    panic!("runaway: more than 20000 reads after the end of an input");
                }
                return Err(io::Error::new(fault.kind, FAULT_TEXT));
            }
            end = end.min(fault.pos);
        }
        let avail = end - self.pos;
        if avail == 0 {
            st.reads_after_end += 1;
            if st.reads_after_end > 20_000 {
                drop(st);
                panic!("runaway: more than 20000 reads after the end of an input");
            }
            return Ok(0);
        }
        let lim = match &self.f.chunking {
            Chunking::Whole => usize::MAX,
            Chunking::Fixed(n) => *n,
            Chunking::Cycle(v) => {
                self.step += 1;
                v[(self.step - 1) % v.len()]
            }
        };
        let n = avail.min(buf.len()).min(lim.max(1));
        buf[..n].copy_from_slice(&self.f.data[self.pos..self.pos + n]);
        self.pos += n;
        st.bytes += n;
        Ok(n)
    }
}

pub fn gen_chunking(s: &mut Src, len: usize) -> Chunking {
    match s.weighted(&[3, 2, 3]) {
        0 => Chunking::Whole,
        1 => {
            // very small fixed chunks only for moderate inputs
            let lo = if len > 200_000 { 64 } else { 1 };
            Chunking::Fixed(lo + *s.pick(&[0usize, 1, 2, 6, 7, 8, 15, 63, 511, 4095, 8190, 8191, 8192]))
        }
        _ => {
            let big = len > 200_000;
            Chunking::Cycle(s.many(1, 6, 3, |s| {
                if big {
                    64 + s.below(9000)
                } else {
                    match s.weighted(&[3, 2, 2]) {
                        0 => 1 + s.below(9),
                        1 => 1 + s.below(300),
                        _ => 1 + s.below(9000),
                    }
                }
            }))
        }
    }
}

pub type Files = Rc<RefCell<HashMap<String, MemFile>>>;

#[derive(Clone)]
pub struct MemTransport {
    pub files: Files,
    pub scheme: String,
}

pub const MEM: &str = "mem:/";

impl MemTransport {
    pub fn new() -> MemTransport {
        MemTransport { files: Rc::new(RefCell::new(HashMap::new())), scheme: MEM.to_string() }
    }
    pub fn single(name: &str, f: MemFile) -> (MemTransport, String) {
        let t = MemTransport::new();
        let p = t.add(name, f);
        (t, p)
    }
    pub fn add(&self, name: &str, f: MemFile) -> String {
        let p = format!("{}{}", self.scheme, name);
        self.files.borrow_mut().insert(p.clone(), f);
        p
    }
}

impl StreamingTransport for MemTransport {
    fn can_open(&self, path: &Path) -> bool {
        path.to_str().map(|p| self.files.borrow().contains_key(p)).unwrap_or(false)
    }
    fn open(&self, path: &Path) -> io::Result<Box<dyn Read>> {
        match self.files.borrow().get(path.to_str().unwrap_or("")) {
            Some(f) => {
                f.served.borrow_mut().opens += 1;
                if let Some(k) = f.open_fault {
                    return Err(io::Error::new(k, FAULT_TEXT));
                }
                Ok(Box::new(f.reader()))
            }
            None => Err(io::Error::new(io::ErrorKind::NotFound, "no such memory file")),
        }
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "mem"
    }
}

// ---------------------------------------------------------------- opening and draining

pub fn csv_cfg(
    delim: Option<&str>,
    header: YesNoAuto,
    col: TimestampColConfig,
    fmt: TimestampFmtConfig,
    tz: ChopperTz,
) -> CliResult<CSVInputConfig> {
    CSVInputConfig::new(delim, header, TimestampConfig::new(col, fmt, tz))
}

pub fn csv_cfg_default() -> CSVInputConfig {
    csv_cfg(None, YesNoAuto::Auto, TimestampColConfig::Auto, TimestampFmtConfig::Auto, ChopperTz::new_always_fails())
        .ok()
        .expect("cfg")
}

pub fn csv_cfg_ns(delim: Option<&str>, header: YesNoAuto) -> CSVInputConfig {
    csv_cfg(
        delim,
        header,
        TimestampColConfig::Index(0),
        TimestampFmtConfig::Epoch(chopper::source::csv_timestamp::TimestampUnits::Nanos),
        ChopperTz::new_always_fails(),
    )
    .ok()
    .expect("cfg")
}

pub fn open_with(
    cfg: CSVInputConfig,
    factories: Option<Vec<Box<dyn SourceFactory>>>,
    transports: Option<Vec<Box<dyn StreamingTransport>>>,
    path: &str,
    format: InputFormat,
) -> CliResult<Box<dyn Source>> {
    let mut f = InputFactory::new(cfg, factories, transports)?;
    f.create_source_from_input(&Input { input: InputType::Path(path.to_string()), format })
}

pub fn open_mem(cfg: CSVInputConfig, name: &str, file: MemFile, format: InputFormat) -> CliResult<Box<dyn Source>> {
    let (t, p) = MemTransport::single(name, file);
    open_with(cfg, None, Some(vec![Box::new(t)]), &p, format)
}

/// everything read from a source until end or error
#[derive(Debug, Clone, Default)]
pub struct Drained {
    pub names: Vec<String>,
    pub types: Vec<Ty>,
    pub rows: Vec<MRow>,
    pub err: Option<String>,
    pub open_failed: bool,
    pub header_changed: bool,
}

pub const ROW_LIMIT: usize = 3_000_000;

pub fn drain(src: CliResult<Box<dyn Source>>) -> Result<Drained, String> {
    let mut d = Drained::default();
    match src {
        Err(e) => {
            d.err = Some(err_text(&e));
            d.open_failed = true;
        }
        Ok(mut s) => {
            let (n, t) = header_from(s.header());
            d.names = n;
            d.types = t;
            loop {
                match s.next_row() {
                    Ok(Some(r)) => {
                        d.rows.push(row_from(&r)?);
                        if d.rows.len() > ROW_LIMIT {
                            return Err("runaway: row limit exceeded".into());
                        }
                    }
                    Ok(None) => {
                        // the end must be stable
                        match s.next_row() {
                            Ok(Some(_)) => return Err("a row was returned after the end".into()),
                            _ => {}
                        }
                        break;
                    }
                    Err(e) => {
                        d.err = Some(err_text(&e));
                        break;
                    }
                }
            }
            let (n, t) = header_from(s.header());
            d.header_changed = n != d.names || t != d.types;
        }
    }
    Ok(d)
}

pub fn err_text(e: &Error) -> String {
    format!("{}", e)
}

// ---------------------------------------------------------------- row-level source and sink

pub struct VecSource {
    pub header: Header,
    pub rows: std::collections::VecDeque<Row>,
    pub calls_after_end: usize,
}

impl VecSource {
    pub fn new(names: &[String], types: &[Ty], rows: &[MRow]) -> VecSource {
        VecSource { header: header_to(names, types), rows: rows.iter().map(row_to).collect(), calls_after_end: 0 }
    }
}

impl Source for VecSource {
    fn header(&self) -> &Header {
        &self.header
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        match self.rows.pop_front() {
            Some(r) => Ok(Some(r)),
            None => {
                self.calls_after_end += 1;
                if self.calls_after_end > 10_000 {
                    panic!("runaway: source polled 10000 times after its end");
                }
                Ok(None)
            }
        }
    }
}

#[derive(Default, Debug, Clone)]
pub struct SinkLog {
    pub header: Option<(Vec<String>, Vec<Ty>)>,
    pub rows: Vec<MRow>,
    pub flushes: usize,
    pub rows_after_flush: usize,
    pub bad: Option<String>,
}

#[derive(Clone)]
pub struct Capture(pub Rc<RefCell<SinkLog>>);

impl Capture {
    pub fn new() -> Capture {
        Capture(Rc::new(RefCell::new(SinkLog::default())))
    }
}

impl HeaderSink for Capture {
    fn process_header(self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
        self.0.borrow_mut().header = Some(header_from(header));
        Ok(self.boxed())
    }
}

impl DataSink for Capture {
    fn write_row(&mut self, io_rows: &mut Vec<Row>) -> CliResult<()> {
        let mut l = self.0.borrow_mut();
        if io_rows.len() != 1 {
            l.bad = Some(format!("sink called with {} rows", io_rows.len()));
        }
        for r in io_rows.iter() {
            match row_from(r) {
                Ok(r) => l.rows.push(r),
                Err(e) => l.bad = Some(e),
            }
        }
        l.rows_after_flush += 1;
        if l.rows.len() > ROW_LIMIT {
            drop(l);
            panic!("runaway: sink received too many rows");
        }
        Ok(())
    }
    fn flush(&mut self) -> CliResult<()> {
        let mut l = self.0.borrow_mut();
        l.flushes += 1;
        l.rows_after_flush = 0;
        Ok(())
    }
    fn boxed(self) -> Box<dyn DataSink> {
        Box::new(self)
    }
}
