use chopper::chopper::chopper::*; use chopper::chopper::types::*; use chopper::chopper::header_graph::*;
use chopper::driver::{driver::Driver, merge_join::MergeJoin, split::Split};
use chopper::error::{CliResult, Error};
use std::rc::Rc; use std::cell::RefCell;
#[allow(dead_code)] pub struct Mem { h: Header, rows: std::vec::IntoIter<Row>, reads: Rc<RefCell<usize>> }
impl Source for Mem { fn header(&self) -> &Header { &self.h }
  fn next_row(&mut self) -> CliResult<Option<Row>> { *self.reads.borrow_mut() += 1; Ok(self.rows.next()) } }
#[allow(dead_code)] pub fn hdr(n: &[&str]) -> Header { Header::new(n.iter().map(|s| s.to_string()).collect(), n.iter().map(|_| FieldType::Int).collect()) }
#[allow(dead_code)] pub fn row(t: u64, v: i32) -> Row { Row { timestamp: t, field_values: vec![FieldValue::Int(v)] } }
#[allow(dead_code)] pub fn mem(rows: Vec<Row>) -> (Box<dyn Source>, Rc<RefCell<usize>>) { let c = Rc::new(RefCell::new(0)); (Box::new(Mem { h: hdr(&["a"]), rows: rows.into_iter(), reads: c.clone() }), c) }
#[derive(Clone)] #[allow(dead_code)] pub struct Rec { pub log: Rc<RefCell<Vec<String>>>, pub name: &'static str }
#[allow(dead_code)] impl Rec { pub fn node(name: &'static str, log: &Rc<RefCell<Vec<String>>>) -> HeaderNode { HeaderNode::HeaderSink(Box::new(Rec { log: log.clone(), name })) } }
impl HeaderSink for Rec { fn process_header(self: Box<Self>, h: &mut Header) -> CliResult<Box<dyn DataSink>> { self.log.borrow_mut().push(format!("{} header {:?}", self.name, h.field_names())); Ok(self) } }
impl DataSink for Rec {
  fn write_row(&mut self, r: &mut Vec<Row>) -> CliResult<()> { for r in r.iter() { self.log.borrow_mut().push(format!("{} {} {:?}", self.name, r.timestamp, r.field_values)); } Ok(()) }
  fn flush(&mut self) -> CliResult<()> { self.log.borrow_mut().push(format!("{} flush", self.name)); Ok(()) }
  fn boxed(self) -> Box<dyn DataSink> { Box::new(self) } }
#[allow(dead_code)] pub struct Dup(pub usize);
impl HeaderSink for Dup { fn process_header(self: Box<Self>, _h: &mut Header) -> CliResult<Box<dyn DataSink>> { Ok(self) } }
impl DataSink for Dup {
  fn write_row(&mut self, r: &mut Vec<Row>) -> CliResult<()> { let b = r.remove(0); for i in 0..self.0 { let mut x = b.clone(); x.field_values = vec![FieldValue::Int(i as i32)]; r.push(x); } Ok(()) }
  fn boxed(self) -> Box<dyn DataSink> { Box::new(self) } }
#[allow(dead_code)] pub fn merge_node(n: usize) -> HeaderNode { let m = MergeJoin::new(n).unwrap(); let t = m.get_new_header_count_tracker(); HeaderNode::MergeHeaderSink(m, t) }
#[allow(dead_code)] pub fn split_node(c: Vec<usize>) -> HeaderNode { let m = Split::new(c); let t = m.get_new_header_count_tracker(); HeaderNode::SplitHeaderSink(m, t) }
#[allow(dead_code)] pub fn chain(n: Vec<HeaderNode>) -> HeaderChain { HeaderChain::new(n) }
#[allow(dead_code)] pub fn check(ok: bool, what: &str) { if !ok { eprintln!("broken: {}", what); std::process::exit(1) } }
#[allow(dead_code)] fn _unused(_: Error) {}

fn main() { let log = Rc::new(RefCell::new(Vec::new())); let mut src = vec![]; let mut h = vec![]; let mut ch = vec![];
  for i in 0..300 { let (s, _) = mem(vec![row(i as u64, i)]); h.push(s.header().clone()); src.push(s);
    let name: &'static str = Box::leak(format!("s{}", i).into_boxed_str()); ch.push(chain(vec![Rec::node(name, &log)])); }
  let mut d = Driver::new(src, HeaderGraph::new(ch), TIMESTAMP_RANGE_ALL, h).unwrap();
  let d: &mut dyn ChopperDriver = &mut d; d.drive().unwrap();
  check(log.borrow().iter().any(|l| l.starts_with("s280 280 ")), "row of input 280"); }
