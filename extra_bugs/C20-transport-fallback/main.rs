use chopper::input::input_factory::InputFactory; use chopper::transport::streaming::streaming_transport::StreamingTransport; use std::{io, path::Path};
use chopper::cli::util::YesNoAuto; use chopper::source::csv_configs::*; use chopper::util::tz::ChopperTz;
struct T; impl StreamingTransport for T { fn can_open(&self, _p: &Path) -> bool { true } fn open(&self, _p: &Path) -> io::Result<Box<dyn io::Read>> { Err(io::Error::new(io::ErrorKind::Other, "denied")) }
 fn box_clone(&self) -> Box<dyn StreamingTransport> { Box::new(T) } fn name(&self) -> &str { "t" } }
fn main() { std::fs::write("a.csv", "time,a\n1500000000000000000,1\n").unwrap();
 let c = CSVInputConfig::new(None, YesNoAuto::Yes, TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Auto, ChopperTz::new_always_fails())).unwrap();
 let mut f = InputFactory::new(c, None, Some(vec![Box::new(T)])).unwrap(); if f.create_source_from_path("a.csv").is_ok() { std::process::exit(1) } }
