use chopper::chopper::chopper::*; use chopper::chopper::types::*;
use chopper::source::{csv_configs::*, csv_source::CSVSource}; use chopper::util::reader::ChopperBufPreviewer; use chopper::util::tz::ChopperTz; use chopper::cli::util::YesNoAuto;
#[allow(dead_code)] fn csv(data: &'static [u8], h: YesNoAuto) -> CSVSource { let r: Box<dyn std::io::Read> = Box::new(data);
 let c = CSVInputConfig::new(None, h, TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Auto, ChopperTz::new_always_fails())).unwrap();
 CSVSource::new(ChopperBufPreviewer::new(r).unwrap(), &c).unwrap() }
fn main() { let s = csv(b"time,a,\n1500000000,1\n", YesNoAuto::Yes); let s: &dyn Source = &s; if s.header().field_names().len() != 3 { std::process::exit(1) } }
