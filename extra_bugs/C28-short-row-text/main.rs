use chopper::chopper::chopper::*; use chopper::chopper::types::*;
use chopper::source::{csv_configs::*, csv_source::CSVSource}; use chopper::util::reader::ChopperBufPreviewer; use chopper::util::tz::ChopperTz; use chopper::cli::util::YesNoAuto;
fn main() { let data: &[u8] = b"time,a,b,c,d,e,f,g,h,i,j\n1500000000,1,2,3,4,5,6,7,8,9\n"; let r: Box<dyn std::io::Read> = Box::new(data);
 let c = CSVInputConfig::new(None, YesNoAuto::Yes, TimestampConfig::new(TimestampColConfig::Auto, TimestampFmtConfig::Auto, ChopperTz::new_always_fails())).unwrap();
 let mut s = CSVSource::new(ChopperBufPreviewer::new(r).unwrap(), &c).unwrap(); let s: &mut dyn Source = &mut s; let row = s.next_row().unwrap().unwrap();
 if row.field_values[10] != FieldValue::None { eprintln!("{:?}", row.field_values); std::process::exit(1) } }
