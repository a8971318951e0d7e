use chopper::chopper::types::*; use chopper::chopper::chopper::*; use chopper::write::factory::new_header_sink;
fn main() { let n = 2050; let mut h = Header::new((0..n).map(|i| format!("c{}", i)).collect(), vec![FieldType::Int; n]);
 let row = Row { timestamp: 1, field_values: (0..n).map(|i| if i % 3 == 0 { FieldValue::None } else { FieldValue::Int(i as i32) }).collect() };
 { let mut s = new_header_sink(Some("a.dc"), None).unwrap().process_header(&mut h).unwrap();
 s.write_row(&mut vec![row.clone()]).unwrap(); s.flush().unwrap(); }
 let mut s = chopper::source::dc_source::DCSource::new(std::fs::File::open("a.dc").unwrap()).unwrap(); let s: &mut dyn Source = &mut s;
 match s.next_row() { Ok(Some(r)) if r.field_values == row.field_values => (), _ => std::process::exit(1) } }
