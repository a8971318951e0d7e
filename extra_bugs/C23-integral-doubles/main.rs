use chopper::chopper::types::*; use chopper::chopper::chopper::*; use chopper::write::factory::new_header_sink;
fn main() {
  let mut h = Header::new(vec!["a".to_string()], vec![FieldType::Double]);
  let mut s = new_header_sink(Some("x.csv"), None).unwrap().process_header(&mut h).unwrap();
  s.write_row(&mut vec![Row { timestamp: 5, field_values: vec![FieldValue::Double(1e19)] }]).unwrap(); s.flush().unwrap();
  let t = std::fs::read_to_string("x.csv").unwrap();
  let v: f64 = t.lines().nth(1).unwrap().split(',').nth(1).unwrap().parse().unwrap();
  if v != 1e19 { eprintln!("{}", t); std::process::exit(1); }
}
