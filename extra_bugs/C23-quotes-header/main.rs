use chopper::chopper::types::*; use chopper::write::factory::new_header_sink;
fn main() { let mut h = Header::new(vec!["a".into(), "b,c".into()], vec![FieldType::Int; 2]);
 { let mut s = new_header_sink(Some("a.csv"), None).unwrap().process_header(&mut h).unwrap(); s.flush().unwrap(); }
 if std::fs::read_to_string("a.csv").unwrap() != "timestampNanos,a,b,c\n" { std::process::exit(1) } }
