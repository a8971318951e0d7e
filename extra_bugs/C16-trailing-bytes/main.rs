use chopper::chopper::chopper::*;
fn main() { let mut b: Vec<u8> = vec![0, 0, 0, 0]; b.extend(b"DCAT"); b.extend(&[0, 2, 0, 0, 0, 0, 0, 0, 0, 0]); b.extend(&[0, 0, 0]);
 let mut s = chopper::source::dc_source::DCSource::new(&b[..]).unwrap(); let s: &mut dyn Source = &mut s; if s.next_row().is_ok() { std::process::exit(1) } }
