use chopper::source::dc_source::DCSource; use chopper::chopper::chopper::Source;
fn main() {
  let mut f = 0x44434154u64.to_be_bytes().to_vec(); f.extend(&[0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, b'a', 0, 0, 0, 18]); f.extend(b"Ljava.lang.String;"); f.extend(&[255; 4]);
  f.extend(&[0, 0, 0, 0, 0, 0, 0, 5, 0, 0x80, 0]);
  let mut s = DCSource::new(&f[..]).map(|s| Box::new(s) as Box<dyn Source>).unwrap();
  if s.next_row().is_ok() { eprintln!("accepted"); std::process::exit(1); }
}
