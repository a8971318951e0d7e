fn main() { let mut b: Vec<u8> = vec![0, 0, 0, 0]; b.extend(b"DCAT"); b.extend(&[0, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1, b'a', 0, 0, 0, 1, b'i', 255, 255, 255, 255]);
 if chopper::source::dc_source::DCSource::new(&b[..]).is_ok() { std::process::exit(1) }
 let n = b.len(); b[n - 5] = b'I'; if chopper::source::dc_source::DCSource::new(&b[..]).is_err() { std::process::exit(1) } }
