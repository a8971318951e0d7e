fn main() { let mut b: Vec<u8> = vec![0,0,0,0,0x44,0x43,0x41,0x54,0,2,0,0,0,0,0,0,0,1,0,0,0,1,b'a',0,0,0,3,b'I',b'n',b't',255,255,255,255];
 b.extend(&[0,0,0,0,0,0,0,1,0,0,0,0,7]); if chopper::source::dc_source::DCSource::new(&b[..]).is_ok() { std::process::exit(1) } }
