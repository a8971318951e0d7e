use chopper::decompress::zst::ZstReader; use std::io::{BufReader, Read};
fn rss() -> usize { let s = std::fs::read_to_string("/proc/self/status").unwrap(); s.lines().find(|l| l.starts_with("VmHWM")).unwrap().split_whitespace().nth(1).unwrap().parse().unwrap() }
struct Gen { head: Vec<u8>, n: usize }
impl Read for Gen { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
  if self.head.is_empty() { if self.n == 0 { return Ok(0); } self.n -= 1; self.head = ((100_000u32 << 3) | 2 | if self.n == 0 { 1 } else { 0 }).to_le_bytes()[..3].to_vec(); self.head.push(b'x'); }
  let n = b.len().min(self.head.len()); b[..n].copy_from_slice(&self.head[..n]); self.head.drain(..n); Ok(n) } }
fn main() {
  let mut r = ZstReader::new(BufReader::new(Gen { head: vec![0x28, 0xb5, 0x2f, 0xfd, 0, 0x40], n: 1500 })).unwrap();
  let mut b = vec![0; 8192]; let mut n = 0;
  loop { let k = r.read(&mut b).unwrap(); if k == 0 { break; } n += k; }
  if n != 150_000_000 || rss() > 60_000 { eprintln!("{} bytes, {} KB", n, rss()); std::process::exit(1); }
}
