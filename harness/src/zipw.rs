//! Zip archive writer with full control over layout, from APPNOTE.TXT.
use crate::comp::*;
use crate::engine::Src;

#[derive(Clone, Debug)]
pub struct Member {
    pub name: Vec<u8>,
    pub utf8: bool,
    pub method: u16,
    pub data: Vec<u8>,
    pub flags: u16,
    pub data_descriptor: bool,
    pub local_extra: Vec<u8>,
    pub central_extra_before: Vec<u8>,
    pub central_extra_after: Vec<u8>,
    pub comment: Vec<u8>,
    /// bits: 1 uncompressed size, 2 compressed size, 4 offset moved to the zip64 extra field
    pub zip64_bits: u8,
    pub zip64_local: bool,
    pub disk_start: u16,
    pub crc_xor: u32,
}

#[derive(Clone, Debug)]
pub struct ZipSpec {
    pub prefix: Vec<u8>,
    pub members: Vec<Member>,
    pub gap_before_cd: Vec<u8>,
    pub gap_before_end: Vec<u8>,
    pub comment: Vec<u8>,
    pub zip64_end: bool,
    pub zip64_ext: Vec<u8>,
    /// bits: 1 disk numbers, 2 entry counts, 4 size, 8 offset set to all ones in the old record
    pub ones: u8,
    pub disk: u16,
    pub cd_disk: u16,
    pub count_delta: i32,
    pub count_total_delta: i32,
    pub z64_disks: u32,
    pub z64_disk: u32,
    pub z64_count_delta: i64,
    /// zero bytes that are not stored in `Built::bytes`: before the first member, within its (stored)
    /// data, before the central directory, before the end records
    pub holes: [u64; 4],
}

impl Default for ZipSpec {
    fn default() -> Self {
        ZipSpec {
            prefix: vec![],
            members: vec![],
            gap_before_cd: vec![],
            gap_before_end: vec![],
            comment: vec![],
            zip64_end: false,
            zip64_ext: vec![],
            ones: 0,
            disk: 0,
            cd_disk: 0,
            count_delta: 0,
            count_total_delta: 0,
            z64_disks: 1,
            z64_disk: 0,
            z64_count_delta: 0,
            holes: [0; 4],
        }
    }
}

pub struct Built {
    pub bytes: Vec<u8>,
    /// (start, compressed length) of the data of each member
    pub data_at: Vec<(usize, usize)>,
    pub cd_at: usize,
    pub local_at: Vec<usize>,
    pub end_at: usize,
    /// position in `bytes` and number of zero bytes to be thought there
    pub holes: Vec<(usize, u64)>,
}

/// the archive with its holes
pub struct Sparse {
    pub bytes: Vec<u8>,
    pub holes: Vec<(usize, u64)>,
    pub pos: u64,
}

impl Sparse {
    pub fn len(&self) -> u64 {
        self.bytes.len() as u64 + self.holes.iter().map(|h| h.1).sum::<u64>()
    }
}

impl std::io::Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        // runs of real bytes and of zeros in turn
        let mut at = 0u64;
        let mut from = 0usize;
        let end = self.bytes.len();
        for (p, n) in self.holes.iter().copied().chain([(end, 0)]) {
            let real = (p - from) as u64;
            if self.pos < at + real {
                let i = from + (self.pos - at) as usize;
                let k = buf.len().min(p - i);
                buf[..k].copy_from_slice(&self.bytes[i..i + k]);
                self.pos += k as u64;
                return Ok(k);
            }
            at += real;
            from = p;
            if self.pos < at + n {
                let k = (buf.len() as u64).min(at + n - self.pos) as usize;
                buf[..k].iter_mut().for_each(|b| *b = 0);
                self.pos += k as u64;
                return Ok(k);
            }
            at += n;
        }
        Ok(0)
    }
}

impl std::io::Seek for Sparse {
    fn seek(&mut self, f: std::io::SeekFrom) -> std::io::Result<u64> {
        let n = match f {
            std::io::SeekFrom::Start(n) => n as i128,
            std::io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
            std::io::SeekFrom::End(d) => self.len() as i128 + d as i128,
        };
        if n < 0 || n > i64::MAX as i128 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek"));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// crc32 of data followed by n zero bytes
pub fn crc32_zeros(data: &[u8], n: u64) -> u32 {
    // a linear map per bit of n on the register
    let mut reg = !crc32(data);
    let step = |c: u32| -> u32 {
        let mut c = c;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
        c
    };
    let mut m: Vec<u32> = (0..32).map(|b| step(1 << b)).collect();
    let apply = |m: &[u32], c: u32| (0..32).filter(|b| c >> b & 1 == 1).fold(0, |a, b| a ^ m[b]);
    let mut n = n;
    while n > 0 {
        if n & 1 == 1 {
            reg = apply(&m, reg);
        }
        m = m.iter().map(|c| apply(&m, *c)).collect();
        n >>= 1;
    }
    !reg
}

pub fn compress_member(s: &mut Src, method: u16, data: &[u8]) -> Vec<u8> {
    match method {
        8 => deflate(s, data),
        12 => {
            use std::io::Write;
            let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(1 + s.below(9) as u32));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        _ => data.to_vec(),
    }
}

pub fn build(s: &mut Src, z: &ZipSpec) -> Built {
    let mut o = z.prefix.clone();
    let mut data_at = Vec::new();
    let mut local_at = Vec::new();
    let mut cd = Vec::new();
    let mut holes = Vec::new();
    let mut shift = 0u64;
    for (mi, m) in z.members.iter().enumerate() {
        let c = compress_member(s, m.method, &m.data);
        let hole = if mi == 0 { z.holes[1] } else { 0 };
        assert!(hole == 0 || m.method == 0);
        let crc = (if hole > 0 { crc32_zeros(&m.data, hole) } else { crc32(&m.data) }) ^ m.crc_xor;
        if mi == 0 && z.holes[0] > 0 {
            holes.push((o.len(), z.holes[0]));
            shift += z.holes[0];
        }
        let (ulen, clen) = (m.data.len() as u64 + hole, c.len() as u64 + hole);
        let off = o.len() as u64 + shift;
        local_at.push(o.len());
        let mut flags = m.flags;
        if m.utf8 {
            flags |= 1 << 11;
        }
        if m.data_descriptor {
            flags |= 8;
        }
        let mut lx = m.local_extra.clone();
        if m.zip64_local {
            lx.extend_from_slice(&1u16.to_le_bytes());
            lx.extend_from_slice(&16u16.to_le_bytes());
            let (u, cs) = if m.data_descriptor { (0, 0) } else { (ulen, clen) };
            lx.extend_from_slice(&u.to_le_bytes());
            lx.extend_from_slice(&cs.to_le_bytes());
        }
        o.extend_from_slice(&0x0403_4b50u32.to_le_bytes());
        o.extend_from_slice(&20u16.to_le_bytes());
        o.extend_from_slice(&flags.to_le_bytes());
        o.extend_from_slice(&m.method.to_le_bytes());
        o.extend_from_slice(&0x6000u16.to_le_bytes());
        o.extend_from_slice(&0x4e21u16.to_le_bytes());
        let (lc, lcs, lus) = if m.data_descriptor {
            (0, if m.zip64_local { u32::MAX } else { 0 }, if m.zip64_local { u32::MAX } else { 0 })
        } else if m.zip64_local {
            (crc, u32::MAX, u32::MAX)
        } else {
            (crc, clen as u32, ulen as u32)
        };
        o.extend_from_slice(&lc.to_le_bytes());
        o.extend_from_slice(&lcs.to_le_bytes());
        o.extend_from_slice(&lus.to_le_bytes());
        o.extend_from_slice(&(m.name.len() as u16).to_le_bytes());
        o.extend_from_slice(&(lx.len() as u16).to_le_bytes());
        o.extend_from_slice(&m.name);
        o.extend_from_slice(&lx);
        data_at.push((o.len(), c.len()));
        o.extend_from_slice(&c);
        if hole > 0 {
            holes.push((o.len(), hole));
            shift += hole;
        }
        if m.data_descriptor {
            if s.bool() {
                o.extend_from_slice(&0x0807_4b50u32.to_le_bytes());
            }
            o.extend_from_slice(&crc.to_le_bytes());
            if m.zip64_local {
                o.extend_from_slice(&clen.to_le_bytes());
                o.extend_from_slice(&ulen.to_le_bytes());
            } else {
                o.extend_from_slice(&(clen as u32).to_le_bytes());
                o.extend_from_slice(&(ulen as u32).to_le_bytes());
            }
        }
        // central header
        let mut zx = Vec::new();
        if m.zip64_bits & 1 != 0 {
            zx.extend_from_slice(&ulen.to_le_bytes());
        }
        if m.zip64_bits & 2 != 0 {
            zx.extend_from_slice(&clen.to_le_bytes());
        }
        if m.zip64_bits & 4 != 0 {
            zx.extend_from_slice(&off.to_le_bytes());
        }
        let mut x = m.central_extra_before.clone();
        if m.zip64_bits != 0 {
            x.extend_from_slice(&1u16.to_le_bytes());
            x.extend_from_slice(&(zx.len() as u16).to_le_bytes());
            x.extend_from_slice(&zx);
        }
        x.extend_from_slice(&m.central_extra_after);
        cd.extend_from_slice(&0x0201_4b50u32.to_le_bytes());
        cd.extend_from_slice(&0x0314u16.to_le_bytes());
        cd.extend_from_slice(&20u16.to_le_bytes());
        cd.extend_from_slice(&flags.to_le_bytes());
        cd.extend_from_slice(&m.method.to_le_bytes());
        cd.extend_from_slice(&0x6000u16.to_le_bytes());
        cd.extend_from_slice(&0x4e21u16.to_le_bytes());
        cd.extend_from_slice(&crc.to_le_bytes());
        cd.extend_from_slice(&if m.zip64_bits & 2 != 0 { u32::MAX } else { clen as u32 }.to_le_bytes());
        cd.extend_from_slice(&if m.zip64_bits & 1 != 0 { u32::MAX } else { ulen as u32 }.to_le_bytes());
        cd.extend_from_slice(&(m.name.len() as u16).to_le_bytes());
        cd.extend_from_slice(&(x.len() as u16).to_le_bytes());
        cd.extend_from_slice(&(m.comment.len() as u16).to_le_bytes());
        cd.extend_from_slice(&m.disk_start.to_le_bytes());
        cd.extend_from_slice(&0u16.to_le_bytes());
        cd.extend_from_slice(&0x81a4_0000u32.to_le_bytes());
        cd.extend_from_slice(&if m.zip64_bits & 4 != 0 { u32::MAX } else { off as u32 }.to_le_bytes());
        cd.extend_from_slice(&m.name);
        cd.extend_from_slice(&x);
        cd.extend_from_slice(&m.comment);
    }
    o.extend_from_slice(&z.gap_before_cd);
    if z.holes[2] > 0 {
        holes.push((o.len(), z.holes[2]));
        shift += z.holes[2];
    }
    let cd_at = o.len();
    let cd_off = cd_at as u64 + shift;
    let cd_len = cd.len();
    o.extend(cd);
    o.extend_from_slice(&z.gap_before_end);
    if z.holes[3] > 0 {
        holes.push((o.len(), z.holes[3]));
        shift += z.holes[3];
    }
    // comment bytes that happen to look like a zip64 locator in its place are ambiguous by format
    if !z.zip64_end && o.len() >= 20 && o[o.len() - 20..].starts_with(b"PK\x06\x07") {
        o.push(b'Q');
    }
    let n = z.members.len() as i64;
    if z.zip64_end {
        let at = o.len() as u64 + shift;
        o.extend_from_slice(&0x0606_4b50u32.to_le_bytes());
        o.extend_from_slice(&(44 + z.zip64_ext.len() as u64).to_le_bytes());
        o.extend_from_slice(&45u16.to_le_bytes());
        o.extend_from_slice(&45u16.to_le_bytes());
        o.extend_from_slice(&z.z64_disk.to_le_bytes());
        o.extend_from_slice(&z.z64_disk.to_le_bytes());
        o.extend_from_slice(&(n.wrapping_add(z.z64_count_delta) as u64).to_le_bytes());
        o.extend_from_slice(&(n.wrapping_add(z.z64_count_delta) as u64).to_le_bytes());
        o.extend_from_slice(&(cd_len as u64).to_le_bytes());
        o.extend_from_slice(&cd_off.to_le_bytes());
        o.extend_from_slice(&z.zip64_ext);
        o.extend_from_slice(&0x0706_4b50u32.to_le_bytes());
        o.extend_from_slice(&0u32.to_le_bytes());
        o.extend_from_slice(&at.to_le_bytes());
        o.extend_from_slice(&z.z64_disks.to_le_bytes());
    }
    let end_at = o.len();
    let ones = |bit: u8, v: u64, all: u64| if z.ones & bit != 0 && z.zip64_end { all } else { v };
    o.extend_from_slice(&0x0605_4b50u32.to_le_bytes());
    o.extend_from_slice(&(ones(1, z.disk as u64, 0xffff) as u16).to_le_bytes());
    o.extend_from_slice(&(ones(1, z.cd_disk as u64, 0xffff) as u16).to_le_bytes());
    o.extend_from_slice(&(ones(2, (n as i32 + z.count_delta) as u64, 0xffff) as u16).to_le_bytes());
    o.extend_from_slice(&(ones(2, (n as i32 + z.count_total_delta) as u64, 0xffff) as u16).to_le_bytes());
    o.extend_from_slice(&(ones(4, cd_len as u64, 0xffff_ffff) as u32).to_le_bytes());
    o.extend_from_slice(&(ones(8, cd_off, 0xffff_ffff) as u32).to_le_bytes());
    o.extend_from_slice(&(z.comment.len() as u16).to_le_bytes());
    o.extend_from_slice(&z.comment);
    Built { bytes: o, data_at, cd_at, local_at, end_at, holes }
}

fn filler(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.below(max + 1);
    let k = s.below(3);
    (0..n)
        .map(|i| match k {
            0 => 0u8,
            1 => b"PK\x05\x06PK\x01\x02PK\x03\x04PK\x06\x07"[i % 16],
            _ => (i * 37 + 11) as u8,
        })
        .collect()
}

/// a sequence of extra field records, none of them zip64
pub fn extra(s: &mut Src, max: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for _ in 0..s.below(4) {
        let id = *s.pick(&[0x5455u16, 0x7875, 0x000a, 0xcafe, 0x9901, 2]);
        let body = if max >= 30_000 && s.chance(1, 8) {
            vec![s.draw(255) as u8; *s.pick(&[255usize, 256, 1000, 32_000, 32_764, 32_768, 65_000])]
        } else {
            filler(s, 40)
        };
        if o.len() + 4 + body.len() > max {
            break;
        }
        o.extend_from_slice(&id.to_le_bytes());
        o.extend_from_slice(&(body.len() as u16).to_le_bytes());
        o.extend(body);
    }
    o
}

/// archive comment; may contain signatures but nothing that is itself a consistent end record
pub fn archive_comment(s: &mut Src) -> Vec<u8> {
    let mut c = match s.below(5) {
        0 | 1 => vec![],
        2 => filler(s, 60),
        3 => {
            let mut v = filler(s, 300);
            v.extend_from_slice(b"PK\x05\x06");
            v.extend(filler(s, 40));
            v
        }
        _ => {
            let n = *s.pick(&[65535usize, 65534, 1000, 40_000, 20_000]);
            let mut v: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
            if s.bool() {
                let at = s.below(n - 4);
                v[at..at + 4].copy_from_slice(b"PK\x05\x06");
            }
            v
        }
    };
    let n = c.len();
    for i in 0..n {
        if c[i..].starts_with(b"PK\x05\x06") && i + 22 <= n {
            let l = u16::from_le_bytes([c[i + 20], c[i + 21]]) as usize;
            if i + 22 + l == n {
                c[i] = b'Q';
            }
        }
    }
    c
}

pub fn gen_member(s: &mut Src, name: &str, data: Vec<u8>) -> Member {
    Member {
        name: name.as_bytes().to_vec(),
        utf8: !name.is_ascii() || s.chance(1, 3),
        method: *s.pick(&[0u16, 8, 12]),
        data,
        flags: *s.pick(&[0u16, 0, 2, 4, 6]),
        data_descriptor: s.chance(1, 3),
        local_extra: extra(s, 65_515),
        central_extra_before: extra(s, 32_000),
        central_extra_after: extra(s, 33_000),
        comment: if s.chance(1, 12) {
            vec![b'c'; *s.pick(&[255usize, 256, 32_767, 32_768, 65_535])]
        } else {
            filler(s, 50)
        },
        zip64_bits: if s.chance(1, 3) { s.below(8) as u8 } else { 0 },
        zip64_local: s.chance(1, 4),
        disk_start: 0,
        crc_xor: 0,
    }
}

pub fn gen_zip(s: &mut Src, m: Member, allow_prefix: bool) -> ZipSpec {
    let mut z = ZipSpec { members: vec![m], ..Default::default() };
    if allow_prefix && s.chance(1, 3) {
        z.prefix = filler(s, 300);
    }
    if s.chance(1, 4) {
        z.gap_before_cd = filler(s, 100);
    }
    if s.chance(1, 4) {
        z.gap_before_end = filler(s, 100);
    }
    z.comment = archive_comment(s);
    if s.chance(1, 3) {
        z.zip64_end = true;
        z.ones = s.below(16) as u8;
        if s.chance(1, 3) {
            z.zip64_ext = filler(s, 30);
        }
    }
    z
}
