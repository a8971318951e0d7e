//! Independent encoder and decoder of the DC file layout (written from its documentation, shares no
//! code with chopper).
use crate::model::*;

#[derive(Clone, Debug)]
pub struct DcFile {
    pub magic: u64,
    pub version: u16,
    pub user_header: Vec<u8>,
    pub names: Vec<String>,
    pub types: Vec<Ty>,
    pub hints: Vec<i32>,
    pub rows: Vec<MRow>,
    /// encode strings shorter than 32768 in the long form (-1 prefix)
    pub long_strings: bool,
    /// set unused bits of the last bitset byte
    pub dirty_bits: bool,
}

pub fn type_string(t: Ty) -> &'static str {
    match t {
        Ty::Bool => "Z",
        Ty::Byte => "B",
        Ty::Buf => "Ljava.lang.ByteBuffer;",
        Ty::Char => "C",
        Ty::Double => "D",
        Ty::Float => "F",
        Ty::Int => "I",
        Ty::Long => "J",
        Ty::Short => "S",
        Ty::Str => "Ljava.lang.String;",
    }
}

impl DcFile {
    pub fn from_table(t: &Table) -> DcFile {
        DcFile {
            magic: 0x4443_4154,
            version: 2,
            user_header: vec![],
            names: t.names.clone(),
            types: t.types.clone(),
            hints: vec![-1; t.names.len()],
            rows: t.rows.clone(),
            long_strings: false,
            dirty_bits: false,
        }
    }

    pub fn encode_header(&self) -> Vec<u8> {
        let mut o = Vec::new();
        o.extend_from_slice(&self.magic.to_be_bytes());
        o.extend_from_slice(&self.version.to_be_bytes());
        o.extend_from_slice(&(self.user_header.len() as u32).to_be_bytes());
        o.extend_from_slice(&self.user_header);
        o.extend_from_slice(&(self.names.len() as u32).to_be_bytes());
        for i in 0..self.names.len() {
            let n = self.names[i].as_bytes();
            o.extend_from_slice(&(n.len() as u32).to_be_bytes());
            o.extend_from_slice(n);
            let t = type_string(self.types[i]).as_bytes();
            o.extend_from_slice(&(t.len() as u32).to_be_bytes());
            o.extend_from_slice(t);
            o.extend_from_slice(&self.hints[i].to_be_bytes());
        }
        o
    }

    pub fn encode_row(&self, r: &MRow, o: &mut Vec<u8>) {
        o.extend_from_slice(&r.ts.to_be_bytes());
        let n = r.vals.len();
        // ceil(n/8); a zero-column row carries no bitset
        let nbytes = (n + 7) / 8;
        let mut bits = vec![0u8; nbytes];
        for (i, v) in r.vals.iter().enumerate() {
            if *v == Val::Null {
                bits[i / 8] |= 1 << (i % 8);
            }
        }
        if self.dirty_bits && n % 8 != 0 {
            bits[nbytes - 1] |= 0xffu8 << (n % 8);
        }
        o.extend_from_slice(&bits);
        for v in &r.vals {
            match v {
                Val::Null => {}
                Val::Byte(x) => o.push(*x),
                Val::Char(x) => o.extend_from_slice(&x.to_be_bytes()),
                Val::Double(b) => o.extend_from_slice(&b.to_be_bytes()),
                Val::Float(b) => o.extend_from_slice(&b.to_be_bytes()),
                Val::Int(x) => o.extend_from_slice(&x.to_be_bytes()),
                Val::Long(x) => o.extend_from_slice(&x.to_be_bytes()),
                Val::Short(x) => o.extend_from_slice(&x.to_be_bytes()),
                Val::Str(s) => {
                    let b = s.as_bytes();
                    if b.len() <= 32767 && !self.long_strings {
                        o.extend_from_slice(&(b.len() as i16).to_be_bytes());
                    } else {
                        o.extend_from_slice(&(-1i16).to_be_bytes());
                        o.extend_from_slice(&(b.len() as u32).to_be_bytes());
                    }
                    o.extend_from_slice(b);
                }
            }
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        let mut o = self.encode_header();
        for r in &self.rows {
            self.encode_row(r, &mut o);
        }
        o
    }
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}

impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.b.len() - self.p < n {
            return Err("truncated".into());
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn sized(&mut self) -> Result<String, String> {
        let n = self.u32()? as usize;
        let b = self.take(n)?;
        String::from_utf8(b.to_vec()).map_err(|_| "bad utf8".to_string())
    }
}

/// strict decoder: Ok(file) or what is wrong; rows decoded before the problem are kept in `partial`
pub fn decode(b: &[u8], partial: &mut Vec<MRow>) -> Result<DcFile, String> {
    let mut c = Cur { b, p: 0 };
    let magic = c.u64()?;
    if magic != 0x4443_4154 {
        return Err("magic".into());
    }
    let version = c.u16()?;
    if version != 2 {
        return Err("version".into());
    }
    let ul = c.u32()? as usize;
    let user_header = c.take(ul)?.to_vec();
    let n = c.u32()? as usize;
    let mut f = DcFile {
        magic,
        version,
        user_header,
        names: vec![],
        types: vec![],
        hints: vec![],
        rows: vec![],
        long_strings: false,
        dirty_bits: false,
    };
    for i in 0..n {
        let name = c.sized()?;
        let ts = c.sized()?;
        let ty = match ts.as_str() {
            "Z" => Ty::Bool,
            "B" => Ty::Byte,
            "Ljava.lang.ByteBuffer;" => Ty::Buf,
            "C" => Ty::Char,
            "D" => Ty::Double,
            "F" => Ty::Float,
            "I" => Ty::Int,
            "J" => Ty::Long,
            "S" => Ty::Short,
            "Ljava.lang.String;" => Ty::Str,
            _ => return Err("type".into()),
        };
        let hint = c.u32()? as i32;
        if !(-1..=6).contains(&hint) {
            return Err("hint".into());
        }
        f.names.push(if name.is_empty() { format!("col_{}", i) } else { name });
        f.types.push(ty);
        f.hints.push(hint);
    }
    while c.p < b.len() {
        let ts = c.u64()?;
        let bits = c.take((n + 7) / 8)?.to_vec();
        let mut vals = Vec::with_capacity(n);
        for i in 0..n {
            if bits[i / 8] >> (i % 8) & 1 == 1 {
                vals.push(Val::Null);
                continue;
            }
            vals.push(match f.types[i] {
                Ty::Bool | Ty::Buf => return Err("unsupported type".into()),
                Ty::Byte => Val::Byte(c.take(1)?[0]),
                Ty::Char => Val::Char(c.u16()?),
                Ty::Double => Val::Double(c.u64()?),
                Ty::Float => Val::Float(c.u32()?),
                Ty::Int => Val::Int(c.u32()? as i32),
                Ty::Long => Val::Long(c.u64()? as i64),
                Ty::Short => Val::Short(c.u16()? as i16),
                Ty::Str => {
                    let l = c.u16()? as i16;
                    let len = if l == -1 {
                        c.u32()? as usize
                    } else if l < 0 {
                        return Err("negative length".into());
                    } else {
                        l as usize
                    };
                    Val::Str(String::from_utf8(c.take(len)?.to_vec()).map_err(|_| "bad utf8".to_string())?)
                }
            });
        }
        let row = MRow { ts, vals };
        partial.push(row.clone());
        f.rows.push(row);
    }
    Ok(f)
}
