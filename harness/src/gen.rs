//! Shared generators.
use crate::engine::{Big, Src};
use crate::model::*;

pub fn ascii_word(s: &mut Src, min: usize, max: usize) -> String {
    if let Some(w) = s.text_hint(true) {
        if w.len() >= min && w.len() <= max {
            return w.to_string();
        }
    }
    let v = s.many(min, max, 4, |s| (b'a' + s.below(26) as u8) as char);
    v.into_iter().collect()
}

/// characters that stress encoders: ASCII, multi-byte, combining, NUL, quotes, delimiters
pub fn any_char(s: &mut Src) -> char {
    match s.weighted(&[10, 4, 3, 2, 1]) {
        0 => (b' ' + s.below(95) as u8) as char,
        1 => *s.pick(&[',', '"', '\'', '\t', ';', '|', '#', '\\', ' ', '\n', '\r', '=', '-', '.', '0', '1']),
        2 => *s.pick(&['é', 'ß', 'Ĭ', 'Ж', '中', '文', '𝄞', '😀', '\u{0301}', '\u{200b}', '\u{feff}', '\u{212c}', '\u{2020}', '\u{1f409}']),
        3 => char::from_u32(s.draw(0x10_ffff) as u32).unwrap_or('\u{fffd}'),
        _ => *s.pick(&['\0', '\u{1}', '\u{7f}', '\u{80}', '\u{a0}', '\u{2028}', '\u{85}']),
    }
}

pub fn any_string(s: &mut Src, max: usize) -> String {
    if let Some(w) = s.text_hint(false) {
        let n = w.chars().count();
        if n <= max {
            return match s.below(4) {
                0 if n < max => format!("{}{}", any_char(s), w),
                1 if n < max => format!("{}{}", w, any_char(s)),
                _ => w.to_string(),
            };
        }
    }
    s.many(0, max, 6, any_char).into_iter().collect()
}

/// string of exactly n bytes (n large) with a multi-byte tail pattern
pub fn sized_string(s: &mut Src, n: usize) -> String {
    let unit: &str = *s.pick(&["x", "ab", "é", "中", "😀"]);
    let mut o = String::with_capacity(n);
    while o.len() + unit.len() <= n {
        o.push_str(unit);
    }
    while o.len() < n {
        o.push('z');
    }
    o
}

pub fn gen_string_value(s: &mut Src) -> String {
    match s.weighted(&[12, 2, 1]) {
        0 => any_string(s, 24),
        1 => {
            let n = s.urange(0, 400);
            sized_string(s, n)
        }
        _ => {
            let base = *s.pick(&[127usize, 128, 255, 256, 8190, 8192, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70000]);
            sized_string(s, base)
        }
    }
}

pub fn gen_f64_bits(s: &mut Src) -> u64 {
    match s.weighted(&[4, 2, 2, 2]) {
        0 => (s.range(-1000, 1000) as f64 / *s.pick(&[1.0, 2.0, 10.0, 100.0, 3.0])).to_bits(),
        1 => *s.pick(&[
            0u64,
            0x8000_0000_0000_0000,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0xfff8_0000_0000_0001,
            0x7ff0_0000_0000_0001,
            1,
            0x000f_ffff_ffff_ffff,
            0x0010_0000_0000_0000,
            0x7fef_ffff_ffff_ffff,
            0x3ff0_0000_0000_0001,
            0x4330_0000_0000_0000,
            0x4340_0000_0000_0001,
        ]),
        2 => s.draw(u64::MAX),
        _ => (s.i64_any() as f64).to_bits(),
    }
}

pub fn gen_f32_bits(s: &mut Src) -> u32 {
    match s.weighted(&[4, 2, 2]) {
        0 => (s.range(-1000, 1000) as f32 / *s.pick(&[1.0f32, 2.0, 10.0, 100.0, 3.0])).to_bits(),
        1 => *s.pick(&[
            0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0001, 0x7f80_0001, 1, 0x007f_ffff,
            0x0080_0000, 0x7f7f_ffff, 0x3f80_0001,
        ]),
        _ => s.draw(u32::MAX as u64) as u32,
    }
}

/// keeps signalling NaNs out (their bits may legitimately be quieted by float moves)
pub fn is_snan64(b: u64) -> bool {
    f64::from_bits(b).is_nan() && b & 0x0008_0000_0000_0000 == 0
}
pub fn is_snan32(b: u32) -> bool {
    f32::from_bits(b).is_nan() && b & 0x0040_0000 == 0
}

pub fn gen_value(s: &mut Src, t: Ty) -> Val {
    match t {
        Ty::Byte => Val::Byte(*s.pick(&[0u8, 1, 127, 128, 255, 65]) ^ (s.below(4) as u8)),
        Ty::Char => Val::Char(if s.bool() { s.draw(65535) as u16 } else { *s.pick(&[0u16, 65, 0x7fff, 0x8000, 0xffff, 0xd800]) }),
        Ty::Double => {
            let b = gen_f64_bits(s);
            Val::Double(if is_snan64(b) { 0x7ff8_0000_0000_0000 } else { b })
        }
        Ty::Float => {
            let b = gen_f32_bits(s);
            Val::Float(if is_snan32(b) { 0x7fc0_0000 } else { b })
        }
        Ty::Int => Val::Int(if s.bool() { s.range(-100, 100) as i32 } else { s.u64_any() as i32 }),
        Ty::Long => Val::Long(if s.bool() { s.range(-100, 100) } else { s.i64_any() }),
        Ty::Short => Val::Short(if s.bool() { s.range(-100, 100) as i16 } else { s.u64_any() as i16 }),
        Ty::Str => Val::Str(gen_string_value(s)),
        Ty::Bool | Ty::Buf => Val::Null,
    }
}

pub fn gen_value_small(s: &mut Src, t: Ty) -> Val {
    match t {
        Ty::Str => Val::Str(any_string(s, 8)),
        t => gen_value(s, t),
    }
}

pub fn gen_field_name(s: &mut Src, i: usize) -> String {
    match s.weighted(&[6, 3, 1]) {
        0 => format!("f{}", i),
        1 => ascii_word(s, 1, 8),
        _ => {
            let n = any_string(s, 10);
            if n.is_empty() {
                format!("n{}", i)
            } else {
                n
            }
        }
    }
}

/// non-decreasing timestamps with ties and jumps
pub fn gen_timestamps(s: &mut Src, n: usize) -> Vec<u64> {
    let mut v = Vec::with_capacity(n);
    let mut t = match s.weighted(&[4, 3, 1, 1]) {
        0 => s.draw(10),
        1 => 1_500_000_000_000_000_000 + s.draw(10),
        2 => 0,
        _ => s.u64_any(),
    };
    for _ in 0..n {
        let step = match s.weighted(&[5, 6, 2, 1]) {
            0 => 0,
            1 => s.draw(5),
            2 => s.draw(1_000_000_000),
            _ => s.u64_any(),
        };
        t = t.saturating_add(step);
        v.push(t);
    }
    v
}

pub fn gen_col_count(s: &mut Src) -> usize {
    if let Some(n) = s.big(Big::Wide, 70_000) {
        return n;
    }
    match s.weighted(&[6, 3, 1]) {
        0 => s.urange(1, 6),
        1 => *s.pick(&[1usize, 7, 8, 9, 15, 16, 17, 24, 25]),
        _ => s.urange(1, 70),
    }
}

/// a table of DC-representable values
pub fn gen_table(s: &mut Src, max_rows: usize, avg_rows: u64, big_values: bool) -> Table {
    let ncols = gen_col_count(s);
    gen_table_cols(s, ncols, max_rows, avg_rows, big_values)
}

pub fn gen_table_cols(s: &mut Src, ncols: usize, max_rows: usize, avg_rows: u64, big_values: bool) -> Table {
    let mut t = Table::default();
    for i in 0..ncols {
        t.names.push(gen_field_name(s, i));
        t.types.push(*s.pick(&VALUE_TYPES));
    }
    let null_rate = *s.pick(&[0u64, 1, 3, 8, 10]);
    let (max_rows, avg_rows, big_values) = match s.big {
        Big::No => (max_rows, avg_rows, big_values),
        Big::Wide => (3, 1, false),
        _ => (max_rows, avg_rows, false),
    };
    let long = s.big(Big::Long, 70_000);
    let row = |s: &mut Src| {
        (0..ncols)
            .map(|c| {
                if s.draw(9) < null_rate {
                    Val::Null
                } else if big_values {
                    gen_value(s, t.types[c])
                } else {
                    gen_value_small(s, t.types[c])
                }
            })
            .collect::<Vec<Val>>()
    };
    let rows: Vec<Vec<Val>> = match long {
        Some(n) => (0..n).map(|_| row(s)).collect(),
        None => s.many(0, max_rows, avg_rows, row),
    };
    let ts = gen_timestamps(s, rows.len());
    t.rows = rows.into_iter().zip(ts).map(|(vals, ts)| MRow { ts, vals }).collect();
    t
}
