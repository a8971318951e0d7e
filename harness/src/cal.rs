//! Own proleptic Gregorian calendar arithmetic (no chrono).
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = if z >= 0 { z } else { z - 146096 } / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Civil {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
}

pub fn civil(secs: i64) -> Civil {
    let days = secs.div_euclid(86400);
    let r = secs.rem_euclid(86400);
    let (y, mo, d) = civil_from_days(days);
    Civil { y, mo, d, h: r / 3600, mi: r % 3600 / 60, s: r % 60 }
}

pub fn secs_of(c: &Civil) -> i64 {
    days_from_civil(c.y, c.mo, c.d) * 86400 + c.h * 3600 + c.mi * 60 + c.s
}

pub fn days_in_month(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => {
            if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 {
                29
            } else {
                28
            }
        }
        _ => 31,
    }
}

/// instant as nanoseconds, if it fits an unsigned 64-bit count
pub fn to_nanos(secs: i64, nanos: i64) -> Option<u64> {
    let n = secs as i128 * 1_000_000_000 + nanos as i128;
    if n < 0 || n > u64::MAX as i128 {
        None
    } else {
        Some(n as u64)
    }
}

pub fn offset_str(off: i64) -> String {
    let sign = if off < 0 { '-' } else { '+' };
    let a = off.abs();
    format!("{}{:02}:{:02}", sign, a / 3600, a % 3600 / 60)
}
