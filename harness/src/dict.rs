//! Numbers and texts that the code under test mentions and the code this harness was written against
//! does not (`baseline.dict`): a change often matters only at a value of its own, so generators try these
//! values now and then. They only guide the search; no oracle looks at them.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub numbers: Vec<u64>,
    pub texts: Vec<String>,
    pub words: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
static EMPTY: Dict = Dict { numbers: Vec::new(), texts: Vec::new(), words: Vec::new() };

pub fn dict() -> &'static Dict {
    DICT.get().unwrap_or(&EMPTY)
}

fn sources() -> BTreeMap<String, usize> {
    let root = std::env::var("VERIF_SOURCES").unwrap_or_else(|_| "/repo".into());
    let mut files = Vec::new();
    for d in ["src", "chop/src"] {
        walk(&Path::new(&root).join(d), &mut files);
    }
    files.sort();
    let mut all = BTreeMap::new();
    for f in files {
        if let Ok(t) = std::fs::read_to_string(&f) {
            scan(&t, &mut all);
        }
    }
    all
}

fn walk(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p);
            }
        }
    }
}

/// counts the literals of a source text: `n<number>` and `s<text>`
fn scan(t: &str, all: &mut BTreeMap<String, usize>) {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    // the number before and the operator after it, for `1 << 16` and `60 * 60`
    let mut left: Option<(u64, String)> = None;
    let mut add = |k: String| *all.entry(k).or_insert(0) += 1;
    while i < c.len() {
        let at = |k: usize| c.get(i + k).copied().unwrap_or('\0');
        if at(0) == '/' && at(1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if at(0) == '/' && at(1) == '*' {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if at(0) == '"' {
            i += 1;
            let mut s = String::new();
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    match c[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' => {
                            let h: String = c[i + 1..].iter().take(2).collect();
                            if let Ok(v) = u8::from_str_radix(&h, 16) {
                                s.push(v as char);
                            }
                            i += 2;
                        }
                        'u' => {
                            let h: String = c[i + 1..].iter().skip(1).take_while(|x| **x != '}').collect();
                            if let Some(v) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(v);
                            }
                            i += h.len() + 2;
                        }
                        '\n' => {}
                        x => s.push(x),
                    }
                } else {
                    s.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            left = None;
            add(format!("s{}", s));
        } else if at(0) == '\'' {
            // a character or a lifetime
            if at(1) == '\\' {
                let ch = match at(2) {
                    'n' => '\n',
                    't' => '\t',
                    'r' => '\r',
                    '0' => '\0',
                    x => x,
                };
                add(format!("s{}", ch));
                i += 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else if at(2) == '\'' {
                add(format!("s{}", at(1)));
                i += 3;
            } else {
                i += 1;
            }
        } else if at(0).is_ascii_digit() && !(i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let mut w = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                w.push(c[i]);
                i += 1;
            }
            let (w, radix) = match w.get(..2) {
                Some("0x") => (w[2..].to_string(), 16),
                Some("0b") => (w[2..].to_string(), 2),
                Some("0o") => (w[2..].to_string(), 8),
                _ => (w, 10),
            };
            let mut d: String = w.chars().filter(|x| *x != '_').collect();
            for s in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "f64", "f32"] {
                if d.ends_with(s) && (radix < 16 || !s.starts_with('f')) {
                    d.truncate(d.len() - s.len());
                    break;
                }
            }
            if let Ok(v) = u64::from_str_radix(&d, radix) {
                if let Some((l, op)) = left.take() {
                    let both = match &op[..] {
                        "<<" if v < 64 => l.checked_mul(1 << v),
                        "*" => l.checked_mul(v),
                        _ => None,
                    };
                    if let Some(b) = both {
                        add(format!("n{}", b));
                    }
                }
                add(format!("n{}", v));
                let rest: String = c[i..].iter().take(8).collect();
                let r = rest.trim_start();
                left = if r.starts_with("<<") {
                    Some((v, "<<".into()))
                } else if r.starts_with('*') {
                    Some((v, "*".into()))
                } else {
                    None
                };
                continue;
            }
        } else {
            if !at(0).is_whitespace() && at(0) != '<' && at(0) != '*' && at(0) != '(' {
                left = None;
            }
            i += 1;
        }
    }
}

/// what `harness dict` prints and `baseline.dict` holds
pub fn listing() -> String {
    let mut o = String::new();
    for (k, n) in sources() {
        o.push_str(&format!("{} {}\n", n, k.escape_default()));
    }
    o
}

/// the values in use on one line, for replay files
pub fn encode() -> String {
    let d = dict();
    let mut v: Vec<String> = d.numbers.iter().map(|n| format!("n{}", n)).collect();
    v.extend(d.texts.iter().map(|t| format!("s{}", t.bytes().map(|b| format!("{:02x}", b)).collect::<String>())));
    v.join(",")
}

fn put(d: &mut Dict, t: &str) {
    if t.chars().all(|x| x.is_ascii_lowercase()) {
        d.words.push(t.into());
    }
    d.texts.push(t.into());
}

fn decode(line: &str) -> Dict {
    let mut d = Dict::default();
    for k in line.trim().split(',') {
        if let Some(n) = k.strip_prefix('n').and_then(|x| x.parse().ok()) {
            d.numbers.push(n);
        } else if let Some(h) = k.strip_prefix('s') {
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            put(&mut d, &String::from_utf8_lossy(&b));
        }
    }
    d
}

/// compares the sources with the baseline; all literals count as new if VERIF_DICT=all
pub fn load() {
    if let Ok(v) = std::env::var("VERIF_VALUES") {
        let _ = DICT.set(decode(&v));
        return;
    }
    let mut base: BTreeMap<String, usize> = BTreeMap::new();
    if std::env::var("VERIF_DICT").map_or(true, |v| v != "all") {
        for l in include_str!("../baseline.dict").lines() {
            if let Some((n, k)) = l.split_once(' ') {
                base.insert(k.to_string(), n.parse().unwrap_or(0));
            }
        }
    }
    let mut d = Dict::default();
    for (k, n) in sources() {
        if base.get(&k.escape_default().to_string()).map_or(false, |b| *b >= n) {
            continue;
        }
        if let Some(v) = k.strip_prefix('n') {
            match v.parse() {
                Ok(v) if v > 2 => d.numbers.push(v),
                _ => {}
            }
        } else if let Some(t) = k.strip_prefix('s') {
            if t.is_empty() || t.len() > 40 || t.matches(' ').count() > 1 || t.contains("{}") {
                continue;
            }
            put(&mut d, t);
        }
    }
    if d.numbers.len() + d.texts.len() > 0 && std::env::var_os("VERIF_LABELS").is_some() {
        eprintln!("values of the code's own: {:?} {:?}", d.numbers, d.texts);
    }
    let _ = DICT.set(d);
}
