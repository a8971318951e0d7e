//! CSV text generation with known contents, and the reference for simple/ragged tables.
use crate::engine::Src;
use crate::gen::*;
use crate::model::*;

#[derive(Clone, Debug, Default)]
pub struct CsvDoc {
    pub delim: u8,
    pub header: Option<Vec<String>>,
    /// cell texts as they denote (before quoting), untrimmed
    pub rows: Vec<Vec<String>>,
    pub text: Vec<u8>,
    pub quoted: usize,
    pub line_breaks_inside: usize,
    pub blank_lines: usize,
}

pub fn needs_quotes(c: &str, delim: u8, only_cell: bool, first_of_file: bool) -> bool {
    c.bytes().any(|b| b == delim || b == b'"' || b == b'\n' || b == b'\r')
        || (only_cell && c.trim().is_empty())
        || (first_of_file && c.starts_with('\u{feff}'))
}

pub fn quote(c: &str) -> String {
    format!("\"{}\"", c.replace('"', "\"\""))
}

pub struct Style {
    pub quote_rate: u64, // of 10
    pub pad_rate: u64,
    pub eol: usize, // 0 LF 1 CRLF 2 mixed
    pub blank_rate: u64,
    pub final_newline: bool,
}

pub fn gen_style(s: &mut Src) -> Style {
    Style {
        quote_rate: *s.pick(&[0, 1, 5, 10]),
        pad_rate: *s.pick(&[0, 0, 2, 6]),
        eol: s.below(3),
        blank_rate: *s.pick(&[0, 0, 1, 3]),
        final_newline: !s.chance(1, 3),
    }
}

/// renders one record; the text of each cell is unchanged apart from trimming
pub fn render_record(s: &mut Src, cells: &[String], st: &Style, delim: u8, first_of_file: bool, doc: &mut CsvDoc) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, c) in cells.iter().enumerate() {
        if i > 0 {
            o.push(delim);
        }
        let q = needs_quotes(c, delim, cells.len() == 1, first_of_file && i == 0) || (st.quote_rate > 0 && s.draw(9) < st.quote_rate);
        if q {
            doc.quoted += 1;
            if c.contains('\n') || c.contains('\r') {
                doc.line_breaks_inside += 1;
            }
            o.extend_from_slice(quote(c).as_bytes());
        } else {
            let pad: &str = if st.pad_rate > 0 && s.draw(9) < st.pad_rate && delim != b' ' && delim != b'\t' {
                *s.pick(&[" ", "  ", "\t", " \t "])
            } else {
                ""
            };
            let side = s.below(3);
            if side != 1 {
                o.extend_from_slice(pad.as_bytes());
            }
            o.extend_from_slice(c.as_bytes());
            if side != 0 {
                o.extend_from_slice(pad.as_bytes());
            }
        }
    }
    o
}

pub fn render(s: &mut Src, doc: &mut CsvDoc, st: &Style) {
    let mut all: Vec<Vec<String>> = Vec::new();
    if let Some(h) = &doc.header {
        all.push(h.clone());
    }
    all.extend(doc.rows.iter().cloned());
    let mut out = Vec::new();
    let n = all.len();
    let delim = doc.delim;
    for (i, r) in all.iter().enumerate() {
        while st.blank_rate > 0 && s.draw(9) < st.blank_rate {
            out.extend_from_slice(if s.bool() { b"\r\n" } else { b"\n" });
            doc.blank_lines += 1;
        }
        let first = out.is_empty();
        let rec = render_record(s, r, st, delim, first, doc);
        out.extend(rec);
        let crlf = st.eol == 1 || (st.eol == 2 && s.bool());
        if i + 1 < n || st.final_newline {
            out.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
        }
    }
    doc.text = out;
}

pub fn trimmed(v: &[String]) -> Vec<String> {
    v.iter().map(|c| c.trim().to_string()).collect()
}

pub enum CellKind {
    Any,
    Plain,
}

pub fn gen_cell(s: &mut Src, k: &CellKind) -> String {
    match k {
        CellKind::Plain => ascii_word(s, 0, 8),
        CellKind::Any => match s.weighted(&[5, 4, 2, 1]) {
            0 => ascii_word(s, 0, 8),
            1 => any_string(s, 12),
            2 => s
                .pick(&[
                    "", " ", "a b", " lead", "trail ", "a,b", "a\tb", "say \"hi\"", "\"", "\"\"", "line\nbreak", "cr\rlf\r\n", "123", "-4.5", "nan", "é,ü", "#x",
                    "'", "a;b|c", "\u{a0}x\u{a0}", "\\", "\\t", "a\"b", "\n", "=1+1",
                ])
                .to_string(),
            _ => {
                let n = s.urange(30, 600);
                sized_string(s, n)
            }
        },
    }
}

/// what a source must deliver for records of simple cells: C28's rules
pub struct RefTable {
    pub names: Vec<String>,
    /// rows before the first error
    pub rows: Vec<Vec<Val>>,
    pub err_at: Option<usize>,
}

pub fn ref_table(header: Option<&[String]>, records: &[Vec<String>]) -> RefTable {
    let mut names: Vec<String> = header.map(|h| trimmed(h)).unwrap_or_default();
    let w = records.first().map(|r| r.len()).unwrap_or(0);
    while names.len() < w {
        names.push(format!("col_{}", names.len()));
    }
    let mut rows = Vec::new();
    let mut err_at = None;
    for (i, r) in records.iter().enumerate() {
        if r.len() > names.len() {
            err_at = Some(i);
            break;
        }
        let mut v: Vec<Val> = r.iter().map(|c| Val::Str(c.trim().to_string())).collect();
        v.resize(names.len(), Val::Null);
        rows.push(v);
    }
    RefTable { names, rows, err_at }
}
