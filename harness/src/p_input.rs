//! C20 format decision, C21 directory inputs, C29 arbitrary input.
use std::cell::RefCell;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::rc::Rc;

use chopper::chopper::chopper::Source;
use chopper::chopper::types::{Header, Row};
use chopper::cli::util::YesNoAuto;
use chopper::error::CliResult;
use chopper::input::input::{Input, InputFormat, InputType};
use chopper::input::input_factory::{create_default_seekable_transports, create_default_source_factories, create_default_streaming_transports, InputFactory};
use chopper::input::serial_multi_file_provider::SerialMultiFilePathProvider;
use chopper::input::single_file::SingleFileInputFactory;
use chopper::source::csv_configs::{TimestampColConfig, TimestampFmtConfig};
use chopper::source::csv_timestamp::TimestampUnits;
use chopper::source::multi_file_source::SerialMultiFileSource;
use chopper::source::source_factory::SourceFactory;
use chopper::transport::seekable::seekable_factory::SeekableTransportFactory;
use chopper::transport::streaming::previewer_factory::PreviewerTransportFactory;
use chopper::transport::streaming::streaming_transport::StreamingTransport;
use chopper::util::reader::ChopperBufPreviewer;
use chopper::util::tz::ChopperTz;

use crate::comp::*;
use crate::dcfmt::DcFile;
use crate::engine::*;
use crate::gen::*;
use crate::memio::*;
use crate::model::*;
use crate::p_comp::{damage, doc_cfg, gen_doc, mask_sizes};
use crate::p_csv::check_shape;
use crate::p_dc::expect_table;
use crate::p_time::gen_zone;
use crate::zipw::{build, gen_member, gen_zip};

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug)]
enum ContentPred {
    Never,
    Always,
    Prefix(Vec<u8>),
    TextContains(String),
}

#[derive(Clone, Debug)]
struct UserSpec {
    id: usize,
    suffix: Option<String>,
    content: ContentPred,
}

#[derive(Default, Debug)]
struct UserLog {
    created: Vec<(usize, Vec<u8>)>,
    previews: usize,
    formats: Vec<(usize, String)>,
}

#[derive(Clone)]
struct UserFactory {
    spec: UserSpec,
    log: Rc<RefCell<UserLog>>,
}

struct MarkerSource(Header);

impl Source for MarkerSource {
    fn header(&self) -> &Header {
        &self.0
    }
    fn next_row(&mut self) -> CliResult<Option<Row>> {
        Ok(None)
    }
}

fn marker(id: usize) -> Vec<String> {
    vec![format!("from user factory {}", id)]
}

impl SourceFactory for UserFactory {
    fn can_create_from_format(&self, format: &String) -> bool {
        self.log.borrow_mut().formats.push((self.spec.id, format.clone()));
        match &self.spec.suffix {
            Some(s) => format.ends_with(s),
            None => false,
        }
    }
    fn can_create_from_previewer(&self, p: &ChopperBufPreviewer<Box<dyn Read>>) -> bool {
        self.log.borrow_mut().previews += 1;
        match &self.spec.content {
            ContentPred::Never => false,
            ContentPred::Always => true,
            ContentPred::Prefix(x) => p.get_buf().starts_with(x),
            ContentPred::TextContains(x) => p.get_lines().as_ref().map(|l| l.iter().any(|l| l.contains(x.as_str()))).unwrap_or(false),
        }
    }
    fn create_source(&mut self, p: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Box<dyn Source>> {
        let mut v = Vec::new();
        p.get_reader().read_to_end(&mut v)?;
        self.log.borrow_mut().created.push((self.spec.id, v));
        Ok(Box::new(MarkerSource(Header::new(marker(self.spec.id), vec![ty_to(Ty::Str)]))))
    }
    fn box_clone(&self) -> Box<dyn SourceFactory> {
        Box::new(self.clone())
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Text,
    Dc,
    DcVersion,
    DcShort,
    Junk,
    Empty,
}

#[derive(Debug, Clone, PartialEq)]
enum Expect {
    Error,
    User(usize),
    DcReader,
    CsvReader,
    Open,
}

fn all_text(b: &[u8]) -> Option<bool> {
    // only used for contents for which the preview rules leave no doubt
    if b.len() >= 8192 {
        return None;
    }
    Some(b.split(|x| *x == b'\n').all(|l| std::str::from_utf8(l).is_ok()))
}

fn user_content(u: &UserSpec, c: &[u8]) -> Option<bool> {
    Some(match &u.content {
        ContentPred::Never => false,
        ContentPred::Always => true,
        ContentPred::Prefix(x) => c.starts_with(x),
        ContentPred::TextContains(x) => all_text(c)? && std::str::from_utf8(c).map(|t| t.contains(x.as_str())).unwrap_or(false),
    })
}

struct Decision<'a> {
    users: &'a [UserSpec],
    csv: bool,
    kind: &'a Kind,
    plain: &'a [u8],
    layer: Option<Codec>,
    packed: &'a [u8],
}

fn codec_of_suffix(name: &str) -> Option<(&'static str, &[Codec])> {
    if name.ends_with(".gz") {
        Some((".gz", &[Codec::Gz]))
    } else if name.ends_with(".lz4") {
        Some((".lz4", &[Codec::Lz4Frame, Codec::Lz4Block]))
    } else if name.ends_with(".lzf") {
        Some((".lzf", &[Codec::Lzf]))
    } else if name.ends_with(".zst") {
        Some((".zst", &[Codec::Zst]))
    } else if name.ends_with(".zip") {
        Some((".zip", &[]))
    } else {
        None
    }
}

impl<'a> Decision<'a> {
    fn by_name(&self, name: &str) -> Option<Expect> {
        for u in self.users {
            if u.suffix.as_ref().map(|x| name.ends_with(x)).unwrap_or(false) {
                return Some(Expect::User(u.id));
            }
        }
        if name.ends_with(".dc") {
            return Some(Expect::DcReader);
        }
        if self.csv && name.ends_with(".csv") {
            return Some(Expect::CsvReader);
        }
        None
    }
    fn by_content(&self, c: &[u8], is_plain: bool) -> Expect {
        for u in self.users {
            match user_content(u, c) {
                Some(true) => return Expect::User(u.id),
                Some(false) => {}
                None => return Expect::Open,
            }
        }
        if is_plain && *self.kind == Kind::Dc {
            return Expect::DcReader;
        }
        match all_text(c) {
            None => Expect::Open,
            Some(true) if self.csv => Expect::CsvReader,
            _ => Expect::Error,
        }
    }
    /// expected outcome and the bytes the reader gets
    fn decide(&self, name: Option<&str>, format: &InputFormat) -> (Expect, Vec<u8>, &'static str) {
        let mut content = self.packed.to_vec();
        let mut is_plain = self.layer.is_none();
        let over = match format {
            InputFormat::Extension(e) => Some(if e.starts_with('.') { e.clone() } else { format!(".{}", e) }),
            InputFormat::Auto => None,
        };
        let (label, full) = match (&over, name) {
            (Some(o), _) => ("override", o.as_str()),
            (None, Some(n)) => ("name", n),
            (None, None) => ("contents", ""),
        };
        let mut stripped = full.to_string();
        let mut unpacked = false;
        if let Some((sfx, codecs)) = codec_of_suffix(full) {
            match self.layer {
                Some(l) if codecs.contains(&l) => {
                    content = self.plain.to_vec();
                    is_plain = true;
                    unpacked = true;
                }
                _ => {
                    // not data of that format; no contents at all may be accepted as an empty file
                    return (if content.is_empty() { Expect::Open } else { Expect::Error }, content, label);
                }
            }
            stripped.truncate(full.len() - sfx.len());
        }
        if over.is_some() || name.is_some() {
            if let Some(e) = self.by_name(&stripped) {
                return (e, content, label);
            }
            if over.is_some() {
                return (Expect::Error, content, label);
            }
        }
        if !unpacked {
            if self.layer.is_some() {
                // an encoding of nothing may lack a recognisable start
                if self.plain.is_empty() && self.packed.is_empty() {
                    return (Expect::Open, content, "contents");
                }
                content = self.plain.to_vec();
                is_plain = true;
            }
        }
        (self.by_content(&content, is_plain), content, "contents")
    }
}

#[derive(Clone)]
struct NamedTransport {
    inner: MemTransport,
    refuse: bool,
}

impl StreamingTransport for NamedTransport {
    fn can_open(&self, path: &Path) -> bool {
        !self.refuse && self.inner.can_open(path)
    }
    fn open(&self, path: &Path) -> std::io::Result<Box<dyn Read>> {
        self.inner.open(path)
    }
    fn box_clone(&self) -> Box<dyn StreamingTransport> {
        Box::new(self.clone())
    }
    fn name(&self) -> &str {
        "named"
    }
}

fn gen_users(s: &mut Src) -> Vec<UserSpec> {
    let n = s.weighted(&[4, 3, 2, 1]);
    if let Some(n) = s.big(Big::Wide, 1100) {
        // a few that take something among many that do not
        return (0..n)
            .map(|id| UserSpec {
                id,
                suffix: if s.chance(1, n as u64 / 2) { Some(s.pick(&[".foo", ".csv", ".dc", "data", ".bar", "o"]).to_string()) } else { Some(format!(".x{}", id)) },
                content: match s.below(2 * n) {
                    0 => ContentPred::Prefix(s.pick(&[&b"timestamp"[..], b"\xff", b"1"]).to_vec()),
                    1 => ContentPred::TextContains(s.pick(&["1", "timestamp", ","]).to_string()),
                    2 => ContentPred::Always,
                    _ => ContentPred::Never,
                },
            })
            .collect();
    }
    (0..n)
        .map(|id| UserSpec {
            id,
            suffix: if s.bool() { Some(s.pick(&[".foo", ".csv", ".dc", "data", ".bar", "o", ".csv.bak"]).to_string()) } else { None },
            content: match s.below(5) {
                0 | 1 => ContentPred::Never,
                2 => ContentPred::Prefix(s.pick(&[&b"timestamp"[..], b"\x4d", b"\xff", b"1", b"\x1f\x8b"]).to_vec()),
                3 => ContentPred::TextContains(s.pick(&["1", "timestamp", ",", "q"]).to_string()),
                _ => ContentPred::Always,
            },
        })
        .collect()
}

fn c20_decide(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    // contents
    let kind = match s.weighted(&[5, 5, 1, 1, 2, 1]) {
        0 => Kind::Text,
        1 => Kind::Dc,
        2 => Kind::DcVersion,
        3 => Kind::DcShort,
        4 => Kind::Junk,
        _ => Kind::Empty,
    };
    let mut table = gen_table(s, 12, 3, false);
    let mut odd_start = false;
    let mut only_magic = false;
    let plain: Vec<u8> = match kind {
        Kind::Dc => DcFile::from_table(&table).encode(),
        Kind::DcVersion => {
            let mut b = DcFile::from_table(&table).encode();
            b[9] = *s.pick(&[0u8, 1, 3, 255]);
            b
        }
        Kind::DcShort => {
            let b = DcFile::from_table(&table).encode();
            b[..s.urange(1, 9)].to_vec()
        }
        Kind::Junk => {
            let mut b = vec![0xffu8, 0xfe, 0x80];
            b.extend((0..s.below(40)).map(|_| s.draw(255) as u8).collect::<Vec<_>>());
            b
        }
        Kind::Empty => vec![],
        Kind::Text => {
            let ncols = s.urange(1, 3);
            table = Table { names: vec!["timestamp".into()], types: vec![Ty::Str; ncols + 1], rows: vec![] };
            for i in 0..ncols {
                table.names.push(format!("c{}", i));
            }
            if s.chance(1, 5) {
                // text that begins like something else
                table.names[0] = s
                    .pick(&[
                        "\0\0\0\0DCAT\0\0", "\0\0\0\0DCAT\0\u{1}", "\0\0\0\0DCAT\0\u{1}x", "\0\0\0\0DCAT\0\u{3}", "\0\0\0\0DCAT\u{2}\0",
                        "\0\0\0\0DCAT", "\0\0\0\0DCAU\0\u{2}", "DCAT\0\u{2}", "ZV", "ZVx", "ZV\0", "ZV\u{1}", "ZW", "LZ4Block", "LZ4Bloc", "\u{4}\"M\u{18}", "\u{4}\"M", "(", "QK", "\u{1f}",
                    ])
                    .to_string();
                odd_start = true;
            }
            if odd_start && s.chance(1, 6) {
                // nothing but such a beginning
                table.names = vec![s.pick(&["LZ4Block", "\u{4}\"M\u{18}"]).to_string()];
                table.types.truncate(1);
                only_magic = true;
            }
            let mut text = table.names.join(",") + if only_magic { "" } else { "\n" };
            for ts in 0..if only_magic { 0 } else { s.urange(0, 10) as u64 } {
                let cells: Vec<String> = (0..ncols).map(|_| ascii_word(s, 0, 5)).collect();
                text.push_str(&format!("{},{}\n", ts, cells.join(",")));
                let mut vals = vec![Val::Str(ts.to_string())];
                vals.extend(cells.into_iter().map(Val::Str));
                table.rows.push(MRow { ts, vals });
            }
            text.into_bytes()
        }
    };
    let layer = if s.chance(2, 5) { Some(*s.pick(&STREAM_CODECS)) } else { None };
    let packed = match layer {
        Some(c) => pack(s, c, &plain, true).bytes,
        None => plain.clone(),
    };
    // name
    let base = s.pick(&["data", "x.csv", "x.dc", "x.foo", "x.CSV", "csv", "dc", "a.csv.bak", ".csv", "x.bar", "x.dc.csv", "x.csv.dc", "gz", "zst.", "x.Dc", "naïve.csv", ""]).to_string();
    let sfx = match layer {
        Some(c) if s.chance(2, 3) => suffix(c),
        _ => *s.pick(&["", "", "", "", "", ".gz", ".GZ", ".lz4", ".lzf", ".zst", ".zip", ".xz"]),
    };
    // nothing but a suffix may be left
    let name = format!("{}{}", if sfx.is_empty() && base.is_empty() { "data" } else { &base }, sfx);
    let format = if s.chance(1, 3) {
        let e = s.pick(&["csv", ".csv", "dc", ".dc", "foo", ".bar", "x.csv", "CSV", "", ".", "unknown", "csv.bak"]).to_string();
        let sf = match layer {
            Some(c) if s.chance(2, 3) => suffix(c),
            _ => *s.pick(&["", "", "", ".gz", ".zst", ".lzf", ".lz4", ".zip"]),
        };
        InputFormat::Extension(format!("{}{}", e, sf))
    } else {
        InputFormat::Auto
    };
    let users = gen_users(s);
    let csv = s.chance(5, 6);
    let log = Rc::new(RefCell::new(UserLog::default()));
    let factories: Vec<Box<dyn SourceFactory>> =
        users.iter().map(|u| Box::new(UserFactory { spec: u.clone(), log: log.clone() }) as Box<dyn SourceFactory>).collect();
    let factories = if factories.is_empty() && s.bool() { None } else { Some(factories) };

    // where it comes from
    let dec = Decision { users: &users, csv, kind: &kind, plain: &plain, layer, packed: &packed };
    let mut mems: Vec<(MemFile, bool)> = Vec::new();
    let mut transports: Vec<Box<dyn StreamingTransport>> = Vec::new();
    let place = s.weighted(&[6, 3, 2, 2, 1]);
    let mut open_fails = false;
    let wrong = b"wrong,content\n9,9\n".to_vec();
    let mut add = |s: &mut Src, path: &str, first: &[u8]| {
        // the first transport that can open it has the contents
        let n = s.urange(1, 3);
        let n = s.big(Big::Wide, 300).unwrap_or(n);
        let few = s.big == Big::Wide && s.bool();
        let mut served = false;
        for i in 0..n {
            let refuse = !served && i + 1 < n && if few { !s.chance(1, n as u64) } else { s.bool() };
            let t = MemTransport { files: Default::default(), scheme: String::new() };
            let data = if served || refuse { wrong.clone() } else { first.to_vec() };
            let ch = gen_chunking(s, data.len());
            let mut f = MemFile::new(data, ch);
            if !served && !refuse && s.chance(1, 10) {
                // it says that it can open this, but then it cannot
                f = f.with_open_fault(*s.pick(&[std::io::ErrorKind::NotFound, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::Other]));
                open_fails = true;
            }
            t.add(path, f.clone());
            mems.push((f, !served && !refuse));
            if !refuse {
                served = true;
            }
            transports.push(Box::new(NamedTransport { inner: t, refuse }));
        }
    };
    let (path, what) = match place {
        0 => {
            let p = format!("mem:/dir/{}", name);
            add(s, &p, &packed);
            (p, "user transport")
        }
        1 => {
            let p = ctx.file(&name);
            std::fs::write(&p, &packed).map_err(|e| format!("harness: {}", e))?;
            (p.to_str().unwrap().to_string(), "file")
        }
        2 => {
            let m = gen_member(s, &name, packed.clone());
            let z = gen_zip(s, m, false);
            let b = build(s, &z);
            let p = ctx.file(*s.pick(&["a.zip", "a", "a.csv", "a.dc.gz", "b.foo"]));
            std::fs::write(&p, &b.bytes).map_err(|e| format!("harness: {}", e))?;
            (p.to_str().unwrap().to_string(), "zip archive")
        }
        3 => {
            // a user transport is asked before the built-in one for files
            let p = ctx.file(&name);
            std::fs::write(&p, &wrong).map_err(|e| format!("harness: {}", e))?;
            let p = p.to_str().unwrap().to_string();
            add(s, &p, &packed);
            (p, "user transport over a file")
        }
        _ => (format!("mem:/nowhere/{}", name), "nothing"),
    };
    let zip_like = packed.starts_with(b"PK");
    let (mut expect, content, by) = dec.decide(Some(&name), &format);
    if what == "nothing" {
        expect = Expect::Error;
    }
    if zip_like {
        expect = Expect::Open;
    }
    // text with the first bytes of a compression format: compressed as far as the contents decide
    if odd_start && by == "contents" && [&b"ZV\0"[..], b"ZV\x01", b"LZ4Block", b"\x04\"M\x18"].iter().any(|m| plain.starts_with(m)) {
        expect = Expect::Open;
    }
    if only_magic && layer.is_none() && by == "contents" {
        // the compressed data ends right there
        expect = Expect::Error;
    }
    ctx.label_if(only_magic, "nothing but the first bytes of a format");
    if open_fails {
        expect = Expect::Error;
    }
    ctx.label_if(odd_start, "text that begins like another format");
    ctx.label_if(open_fails, "opening fails");
    ctx.label(what);
    ctx.label(by);
    ctx.label(match expect {
        Expect::Error => "refused",
        Expect::User(_) => "user factory",
        Expect::DcReader => "DC reader",
        Expect::CsvReader => "CSV reader",
        Expect::Open => "left open",
    });
    ctx.nontrivial = expect != Expect::Open && what != "nothing";
    ctx.label_if(layer.is_some(), "compressed");
    ctx.describe(|| {
        format!(
            "{:?} contents of {} bytes{}, {} named {:?}, format {:?}, user factories {}, csv {}: by {} expect {:?}",
            kind,
            plain.len(),
            layer.map(|c| format!(" in {}", codec_name(c))).unwrap_or_default(),
            what,
            name,
            format,
            truncate(&format!("{:?}", users), 1500),
            csv,
            by,
            expect
        )
    });
    let transports = if transports.is_empty() && s.bool() { None } else { Some(transports) };
    let cfg = doc_cfg();
    let mut f = if csv { InputFactory::new(cfg, factories, transports) } else { InputFactory::new_without_csv(factories, transports) }.map_err(|e| err_text(&e))?;
    let src = if matches!(format, InputFormat::Auto) && s.bool() {
        f.create_source_from_path(&path)
    } else {
        f.create_source_from_input(&Input { input: InputType::Path(path.clone()), format: format.clone() })
    };
    let d = drain(src)?;
    // transports
    if what != "nothing" {
        for (i, (m, serves)) in mems.iter().enumerate() {
            let opens = m.served.borrow().opens;
            if opens != *serves as usize {
                return Err(format!("user transport {} was opened {} times, expected {}", i, opens, *serves as usize));
            }
        }
    }
    let l = log.borrow();
    if let InputFormat::Extension(_) = format {
        if l.previews > 0 {
            return Err("contents were looked at although the format was given".into());
        }
    } else if by == "name" && expect != Expect::Error && expect != Expect::Open && l.previews > 0 {
        return Err("contents were looked at although the name decides".into());
    }
    match expect {
        Expect::Open => Ok(()),
        Expect::Error => {
            if !l.created.is_empty() {
                return Err(format!("user factory {} was used, expected an error", l.created[0].0));
            }
            if d.err.is_none() {
                return Err(format!("accepted with columns {:?} and {} rows, expected an error", d.names, d.rows.len()));
            }
            Ok(())
        }
        Expect::User(id) => {
            if l.created.len() != 1 || l.created[0].0 != id || d.err.is_some() || d.names != marker(id) {
                return Err(format!("expected user factory {} once, used {:?}, result {:?} {:?}", id, l.created.iter().map(|c| c.0).collect::<Vec<_>>(), d.names, d.err));
            }
            if l.created[0].1 != content {
                return Err(format!("user factory {} got {} bytes, which are not the {} bytes of the contents", id, l.created[0].1.len(), content.len()));
            }
            Ok(())
        }
        Expect::DcReader => {
            if !l.created.is_empty() {
                return Err(format!("user factory {} was used, expected the DC reader", l.created[0].0));
            }
            if kind == Kind::Dc && content == plain {
                return expect_table(&table, &d).map_err(|e| format!("expected the DC reader: {}", e));
            }
            if d.err.is_none() {
                return Err(format!("contents that are not DC were accepted with columns {:?}, expected the DC reader's error", d.names));
            }
            Ok(())
        }
        Expect::CsvReader => {
            if !l.created.is_empty() {
                return Err(format!("user factory {} was used, expected the CSV reader", l.created[0].0));
            }
            if kind == Kind::Text && content == plain {
                return expect_table(&table, &d).map_err(|e| format!("expected the CSV reader: {}", e));
            }
            if kind == Kind::Dc && content == plain && d.err.is_none() && d.types == table.types && d.names == table.names && !table.names.is_empty() && table.types.iter().any(|t| *t != Ty::Str) {
                return Err("DC contents were read as DC, expected the CSV reader".into());
            }
            if kind == Kind::Empty && content == plain && d.err.is_some() {
                return Err(format!("no contents at all: {}", d.err.unwrap()));
            }
            Ok(())
        }
    }
}

/// many user factories, many user transports
fn c20_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide]);
    c20_decide(s, ctx)
}

// ---------------------------------------------------------------- C21

struct ListProvider(Vec<PathBuf>);

impl SerialMultiFilePathProvider for ListProvider {
    fn get_next_path(&mut self) -> Option<PathBuf> {
        if self.0.is_empty() {
            None
        } else {
            Some(self.0.remove(0))
        }
    }
}

#[derive(Clone, Debug)]
pub struct DirFile {
    pub name: String,
    pub bytes: Vec<u8>,
    /// None: unreadable
    pub table: Option<Table>,
    pub how: String,
}

pub const COLS: [&str; 8] = ["t", "a", "b", "c", "d", "e", "A", "x y"];

/// rows of the file in the order of the schema, or why they cannot be
fn ref_conform(schema: &(Vec<String>, Vec<Ty>), t: &Table) -> Result<Vec<MRow>, String> {
    let mut pos = Vec::new();
    for (i, (n, ty)) in schema.0.iter().zip(&schema.1).enumerate() {
        // columns of the same name are taken in their order
        let nth = schema.0[..i].iter().filter(|x| *x == n).count();
        match t.names.iter().enumerate().filter(|(_, x)| *x == n).map(|(p, _)| p).nth(nth) {
            None => return Err(format!("no column {:?}", n)),
            Some(p) if t.types[p] != *ty => return Err(format!("column {:?} has another type", n)),
            Some(p) => pos.push(p),
        }
    }
    Ok(t.rows.iter().map(|r| MRow { ts: r.ts, vals: pos.iter().map(|p| r.vals[*p].clone()).collect() }).collect())
}

pub fn gen_dir_file(s: &mut Src, i: usize, cols: &[(String, Ty)], dc: bool, override_csv: bool, ts: &mut u64) -> DirFile {
    let nrows = match s.weighted(&[5, 1, 1]) {
        0 => s.urange(0, 6),
        1 => 0,
        _ => s.urange(20, 200),
    };
    let nrows = match (s.big, if s.chance(1, 3) { s.big(Big::Long, 20_000) } else { None }) {
        (_, Some(n)) => n,
        (Big::No, _) | (Big::Long, _) => nrows,
        _ => nrows % 4,
    };
    let mut t = Table { names: cols.iter().map(|c| c.0.clone()).collect(), types: cols.iter().map(|c| c.1).collect(), rows: vec![] };
    for _ in 0..nrows {
        *ts += s.draw(3);
        let vals = cols
            .iter()
            .map(|(n, ty)| {
                if n == "t" && !dc {
                    Val::Str(ts.to_string())
                } else if dc {
                    if s.chance(1, 6) {
                        Val::Null
                    } else {
                        gen_value_small(s, *ty)
                    }
                } else {
                    Val::Str(ascii_word(s, 0, 5))
                }
            })
            .collect();
        t.rows.push(MRow { ts: *ts, vals });
    }
    let plain = if dc {
        DcFile::from_table(&t).encode()
    } else {
        let mut text = t.names.join(",") + "\n";
        for r in &t.rows {
            let mut cells: Vec<String> = r.vals.iter().map(|v| if let Val::Str(x) = v { x.clone() } else { String::new() }).collect();
            if s.chance(1, 8) && cells.len() > 1 {
                // cells at the end may be missing, up to the time
                let tpos = cols.iter().position(|c| c.0 == "t").unwrap();
                let keep = (tpos + 1).max(s.urange(1, cells.len()));
                cells.truncate(keep);
            }
            if cells.len() == 1 && cells[0].is_empty() {
                cells[0] = "z".into();
            }
            text.push_str(&cells.join(","));
            text.push('\n');
        }
        text.into_bytes()
    };
    // missing cells
    if !dc {
        let text = String::from_utf8(plain.clone()).unwrap();
        for (l, r) in text.lines().skip(1).zip(t.rows.iter_mut()) {
            let n = l.split(',').count();
            for (k, v) in r.vals.iter_mut().enumerate() {
                if k >= n {
                    *v = Val::Null;
                }
            }
        }
    }
    let ext = if dc { ".dc" } else { ".csv" };
    let stem = match s.weighted(&[4, 2, 2, 1]) {
        _ if s.big == Big::Wide => match s.below(8) {
            0 => format!("{}{}", ascii_word(s, 0, 3), i),
            1 => format!("{:04}", i),
            _ => format!("{}", i),
        },
        0 => format!("{}", i),
        1 => format!("{:03}", s.below(30)),
        2 => s.pick(&["a", "B", "b", "10", "9", ".hidden", "Z z", "é", "~", "_", "a-b", "a.b", "00"]).to_string(),
        _ => ascii_word(s, 1, 5),
    };
    let (bytes, name, how) = if override_csv {
        (plain, format!("{}{}", stem, s.pick(&["", ".txt", ".csv", ".dc", ".log"])), "plain".to_string())
    } else {
        match s.weighted(&[5, 3, 1, 1]) {
            0 => (plain, format!("{}{}", stem, ext), "plain".to_string()),
            1 => {
                let c = *s.pick(&STREAM_CODECS);
                let p = pack(s, c, &plain, true);
                (p.bytes, format!("{}{}{}", stem, ext, suffix(c)), p.how)
            }
            2 => {
                let m = gen_member(s, &format!("inner{}", ext), plain);
                let z = gen_zip(s, m, false);
                (build(s, &z).bytes, format!("{}{}", stem, s.pick(&[".zip", "", ".csv"])), "zip".to_string())
            }
            _ => (plain, stem, "plain without extension".to_string()),
        }
    };
    DirFile { name, bytes, table: Some(t), how }
}

fn c21_dir(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let dc_all = s.chance(1, 4);
    let override_csv = !dc_all && s.chance(1, 6);
    // columns: CSV ones are all text
    let nshared = s.urange(1, 5);
    // columns, files
    let more_cols = s.big(Big::Deep, 3_000);
    let many_files = s.big(Big::Wide, 600);
    let rare = many_files.map_or(if s.big == Big::No { 1 } else { 3 }, |n| 1 + n as u64 / 8);
    let mut shared: Vec<(String, Ty)> = vec![("t".to_string(), Ty::Str)];
    for n in COLS[1..].iter().take(nshared) {
        shared.push((n.to_string(), if dc_all { *s.pick(&VALUE_TYPES) } else { Ty::Str }));
    }
    for i in 0..more_cols.unwrap_or(0) {
        shared.push((format!("m{}", i), if dc_all { *s.pick(&VALUE_TYPES) } else { Ty::Str }));
    }
    // columns of the same name, whose order is kept in all files
    let repeated = s.chance(1, 5);
    if repeated {
        for _ in 0..s.urange(1, 2) {
            let k = s.urange(1, shared.len() - 1);
            let (n, mut ty) = shared[k].clone();
            if dc_all && s.chance(1, 4) {
                ty = *s.pick(&VALUE_TYPES);
            }
            let at = s.urange(0, shared.len());
            shared.insert(at, (n, ty));
        }
    }
    let nfiles = s.weighted(&[1, 2, 4, 4, 2, 2]);
    let nfiles = many_files.unwrap_or(nfiles);
    let mut files: Vec<DirFile> = Vec::new();
    let mut ts = 1_000u64;
    for i in 0..nfiles {
        let mut cols = shared.clone();
        // order
        if !repeated && s.bool() {
            for k in (1..cols.len()).rev() {
                let j = s.below(k + 1);
                cols.swap(k, j);
            }
        }
        // additional columns anywhere
        if s.chance(1, 3) {
            for k in 0..s.urange(1, 3) {
                let at = if repeated { cols.len() } else { s.below(cols.len() + 1) };
                cols.insert(at, (format!("extra{}", k), if dc_all { *s.pick(&VALUE_TYPES) } else { Ty::Str }));
            }
        }
        let dc = dc_all || (!override_csv && s.chance(1, 4 * if dc_all { 1 } else { rare }));
        if repeated {
            if s.chance(1, 12 * rare) {
                cols.remove(shared.len() - 1);
            }
        } else if s.chance(1, 12 * rare) && cols.len() > 1 {
            // a column is missing, or named in another way
            let k = s.below(cols.len());
            if cols[k].0 != "t" {
                if s.bool() {
                    cols.remove(k);
                } else {
                    // in DC files blanks count, in CSV ones they do not
                    let n = cols[k].0.clone();
                    let other = match s.below(8) {
                        0 if dc => n.clone() + " ",
                        1 if dc => " ".to_string() + &n,
                        2 if dc => n.clone() + *s.pick(&["\0", "\t", "\u{a0}", "\u{200b}"]),
                        3 => n.to_uppercase(),
                        4 => n.to_lowercase(),
                        5 => n.clone() + *s.pick(&["s", "1", "_", ".", "-"]),
                        6 => n[1..].to_string(),
                        _ => n.to_uppercase() + "'",
                    };
                    // other columns may have that name, and a DC file gives names to those without
                    if !other.trim().is_empty() && !cols.iter().any(|c| c.0 == other) {
                        cols[k].0 = other;
                    }
                }
            }
        }
        if dc && s.chance(1, 12 * rare) {
            let k = s.below(cols.len());
            cols[k].1 = *s.pick(&VALUE_TYPES);
        }
        let mut f = gen_dir_file(s, i, &cols, dc, override_csv, &mut ts);
        if s.chance(1, 30 * rare) {
            f.bytes = vec![0xff, 0xfe, 0x00, 0x80];
            f.name = format!("{}bin", f.name.replace('.', ""));
            f.table = None;
            if override_csv {
                continue;
            }
        }
        if s.chance(1, 40 * rare) {
            // nothing in it, not even the names of the columns
            f.bytes = vec![];
            let csv = override_csv || !dc_all && s.chance(3, 4);
            f.name = format!("{}{}", f.name.replace('.', ""), if override_csv { *s.pick(&["", ".csv", ".dc"]) } else if csv { ".csv" } else { ".dc" });
            f.table = if csv { Some(Table { names: vec![], types: vec![], rows: vec![] }) } else { None };
            f.how = "no bytes".into();
        }
        if files.iter().any(|g| g.name == f.name) {
            continue;
        }
        files.push(f);
    }
    let dir = ctx.file("dir");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).map_err(|e| format!("harness: {}", e))?;
    // created in another order than they are read
    let mut order: Vec<usize> = (0..files.len()).collect();
    for k in (1..order.len()).rev() {
        let j = s.below(k + 1);
        order.swap(k, j);
    }
    // links count as what they point to
    let elsewhere = ctx.file("elsewhere");
    let _ = std::fs::remove_dir_all(&elsewhere);
    let links = s.chance(1, 3);
    if links {
        std::fs::create_dir(&elsewhere).map_err(|e| format!("harness: {}", e))?;
    }
    let mut linked = 0;
    for i in order {
        let mut at = dir.join(&files[i].name);
        if links && s.chance(1, 3) {
            let to = elsewhere.join(format!("data{}", i));
            let target = if s.bool() { to.clone() } else { std::path::Path::new("../elsewhere").join(to.file_name().unwrap()) };
            std::os::unix::fs::symlink(target, &at).map_err(|e| format!("harness: {}", e))?;
            at = to;
            linked += 1;
        }
        std::fs::write(at, &files[i].bytes).map_err(|e| format!("harness: {}", e))?;
    }
    ctx.label_if(linked > 0, "a file is a link");
    let mut subdirs = 0;
    for n in ["5", "sub.csv", ".sub", "a_sub.dc"] {
        if s.chance(1, 5) && !files.iter().any(|f| f.name == n) {
            let mut sub = dir.join(n);
            if links && s.bool() {
                let to = elsewhere.join(n);
                let _ = std::os::unix::fs::symlink(&to, &sub);
                sub = to;
                ctx.label("a subdirectory is a link");
            }
            let _ = std::fs::create_dir(&sub);
            let _ = std::fs::write(sub.join("inner.csv"), "t,a\n5,inner\n");
            subdirs += 1;
        }
    }
    files.sort_by(|a, b| a.name.as_bytes().cmp(b.name.as_bytes()));
    let external = if s.chance(1, 5) {
        let mut h = shared.clone();
        if !repeated && s.bool() {
            h.reverse();
        }
        Some((h.iter().map(|c| c.0.clone()).collect::<Vec<_>>(), h.iter().map(|c| c.1).collect::<Vec<_>>()))
    } else {
        None
    };
    // oracle
    let schema = match &external {
        Some(h) if !files.is_empty() => Some(h.clone()),
        _ => files.first().and_then(|f| f.table.as_ref()).map(|t| (t.names.clone(), t.types.clone())),
    };
    let mut exp: Vec<MRow> = Vec::new();
    let mut problem: Option<(usize, String)> = None;
    if let Some(sc) = &schema {
        for (i, f) in files.iter().enumerate() {
            match f.table.as_ref().ok_or("unreadable".to_string()).and_then(|t| ref_conform(sc, t)) {
                Ok(r) => exp.extend(r),
                Err(e) => {
                    problem = Some((i, e));
                    break;
                }
            }
        }
    } else if !files.is_empty() {
        problem = Some((0, "unreadable".into()));
    }
    ctx.describe(|| {
        format!(
            "{} files ({} links) {}, {} subdirectories, supplied schema {}, expected {} rows, problem {:?}",
            files.len(),
            linked,
            truncate(&format!("{:?}", files.iter().map(|f| format!("{} ({}) {:?}x{}", f.name, f.how, f.table.as_ref().map(|t| t.names.clone()), f.table.as_ref().map(|t| t.rows.len()).unwrap_or(0))).collect::<Vec<_>>()), 3000),
            subdirs,
            truncate(&format!("{:?}", external), 1000),
            exp.len(),
            problem
        )
    });
    ctx.nontrivial = files.len() > 1 && !exp.is_empty();
    ctx.label_if(repeated, "columns of the same name");
    ctx.label_if(files.is_empty(), "no files");
    ctx.label_if(problem.is_some(), "a file does not fit");
    ctx.label_if(external.is_some(), "schema supplied");
    ctx.label_if(subdirs > 0, "subdirectories");
    ctx.label_if(files.windows(2).any(|w| w[0].table.as_ref().map(|t| &t.names) != w[1].table.as_ref().map(|t| &t.names)), "columns differ between files");
    let cfg = csv_cfg(
        Some(","),
        YesNoAuto::Yes,
        TimestampColConfig::Name("t".into()),
        TimestampFmtConfig::Epoch(TimestampUnits::Nanos),
        ChopperTz::new_always_fails(),
    )
    .map_err(|e| err_text(&e))?;
    let format = if override_csv { InputFormat::Extension("csv".into()) } else { InputFormat::Auto };
    let d = match &external {
        None => {
            let p = format!("{}{}", dir.to_str().unwrap(), s.pick(&["", "", "/", "/."]));
            drain(open_with(cfg, None, None, &p, format))?
        }
        Some((n, t)) => {
            let sf = SingleFileInputFactory::new(
                SeekableTransportFactory::new(create_default_seekable_transports()),
                PreviewerTransportFactory::new(create_default_streaming_transports()),
                create_default_source_factories(Some(cfg)),
            );
            let paths = ListProvider(files.iter().map(|f| dir.join(&f.name)).collect());
            drain(SerialMultiFileSource::new(sf, Box::new(paths), format, Some(header_to(n, t))).map(|s| Box::new(s) as Box<dyn Source>))?
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    if d.header_changed {
        return Err("the header changed while rows were read".into());
    }
    match (&problem, &d.err) {
        (None, Some(e)) => return Err(format!("error after {} of {} rows: {}", d.rows.len(), exp.len(), e)),
        (Some((i, w)), None) => return Err(format!("file {:?} does not fit ({}) but {} rows were read without an error", files[*i].name, w, d.rows.len())),
        _ => {}
    }
    if !d.open_failed {
        if let Some((n, t)) = &schema {
            if d.names != *n || d.types != *t {
                return Err(truncate(&format!("schema {:?} {:?}, expected {:?} {:?}", d.names, d.types, n, t), 6000));
            }
        }
        return diff_rows(&exp, &d.rows);
    }
    if problem.as_ref().map(|p| p.0) != Some(0) {
        return Err(format!("could not be opened: {}", d.err.unwrap()));
    }
    Ok(())
}

/// many files, columns or rows
fn c21_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long, Big::Deep]);
    c21_dir(s, ctx)
}

// ---------------------------------------------------------------- C29

fn gen_any_cfg(s: &mut Src) -> Result<chopper::source::csv_configs::CSVInputConfig, String> {
    let delim: Option<String> = match s.weighted(&[4, 4, 1]) {
        0 => None,
        1 => Some(s.pick(&[",", "\t", " ", ";", "\\t", "\"", "\n", "0", "a", "\0"]).to_string()),
        _ => Some(any_string(s, 3)),
    };
    let name = |s: &mut Src| match s.weighted(&[4, 8, 1]) {
        2 => lengthy(s),
        0 => s.pick(&["time", "date", "a", "", "timestamp", "timeseconds", "col_0"]).to_string(),
        _ => any_string(s, 5),
    };
    let col = match s.below(6) {
        0 | 1 => TimestampColConfig::Auto,
        2 if s.chance(1, 12) => TimestampColConfig::Index(*s.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 1 << 63, 65_536])),
        3 if s.chance(1, 12) => TimestampColConfig::DateTimeIndex(*s.pick(&[0, usize::MAX, 1 << 32]), *s.pick(&[0, usize::MAX, 1 << 32])),
        2 => TimestampColConfig::Index(s.below(6)),
        3 => TimestampColConfig::DateTimeIndex(s.below(4), s.below(4)),
        4 => TimestampColConfig::Name(name(s)),
        _ => TimestampColConfig::DateTimeName(name(s), name(s)),
    };
    let fstr = |s: &mut Src| -> String {
        let n = if s.chance(1, 12) { s.below(120) } else { s.below(8) };
        let mut o = String::new();
        if s.chance(1, 20) {
            o = lengthy(s);
        }
        for _ in 0..n {
            o.push_str(*s.pick(&["%Y", "%m", "%d", "%H", "%M", "%S", "%f", "%.f", "%3f", "%.3f", "%z", "%:z", "%Z", "%s", "%+", "%c", "%j", "%y", "%C", "%e", "%p", "%I", "%b", "%A", "%U", "%G", "%V", "%u", "%n", "%t", "%%", "%", "%Q", "%-d", "%_H", "%#z", " ", "-", "T", ":", "é", "#", "%F", "%T", "%D", "%R", "%9f", "%x", "%X", "%r", "%h", "%B", "%a", "%l", "%k", "%P", "%E", "%:", "%."]));
        }
        o
    };
    let fmt = match s.below(4) {
        0 | 1 => TimestampFmtConfig::Auto,
        2 => match s.below(2) {
            0 => TimestampFmtConfig::Epoch(*s.pick(&[TimestampUnits::Seconds, TimestampUnits::Millis, TimestampUnits::Micros, TimestampUnits::Nanos])),
            _ => TimestampFmtConfig::Explicit(fstr(s)),
        },
        _ => TimestampFmtConfig::DateTimeExplicit(fstr(s), fstr(s)),
    };
    let tz = if s.bool() { ChopperTz::new_always_fails() } else { ChopperTz::from(gen_zone(s)) };
    let hdr = *s.pick(&[YesNoAuto::Auto, YesNoAuto::Yes, YesNoAuto::No]);
    match csv_cfg(delim.as_deref(), hdr, col, fmt, tz) {
        Ok(c) => Ok(c),
        Err(e) => Err(err_text(&e)),
    }
}

/// a text of some length, in characters of one to four bytes, perhaps with a date or number before or behind it
fn lengthy(s: &mut Src) -> String {
    let n = match s.weighted(&[3, 3, 3, 1]) {
        0 => s.urange(4, 40),
        1 => s.urange(40, 300),
        2 => *s.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        _ => *s.pick(&[1023usize, 1024, 4095, 4096, 4097, 65_535, 65_536, 65_537]),
    };
    let pad = "y".repeat(s.below(4));
    let t = sized_string(s, n);
    let d = *s.pick(&["", "", "2020-02-03T04:05:06Z", "20200203", "20200203 040506", "1500000000", "time", "-", "+"]);
    if s.bool() {
        format!("{}{}{}", pad, t, d)
    } else {
        format!("{}{}{}", d, pad, t)
    }
}

/// date and number shaped cells, to get past the first steps of parsing
fn cell_soup(s: &mut Src) -> String {
    if s.chance(1, 40) {
        return lengthy(s);
    }
    match s.below(9) {
        0 => s.u64_any().to_string(),
        1 => s.i64_any().to_string(),
        2 => format!("{}-{:02}-{:02}T{:02}:{:02}:{:02}{}", s.pick(&["2020", "1970", "9999", "0000", "-0001", "+262142", "262143", "1969", "2554", "99999999"]), s.below(14), s.below(33), s.below(26), s.below(61), s.below(62), s.pick(&["Z", "+00:00", "-12:34", "+99:99", "", "+23:59", "-00:00", "+24:00"])),
        3 => format!("{:04}{:02}{:02}", s.below(10000), s.below(14), s.below(33)),
        4 => format!("{:02}:{:02}:{:02}.{}", s.below(26), s.below(62), s.below(62), s.u64_any()),
        5 => any_string(s, 6),
        6 => s.pick(&["", "NaN", "inf", "-0", "1e400", "1e-400", "0x10", "+1", " 1", "1 ", "\u{feff}1", "18446744073709551616", "9223372036854775808", "١٢"]).to_string(),
        7 => s.pick(&["time", "date", "timestamp", "timeseconds", "TIMENANOS", "eventdate", "eventtime", "İtime", "ſtime", "timeSECONDſ", "ẞdate"]).to_string(),
        _ => format!("{}{}", s.pick(&["\"", "'", "\"\"", "\\"]), any_string(s, 4)),
    }
}

fn gen_soup(s: &mut Src) -> Vec<u8> {
    let d = *s.pick(&[",", ",", "\t", " ", ";", "|"]);
    let lines = s.many(0, 30, 5, |s| {
        let cells = s.many(0, 8, 3, cell_soup);
        cells.join(d)
    });
    let mut o = Vec::new();
    if s.chance(1, 10) {
        o.extend_from_slice(&[0xef, 0xbb, 0xbf]);
    }
    for l in lines {
        o.extend_from_slice(l.as_bytes());
        o.extend_from_slice(s.pick(&[&b"\n"[..], b"\n", b"\r\n", b"\r", b"\n\n", b"\0", b""]));
        if s.chance(1, 40) {
            o.push(*s.pick(&[0xffu8, 0x80, 0xc3, 0]));
        }
        if s.chance(1, 60) {
            let n = *s.pick(&[8191usize, 8192, 8193, 20_000, 70_000]);
            o.resize(o.len() + n, *s.pick(&[b'x', b',', b'"', b'\n', b'1', 0xc3]));
        }
    }
    o
}

fn magic(s: &mut Src) -> Vec<u8> {
    s.pick(&[
        &b""[..],
        b"\x1f\x8b\x08\x00",
        b"\x04\x22\x4d\x18",
        b"LZ4Block",
        b"ZV\x01\x00",
        b"ZV\x00\x00\x02",
        b"PK\x03\x04",
        b"\x28\xb5\x2f\xfd",
        b"\x3f\x84\xcb\xb2",
    ])
    .to_vec()
}

fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.urange(0, 4) {
        if b.is_empty() {
            b.extend((0..s.below(20)).map(|_| s.draw(255) as u8).collect::<Vec<_>>());
            continue;
        }
        let n = b.len();
        let at = match s.below(3) {
            0 => s.below(n),
            1 => s.below(n.min(64)),
            _ => n - 1 - s.below(n.min(64)),
        };
        match s.below(8) {
            0 => b[at] ^= 1 << s.below(8),
            1 => b[at] = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'\n', b',', b'"', b'0']),
            2 => {
                b.remove(at);
            }
            3 => b.insert(at, s.draw(255) as u8),
            4 => b.truncate(at),
            5 => {
                let l = s.below(20).min(n - at);
                let x = b[at..at + l].to_vec();
                for (i, y) in x.into_iter().enumerate() {
                    b.insert(at + i, y);
                }
            }
            6 => {
                for i in 0..4.min(n - at) {
                    b[at + i] = *s.pick(&[0u8, 0xff, 0x80, 0x7f]);
                }
            }
            _ => {
                let l = s.below(40).min(n - at);
                b.drain(at..at + l);
            }
        }
    }
}

fn gen_any_name(s: &mut Src) -> String {
    match s.weighted(&[8, 2]) {
        0 => {
            let base = *s.pick(&["x", "x.csv", "x.dc", "x.csv", "x.dc", ".csv", "csv", "x."]);
            let sfx = *s.pick(&["", "", "", "", ".gz", ".lz4", ".lzf", ".zst", ".zip", ".gz.gz"]);
            if s.chance(1, 20) {
                let mut l = lengthy(s);
                if l.len() > 200 {
                    l = l.chars().take(40).collect();
                }
                return format!("{}{}{}", l, base, sfx);
            }
            format!("{}{}", base, sfx)
        }
        _ => any_string(s, 12).replace(['/', '\0'], "_"),
    }
}

fn gen_any_format(s: &mut Src) -> InputFormat {
    match s.weighted(&[5, 2, 1]) {
        0 => InputFormat::Auto,
        1 => InputFormat::Extension(s.pick(&["csv", "dc", ".csv.gz", "dc.lz4", "csv.lzf", "csv.zst", "zip", "", ".", "gz"]).to_string()),
        _ if s.chance(1, 8) => InputFormat::Extension(lengthy(s)),
        _ => InputFormat::Extension(any_string(s, 6)),
    }
}

/// texts that come from the user, other than a configuration: bounds and zones
fn c29_args(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let arg = |s: &mut Src| match s.below(4) {
        0 => cell_soup(s),
        1 => lengthy(s),
        2 => s.pick(&["2020", "202002", "20200230", "20200203-04", "20200203-04:05", "20200203-040506.", "1500000000", "UTC", "Europe/London", "GMT+", "../UTC", "/", ""]).to_string() + &any_string(s, 3),
        _ => any_string(s, 30),
    };
    let (a, b, z) = (arg(s), arg(s), arg(s));
    ctx.describe(|| format!("bounds {:?} and {:?}, zone {:?}", truncate(&a, 200), truncate(&b, 200), truncate(&z, 200)));
    ctx.nontrivial = !a.is_empty() || !b.is_empty();
    let tz = if s.bool() { ChopperTz::new_always_fails() } else { ChopperTz::from(gen_zone(s)) };
    let r = guard(|| {
        let ok = chopper::chopper::types::TimestampRange::new(Some(&a), if s.bool() { Some(&b) } else { None }, &tz).is_ok();
        (ok, ChopperTz::new_from_cli_arg(Some(&z), None).is_ok())
    })
    .map_err(|p| format!("an argument crashes: {}", p))?;
    ctx.label(if r.0 { "bounds accepted" } else { "bounds refused" });
    ctx.label(if r.1 { "zone accepted" } else { "zone refused" });
    Ok(())
}

/// any input yields rows of its schema or an error
fn check_any(s: &mut Src, ctx: &mut Ctx, bytes: Vec<u8>, name: &str, format: InputFormat, real: bool) -> Outcome {
    let cfg = gen_any_cfg(s);
    check_with(s, ctx, cfg, bytes, name, format, real)
}

fn check_with(
    s: &mut Src,
    ctx: &mut Ctx,
    cfg: Result<chopper::source::csv_configs::CSVInputConfig, String>,
    bytes: Vec<u8>,
    name: &str,
    format: InputFormat,
    real: bool,
) -> Outcome {
    ctx.describe(|| {
        format!(
            "{} bytes {:?} named {:?} format {:?}, configuration {:?}",
            bytes.len(),
            truncate(&String::from_utf8_lossy(&bytes), 300),
            name,
            format,
            cfg.as_ref().map(|c| truncate(&format!("{:?}", c), 300))
        )
    });
    let cfg = match cfg {
        Ok(c) => c,
        // a configuration that is refused
        Err(_) => return Ok(()),
    };
    ctx.label_if(bytes.is_empty(), "no bytes");
    ctx.nontrivial = !bytes.is_empty();
    let r = guard(|| -> Result<Drained, String> {
        if real {
            let p = ctx.file("in");
            let _ = std::fs::remove_dir_all(&p);
            std::fs::create_dir(&p).map_err(|e| format!("harness: {}", e))?;
            let name = if name.is_empty() || name == "." || name == ".." { "x" } else { name };
            let f = p.join(name);
            std::fs::write(&f, &bytes).map_err(|e| format!("harness: {}", e))?;
            let target = if s.chance(1, 4) { p.clone() } else { f };
            drain(open_with(cfg, None, None, target.to_str().unwrap(), format))
        } else {
            let ch = gen_chunking(s, bytes.len());
            drain(open_mem(cfg, name, MemFile::new(bytes.clone(), ch), format))
        }
    });
    let d = match r {
        Err(p) => return Err(format!("arbitrary input crashes: {}", p)),
        Ok(d) => d?,
    };
    ctx.label(if d.err.is_some() { "refused" } else { "accepted" });
    ctx.label_if(!d.rows.is_empty(), "rows delivered");
    check_shape(&d)
}

/// a file whose columns are of one kind each, with a few cells that are not, and a configuration for it
fn gen_plausible(s: &mut Src) -> (Vec<u8>, Result<chopper::source::csv_configs::CSVInputConfig, String>) {
    let d = *s.pick(&[",", ",", ",", "\t", ";", " "]);
    let hdr = s.chance(3, 4);
    let ncols = s.urange(1, 5);
    let ncols = s.big(Big::Wide, 20_000).unwrap_or(ncols);
    let nrows = s.urange(1, 12);
    let nrows = if s.big == Big::Wide { nrows.min(3) } else { nrows };
    let nrows = s.big(Big::Long, 40_000).unwrap_or(nrows);
    let rare = if s.big == Big::Long && s.chance(2, 3) { nrows as u64 } else { 1 };
    // how the time is given
    let how = s.below(6);
    let tcol = s.below(ncols);
    let dcol = if how >= 4 { s.below(ncols) } else { tcol };
    let unit = s.below(4);
    let base: i128 = match s.below(4) {
        0 => 0,
        1 => 1_600_000_000_000_000_000,
        2 => 18_446_744_073_000_000_000,
        _ => 631_152_000_000_000_000,
    };
    let scale = [1_000_000_000i128, 1_000_000, 1_000, 1][unit];
    let sep = *s.pick(&["-", "/", "", "."]);
    let tz = *s.pick(&["", "Z", "+05:30", "+0000", " -03:00"]);
    let frac = *s.pick(&["", ".5", ".123456789", ".1234567890123", "."]);
    let mut lines: Vec<Vec<String>> = Vec::new();
    if hdr {
        lines.push(
            (0..ncols)
                .map(|i| {
                    if i == tcol {
                        match how {
                            0 | 1 => s.pick(&["time", "timestamp", "timestampNanos", "timeSeconds", "timemicros", "eventtimemillis", "t"]).to_string(),
                            _ => s.pick(&["time", "timestamp", "datetime", "event time", "t"]).to_string(),
                        }
                    } else if i == dcol {
                        s.pick(&["date", "Date", "event date", "d"]).to_string()
                    } else {
                        s.pick(&["a", "b", "", "a", "dat", "x y", "é"]).to_string()
                    }
                })
                .collect(),
        );
    }
    let mut t = base;
    for _ in 0..nrows {
        t += s.below(3) as i128 * if s.bool() { scale } else { 86_400_000_000_000 };
        let (days, rem) = (t.div_euclid(86_400_000_000_000), t.rem_euclid(86_400_000_000_000));
        let (y, m, dd) = civil(days as i64);
        let sod = rem / 1_000_000_000;
        let date = format!("{:04}{}{:02}{}{:02}", y, sep, m, sep, dd);
        let time = format!("{:02}:{:02}:{:02}{}", sod / 3600, sod / 60 % 60, sod % 60, frac);
        let mut row: Vec<String> = (0..ncols)
            .map(|i| {
                if i == tcol {
                    match how {
                        0 | 1 => (t / scale).to_string(),
                        2 | 3 => format!("{}{}{}{}", date, if how == 2 { "T" } else { " " }, time, tz),
                        _ => time.clone(),
                    }
                } else if i == dcol {
                    date.clone()
                } else {
                    match s.below(4) {
                        0 if rare == 1 && ncols < 60 || s.chance(1, 2 * rare.max(ncols as u64)) => cell_soup(s),
                        1 => String::new(),
                        _ => s.below(100).to_string(),
                    }
                }
            })
            .collect();
        if s.chance(1, 20 * rare) {
            let k = s.below(ncols);
            row[k] = cell_soup(s);
        }
        if s.chance(1, 20 * rare) {
            row.truncate(s.below(ncols + 1));
        }
        if s.chance(1, 25 * rare) {
            row.push(cell_soup(s));
        }
        lines.push(row);
    }
    let mut o = Vec::new();
    for l in &lines {
        let q: Vec<String> = l.iter().map(|c| if c.contains(d) || s.chance(1, 20) { format!("\"{}\"", c.replace('"', "\"\"")) } else { c.clone() }).collect();
        o.extend_from_slice(q.join(d).as_bytes());
        o.extend_from_slice(s.pick(&[&b"\n"[..], b"\n", b"\n", b"\n", b"\n", b"\r\n", b"\n\n"]));
    }
    if s.chance(1, 8) {
        o.pop();
    }
    if s.chance(1, 5) {
        return (o, gen_any_cfg(s));
    }
    let col = match s.below(4) {
        0 => TimestampColConfig::Auto,
        1 if hdr => {
            if how >= 4 {
                TimestampColConfig::DateTimeName(lines[0][dcol].clone(), lines[0][tcol].clone())
            } else {
                TimestampColConfig::Name(lines[0][tcol].clone())
            }
        }
        _ => {
            if how >= 4 {
                TimestampColConfig::DateTimeIndex(dcol, tcol)
            } else {
                TimestampColConfig::Index(tcol)
            }
        }
    };
    let units = [TimestampUnits::Seconds, TimestampUnits::Millis, TimestampUnits::Micros, TimestampUnits::Nanos];
    let fd = format!("%Y{}%m{}%d", sep, sep);
    let ft = format!("%H:%M:%S{}", if frac.is_empty() { "" } else { "%.f" });
    let fmt = match s.below(3) {
        0 => TimestampFmtConfig::Auto,
        _ => match how {
            0 | 1 => TimestampFmtConfig::Epoch(if s.chance(4, 5) { units[unit] } else { *s.pick(&units) }),
            2 | 3 => TimestampFmtConfig::Explicit(format!("{}{}{}{}", fd, if how == 2 { "T" } else { " " }, ft, match tz { "" => "", "Z" => "Z", " -03:00" => " %z", _ => "%z" })),
            _ => TimestampFmtConfig::DateTimeExplicit(fd, ft),
        },
    };
    let z = if s.chance(1, 4) { ChopperTz::new_always_fails() } else { ChopperTz::from(gen_zone(s)) };
    let h = if s.bool() { YesNoAuto::Auto } else if hdr { YesNoAuto::Yes } else { YesNoAuto::No };
    let delim = if s.bool() { None } else { Some(d) };
    (o, csv_cfg(delim, h, col, fmt, z).map_err(|e| err_text(&e)))
}

fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}

fn c29_near(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let (b, cfg) = gen_plausible(s);
    let real = s.chance(1, 15);
    check_with(s, ctx, cfg, b, "x.csv", InputFormat::Auto, real)
}

fn c29_big(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    s.go_big(ctx, &[Big::Wide, Big::Long]);
    c29_near(s, ctx)
}

fn c29_text(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let b = gen_soup(s);
    let name = if s.chance(2, 3) { "x.csv".to_string() } else { gen_any_name(s) };
    let f = if s.chance(3, 4) { InputFormat::Auto } else { gen_any_format(s) };
    let real = s.chance(1, 15);
    check_any(s, ctx, b, &name, f, real)
}

fn c29_mutated(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let plain = match s.below(3) {
        0 => gen_doc(s, 60, 5).bytes,
        1 => {
            let mut b = gen_doc(s, 60, 5).bytes;
            mutate(s, &mut b);
            b
        }
        _ => gen_soup(s),
    };
    let what = s.below(4);
    let (mut b, name) = match what {
        0 => {
            let mut p = plain;
            mutate(s, &mut p);
            (p, s.pick(&["x.dc", "x.csv", "x"]).to_string())
        }
        1 => {
            let mn = *s.pick(&["i.csv", "i.dc", "i", "i.csv.gz"]);
            let m = gen_member(s, mn, plain);
            let z = gen_zip(s, m, true);
            let mut b = build(s, &z).bytes;
            mutate(s, &mut b);
            (b, s.pick(&["x.zip", "x", "x.csv"]).to_string())
        }
        _ => {
            let c = *s.pick(&STREAM_CODECS);
            let sized = s.bool();
            let p = pack(s, c, &plain, sized);
            let mut b = if s.bool() && !p.bytes.is_empty() {
                damage(s, &p, c, false).1
            } else {
                let mut b = p.bytes;
                mutate(s, &mut b);
                b
            };
            mask_sizes(&mut b, Codec::Lz4Block);
            (b, format!("x{}{}", s.pick(&[".csv", ".dc", ""]), suffix(c)))
        }
    };
    mask_sizes(&mut b, Codec::Lz4Block);
    let name = if s.chance(1, 6) { gen_any_name(s) } else { name };
    let f = if s.chance(5, 6) { InputFormat::Auto } else { gen_any_format(s) };
    let real = what == 1 || s.chance(1, 15);
    check_any(s, ctx, b, &name, f, real)
}

fn c29_raw(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let mut b = magic(s);
    let n = s.below(200);
    let alpha = *s.pick(&[255u64, 3, 15]);
    b.extend((0..n).map(|_| s.draw(alpha) as u8).collect::<Vec<_>>());
    mask_sizes(&mut b, Codec::Lz4Block);
    let name = gen_any_name(s);
    let f = gen_any_format(s);
    let real = s.chance(1, 3);
    check_any(s, ctx, b, &name, f, real)
}

/// every header byte sequence of a few fixed shapes
fn c29_fixed(s: &mut Src, ctx: &mut Ctx) -> Outcome {
    let b = s
        .pick(&[
            &b""[..], b"\n", b"\r\n", b"\r", b"\n\n\n", b" \n \n", b",", b",,,\n,,,\n", b"\"", b"\"\n", b"\"\"\n\"\"", b"a", b"a\n", b"a,b\n", b"time\n", b"time\n\n", b"time,x\n1", b"\xef\xbb\xbf",
            b"\xef\xbb\xbfa,b\n1,2\n", b"\0", b"\0\0\0\0\0\0\0\0", b"\xff", b"1", b"1\n", b"1,2\n", b"\t", b"\t\t\n", b" ", b"date,time\n20200101,120000\n", b"date\n20200101", b"#", b"1\n1,2\n", b"1,2\n1\n",
        ])
        .to_vec();
    let name = s.pick(&["x.csv", "x", "x.dc", "x.csv.gz", "x.lzf", "x.zst", "x.lz4", "x.zip"]).to_string();
    let f = if s.chance(3, 4) { InputFormat::Auto } else { gen_any_format(s) };
    let real = s.chance(1, 6);
    check_any(s, ctx, b, &name, f, real)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            level: "exploration",
            rule: "contents (CSV, DC, DC of another version, cut DC, junk, none; plain or in one of five compressions) served by a user transport, a file, a zip archive or a user transport over a file, under generated names, overrides, user factories (by name suffix or contents) and competing transports; oracle: decision table; non-trivial: the table decides and something can open the path",
            assumptions: &["contents shorter than the preview where detection by contents is pinned", "data compressed twice and names that promise a compression the data lacks are only required to be refused or left open as stated in DESIGN.md"],
            families: vec![
                Family { name: "decide", f: c20_decide, quick: 150_000, thorough: 4_000_000 },
                Family { name: "big", f: c20_big, quick: 2_000, thorough: 40_000 },
            ],
        },
        Property {
            id: "C21",
            level: "exploration",
            rule: "directories of 0-5 (in the big family: hundreds) CSV, DC, compressed and zipped files with reordered, additional, missing, retyped and same-named columns, odd names, subdirectories, an override or a supplied schema; oracle: ordered concatenation by column name; non-trivial: more than one file and at least one row",
            assumptions: &["columns of the same name keep their order among each other in all files", "entries are regular files and directories (no links, no special files)"],
            families: vec![
                Family { name: "dir", f: c21_dir, quick: 40_000, thorough: 1_000_000 },
                Family { name: "big", f: c21_big, quick: 300, thorough: 8_000 },
            ],
        },
        Property {
            id: "C29",
            level: "exploration",
            rule: "plausible CSV files with a fitting configuration and odd cells, text soups of date, number and quote shaped cells, valid files of every format mutated at random, random bytes behind every magic number, and degenerate files, under any name, override and CSV configuration (texts of any length; big family: 20000 columns or 40000 rows), and texts given as bounds and zones; a panic, abort, exit or runaway is a violation, and rows must match the schema; non-trivial: at least one byte",
            assumptions: &["declared sizes of lz4 blocks are kept below 4 MB so that the test itself has the memory"],
            families: vec![
                Family { name: "near", f: c29_near, quick: 100_000, thorough: 4_000_000 },
                Family { name: "text", f: c29_text, quick: 100_000, thorough: 4_000_000 },
                Family { name: "mutated", f: c29_mutated, quick: 40_000, thorough: 2_000_000 },
                Family { name: "raw", f: c29_raw, quick: 40_000, thorough: 2_000_000 },
                Family { name: "fixed", f: c29_fixed, quick: 20_000, thorough: 200_000 },
                Family { name: "big", f: c29_big, quick: 500, thorough: 10_000 },
                Family { name: "args", f: c29_args, quick: 60_000, thorough: 2_000_000 },
            ],
        },
    ]
}
