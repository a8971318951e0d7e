//! Property-based testing engine: choice-tape generation, parallel deterministic search, internal
//! shrinking, child-process supervision (so that an abort or process::exit in the code under test
//! becomes a reportable failure), evidence and replay files.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random source

#[derive(Clone)]
pub struct Rng(u64, u64);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_parts(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        for b in *p {
            h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100_0000_01b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a, b | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
}

/// Source of choices. Every random decision of a case goes through `draw`; the recorded choices are
/// the tape that shrinking and replay work on. 0 is always the simplest choice.
pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    log: Option<std::fs::File>,
    /// set when a case made absurdly many choices (e.g. a generator loop that an all-zero tape does
    /// not end); such a case is dropped
    overrun: bool,
    /// set by the families that generate large structures
    pub big: Big,
    /// what the next choice is to be
    hint: Option<u64>,
}

/// what a case has much of
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Big {
    No,
    /// columns, inputs, files
    Wide,
    /// rows, bytes
    Long,
    /// nodes of a chain
    Deep,
}

const MAX_DRAWS: usize = 40_000_000;
const MAX_DRAWS_PAST_END: usize = 300_000;

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), tape: Vec::new(), pos: 0, rec: Vec::new(), log: None, overrun: false, big: Big::No, hint: None }
    }
    pub fn replay(tape: &[u64]) -> Src {
        Src { rng: None, tape: tape.to_vec(), pos: 0, rec: Vec::new(), log: None, overrun: false, big: Big::No, hint: None }
    }
    fn logged(mut self) -> Src {
        if let Ok(p) = std::env::var("VERIF_TAPE_LOG") {
            self.log = std::fs::File::create(p).ok();
        }
        self
    }
    /// uniform in 0..=max
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let hint = self.hint.take();
                if let Some(v) = hint {
                    v.min(max)
                } else if max == u64::MAX {
                    r.next()
                } else {
                    let n = max + 1;
                    (((r.next() as u128) * (n as u128)) >> 64) as u64
                }
            }
            None => {
                let v = if self.pos < self.tape.len() { self.tape[self.pos] } else { 0 };
                self.pos += 1;
                v.min(max)
            }
        };
        let past_end = self.rng.is_none() && self.pos > self.tape.len() + MAX_DRAWS_PAST_END;
        if past_end || self.rec.len() > MAX_DRAWS {
            self.overrun = true;
            panic!("too many choices");
        }
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = writeln!(f, "{}", v);
        }
        v
    }
    /// now and then the next choice is to be a number that the code mentions, if that is in lo..=hi
    fn maybe_hint(&mut self, lo: i128, hi: i128, den: u64) {
        let d = crate::dict::dict();
        if d.numbers.is_empty() || hi - lo < 3 {
            return;
        }
        if let Some(r) = &mut self.rng {
            let x = r.next();
            if x % den == 0 {
                let v = d.numbers[(x >> 20) as usize % d.numbers.len()] as i128 + [0, 0, 1, -1][(x >> 12) as usize % 4];
                if v >= lo && v <= hi {
                    self.hint = Some((v - lo) as u64);
                }
            }
        }
    }
    /// a text that the code mentions, now and then
    pub fn text_hint(&mut self, words: bool) -> Option<&'static str> {
        let d = crate::dict::dict();
        let v = if words { &d.words } else { &d.texts };
        if v.is_empty() || !self.chance(1, 12) {
            return None;
        }
        let i = self.below(v.len());
        Some(&v[i])
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        self.maybe_hint(lo as i128, hi as i128, 24);
        lo.wrapping_add(self.draw((hi as i128 - lo as i128) as u64) as i64)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.maybe_hint(lo as i128, hi as i128, 12);
        if hi == lo {
            self.hint = None;
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut v = self.draw(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        weights.len() - 1
    }
    /// list length by repeated continue decisions (so that shrinking can delete elements)
    pub fn more(&mut self, n_so_far: usize, min: usize, max: usize, avg: u64) -> bool {
        if n_so_far >= max {
            return false;
        }
        if n_so_far < min {
            return true;
        }
        self.draw(1023) > 1023 / (avg + 1)
    }
    pub fn many<T>(&mut self, min: usize, max: usize, avg: u64, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut v = Vec::new();
        self.maybe_hint(min as i128, max as i128, 24);
        if let Some(n) = self.hint.take() {
            // the same choices as below, leading to that length
            let n = min + n as usize;
            while v.len() < n {
                if v.len() >= min {
                    self.hint = Some(1023);
                    self.draw(1023);
                }
                v.push(f(self));
            }
            if n < max {
                self.hint = Some(0);
                self.draw(1023);
            }
            return v;
        }
        while self.more(v.len(), min, max, avg) {
            v.push(f(self));
        }
        v
    }
    /// a count near a power of two or another likely limit, when the case is to have much of `what`
    pub fn big(&mut self, what: Big, cap: usize) -> Option<usize> {
        if self.big != what {
            return None;
        }
        const NEAR: [usize; 15] = [64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 16_384, 32_768, 50_000, 65_536];
        let n = NEAR.iter().filter(|x| **x < cap).count().max(1);
        self.maybe_hint(0, cap as i128, 2);
        if self.rng.is_some() && self.hint.is_some() {
            // the replay of this choice takes the same way
            let h = self.hint.take().unwrap();
            self.hint = Some(1);
            self.draw(1);
            self.hint = Some(h);
            return Some((self.draw(cap as u64) as usize).max(1));
        }
        if self.rng.is_some() {
            self.hint = Some(0);
        }
        if self.draw(1) == 1 {
            return Some((self.draw(cap as u64) as usize).max(1));
        }
        let near = NEAR[self.below(n)];
        let more = self.below(4) + if self.chance(1, 3) { self.below(near / 2) } else { 0 };
        Some((near + more).saturating_sub(self.below(2)).min(cap))
    }
    /// a count up to `cap`, often near a power of two
    pub fn edge(&mut self, cap: usize) -> usize {
        if self.chance(1, 3) {
            return self.urange(1, cap);
        }
        let top = (usize::BITS - 1 - cap.leading_zeros()) as usize;
        let near = 1usize << self.urange(2, top);
        (near + self.below(5)).saturating_sub(2).max(1).min(cap)
    }
    /// makes this a case with much of one of `kinds`
    pub fn go_big(&mut self, ctx: &mut Ctx, kinds: &[Big]) {
        self.big = *self.pick(kinds);
        ctx.label(match self.big {
            Big::No => "ordinary",
            Big::Wide => "much side by side",
            Big::Long => "much in a row",
            Big::Deep => "much nested",
        });
    }
    /// u64 biased to interesting magnitudes
    pub fn u64_any(&mut self) -> u64 {
        if !crate::dict::dict().numbers.is_empty() && self.chance(1, 10) {
            self.maybe_hint(0, u64::MAX as i128, 1);
            return self.draw(u64::MAX);
        }
        match self.weighted(&[4, 3, 2, 2]) {
            0 => self.draw(20),
            1 => {
                let bits = self.draw(63);
                self.draw(if bits == 63 { u64::MAX } else { (2u64 << bits) - 1 })
            }
            2 => u64::MAX - self.draw(3),
            _ => {
                let p = 1u64 << self.draw(63);
                p.wrapping_add(self.draw(4)).wrapping_sub(2)
            }
        }
    }
    pub fn i64_any(&mut self) -> i64 {
        self.u64_any() as i64
    }
    pub fn tape_hash(&self) -> u64 {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        for v in &self.rec {
            h = (h ^ v).wrapping_mul(0x100_0000_01b3);
            h ^= h >> 29;
        }
        h
    }
}

// ---------------------------------------------------------------- properties

pub type Outcome = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> Outcome;

pub struct Family {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
}

pub struct Ctx {
    pub thorough: bool,
    /// private scratch directory of this worker, emptied by `clean_scratch`
    pub scratch: PathBuf,
    labels: Vec<&'static str>,
    pub nontrivial: bool,
    want_desc: bool,
    pub desc: Option<String>,
    /// additional executions made inside the case (e.g. enumerated faults)
    pub extra_evals: u64,
}

impl Ctx {
    fn new(thorough: bool, scratch: PathBuf) -> Ctx {
        Ctx { thorough, scratch, labels: vec![], nontrivial: false, want_desc: false, desc: None, extra_evals: 0 }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
    pub fn file(&self, name: &str) -> PathBuf {
        self.scratch.join(name)
    }
    pub fn reset_scratch(&self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
        std::fs::create_dir_all(&self.scratch).expect("scratch dir");
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = match f.find("/registry/src/") {
                    Some(i) => {
                        let rest = &f[i + 14..];
                        rest.splitn(2, '/').nth(1).unwrap_or(rest)
                    }
                    None => f,
                };
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let first_repo = String::new();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}{}", loc, msg, first_repo)));
    }));
}

/// Run code under test; a panic is turned into Err("panic at ...").
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let r = guard(|| f(src, ctx));
    if src.overrun {
        ctx.nontrivial = false;
        return Ok(());
    }
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("CRASH {}", p)),
    }
}

// ---------------------------------------------------------------- known findings

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

/// known_findings.txt: lines `finding: property=<id> signature=<<...>> <what>`; `fixed:` lines and
/// comments are documentation and suppress nothing.
pub fn load_known(root: &Path) -> Vec<Known> {
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: property=") {
            if let (Some(sp), Some(a), Some(b)) = (rest.find(' '), rest.find("<<"), rest.find(">>")) {
                out.push(Known {
                    property: rest[..sp].to_string(),
                    signature: rest[a + 2..b].to_string(),
                    what: rest[b + 2..].trim().to_string(),
                });
            }
        }
    }
    out
}

// ---------------------------------------------------------------- worker

const THREADS: usize = 8;

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known_hits: BTreeMap<String, u64>,
}

struct Failure {
    index: u64,
    tape: Vec<u64>,
    msg: String,
}

pub struct Config {
    pub root: PathBuf,
    pub scratch: PathBuf,
    pub seed: u64,
    pub thorough: bool,
}

impl Config {
    pub fn from_env() -> Config {
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into()));
        let root = root.canonicalize().unwrap_or(root);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let scratch = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_default());
        Config { root, scratch, seed, thorough }
    }
}

fn case_seed(cfg: &Config, id: &str, fam: &str, index: u64) -> u64 {
    hash_parts(&[&cfg.seed.to_le_bytes(), id.as_bytes(), fam.as_bytes(), &index.to_le_bytes()])
}

/// shared in-flight table: per thread (family+1, index), readable by the parent after a crash
struct Slots {
    ptr: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    fn open(path: &Path) -> Option<Slots> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).ok()?;
        f.set_len((THREADS * 16) as u64).ok()?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                THREADS * 16,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            None
        } else {
            Some(Slots { ptr: p as *mut u64 })
        }
    }
    fn set(&self, t: usize, fam: u64, idx: u64) {
        unsafe {
            std::ptr::write_volatile(self.ptr.add(t * 2), fam);
            std::ptr::write_volatile(self.ptr.add(t * 2 + 1), idx);
        }
    }
    fn get(&self, t: usize) -> (u64, u64) {
        unsafe { (std::ptr::read_volatile(self.ptr.add(t * 2)), std::ptr::read_volatile(self.ptr.add(t * 2 + 1))) }
    }
}

fn match_known<'a>(known: &'a [Known], msg: &str) -> Option<&'a Known> {
    known.iter().find(|k| msg.contains(&k.signature))
}

fn shrink(
    tape: Vec<u64>,
    msg: String,
    mut budget: usize,
    deadline: Instant,
    run: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String) {
    let mut best = tape;
    let mut best_msg = msg;
    let mut try_it = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String, budget: &mut usize| -> bool {
        if *budget == 0 || Instant::now() > deadline {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        if let Some((used, m)) = run(cand) {
            // accept if strictly simpler: shorter, or same length and lexicographically smaller
            let simpler = used.len() < best.len() || (used.len() == best.len() && used < *best);
            if simpler {
                *best = used;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        for size in [256usize, 64, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 && budget > 0 {
                i = i.min(best.len());
                if i < size {
                    break;
                }
                let start = i - size;
                let mut cand = best.clone();
                cand.drain(start..i);
                if !try_it(&cand, &mut best, &mut best_msg, &mut budget) {
                    i = i.saturating_sub(if size > 8 { size / 2 } else { 1 });
                }
            }
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut start = 0;
            while start < best.len() && budget > 0 {
                let end = (start + size).min(best.len());
                if best[start..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[start..end] {
                        *v = 0;
                    }
                    try_it(&cand, &mut best, &mut best_msg, &mut budget);
                }
                start += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && budget > 0 {
            let mut lo = 0u64;
            let mut guard_n = 0;
            while i < best.len() && lo < best[i] && guard_n < 24 && budget > 0 {
                guard_n += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !try_it(&cand, &mut best, &mut best_msg, &mut budget) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    (best, best_msg)
}

fn render_case(p: &Property, fam: &Family, tape: &[u64], cfg: &Config) -> (String, String) {
    let mut src = Src::replay(tape);
    let mut ctx = Ctx::new(cfg.thorough, cfg.scratch.join("render"));
    ctx.want_desc = true;
    ctx.reset_scratch();
    let r = run_case(fam.f, &mut src, &mut ctx);
    let _ = p;
    (ctx.desc.unwrap_or_default(), r.err().unwrap_or_else(|| "(did not fail again)".into()))
}

fn write_replay(cfg: &Config, id: &str, fam: &str, tape: &[u64], msg: &str, desc: &str) -> PathBuf {
    let dir = cfg.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let tape_s: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
    let tape_s = tape_s.join(",");
    let h = hash_parts(&[id.as_bytes(), fam.as_bytes(), tape_s.as_bytes()]);
    let path = dir.join(format!("{}-{}-{:08x}.replay", id, fam, h as u32));
    let text = format!(
        "property: {}\nfamily: {}\nvalues: {}\ntape: {}\n--- message\n{}\n--- case\n{}\n",
        id, fam, crate::dict::encode(), tape_s, msg, desc
    );
    let _ = std::fs::write(&path, text);
    path
}

/// Cases `from` to `to` of a family one after the other in a fresh process; the message of the last if it fails.
fn run_sequence(p: &Property, cfg: &Config, fam: &str, from: u64, to: u64) -> Option<String> {
    let out = cfg.scratch.join("sequence");
    let _ = std::fs::remove_file(&out);
    let mut c = spawn_self(&["seq", p.id, fam, &from.to_string(), &to.to_string()], cfg, &[("VERIF_SEQ", out.to_str().unwrap())]);
    c.env_remove("VERIF_DONE");
    c.stdout(Stdio::null()).stderr(Stdio::null());
    let mut ch = c.spawn().ok()?;
    wait_deadline(&mut ch, Instant::now() + Duration::from_secs(60), true)?;
    std::fs::read_to_string(&out).ok()
}

/// The shortest run (of doubling lengths) of earlier cases after which a case fails in a fresh process, twice.
fn find_history(p: &Property, cfg: &Config, fam: &Family, idx: u64) -> Option<(u64, String)> {
    let mut len = 1;
    loop {
        let from = idx.saturating_sub(len);
        if let Some(m) = run_sequence(p, cfg, fam.name, from, idx) {
            if run_sequence(p, cfg, fam.name, from, idx).is_some() {
                return Some((from, m));
            }
        }
        if from == 0 || len >= 512 {
            return None;
        }
        len *= 2;
    }
}

fn write_history(cfg: &Config, id: &str, fam: &str, from: u64, to: u64, msg: &str) -> PathBuf {
    let dir = cfg.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}-{}.replay", id, fam, cfg.seed, from, to));
    let text = format!(
        "property: {}\nfamily: {}\nvalues: {}\nsequence: {} {} {} {}\n--- message\n{}\n",
        id, fam, crate::dict::encode(), cfg.seed, if cfg.thorough { "thorough" } else { "quick" }, from, to, msg
    );
    let _ = std::fs::write(&path, text);
    path
}

/// child side of run_sequence
pub fn sequence(p: &Property, cfg: &Config, fam: &str, from: u64, to: u64) -> i32 {
    set_limits();
    install_panic_hook();
    let known: Vec<Known> = load_known(&cfg.root).into_iter().filter(|k| k.property == p.id).collect();
    let f = p.families.iter().find(|f| f.name == fam).expect("family");
    let mut ctx = Ctx::new(cfg.thorough, cfg.scratch.join("seq"));
    for i in from..=to {
        ctx.reset_scratch();
        ctx.labels.clear();
        ctx.desc = None;
        let mut src = Src::random(case_seed(cfg, p.id, fam, i));
        let r = run_case(f.f, &mut src, &mut ctx);
        if let (true, Err(m)) = (i == to, r) {
            if match_known(&known, &m).is_none() {
                if let Ok(path) = std::env::var("VERIF_SEQ") {
                    let _ = std::fs::write(path, &m);
                }
                println!("result: {}", m);
                return 1;
            }
        }
    }
    0
}

pub fn set_limits() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &nocore);
    }
}

/// Runs all families of a property in this process. Exit codes: 0 fine, 1 violation (after writing the marker).
pub fn worker(p: &Property, cfg: &Config) -> i32 {
    set_limits();
    install_panic_hook();
    let start = Instant::now();
    let known: Vec<Known> = load_known(&cfg.root).into_iter().filter(|k| k.property == p.id).collect();
    let slots = Slots::open(&cfg.scratch.join("slots"));
    let mut total = Stats::default();
    let mut violations = 0;
    let only = std::env::var("VERIF_FAMILY").ok();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut fam_report: Vec<String> = Vec::new();
    'families: for (fi, fam) in p.families.iter().enumerate() {
        if let Some(o) = &only {
            if o != fam.name {
                continue;
            }
        }
        let fstart = Instant::now();
        let n = ((if cfg.thorough { fam.thorough } else { fam.quick }) as f64 * scale).ceil() as u64;
        // where the search goes on after a failure that could not be repeated
        let mut begin = 0;
        let mut flaky = 0;
        let mut fam_evals = 0;
        let mut fam_nontrivial = 0;
        let mut fam_labels: BTreeMap<String, u64> = BTreeMap::new();
        loop {
        let next = AtomicU64::new(begin);
        let min_fail = AtomicU64::new(u64::MAX);
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let merged: Mutex<Stats> = Mutex::new(Stats::default());
        let tcount = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..THREADS {
                let next = &next;
                let min_fail = &min_fail;
                let failure = &failure;
                let merged = &merged;
                let known = &known;
                let slots = &slots;
                let tcount = &tcount;
                let b = std::thread::Builder::new().name(format!("w{}", t)).stack_size(16 << 20);
                b.spawn_scoped(s, move || {
                    tcount.fetch_add(1, Ordering::Relaxed);
                    let mut st = Stats::default();
                    let mut ctx = Ctx::new(cfg.thorough, cfg.scratch.join(format!("w{}", t)));
                    ctx.reset_scratch();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || i > min_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(sl) = slots {
                            sl.set(t, fi as u64 + 1, i);
                        }
                        let mut src = Src::random(case_seed(cfg, p.id, fam.name, i));
                        ctx.labels.clear();
                        ctx.nontrivial = false;
                        ctx.desc = None;
                        ctx.extra_evals = 0;
                        ctx.want_desc = i < 64;
                        let r = run_case(fam.f, &mut src, &mut ctx);
                        st.evals += 1 + ctx.extra_evals;
                        for l in &ctx.labels {
                            *st.labels.entry(format!("{}:{}", fam.name, l)).or_insert(0) += 1;
                        }
                        if ctx.nontrivial {
                            st.nontrivial.insert(src.tape_hash());
                            if st.samples.len() < 1 {
                                if let Some(d) = ctx.desc.take() {
                                    st.samples.push(format!("[{}#{}] {}", fam.name, i, truncate(&d, 700)));
                                }
                            }
                        }
                        if let Err(msg) = r {
                            if let Some(k) = match_known(known, &msg) {
                                *st.known_hits.entry(k.signature.clone()).or_insert(0) += 1;
                                continue;
                            }
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map(|x| x.index > i).unwrap_or(true) {
                                min_fail.fetch_min(i, Ordering::Relaxed);
                                *f = Some(Failure { index: i, tape: src.rec.clone(), msg });
                            }
                        }
                    }
                    if let Some(sl) = slots {
                        sl.set(t, 0, 0);
                    }
                    let mut m = merged.lock().unwrap();
                    m.evals += st.evals;
                    m.nontrivial.extend(st.nontrivial);
                    for (k, v) in st.labels {
                        *m.labels.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.known_hits {
                        *m.known_hits.entry(k).or_insert(0) += v;
                    }
                    m.samples.extend(st.samples);
                })
                .expect("spawn");
            }
        });
        let mut m = merged.into_inner().unwrap();
        m.samples.sort();
        m.samples.truncate(2);
        fam_evals += m.evals;
        fam_nontrivial += m.nontrivial.len();
        total.evals += m.evals;
        // hashes of different families may not collide by construction: mix family in
        for h in m.nontrivial {
            total.nontrivial.insert(h ^ hash_parts(&[fam.name.as_bytes()]));
        }
        for (k, v) in m.labels {
            *fam_labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in m.known_hits {
            *total.known_hits.entry(k).or_insert(0) += v;
        }
        total.samples.extend(m.samples);

        if let Some(f) = failure.into_inner().unwrap() {
            // shrink in this process (single thread)
            let mut ctx = Ctx::new(cfg.thorough, cfg.scratch.join("shrink"));
            ctx.reset_scratch();
            let mut run = |tape: &[u64]| -> Option<(Vec<u64>, String)> {
                let mut src = Src::replay(tape);
                let r = run_case(fam.f, &mut src, &mut ctx);
                match r {
                    Err(m) if match_known(&known, &m).is_none() => Some((src.rec.clone(), m)),
                    _ => None,
                }
            };
            if let Some(sl) = &slots {
                sl.set(0, fi as u64 + 1, f.index);
            }
            let orig_msg = f.msg.clone();
            // should this process not survive the shrinking, the parent reports the case as it is
            let first = write_replay(cfg, p.id, fam.name, &f.tape, &f.msg, "(not shrunk)");
            let pending = cfg.scratch.join("pending");
            let _ = std::fs::write(&pending, format!("{}\n{}", first.display(), f.msg));
            let mut rep = 0;
            for i in 0..23 {
                if i >= 3 && rep > 0 {
                    break;
                }
                if run(&f.tape).is_some() {
                    rep += 1;
                }
            }
            if rep == 0 {
                let _ = std::fs::remove_file(&first);
                let _ = std::fs::remove_file(&pending);
                // what earlier cases left behind in the process may matter
                if let Some((from, msg)) = find_history(p, cfg, fam, f.index) {
                    let path = write_history(cfg, p.id, fam.name, from, f.index, &msg);
                    println!("failing case: family={} index={} after the cases from {} in the same process", fam.name, f.index, from);
                    println!("  {}", truncate(&msg, 1500));
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    violations += 1;
                    break 'families;
                }
                eprintln!("family={} index={}: {} (does not reproduce)", fam.name, f.index, truncate(&orig_msg, 600));
                flaky += 1;
                if flaky < 10 {
                    begin = f.index + 1;
                    continue;
                }
            }
            if rep > 0 {
            let (tape, msg) =
                shrink(f.tape.clone(), f.msg, 4000, Instant::now() + Duration::from_secs(20), &mut run);
            let (desc, msg2) = render_case(p, fam, &tape, cfg);
            let path = write_replay(cfg, p.id, fam.name, &tape, &msg, &desc);
            if path != first {
                let _ = std::fs::remove_file(&first);
            }
            println!("failing case: family={} index={} (reproduced {}/3)", fam.name, f.index, rep);
            println!("  original: {}", truncate(&orig_msg, 600));
            println!("  shrunk:   {}", truncate(&msg2, 1500));
            println!("  case:     {}", truncate(&desc, 1500));
            println!("VIOLATION property={} replay={}", p.id, path.display());
            violations += 1;
            }
        }
        break;
        }
        fam_report.push(format!(
            "{}: {} cases, {} distinct non-trivial, {:.1}s",
            fam.name,
            fam_evals,
            fam_nontrivial,
            fstart.elapsed().as_secs_f64()
        ));
        total.labels.extend(fam_labels);
        if violations > 0 {
            break;
        }
    }
    for k in &known {
        println!(
            "KNOWN-FINDING: property={} {} (seen {} times in this run)",
            k.property,
            k.what,
            total.known_hits.get(&k.signature).copied().unwrap_or(0)
        );
    }
    write_evidence(p, cfg, &total, start.elapsed().as_secs_f64(), violations);
    for r in &fam_report {
        println!("{}", r);
    }
    if std::env::var("VERIF_LABELS").is_ok() {
        for (k, v) in &total.labels {
            println!("  {:50} {}", k, v);
        }
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {:.1}s",
        p.id,
        total.evals,
        total.nontrivial.len(),
        start.elapsed().as_secs_f64()
    );
    if violations > 0 {
        1
    } else {
        0
    }
}

pub fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(p: &Property, cfg: &Config, st: &Stats, wall: f64, violations: usize) {
    let dir = cfg.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let samples: Vec<String> = st.samples.iter().take(8).map(|s| json_str(s)).collect();
    let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"classes\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed,
        json_str(p.level),
        st.evals,
        st.nontrivial.len(),
        json_str(p.rule),
        samples.join(", "),
        labels.join(", "),
        assumptions.join(", "),
        wall,
        violations
    );
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), text);
}

// ---------------------------------------------------------------- parent

fn spawn_self(args: &[&str], cfg: &Config, extra: &[(&str, &str)]) -> Command {
    let exe = std::env::current_exe().expect("current_exe");
    let mut c = Command::new(exe);
    c.args(args);
    c.env("VERIF_ROOT", &cfg.root);
    c.env("VERIF_SCRATCH", &cfg.scratch);
    for (k, v) in extra {
        c.env(k, v);
    }
    c
}

fn wait_deadline(child: &mut std::process::Child, deadline: Instant, kill: bool) -> Option<ExitStatus> {
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {
                if Instant::now() > deadline {
                    if kill {
                        let _ = child.kill();
                        let _ = child.wait();
                    }
                    return None;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            Err(_) => return None,
        }
    }
}

struct ScratchGuard(PathBuf);
impl Drop for ScratchGuard {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn check(p: &Property, mut cfg: Config) -> i32 {
    let base = if Path::new("/dev/shm").is_dir() && std::fs::write("/dev/shm/.verif_probe", b"x").is_ok() {
        let _ = std::fs::remove_file("/dev/shm/.verif_probe");
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    cfg.scratch = base.join(format!("verif-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&cfg.scratch);
    if std::fs::create_dir_all(&cfg.scratch).is_err() {
        eprintln!("cannot create scratch {}", cfg.scratch.display());
        return 2;
    }
    let _g = ScratchGuard(cfg.scratch.clone());
    let done = cfg.scratch.join("done");
    let limit = if cfg.thorough { 6 * 3600 } else { 780 };
    let mut child = match spawn_self(&["worker", p.id], &cfg, &[("VERIF_DONE", done.to_str().unwrap())]).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("spawn: {}", e);
            return 2;
        }
    };
    // a case takes milliseconds to seconds; one that takes this long does not end
    let case_limit = std::env::var("VERIF_CASE_LIMIT").ok().and_then(|s| s.parse().ok());
    let case_limit = Duration::from_secs(case_limit.unwrap_or(if cfg.thorough { 600 } else { 120 }));
    let deadline = Instant::now() + Duration::from_secs(limit);
    let mut hung: Vec<(u64, u64)> = Vec::new();
    let mut seen: Vec<((u64, u64), Instant)> = vec![((0, 0), Instant::now()); THREADS];
    let st = loop {
        let st = wait_deadline(&mut child, Instant::now() + Duration::from_secs(1), false);
        if st.is_some() {
            break st;
        }
        if let Some(slots) = Slots::open(&cfg.scratch.join("slots")) {
            for t in 0..THREADS {
                let now = slots.get(t);
                if now != seen[t].0 {
                    seen[t] = (now, Instant::now());
                } else if now.0 > 0 && seen[t].1.elapsed() > case_limit {
                    hung.push(now);
                }
            }
        }
        if !hung.is_empty() || Instant::now() > deadline {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
    };
    if done.exists() {
        return match st {
            Some(s) => s.code().unwrap_or(2),
            None => 2,
        };
    }
    if let Ok(text) = std::fs::read_to_string(cfg.scratch.join("pending")) {
        let (path, msg) = text.split_once('\n').unwrap_or((&text, ""));
        println!("failing case, not shrunk: {}", truncate(msg, 1500));
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    match st {
        None if hung.is_empty() => {
            eprintln!("check {} did not finish in {} s: inconclusive", p.id, limit);
            return 2;
        }
        None => eprintln!("a case does not finish; isolating it"),
        Some(s) => eprintln!("worker ended abnormally: {:?}; isolating the case", s),
    }
    // isolate: re-run the in-flight cases one by one
    let slots = match Slots::open(&cfg.scratch.join("slots")) {
        Some(s) => s,
        None => return 2,
    };
    let hang = !hung.is_empty();
    let mut cands: Vec<(u64, u64)> = (0..THREADS).map(|t| slots.get(t)).filter(|x| x.0 > 0).collect();
    if hang {
        cands = hung;
    }
    cands.sort();
    cands.truncate(if hang { 2 } else { THREADS });
    for (fi, idx) in cands {
        let fam = &p.families[fi as usize - 1];
        let tapelog = cfg.scratch.join("tapelog");
        let run_one = |args: &[&str], extra: &[(&str, &str)]| -> Option<String> {
            let _ = std::fs::remove_file(&done);
            let mut extra = extra.to_vec();
            extra.push(("VERIF_DONE", done.to_str().unwrap()));
            let mut c = spawn_self(args, &cfg, &extra);
            let errfile = cfg.scratch.join("stderr");
            c.stdout(Stdio::null()).stderr(std::fs::File::create(&errfile).ok()?);
            let mut ch = c.spawn().ok()?;
            let st = match wait_deadline(&mut ch, Instant::now() + case_limit, true) {
                Some(st) => st,
                None if hang => return Some(format!("does not end (stopped after {} s)", case_limit.as_secs())),
                None => return None,
            };
            if done.exists() {
                return None;
            }
            let err = std::fs::read(&errfile).unwrap_or_default();
            let err = String::from_utf8_lossy(&err);
            Some(format!("process died: {:?}; stderr: {}", st, truncate(err.trim(), 400)))
        };
        let idx_s = idx.to_string();
        let log_s = tapelog.to_str().unwrap().to_string();
        if let Some(msg) = run_one(&["one", p.id, fam.name, &idx_s], &[("VERIF_TAPE_LOG", &log_s)]) {
            let read_log = || -> Vec<u64> {
                std::fs::read_to_string(&tapelog)
                    .unwrap_or_default()
                    .lines()
                    .filter_map(|l| l.parse().ok())
                    .collect()
            };
            let tape = read_log();
            let tapefile = cfg.scratch.join("tapein");
            let mut run = |t: &[u64]| -> Option<(Vec<u64>, String)> {
                let s: Vec<String> = t.iter().map(|v| v.to_string()).collect();
                std::fs::write(&tapefile, s.join(",")).ok()?;
                let m = run_one(
                    &["tape", p.id, fam.name, tapefile.to_str().unwrap()],
                    &[("VERIF_TAPE_LOG", &log_s)],
                )?;
                Some((read_log(), m))
            };
            // every attempt at something that hangs takes its time
            let budget = if hang { 0 } else { 300 };
            let (tape, msg) = shrink(tape, msg, budget, Instant::now() + Duration::from_secs(40), &mut run);
            let path = write_replay(&cfg, p.id, fam.name, &tape, &msg, "(case kills the process; run the replay for details)");
            println!("failing case: family={} index={}", fam.name, idx);
            println!("  {}", msg);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            return 1;
        }
    }
    eprintln!("worker died but no in-flight case reproduces it: inconclusive");
    2
}

fn mark_done() {
    if let Ok(d) = std::env::var("VERIF_DONE") {
        let _ = std::fs::write(d, b"done");
    }
}

pub fn finish(code: i32) -> ! {
    mark_done();
    std::process::exit(code)
}

pub fn one(p: &Property, cfg: &Config, fam: &str, idx: u64) -> i32 {
    set_limits();
    install_panic_hook();
    let f = p.families.iter().find(|f| f.name == fam).expect("family");
    let mut src = Src::random(case_seed(cfg, p.id, fam, idx)).logged();
    run_single(f, &mut src, cfg)
}

pub fn tape_file(p: &Property, cfg: &Config, fam: &str, path: &str) -> i32 {
    set_limits();
    install_panic_hook();
    let f = p.families.iter().find(|f| f.name == fam).expect("family");
    let text = std::fs::read_to_string(path).expect("tape file");
    let tape: Vec<u64> = text.trim().split(',').filter_map(|s| s.trim().parse().ok()).collect();
    let mut src = Src::replay(&tape).logged();
    run_single(f, &mut src, cfg)
}

fn run_single(f: &Family, src: &mut Src, cfg: &Config) -> i32 {
    let mut ctx = Ctx::new(cfg.thorough, cfg.scratch.join("single"));
    ctx.want_desc = true;
    ctx.reset_scratch();
    let r = run_case(f.f, src, &mut ctx);
    if let Some(d) = &ctx.desc {
        println!("case: {}", d);
    }
    println!("labels: {:?} nontrivial: {}", ctx.labels, ctx.nontrivial);
    match r {
        Ok(()) => {
            println!("result: property held");
            0
        }
        Err(m) => {
            println!("result: {}", m);
            1
        }
    }
}

/// Re-run a replay file: exit 1 and a VIOLATION line when it still fails.
pub fn replay(props: &[Property], mut cfg: Config, path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let id = get("property:");
    let fam = get("family:");
    let p = props.iter().find(|p| p.id == id).expect("property");
    // the values that were in use, whatever the code mentions now
    std::env::set_var("VERIF_VALUES", get("values:"));
    cfg.scratch = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
    std::fs::create_dir_all(&cfg.scratch).expect("scratch");
    let _g = ScratchGuard(cfg.scratch.clone());
    let seq: Vec<String> = get("sequence:").split_whitespace().map(|x| x.to_string()).collect();
    if seq.len() == 4 {
        cfg.seed = seq[0].parse().expect("seed");
        cfg.thorough = seq[1] == "thorough";
        std::env::set_var("VERIF_SEED", &seq[0]);
        std::env::set_var("VERIF_TIER", &seq[1]);
        return match run_sequence(p, &cfg, &fam, seq[2].parse().expect("from"), seq[3].parse().expect("to")) {
            Some(m) => {
                println!("result: {}", m);
                println!("VIOLATION property={} replay={}", id, path);
                1
            }
            None => 0,
        };
    }
    let tf = cfg.scratch.join("tape");
    std::fs::write(&tf, get("tape:")).unwrap();
    let done = cfg.scratch.join("done");
    let mut ch = spawn_self(&["tape", &id, &fam, tf.to_str().unwrap()], &cfg, &[("VERIF_DONE", done.to_str().unwrap())])
        .spawn()
        .expect("spawn");
    let st = wait_deadline(&mut ch, Instant::now() + Duration::from_secs(120), true);
    let failed = !done.exists() || st.and_then(|s| s.code()) != Some(0);
    if failed {
        println!("VIOLATION property={} replay={}", id, path);
        1
    } else {
        0
    }
}
