//! Property-testing engine: choice-sequence generation (every random choice is
//! recorded, so replay and shrinking work on the sequence), deterministic from
//! VERIF_SEED, run in sharded single-threaded worker processes.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::Instant;

use crate::instr;

pub const SHARDS: u64 = 8;
/// at most this many distinct non-trivial cases are counted per worker
const HASH_CAP: usize = 1_500_000;

// ------------------------------------------------------------------ randomness
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9e37_79b9_7f4a_7c15) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX { return self.next(); }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
}
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data { h ^= *b as u64; h = h.wrapping_mul(0x1000_0000_01b3); }
    h
}
pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ fnv(prop.as_bytes()));
    let a = r.next();
    Rng::new(a ^ index.wrapping_mul(0xd6e8_feb8_6659_fd93)).next()
}

/// The source of all choices of a case.
pub struct Src {
    rng:    Option<Rng>,
    replay: Vec<u64>,
    pub out: Vec<u64>,
    trace:  Option<std::fs::File>,
    /// how many parts of an image may still become megabytes large
    pub large: u32,
}
impl Src {
    pub fn random(seed: u64) -> Self { Src { rng: Some(Rng::new(seed)), replay: vec![], out: vec![], trace: None, large: 0 } }
    pub fn replay(c: Vec<u64>) -> Self { Src { rng: None, replay: c, out: vec![], trace: None, large: 0 } }
    pub fn with_trace(mut self, p: &Path) -> Self { self.trace = std::fs::File::create(p).ok(); self }

    /// The only primitive: a choice in 0..=max; shrinks towards 0.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.upto(max),
            None => {
                let v = self.replay.get(self.out.len()).copied().unwrap_or(0);
                if v > max { if max == u64::MAX { v } else { v % (max + 1) } } else { v }
            }
        };
        self.out.push(v);
        if let Some(f) = &mut self.trace { let _ = writeln!(f, "{v}"); }
        v
    }
    pub fn int(&mut self, lo: u64, hi: u64) -> u64 { lo + self.draw(hi - lo) }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.int(lo as u64, hi as u64) as usize }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den - 1) >= den - num }
    pub fn bool(&mut self) -> bool { self.draw(1) == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.usize(0, xs.len() - 1); &xs[i] }
    /// index by weight; shrinks to index 0
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, x) in w.iter().enumerate() { if v < *x { return i; } v -= x; }
        w.len() - 1
    }
    /// small numbers are likely, large ones up to max possible
    pub fn small(&mut self, max: u64) -> u64 {
        let m = match self.weighted(&[6, 3, 1]) { 0 => max.min(4), 1 => max.min(40), _ => max };
        self.draw(m)
    }
    /// a size that is small except in one of 3000 cases
    pub fn bulk(&mut self, max: u64) -> usize { match self.rare_size() { Some(n) => n, None => self.small(max) as usize } }
    /// in one of 3000 cases, a large size; megabytes where a case asks for them
    pub fn rare_size(&mut self) -> Option<usize> {
        if self.large > 0 {
            if !self.bool() { return None; }
            self.large -= 1;
            return Some(match self.weighted(&[4, 2, 1]) { 0 => self.usize(1_000_000, 3_000_000), 1 => 16_777_216 - 40 + self.usize(0, 80), _ => self.usize(3_000_000, 9_000_000) });
        }
        if self.chance(1, 3000) { Some(self.big_size(300_000)) } else { None }
    }
    /// in one of 1500 cases, how many there are more than usual
    pub fn crowd(&mut self) -> u64 {
        if !self.chance(1, 1500) { return 0; }
        match self.draw(2) { 0 => self.int(10, 40), 1 => self.int(40, 300), _ => self.int(250, 1100) }
    }
    /// a large size, often close to a boundary
    pub fn big_size(&mut self, max: usize) -> usize {
        let n = match self.weighted(&[6, 2]) {
            0 => (*self.pick(&[4096usize, 8192, 32_768, 65_536, 65_536, 99_999, 100_000, 131_072, 200_000, 999_990, 1_000_000, 1_048_576]) + self.usize(0, 24)).saturating_sub(16),
            _ => self.usize(2000, max),
        };
        n.min(max)
    }
    /// `len` bytes from one choice (0 gives zeros)
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        let s = self.draw(u32::MAX as u64);
        expand(s, len)
    }
    pub fn u16(&mut self) -> u16 {
        match self.weighted(&[4, 2, 4]) { 0 => self.draw(20) as u16, 1 => *self.pick(&[0u16, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff]), _ => self.draw(0xffff) as u16 }
    }
    pub fn u32(&mut self) -> u32 {
        match self.weighted(&[4, 2, 4]) { 0 => self.draw(20) as u32, 1 => *self.pick(&[0u32, 1, 0xff, 0x100, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]), _ => self.draw(0xffff_ffff) as u32 }
    }
    pub fn u64(&mut self) -> u64 {
        match self.weighted(&[3, 2, 5]) { 0 => self.draw(20), 1 => *self.pick(&[0u64, 1, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX]), _ => self.draw(u64::MAX) }
    }
}
pub fn expand(seed: u64, len: usize) -> Vec<u8> {
    if seed == 0 { return vec![0; len]; }
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len { v.extend_from_slice(&r.next().to_le_bytes()); }
    v.truncate(len);
    // data that starts or ends with equal bytes, as padding does
    if seed % 11 == 3 && len > 8 {
        let byte = [0u8, 0, 0xff, 0x0a, 0x20, 0x42][(seed / 11 % 6) as usize];
        let n = 1 + (seed / 66) as usize % (len / 2);
        match seed / 66 % 5 { 0 => v.fill(byte), 1 => v[..n].fill(byte), _ => v[len - n..].fill(byte) }
    }
    v
}

// ------------------------------------------------------------------ outcomes
#[derive(Debug, Clone)]
pub struct Fail { pub sig: String, pub msg: String }
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> { Err(Fail { sig: sig.into(), msg: msg.into() }) }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail { sig: ($sig).to_string(), msg: format!($($a)*) }); } };
}

pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub case_labels: Vec<&'static str>,
    nontrivial: bool,
    pub notes: Vec<String>,
    pub want_notes: bool,
    pub scratch: PathBuf,
    pub max_edges: u64,
    pub max_peak: u64,
    pub thorough: bool,
    /// factor for the default limits, set by cases with huge data
    pub more: u64,
}
impl Ctx {
    pub fn new(scratch: PathBuf) -> Self {
        Ctx { labels: BTreeMap::new(), case_labels: vec![], nontrivial: false, notes: vec![], want_notes: false, scratch, max_edges: 0, max_peak: 0, thorough: false, more: 1 }
    }
    /// Counts a class of cases (once per case).
    pub fn label(&mut self, l: &'static str) { if !self.case_labels.contains(&l) { self.case_labels.push(l); } }
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    pub fn note(&mut self, f: impl FnOnce() -> String) { if self.want_notes { let s = f(); self.notes.push(s); } }

    /// Calls the code under test; a panic becomes a failure of the case.
    pub fn lib<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Result<R, Fail> {
        let k = self.more;
        self.lib_limited(what, 2_000_000_000 * k, (3 << 30) * k.min(4), f).map(|x| x.0)
    }
    pub fn lib_limited<R>(&mut self, what: &str, edges: u64, mem: u64, f: impl FnOnce() -> R) -> Result<(R, instr::Usage), Fail> {
        IN_LIB.with(|l| l.set(true));
        OP.with(|o| { let mut o = o.borrow_mut(); o.clear(); o.push_str(what); });
        let r = catch_unwind(AssertUnwindSafe(|| instr::metered(edges, mem, f)));
        IN_LIB.with(|l| l.set(false));
        match r {
            Ok((v, u)) => { self.max_edges = self.max_edges.max(u.edges); self.max_peak = self.max_peak.max(u.peak); Ok((v, u)) }
            Err(_) => {
                let (loc, msg) = LAST_PANIC.with(|p| p.borrow().clone());
                fail(format!("panic:{loc}"), format!("{what} panicked at {loc}: {msg}"))
            }
        }
    }
    pub fn scratch_file(&self, name: &str) -> PathBuf { self.scratch.join(name) }
}

/// A call of the code under test on a thread of its own.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_LIB.with(|l| l.set(true));
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| { let p = p.borrow(); format!("{} at {}", p.1, p.0) }))
}

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LIB_PANIC: Cell<bool> = const { Cell::new(false) };
    static OP: RefCell<String> = const { RefCell::new(String::new()) };
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
    static STOP_FILE: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

fn short_loc(file: &str, line: u32) -> String {
    let f = file.rsplit_once("/src/").map(|x| x.1).unwrap_or(file);
    format!("{f}:{line}")
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| short_loc(l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc.clone(), msg.clone()));
        let in_lib = info.location().is_some_and(|l| { let f = l.file(); f.starts_with('/') && !["/rustc/", "/rustlib/", "/registry/", "/harness/"].iter().any(|x| f.contains(x)) });
        LIB_PANIC.with(|l| l.set(in_lib));
        if !IN_LIB.with(|l| l.get()) { eprintln!("HARNESS PANIC at {loc}: {msg}"); }
    }));
}

/// The code under test exceeded its deterministic work or memory limit: the
/// process cannot unwind from here, so it records the fact and ends.
pub fn hard_stop(kind: &str, value: u64) -> ! {
    let op = OP.try_with(|o| o.borrow().clone()).unwrap_or_default();
    let path = STOP_FILE.try_with(|s| s.borrow().clone()).ok().flatten();
    if let Some(p) = path { let _ = std::fs::write(p, format!("{kind}\n{kind} exceeded ({value}) in {op}\n")); }
    eprintln!("{kind} exceeded ({value}) in {op}");
    std::process::exit(77)
}

// ------------------------------------------------------------------ properties
pub enum Body {
    /// a case is a choice sequence
    Choices(fn(&mut Src, &mut Ctx) -> Res),
    /// a case is (entry, bytes), found by coverage-guided mutation
    Bytes { entry_count: u64, corpus: fn(&mut Src, u64) -> Vec<u8>, run: fn(u64, &[u8], &mut Ctx) -> Res },
}
/// cases of the parts with images of megabytes
pub const LARGE: u64 = 400;
pub struct Part { pub name: &'static str, pub body: Body, pub quick: u64, pub thorough: u64 }
pub struct Prop { pub id: &'static str, pub rule: &'static str, pub parts: Vec<Part>, pub assumptions: &'static [&'static str] }

pub enum Case { Choices(Vec<u64>), Bytes(u64, Vec<u8>) }
enum Out { Pass(bool), Fail(Fail), Harness(String) }

fn guarded(f: impl FnOnce() -> Res) -> Result<Res, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let p = match p.downcast::<Fail>() { Ok(f) => return Ok(Err(*f)), Err(p) => p };
            drop(p);
            let (l, m) = LAST_PANIC.with(|p| p.borrow().clone());
            // (a call into the library that no part of the harness guards)
            if LIB_PANIC.with(|l| l.get()) { return Ok(fail(format!("panic:{l}"), format!("the library panicked at {l}: {m}"))); }
            Err(format!("harness panicked at {l}: {m}"))
        }
    }
}
/// Ends the case as failed, from where no result can be returned.
pub fn abandon(sig: &str, msg: String) -> ! { std::panic::resume_unwind(Box::new(Fail { sig: sig.to_string(), msg })) }
fn run_choices(f: fn(&mut Src, &mut Ctx) -> Res, src: &mut Src, ctx: &mut Ctx) -> Out {
    ctx.case_labels.clear(); ctx.more = 1; ctx.nontrivial = false; ctx.notes.clear();
    match guarded(|| f(src, ctx)) { Ok(Ok(())) => Out::Pass(ctx.nontrivial), Ok(Err(e)) => Out::Fail(e), Err(h) => Out::Harness(h) }
}
fn run_bytes(f: fn(u64, &[u8], &mut Ctx) -> Res, e: u64, b: &[u8], ctx: &mut Ctx) -> Out {
    ctx.case_labels.clear(); ctx.more = 1; ctx.nontrivial = false; ctx.notes.clear();
    match guarded(|| f(e, b, ctx)) { Ok(Ok(())) => Out::Pass(ctx.nontrivial), Ok(Err(e)) => Out::Fail(e), Err(h) => Out::Harness(h) }
}

// ------------------------------------------------------------------ known findings
pub struct Known { pub prop: String, pub sig: String, pub text: String }
pub fn load_known(dir: &Path) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(dir.join("known_findings.txt")) {
        for l in t.lines() {
            // finding: property=<id> sig=<signature> :: <text>
            if let Some(rest) = l.strip_prefix("finding: property=") {
                if let Some((p, r)) = rest.split_once(" sig=") {
                    if let Some((s, t)) = r.split_once(" :: ") {
                        v.push(Known { prop: p.trim().into(), sig: s.trim().into(), text: t.trim().into() });
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ shrinking
fn shrink_choices(f: fn(&mut Src, &mut Ctx) -> Res, start: Vec<u64>, sig: &str, ctx: &mut Ctx) -> Vec<u64> {
    let mut best = start;
    let started = Instant::now();
    let mut budget = 4000u32;
    let try_it = |c: &[u64], best: &mut Vec<u64>, budget: &mut u32, ctx: &mut Ctx| -> bool {
        if started.elapsed().as_secs() >= 60 { *budget = 0; }
        if *budget == 0 { return false; }
        *budget -= 1;
        let mut s = Src::replay(c.to_vec());
        if let Out::Fail(e) = run_choices(f, &mut s, ctx) {
            if e.sig == sig {
                let mut o = s.out; while o.last() == Some(&0) { o.pop(); }
                if o.len() < best.len() || (o.len() == best.len() && o < *best) { *best = o; return true; }
            }
        }
        false
    };
    while best.last() == Some(&0) { best.pop(); }
    loop {
        let before = best.clone();
        // delete chunks
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut c = best.clone(); c.drain(i..i + size);
                if !try_it(&c, &mut best, &mut budget, ctx) { i += size.max(1); }
            }
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() && budget > 0 {
                let j = (i + size).min(best.len());
                if best[i..j].iter().any(|x| *x != 0) {
                    let mut c = best.clone(); for x in &mut c[i..j] { *x = 0; }
                    try_it(&c, &mut best, &mut budget, ctx);
                }
                i += size;
            }
        }
        // reduce values
        let mut i = 0;
        while i < best.len() && budget > 0 {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && budget > 0 && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone(); c[i] = mid;
                if try_it(&c, &mut best, &mut budget, ctx) { hi = mid; } else { lo = mid + 1; }
            }
            i += 1;
        }
        if best == before || budget == 0 { break; }
    }
    best
}
fn shrink_bytes(f: fn(u64, &[u8], &mut Ctx) -> Res, e: u64, start: Vec<u8>, sig: &str, ctx: &mut Ctx) -> Vec<u8> {
    let mut best = start;
    let started = Instant::now();
    let mut budget = 3000u32;
    let mut ok = |c: &[u8], budget: &mut u32| -> bool {
        if started.elapsed().as_secs() >= 60 { *budget = 0; }
        if *budget == 0 { return false; }
        *budget -= 1;
        matches!(run_bytes(f, e, c, ctx), Out::Fail(x) if x.sig == sig)
    };
    let mut size = best.len() / 2;
    while size > 0 && budget > 0 {
        let mut i = 0;
        while i + size <= best.len() && budget > 0 {
            let mut c = best.clone(); c.drain(i..i + size);
            if ok(&c, &mut budget) { best = c; } else { i += size; }
        }
        size /= 2;
    }
    for i in 0..best.len() {
        if best[i] != 0 && budget > 0 { let mut c = best.clone(); c[i] = 0; if ok(&c, &mut budget) { best = c; } }
    }
    best
}

// ------------------------------------------------------------------ replay files
pub fn write_replay(dir: &Path, prop: &str, part: &str, case: &Case, f: &Fail, notes: &[String]) -> PathBuf {
    let mut t = String::new();
    let _ = writeln!(t, "property: {prop}\npart: {part}\nsignature: {}\nmessage: {}", f.sig, f.msg.replace('\n', "\\n"));
    match case {
        Case::Choices(c) => { let _ = writeln!(t, "choices: {}", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); }
        Case::Bytes(e, b) => { let _ = writeln!(t, "entry: {e}\nbytes: {}", hex(b)); }
    }
    for n in notes { let _ = writeln!(t, "note: {}", n.replace('\n', "\\n")); }
    let _ = std::fs::create_dir_all(dir.join("replays"));
    let p = dir.join("replays").join(format!("{prop}-{:016x}.replay", fnv(t.as_bytes())));
    let _ = std::fs::write(&p, t);
    p
}
pub fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { let _ = write!(s, "{x:02x}"); } s }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }

pub fn replay(props: &[Prop], path: &Path, verif: &Path) -> i32 {
    let t = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{e}"); return 2; } };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let (id, part) = (get("property:"), get("part:"));
    let Some(p) = props.iter().find(|p| p.id == id) else { eprintln!("unknown property"); return 2; };
    let Some(part) = p.parts.iter().find(|x| x.name == part) else { eprintln!("unknown part"); return 2; };
    let scratch = make_scratch();
    let mut ctx = Ctx::new(scratch.clone()); ctx.want_notes = true;
    let out = match &part.body {
        Body::Choices(f) => {
            let c: Vec<u64> = get("choices:").split_whitespace().filter_map(|x| x.parse().ok()).collect();
            run_choices(*f, &mut Src::replay(c), &mut ctx)
        }
        Body::Bytes { run, .. } => run_bytes(*run, get("entry:").parse().unwrap_or(0), &unhex(&get("bytes:")), &mut ctx),
    };
    for n in &ctx.notes { println!("note: {n}"); }
    let _ = std::fs::remove_dir_all(&scratch);
    match out {
        Out::Pass(_) => { println!("replay passes"); 0 }
        Out::Fail(f) => {
            println!("sig: {}\n{}", f.sig, f.msg);
            if let Some(k) = load_known(verif).iter().find(|k| k.prop == id && k.sig == f.sig) { println!("KNOWN-FINDING: property={id} {}", k.text); return 0; }
            println!("VIOLATION property={id} replay={}", path.display()); 1
        }
        Out::Harness(h) => { eprintln!("{h}"); 2 }
    }
}

pub fn make_scratch() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    for b in [base, std::env::temp_dir()] {
        let p = b.join(format!("vh-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() { return p; }
    }
    panic!("no scratch directory")
}

// ------------------------------------------------------------------ worker
struct Stats { evals: u64, nontrivial: HashSet<u64>, samples: Vec<String>, known: BTreeMap<String, u64>, truncated: bool }

/// result file of a worker: plain key/value lines
fn write_result(path: &Path, st: &Stats, ctx: &Ctx, viol: Option<(&Path, &Fail)>) {
    let mut t = String::new();
    let _ = writeln!(t, "evals {}", st.evals);
    let _ = writeln!(t, "edges {}\npeak {}", ctx.max_edges, ctx.max_peak);
    if st.truncated { let _ = writeln!(t, "truncated 1"); }
    for (k, v) in &ctx.labels { let _ = writeln!(t, "label {v} {k}"); }
    for (k, v) in &st.known { let _ = writeln!(t, "known {v} {k}"); }
    for s in &st.samples { let _ = writeln!(t, "sample {}", s.replace('\n', "\\n")); }
    if let Some((p, f)) = viol { let _ = writeln!(t, "violation {} {}", p.display(), f.msg.replace('\n', "\\n")); }
    let mut hs = Vec::with_capacity(st.nontrivial.len() * 8);
    for h in &st.nontrivial { hs.extend_from_slice(&h.to_le_bytes()); }
    let _ = std::fs::write(path.with_extension(format!("{}.hash", path.extension().and_then(|x| x.to_str()).unwrap_or(""))), hs);
    let _ = std::fs::write(path, t);
}

pub fn worker(props: &[Prop], id: &str, thorough: bool, seed: u64, shard: u64, outdir: &Path, verif: &Path, cap_s: u64, part_filter: Option<&str>) -> i32 {
    let Some(p) = props.iter().find(|p| p.id == id) else { return 2 };
    let scratch = make_scratch();
    let known = load_known(verif);
    let mut ctx = Ctx::new(scratch.clone());
    ctx.thorough = thorough;
    let mut st = Stats { evals: 0, nontrivial: HashSet::new(), samples: vec![], known: BTreeMap::new(), truncated: false };
    let t0 = Instant::now();
    let stop_file = outdir.join(format!("stop.{shard}"));
    STOP_FILE.with(|s| *s.borrow_mut() = Some(stop_file));
    let cur_file = outdir.join(format!("cur.{shard}"));
    let res_file = outdir.join(format!("res.{shard}"));
    let mut code = 0;
    let n_parts = p.parts.len() as u64;
    'parts: for (pi, part) in p.parts.iter().enumerate() {
        if let Some(f) = part_filter { if f != part.name { continue; } }
        let total = if thorough { part.thorough } else { part.quick };
        let key = format!("{id}/{}", part.name);
        let part_deadline = cap_s * (pi as u64 + 1) / n_parts;
        match &part.body {
            Body::Choices(f) => {
                let mut i = shard;
                let mut k = 0u64;
                while i < total {
                    if k % 16 == 0 && t0.elapsed().as_secs() > part_deadline { st.truncated = true; break; }
                    let cs = case_seed(seed, &key, i);
                    let _ = write_cur(&cur_file, pi as u64, cs);
                    let mut s = Src::random(cs);
                    ctx.want_notes = k < 3;
                    let o = run_choices(*f, &mut s, &mut ctx);
                    st.evals += 1; k += 1; i += SHARDS;
                    for l in std::mem::take(&mut ctx.case_labels) { *ctx.labels.entry(l).or_insert(0) += 1; }
                    match o {
                        Out::Pass(nt) => {
                            if nt {
                                let mut h = Vec::with_capacity(s.out.len() * 8 + 8);
                                h.extend_from_slice(key.as_bytes());
                                for x in &s.out { h.extend_from_slice(&x.to_le_bytes()); }
                                if st.nontrivial.len() < HASH_CAP { st.nontrivial.insert(fnv(&h)); }
                                if ctx.want_notes && !ctx.notes.is_empty() { st.samples.push(format!("[{}] {}", part.name, ctx.notes.join("; "))); }
                            }
                        }
                        Out::Harness(h) => { eprintln!("{id}: {h} (case seed {cs})"); code = 2; break 'parts; }
                        Out::Fail(e) => {
                            if known.iter().any(|k| k.prop == id && k.sig == e.sig) { *st.known.entry(e.sig).or_insert(0) += 1; continue; }
                            ctx.want_notes = false;
                            let c = shrink_choices(*f, s.out, &e.sig, &mut ctx);
                            ctx.want_notes = true;
                            let e2 = match run_choices(*f, &mut Src::replay(c.clone()), &mut ctx) { Out::Fail(x) => x, _ => e };
                            let rp = write_replay(verif, id, part.name, &Case::Choices(c), &e2, &ctx.notes);
                            write_result(&res_file, &st, &ctx, Some((&rp, &e2)));
                            let _ = std::fs::remove_dir_all(&scratch);
                            return 1;
                        }
                    }
                }
            }
            Body::Bytes { entry_count, corpus, run } => {
                if let Some(rc) = fuzz_part(p, part, &key, *entry_count, *corpus, *run, total / SHARDS, seed, shard, part_deadline, &t0, &mut ctx, &mut st, &known, verif, &cur_file, &res_file) {
                    if rc == 1 { let _ = std::fs::remove_dir_all(&scratch); return 1; }
                    code = rc; break 'parts;
                }
            }
        }
    }
    write_result(&res_file, &st, &ctx, None);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

thread_local! { static CUR_H: RefCell<Option<std::fs::File>> = const { RefCell::new(None) }; }
fn write_cur(path: &Path, part: u64, cs: u64) -> std::io::Result<()> {
    use std::os::unix::fs::FileExt;
    CUR_H.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() { *h = Some(std::fs::File::create(path)?); }
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&part.to_le_bytes()); b[8..].copy_from_slice(&cs.to_le_bytes());
        h.as_ref().unwrap().write_all_at(&b, 0)
    })
}

const INTERESTING: [u64; 16] = [0, 1, 2, 3, 4, 7, 8, 12, 16, 0x7f, 0x80, 0xff, 0x7fff, 0xffff, 0x7fff_ffff, 0xffff_ffff];
fn mutate(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) {
    let n = 1 + r.upto(5);
    for _ in 0..n {
        if b.is_empty() { b.push(r.next() as u8); continue; }
        let len = b.len() as u64;
        let i = r.upto(len - 1) as usize;
        match r.upto(13) {
            0 => b[i] ^= 1 << r.upto(7),
            1 => b[i] = r.next() as u8,
            2 => b[i] = INTERESTING[r.upto(11) as usize] as u8,
            3 => { let v = INTERESTING[r.upto(15) as usize] as u16; if i + 2 <= b.len() { let w = if r.upto(1) == 0 { v.to_le_bytes() } else { v.to_be_bytes() }; b[i..i + 2].copy_from_slice(&w); } }
            4 | 5 => {
                if i + 4 <= b.len() {
                    let v = match r.upto(3) { 0 => INTERESTING[r.upto(15) as usize] as u32, 1 => r.upto(len) as u32, 2 => len as u32 - r.upto(8.min(len)) as u32, _ => r.next() as u32 };
                    let w = if r.upto(1) == 0 { v.to_le_bytes() } else { v.to_be_bytes() };
                    b[i..i + 4].copy_from_slice(&w);
                }
            }
            6 => { let k = 1 + r.upto(16.min(len - i as u64 - 1).max(0)) as usize; let e = (i + k).min(b.len()); b.drain(i..e); }
            7 => { let k = 1 + r.upto(15) as usize; let v: Vec<u8> = (0..k).map(|_| r.next() as u8).collect(); b.splice(i..i, v); }
            8 => { let k = 1 + r.upto(31) as usize; let e = (i + k).min(b.len()); let v = b[i..e].to_vec(); let j = r.upto(b.len() as u64) as usize; b.splice(j..j, v); }
            9 => { b.truncate(i); }
            10 => { if !other.is_empty() { let s = r.upto(other.len() as u64 - 1) as usize; let e = (s + 1 + r.upto(63) as usize).min(other.len()); b.splice(i..i, other[s..e].iter().copied()); } }
            11 => { if i + 1 < b.len() { let d = (1 + r.upto(34)) as u8; if r.upto(1) == 0 { b[i] = b[i].wrapping_add(d) } else { b[i] = b[i].wrapping_sub(d) } } }
            12 => { if i + 4 <= b.len() { let d = 1 + r.upto(16) as u32; let big = r.upto(1) == 0; let w: [u8; 4] = b[i..i + 4].try_into().unwrap(); let v = if big { u32::from_be_bytes(w) } else { u32::from_le_bytes(w) }; let v = if r.upto(1) == 0 { v.wrapping_add(d) } else { v.wrapping_sub(d) }; let w = if big { v.to_be_bytes() } else { v.to_le_bytes() }; b[i..i + 4].copy_from_slice(&w); } }
            _ => { if !other.is_empty() { let s = r.upto(other.len() as u64 - 1) as usize; let k = (1 + r.upto(31) as usize).min(other.len() - s).min(b.len() - i); b[i..i + k].copy_from_slice(&other[s..s + k]); } }
        }
        if b.len() > 1 << 16 { b.truncate(1 << 16); }
    }
}

#[allow(clippy::too_many_arguments)]
fn fuzz_part(p: &Prop, part: &Part, key: &str, entries: u64, corpus: fn(&mut Src, u64) -> Vec<u8>, run: fn(u64, &[u8], &mut Ctx) -> Res,
             total: u64, seed: u64, shard: u64, deadline: u64, t0: &Instant, ctx: &mut Ctx, st: &mut Stats, known: &[Known], verif: &Path, cur: &Path, res: &Path) -> Option<i32> {
    // every shard fuzzes its own slice of the entries (entry = format x operation)
    let mine: Vec<u64> = (0..entries).filter(|e| e % SHARDS == shard % entries.min(SHARDS)).collect();
    let per_entry = total / mine.len().max(1) as u64;
    for e in mine {
        let mut rng = Rng::new(case_seed(seed, key, e + 1000 * shard));
        let mut seen = vec![0u8; instr::MAX_EDGES];
        let mut pool: Vec<Vec<u8>> = vec![];
        let mut initial: Vec<Vec<u8>> = vec![vec![]];
        for k in 0..24 { initial.push(corpus(&mut Src::random(case_seed(seed, key, 7_000_000 + e * 1000 + k)), e)); }
        let mut n = 0u64;
        while n < per_entry {
            if n % 64 == 0 && t0.elapsed().as_secs() > deadline { st.truncated = true; break; }
            let b = if (n as usize) < initial.len() { initial[n as usize].clone() } else if pool.is_empty() || rng.upto(40) == 0 {
                // fresh structured input, mutated
                let mut b = corpus(&mut Src::random(rng.next()), e);
                let o = initial[rng.upto(initial.len() as u64 - 1) as usize].clone();
                mutate(&mut rng, &mut b, &o); b
            } else {
                // newer entries are preferred
                let i = { let a = rng.upto(pool.len() as u64 - 1); let c = rng.upto(pool.len() as u64 - 1); a.max(c) as usize };
                let mut b = pool[i].clone();
                let o = &pool[rng.upto(pool.len() as u64 - 1) as usize];
                mutate(&mut rng, &mut b, o); b
            };
            // full input on disk for post-mortem of hard stops
            let _ = write_cur_bytes(cur, e, &b);
            ctx.want_notes = n < 2;
            instr::reset_edge_map();
            let o = run_bytes(run, e, &b, ctx);
            n += 1; st.evals += 1;
            for l in std::mem::take(&mut ctx.case_labels) { *ctx.labels.entry(l).or_insert(0) += 1; }
            match o {
                Out::Pass(nt) => {
                    if nt { let mut h = b.clone(); h.push(e as u8); if st.nontrivial.len() < HASH_CAP { st.nontrivial.insert(fnv(&h)); } }
                    if ctx.want_notes && !ctx.notes.is_empty() && st.samples.len() < 6 { st.samples.push(format!("[{}] {}", part.name, ctx.notes.join("; "))); }
                    if instr::merge_edge_map(&mut seen) > 0 && b.len() <= 16384 { pool.push(b); }
                }
                Out::Harness(h) => { eprintln!("{}: {h} (entry {e}, bytes {})", p.id, hex(&b)); return Some(2); }
                Out::Fail(f) => {
                    if known.iter().any(|k| k.prop == p.id && k.sig == f.sig) { *st.known.entry(f.sig).or_insert(0) += 1; continue; }
                    let c = shrink_bytes(run, e, b, &f.sig, ctx);
                    ctx.want_notes = true;
                    let f2 = match run_bytes(run, e, &c, ctx) { Out::Fail(x) => x, _ => f };
                    let rp = write_replay(verif, p.id, part.name, &Case::Bytes(e, c), &f2, &ctx.notes);
                    write_result(res, st, ctx, Some((&rp, &f2)));
                    return Some(1);
                }
            }
        }
        *ctx.labels.entry("fuzz corpus entries with new coverage").or_insert(0) += pool.len() as u64;
    }
    None
}
fn bytes_file(cur: &Path) -> PathBuf { let mut s = cur.as_os_str().to_os_string(); s.push(".bytes"); PathBuf::from(s) }
fn write_cur_bytes(cur: &Path, e: u64, b: &[u8]) -> std::io::Result<()> {
    use std::os::unix::fs::FileExt;
    thread_local! { static H: RefCell<Option<std::fs::File>> = const { RefCell::new(None) }; }
    H.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() { *h = Some(std::fs::File::create(bytes_file(cur))?); }
        let mut v = Vec::with_capacity(b.len() + 16);
        v.extend_from_slice(&e.to_le_bytes()); v.extend_from_slice(&(b.len() as u64).to_le_bytes()); v.extend_from_slice(b);
        h.as_ref().unwrap().write_all_at(&v, 0)
    })
}

/// Runs exactly one case (used by the parent to confirm and shrink hard stops).
pub fn one(props: &[Prop], id: &str, part: &str, file: &Path, stop: &Path) -> i32 {
    let Some(p) = props.iter().find(|p| p.id == id) else { return 2 };
    let Some(part) = p.parts.iter().find(|x| x.name == part) else { return 2 };
    STOP_FILE.with(|s| *s.borrow_mut() = Some(stop.to_path_buf()));
    let scratch = make_scratch();
    let mut ctx = Ctx::new(scratch.clone());
    let t = std::fs::read_to_string(file).unwrap_or_default();
    let o = match &part.body {
        Body::Choices(f) => {
            let mut s = if let Some(x) = t.strip_prefix("seed ") {
                Src::random(x.trim().parse().unwrap_or(0)).with_trace(&stop.with_extension("trace"))
            } else { Src::replay(t.split_whitespace().filter_map(|x| x.parse().ok()).collect()) };
            run_choices(*f, &mut s, &mut ctx)
        }
        Body::Bytes { run, .. } => {
            let (e, b) = t.trim().split_once(' ').unwrap_or(("0", ""));
            run_bytes(*run, e.parse().unwrap_or(0), &unhex(b), &mut ctx)
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    match o { Out::Pass(_) => 0, Out::Fail(f) => { println!("{}", f.sig); 1 } Out::Harness(h) => { eprintln!("{h}"); 2 } }
}

// ------------------------------------------------------------------ parent
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}

pub fn run(props: &[Prop], id: &str, thorough: bool, seed: u64, verif: &Path, part_filter: Option<&str>) -> i32 {
    let Some(p) = props.iter().find(|p| p.id == id) else { eprintln!("unknown property {id}"); return 2 };
    let t0 = Instant::now();
    let outdir = make_scratch();
    let exe = std::env::current_exe().expect("exe");
    let cap: u64 = std::env::var("VH_CAP").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3600 } else { 420 });
    let watchdog = cap + 240;
    let tier = if thorough { "thorough" } else { "quick" };
    let mut kids: Vec<Option<std::process::Child>> = (0..SHARDS).map(|s| {
        let mut c = std::process::Command::new(&exe);
        c.args(["worker", id, tier, &seed.to_string(), &s.to_string()]).arg(&outdir).arg(verif).arg(cap.to_string());
        if let Some(f) = part_filter { c.arg(f); }
        Some(c.spawn().expect("spawn"))
    }).collect();
    let mut codes: Vec<Option<i32>> = vec![None; SHARDS as usize];
    let mut first_bad: Option<usize> = None;
    loop {
        let mut alive = false;
        for i in 0..kids.len() {
            if let Some(k) = &mut kids[i] {
                match k.try_wait() {
                    Ok(Some(s)) => {
                        use std::os::unix::process::ExitStatusExt;
                        let c = s.code().unwrap_or_else(|| 1000 + s.signal().unwrap_or(0));
                        codes[i] = Some(c); kids[i] = None;
                        // leftover scratch of a worker that ended hard
                        if c != 0 && first_bad.is_none() { first_bad = Some(i); }
                    }
                    Ok(None) => alive = true,
                    Err(e) => { eprintln!("wait: {e}"); return 2; }
                }
            }
        }
        if !alive || first_bad.is_some() { break; }
        if t0.elapsed().as_secs() > watchdog {
            for k in kids.iter_mut().flatten() { let _ = k.kill(); let _ = k.wait(); }
            cleanup(&outdir);
            eprintln!("{id}: watchdog after {} s, no verdict", watchdog);
            return 3;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    let pids: Vec<u32> = kids.iter().flatten().map(|k| k.id()).collect();
    for k in kids.iter_mut().flatten() { let _ = k.kill(); let _ = k.wait(); }
    for pid in pids { for b in ["/dev/shm", "/tmp"] { let _ = std::fs::remove_dir_all(format!("{b}/vh-{pid}")); } }

    let mut viol: Option<(String, String)> = None;
    let mut err = None;
    if let Some(i) = first_bad {
        let c = codes[i].unwrap_or(2);
        match c {
            1 => {}
            2 | 3 => err = Some(format!("worker {i} reported a harness error")),
            _ => match post_mortem(p, id, i, c, &exe, &outdir, verif) {
                Ok(Some(v)) => viol = Some(v),
                Ok(None) => {}
                Err(e) => err = Some(e),
            },
        }
    }
    // merge
    let mut evals = 0u64; let mut hashes: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new(); let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![]; let mut truncated = false; let (mut edges, mut peak) = (0u64, 0u64);
    for s in 0..SHARDS {
        let Ok(t) = std::fs::read_to_string(outdir.join(format!("res.{s}"))) else { continue };
        if let Ok(b) = std::fs::read(outdir.join(format!("res.{s}.hash"))) { for c in b.chunks_exact(8) { hashes.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "evals" => evals += v.parse::<u64>().unwrap_or(0),
                "edges" => edges = edges.max(v.parse().unwrap_or(0)),
                "peak" => peak = peak.max(v.parse().unwrap_or(0)),
                "truncated" => truncated = true,
                "label" => if let Some((n, name)) = v.split_once(' ') { *labels.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0); },
                "known" => if let Some((n, name)) = v.split_once(' ') { *known_hit.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0); },
                "sample" => if samples.len() < 12 { samples.push(v.chars().take(900).collect::<String>()); },
                "violation" => if viol.is_none() { let (a, b) = v.split_once(' ').unwrap_or((v, "")); viol = Some((a.to_string(), b.to_string())); },
                _ => {}
            }
        }
    }
    cleanup(&outdir);
    let known = load_known(verif);
    for k in known.iter().filter(|k| k.prop == id) { println!("KNOWN-FINDING: property={id} {}", k.text); }

    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    let _ = write!(j, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", jstr(id), jstr(tier), hashes.len(), jstr(p.rule));
    let _ = write!(j, "  \"classes\": {{{}}},\n", labels.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"known_finding_hits\": {{{}}},\n  \"stopped_at_time_cap\": {truncated},\n  \"max_edges_per_call\": {edges},\n  \"max_heap_bytes_per_call\": {peak},\n", known_hit.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "  \"samples\": [{}]\n }},\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   "));
    let _ = write!(j, " \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "), viol.is_some() as u32);
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    if let Err(e) = std::fs::write(verif.join("evidence").join(format!("{id}.json")), j) { eprintln!("evidence: {e}"); return 2; }

    if let Some((path, msg)) = viol {
        println!("{id}: {msg}");
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    if let Some(e) = err { eprintln!("{id}: {e}"); return 2; }
    println!("{id}: ok, {evals} cases, {} distinct non-trivial, {wall:.1} s{}", hashes.len(), if truncated { " (time cap reached)" } else { "" });
    0
}
fn cleanup(outdir: &Path) { let _ = std::fs::remove_dir_all(outdir); }

/// A worker ended by the deterministic limits (77) or by a signal (stack
/// overflow, abort): find the case, confirm it in fresh processes, shrink it.
fn post_mortem(p: &Prop, id: &str, shard: usize, code: i32, exe: &Path, outdir: &Path, verif: &Path) -> Result<Option<(String, String)>, String> {
    use std::os::unix::process::ExitStatusExt;
    let describe = |c: i32| match c { 77 => "exceeded its work or memory limit".to_string(), 1006 => "aborted (SIGABRT: stack overflow or abort)".into(), 1011 => "crashed (SIGSEGV)".into(), c => format!("ended with status {c}") };
    if code == 1009 || code == 1015 { return Err(format!("worker {shard} was killed from outside (status {code})")); }
    let case_file = outdir.join("pm.case"); let stop = outdir.join("pm.stop");
    let try_case = |part: &str, text: &str| -> i32 {
        let _ = std::fs::remove_file(&stop);
        let _ = std::fs::write(&case_file, text);
        let child = std::process::Command::new(exe).arg("one").arg(id).arg(part).arg(&case_file).arg(&stop).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn();
        let Ok(mut ch) = child else { return -1 };
        let pid = ch.id();
        let t = Instant::now();
        let c = loop {
            match ch.try_wait() { Ok(Some(s)) => break s.code().unwrap_or_else(|| 1000 + s.signal().unwrap_or(0)), _ => {} }
            if t.elapsed().as_secs() > 60 { let _ = ch.kill(); let _ = ch.wait(); break -1; }
            std::thread::sleep(std::time::Duration::from_millis(2));
        };
        for b in ["/dev/shm", "/tmp"] { let _ = std::fs::remove_dir_all(format!("{b}/vh-{pid}")); }
        c
    };
    // candidates: the current choice case or the current byte case
    let t0 = Instant::now();
    if let Ok(b) = std::fs::read(outdir.join(format!("cur.{shard}"))) {
        if b.len() == 16 {
            let pi = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize; let cs = u64::from_le_bytes(b[8..].try_into().unwrap());
            if let Some(part) = p.parts.get(pi) {
                let c = try_case(part.name, &format!("seed {cs}"));
                if c == code {
                    let mut choices: Vec<u64> = std::fs::read_to_string(stop.with_extension("trace")).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
                    let txt = |c: &[u64]| c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                    for size in [64usize, 16, 4, 1] {
                        let mut i = 0;
                        while i + size <= choices.len() && t0.elapsed().as_secs() < 60 {
                            let mut d = choices.clone(); d.drain(i..i + size);
                            if try_case(part.name, &txt(&d)) == code { choices = d; } else { i += size; }
                        }
                    }
                    let _ = try_case(part.name, &txt(&choices));
                    let why = std::fs::read_to_string(&stop).unwrap_or_default();
                    let f = Fail { sig: format!("hard-stop:{code}"), msg: format!("the code under test {}: {}", describe(code), why.lines().nth(1).unwrap_or("")) };
                    let rp = write_replay(verif, id, part.name, &Case::Choices(choices), &f, &[]);
                    return Ok(Some((rp.display().to_string(), f.msg)));
                }
            }
        }
    }
    if let Ok(b) = std::fs::read(bytes_file(&outdir.join(format!("cur.{shard}")))) {
        if b.len() >= 16 {
            let e = u64::from_le_bytes(b[..8].try_into().unwrap()); let n = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
            if b.len() >= 16 + n {
                let mut bytes = b[16..16 + n].to_vec();
                for part in p.parts.iter().filter(|x| matches!(x.body, Body::Bytes { .. })) {
                    if try_case(part.name, &format!("{e} {}", hex(&bytes))) != code { continue; }
                    let mut size = bytes.len() / 2;
                    while size > 0 && t0.elapsed().as_secs() < 60 {
                        let mut i = 0;
                        while i + size <= bytes.len() && t0.elapsed().as_secs() < 60 {
                            let mut d = bytes.clone(); d.drain(i..i + size);
                            if try_case(part.name, &format!("{e} {}", hex(&d))) == code { bytes = d; } else { i += size; }
                        }
                        size /= 2;
                    }
                    let _ = try_case(part.name, &format!("{e} {}", hex(&bytes)));
                    let why = std::fs::read_to_string(&stop).unwrap_or_default();
                    let f = Fail { sig: format!("hard-stop:{code}"), msg: format!("the code under test {}: {}", describe(code), why.lines().nth(1).unwrap_or("")) };
                    let rp = write_replay(verif, id, part.name, &Case::Bytes(e, bytes), &f, &[]);
                    return Ok(Some((rp.display().to_string(), f.msg)));
                }
            }
        }
    }
    Err(format!("worker {shard} {} but the case could not be reproduced", describe(code)))
}
