//! vkit: a small choice-tape property-based testing kit.
//!
//! Every random choice of a case goes through [`Src`], which records it on a tape. A failing case is
//! shrunk on that tape (delete chunks, zero, lower values), and the minimal tape is the replay file.
//! A run is a pure function of the code under test and VERIF_SEED: case `i` of facet `f` of property
//! `p` is seeded with hash(VERIF_SEED, p, f, i), and case counts are fixed per tier.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod faulty;
pub mod json;

// ------------------------------------------------------------------------------------------- rng

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        splitmix(&mut s);
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
}

// ------------------------------------------------------------------------------------------- src

/// Source of all choices of one case.
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub tape: Vec<u64>,
    pub classes: Vec<String>,
    pub nontrivial: bool,
    pub describe: String,
    /// extra mixed into the distinctness fingerprint
    extra_fp: u64,
    /// number of individual oracle comparisons made
    pub checks: u64,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            rng: Some(Rng::new(seed)),
            replay: vec![],
            tape: vec![],
            classes: vec![],
            nontrivial: false,
            describe: String::new(),
            extra_fp: 0,
            checks: 0,
        }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src {
            rng: None,
            replay: tape,
            tape: vec![],
            classes: vec![],
            nontrivial: false,
            describe: String::new(),
            extra_fp: 0,
            checks: 0,
        }
    }

    /// uniformly 0..n (n == 0 means the full u64 range); 0 is the simplest value
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match self.rng.as_mut() {
            Some(rng) => {
                let r = rng.next();
                if n == 0 {
                    r
                } else {
                    ((r as u128 * n as u128) >> 64) as u64
                }
            }
            None => {
                let r = self.replay.get(self.tape.len()).copied().unwrap_or(0);
                if n == 0 {
                    r
                } else {
                    r.min(n - 1)
                }
            }
        };
        self.tape.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n.max(1) as u64) as usize
    }
    /// lo..=hi, shrinking to lo
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// weighted choice of an index
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut r = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if r < *w as u64 {
                return i;
            }
            r -= *w as u64;
        }
        ws.len() - 1
    }
    pub fn byte(&mut self) -> u8 {
        self.draw(256) as u8
    }
    /// small sizes are likelier; 0..=max
    pub fn size(&mut self, max: usize) -> usize {
        match self.draw(4) {
            0 => self.below(max.min(2) + 1),
            1 => self.below(max.min(5) + 1),
            2 => self.below(max.min(12) + 1),
            _ => self.below(max + 1),
        }
    }
    pub fn u8v(&mut self) -> u8 {
        match self.draw(4) {
            0 => self.draw(4) as u8,
            1 => 255 - self.draw(4) as u8,
            _ => self.byte(),
        }
    }
    pub fn i8v(&mut self) -> i8 {
        self.u8v() as i8
    }
    pub fn u16v(&mut self) -> u16 {
        match self.draw(4) {
            0 => self.draw(4) as u16,
            1 => 0xffff - self.draw(4) as u16,
            _ => self.draw(0x10000) as u16,
        }
    }
    pub fn i16v(&mut self) -> i16 {
        self.u16v() as i16
    }
    pub fn u32v(&mut self) -> u32 {
        match self.draw(5) {
            0 => self.draw(4) as u32,
            1 => u32::MAX - self.draw(4) as u32,
            2 => self.draw(0x10000) as u32,
            3 => 0x8000_0000u32.wrapping_sub(2).wrapping_add(self.draw(4) as u32),
            _ => self.draw(1 << 32) as u32,
        }
    }
    pub fn i32v(&mut self) -> i32 {
        self.u32v() as i32
    }
    pub fn u64v(&mut self) -> u64 {
        match self.draw(4) {
            0 => self.draw(4),
            1 => u64::MAX - self.draw(4),
            2 => self.draw(1 << 32),
            _ => self.draw(0),
        }
    }
    pub fn i64v(&mut self) -> i64 {
        self.u64v() as i64
    }
    /// bit pattern of a float that is not a NaN
    pub fn f32v(&mut self) -> f32 {
        const S: [f32; 8] = [0.0, 1.0, -1.0, -0.0, 0.5, f32::MAX, f32::INFINITY, f32::MIN_POSITIVE];
        match self.draw(3) {
            0 => *self.pick(&S),
            1 => self.range(-100000, 100000) as f32 / 8.0,
            _ => {
                let f = f32::from_bits(self.draw(1 << 32) as u32);
                if f.is_nan() {
                    2.5
                } else {
                    f
                }
            }
        }
    }
    pub fn f64v(&mut self) -> f64 {
        const S: [f64; 8] = [0.0, 1.0, -1.0, -0.0, 0.5, f64::MAX, f64::INFINITY, f64::MIN_POSITIVE];
        match self.draw(3) {
            0 => *self.pick(&S),
            1 => self.range(-100000, 100000) as f64 / 8.0,
            _ => {
                let f = f64::from_bits(self.draw(0));
                if f.is_nan() {
                    2.5
                } else {
                    f
                }
            }
        }
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        (0..len).map(|_| self.byte()).collect()
    }
    /// A byte string of the given length from a few draws: zeros, incompressible, repetitive or mixed.
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        let kind = self.draw(5);
        let seed = self.draw(1 << 32);
        let mut rng = Rng::new(seed ^ 0xb10b);
        let mut out = Vec::with_capacity(len);
        match kind {
            0 => out.resize(len, seed as u8),
            1 => {
                let period = 1 + (seed % 61) as usize;
                let pat: Vec<u8> = (0..period).map(|_| rng.next() as u8).collect();
                for i in 0..len {
                    out.push(pat[i % period]);
                }
            }
            2 => {
                for _ in 0..len {
                    out.push(b"the quick brown fox \n"[(rng.next() % 21) as usize]);
                }
            }
            3 => {
                // long runs
                while out.len() < len {
                    let b = rng.next() as u8;
                    let n = 1 + (rng.next() % 300) as usize;
                    for _ in 0..n.min(len - out.len()) {
                        out.push(b);
                    }
                }
            }
            _ => {
                while out.len() < len {
                    out.extend_from_slice(&rng.next().to_le_bytes());
                }
                out.truncate(len);
            }
        }
        out
    }
    pub fn ascii_ident(&mut self, max: usize) -> String {
        let n = 1 + self.size(max.saturating_sub(1));
        let mut s = String::new();
        for i in 0..n {
            let set: &[u8] = if i == 0 {
                b"aBcXyZ_Q"
            } else {
                b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
            };
            s.push(*self.pick(set) as char);
        }
        s
    }
    /// any printable ASCII text, may be empty
    pub fn ascii_text(&mut self, max: usize) -> String {
        let n = self.size(max);
        (0..n).map(|_| (0x20 + self.draw(0x5f) as u8) as char).collect()
    }
    /// text without NUL: ASCII, Latin, CJK, astral planes
    pub fn text(&mut self, max: usize) -> String {
        match self.draw(3) {
            0 | 1 => self.ascii_text(max),
            _ => {
                let n = self.size(max);
                (0..n).map(|_| self.uchar()).collect()
            }
        }
    }
    pub fn uchar(&mut self) -> char {
        let c = match self.draw(8) {
            0 | 1 | 2 => 0x20 + self.draw(0x5f) as u32,
            3 => 0xa1 + self.draw(0x500) as u32,
            4 => 0x4e00 + self.draw(0x5000) as u32,
            5 => 0x1f300 + self.draw(0x200) as u32,
            6 => *self.pick(&[1u32, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]),
            _ => 1 + self.draw(0x10ffff) as u32,
        };
        char::from_u32(c).unwrap_or('\u{2603}')
    }
    pub fn guid(&mut self) -> [u8; 16] {
        let mut g = [0u8; 16];
        match self.draw(4) {
            0 => {}
            1 => g = [0xff; 16],
            2 => {
                let i = self.below(16);
                g[i] = self.byte();
            }
            _ => {
                for b in g.iter_mut() {
                    *b = self.byte();
                }
            }
        }
        g
    }

    // ---- bookkeeping
    pub fn class(&mut self, c: impl Into<String>) {
        let c = c.into();
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.describe.len() < 4000 {
            if !self.describe.is_empty() {
                self.describe.push_str("; ");
            }
            self.describe.push_str(s.as_ref());
        }
    }
    pub fn fingerprint_with(&mut self, x: u64) {
        self.extra_fp = self.extra_fp.rotate_left(7) ^ x;
    }
    fn fingerprint(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64 ^ self.extra_fp;
        for v in &self.tape {
            h ^= *v;
            h = h.wrapping_mul(0x1000_0000_01b3);
            h ^= h >> 29;
        }
        h
    }
}

// ----------------------------------------------------------------------------------------- facets

#[derive(Debug, Clone)]
pub struct Fail {
    /// stable signature (no addresses, no line numbers, no generated values)
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($s:expr, $cond:expr, $sig:expr, $($arg:tt)*) => {
        $s.checks += 1;
        if !$cond { return Err($crate::Fail { sig: ($sig).into(), msg: format!($($arg)*) }); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($s:expr, $a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        $s.checks += 1;
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::Fail { sig: ($sig).into(), msg: format!("{}: got {} expected {}", format!($($arg)*), $crate::clip(&format!("{:?}", a)), $crate::clip(&format!("{:?}", b))) });
        }
    }};
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 400 {
        let head: String = s.chars().take(400).collect();
        format!("{}…({} chars)", head, s.chars().count())
    } else {
        s.to_string()
    }
}

/// first difference between two byte strings, human readable
pub fn bytediff(got: &[u8], want: &[u8]) -> String {
    let n = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
    let show = |x: &[u8]| {
        let lo = n.saturating_sub(8).min(x.len());
        let hi = (n + 16).min(x.len());
        x[lo..hi].iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ")
    };
    format!(
        "lengths {} vs {}, first difference at byte {}: got [{}] expected [{}]",
        got.len(),
        want.len(),
        n,
        show(got),
        show(want)
    )
}

pub struct Facet {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src) -> Res,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: Vec<Facet>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| l.file().to_string())
            .unwrap_or_default();
        if std::env::var_os("VKIT_BACKTRACE").is_some() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run library code; a panic becomes Err((file, message)).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

/// normalise a panic message so that it can be part of a signature: digits become '#'
pub fn norm(msg: &str) -> String {
    let mut out = String::new();
    let mut last_hash = false;
    for c in msg.chars().take(120) {
        if c.is_ascii_digit() {
            if !last_hash {
                out.push('#');
            }
            last_hash = true;
        } else {
            out.push(c);
            last_hash = false;
        }
    }
    out
}

fn run_case(f: &Facet, src: &mut Src) -> Res {
    match guarded(|| (f.run)(src)) {
        Ok(r) => r,
        Err((loc, msg)) => {
            let file = Path::new(&loc).file_name().map(|s| s.to_string_lossy().to_string()).unwrap_or_default();
            fail(format!("panic:{}:{}", file, norm(&msg)), format!("panicked in {loc}: {msg}"))
        }
    }
}

// ------------------------------------------------------------------------------------------ shrink

fn shrink(f: &Facet, tape: Vec<u64>, sig: &str, mut budget: u32) -> (Vec<u64>, Fail, String) {
    let mut best = tape;
    let mut last = Fail { sig: sig.to_string(), msg: String::new() };
    let mut desc = String::new();
    let started = Instant::now();
    let mut attempt = |cand: &[u64], last: &mut Fail, desc: &mut String| -> Option<Vec<u64>> {
        if budget == 0 || started.elapsed().as_secs() > 60 {
            return None;
        }
        budget -= 1;
        let mut s = Src::replay(cand.to_vec());
        match run_case(f, &mut s) {
            Err(e) if e.sig == sig => {
                *last = e;
                *desc = s.describe.clone();
                Some(s.tape)
            }
            _ => None,
        }
    };
    if let Some(t) = attempt(&best.clone(), &mut last, &mut desc) {
        best = t;
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                match attempt(&c, &mut last, &mut desc) {
                    Some(t) if t.len() < best.len() || (t.len() == best.len() && t < best) => best = t,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    if let Some(t) = attempt(&c, &mut last, &mut desc) {
                        if t.len() <= best.len() {
                            best = t;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(v / 4 + 1), v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    if let Some(t) = attempt(&c, &mut last, &mut desc) {
                        if t.len() <= best.len() {
                            best = t;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, last, desc)
}

// ---------------------------------------------------------------------------------------- findings

struct Known {
    sig: String,
    what: String,
}

/// lines: `finding: property=<id> sig=<signature> :: <what fails>` (suppress exactly that signature)
///        `fixed: property=<id> <commit> <what failed>`            (suppress nothing)
fn load_known(root: &Path, id: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("finding: ") {
                if let Some(rest) = rest.strip_prefix(&format!("property={id} sig=")) {
                    if let Some((sig, what)) = rest.split_once(" :: ") {
                        out.push(Known { sig: sig.to_string(), what: what.to_string() });
                    }
                }
            }
        }
    }
    out
}

// -------------------------------------------------------------------------------------------- main

struct FacetStats {
    evaluations: u64,
    nontrivial: u64,
    checks: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known_hits: BTreeMap<String, u64>,
}

struct Failure {
    index: u64,
    tape: Vec<u64>,
    fail: Fail,
}

pub fn case_seed(seed: u64, prop: &str, facet: &str, i: u64) -> u64 {
    let mut b = Vec::new();
    b.extend_from_slice(&seed.to_le_bytes());
    b.extend_from_slice(prop.as_bytes());
    b.push(0);
    b.extend_from_slice(facet.as_bytes());
    b.push(0);
    b.extend_from_slice(&i.to_le_bytes());
    let mut h = fnv(&b);
    splitmix(&mut h)
}

/// Entry point of every harness binary:
///   <bin> check <property> [--tier quick|thorough] [--facet NAME] [--cases N]
///   <bin> replay <file>
///   <bin> list
pub fn main(props: Vec<Property>) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let code = match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                for f in &p.facets {
                    println!("{} {} {} {}", p.id, f.name, f.quick, f.thorough);
                }
            }
            0
        }
        Some("check") if args.len() >= 2 => supervise(&root, &props, &args),
        Some("check-worker") if args.len() >= 2 => {
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let mut facet = None;
            let mut cases = None;
            let mut i = 2;
            while i + 1 < args.len() {
                match args[i].as_str() {
                    "--tier" => tier = args[i + 1].clone(),
                    "--facet" => facet = Some(args[i + 1].clone()),
                    "--cases" => cases = args[i + 1].parse::<u64>().ok(),
                    _ => {}
                }
                i += 2;
            }
            match props.iter().find(|p| p.id == args[1]) {
                Some(p) => check(&root, p, &tier, facet, cases),
                None => {
                    eprintln!("unknown property {}", args[1]);
                    2
                }
            }
        }
        // one generated case, alone, in this process
        Some("case") if args.len() >= 4 => match props.iter().find(|p| p.id == args[1]) {
            Some(p) => match p.facets.iter().find(|f| f.name == args[2]) {
                Some(f) => {
                    let i: u64 = args[3].parse().unwrap_or(0);
                    let seed = env_seed();
                    std::thread::scope(|sc| {
                        std::thread::Builder::new()
                            .stack_size(STACK)
                            .spawn_scoped(sc, || {
                                let mut s = Src::random(case_seed(seed, p.id, f.name, i));
                                let r = run_case(f, &mut s);
                                println!("case: {}", s.describe);
                                match r {
                                    Ok(()) => 0,
                                    Err(e) => {
                                        println!("signature: {}\nfailure: {}", e.sig, e.msg);
                                        1
                                    }
                                }
                            })
                            .unwrap()
                            .join()
                            .unwrap()
                    })
                }
                None => 2,
            },
            None => 2,
        },
        Some("replay") if args.len() >= 2 => replay(&props, &args[1]),
        _ => {
            eprintln!("usage: check <property> [--tier T] [--facet F] [--cases N] | replay <file> | list");
            2
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code)
}

const STACK: usize = 256 << 20;

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

/// A single allocation beyond this limit fails, so that code that sizes a buffer from garbage ends the
/// worker process at once (and is then confirmed case by case) instead of exhausting the machine.
pub struct Limited;
const ALLOC_LIMIT: usize = 6 << 30;
unsafe impl std::alloc::GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > ALLOC_LIMIT {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Limited = Limited;

/// Runs the check in a child process. If the child is killed by a signal (abort on an absurd allocation,
/// stack overflow, double panic), the cases that were in flight are re-run alone, twice; one that dies
/// both times is a deterministic crash and is reported. Anything else abnormal is an error, not a
/// violation.
fn supervise(root: &Path, props: &[Property], args: &[String]) -> i32 {
    use std::os::unix::fs::FileExt;
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let Some(p) = props.iter().find(|p| p.id == args[1]) else {
        eprintln!("unknown property {}", args[1]);
        return 2;
    };
    let started = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = root.join(".build");
    std::fs::create_dir_all(&dir).ok();
    let status_path = dir.join(format!("status-{}-{}", p.id, std::process::id()));
    let mut a: Vec<String> = args.to_vec();
    a[0] = "check-worker".into();
    let st = Command::new(&exe).args(&a).env("VERIF_STATUS", &status_path).status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR cannot start the worker: {e}");
            return 3;
        }
    };
    if let Some(c) = st.code() {
        std::fs::remove_file(&status_path).ok();
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    println!("worker ended by signal {sig}; re-running the cases in flight one by one");
    let mut in_flight = vec![];
    if let Ok(f) = std::fs::File::open(&status_path) {
        let mut b = [0u8; 16];
        let mut i = 0;
        while f.read_exact_at(&mut b, i * 16).is_ok() {
            let facet = u64::from_le_bytes(b[..8].try_into().unwrap());
            let case = u64::from_le_bytes(b[8..].try_into().unwrap());
            if facet > 0 {
                in_flight.push((facet as usize - 1, case));
            }
            i += 1;
        }
    }
    std::fs::remove_file(&status_path).ok();
    in_flight.sort();
    for (fi, case) in in_flight {
        let Some(f) = p.facets.get(fi) else { continue };
        let mut deaths = 0;
        let mut text = String::new();
        for _ in 0..2 {
            let out = Command::new(&exe).args(["case", p.id, f.name, &case.to_string()]).output();
            if let Ok(o) = out {
                if matches!(o.status.signal(), Some(6) | Some(11) | Some(4) | Some(7)) {
                    deaths += 1;
                    text = String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or("").to_string();
                }
            }
        }
        if deaths == 2 {
            let rdir = root.join("replays");
            std::fs::create_dir_all(&rdir).ok();
            let path = rdir.join(format!("{}-{}-crash.txt", p.id, f.name));
            std::fs::write(
                &path,
                format!("property: {}\nfacet: {}\nseed: {}\ncase: {}\nsignature: crash\nfailure: the process dies: {}\n", p.id, f.name, env_seed() as i64, case, text),
            )
            .ok();
            println!("facet {} case {}: the process dies on this input every time: {}", f.name, case, text);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            let mut j = json::Obj::new();
            j.str("property", p.id);
            j.str("tier", if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" });
            j.raw("seed", &format!("{}", env_seed() as i64));
            j.str("level", "exploration");
            let mut c = json::Obj::new();
            c.raw("evaluations", &format!("{}", case + 1));
            c.raw("distinct_nontrivial", "1");
            c.str("rule", p.rule);
            c.raw("samples", &format!("[{}]", json::string(&format!("{}#{} crashes the process", f.name, case))));
            j.raw("coverage", &c.finish());
            j.raw("wall_s", &format!("{:.3}", started.elapsed().as_secs_f64()));
            j.raw("violations", "1");
            std::fs::create_dir_all(root.join("evidence")).ok();
            std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), j.finish() + "\n").ok();
            return 1;
        }
    }
    println!("ERROR property={} worker ended by signal {sig}, not reproducible on a single case (inconclusive)", p.id);
    3
}

fn replay(props: &[Property], file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(|s| s.to_string())).unwrap_or_default();
    let (prop, facet) = (get("property"), get("facet"));
    let tape: Vec<u64> = get("tape").split_whitespace().filter_map(|v| v.parse().ok()).collect();
    let Some(p) = props.iter().find(|p| p.id == prop) else {
        eprintln!("replay: property {prop} is not in this binary");
        return 2;
    };
    let Some(f) = p.facets.iter().find(|f| f.name == facet) else {
        eprintln!("replay: no facet {facet}");
        return 2;
    };
    if get("signature") == "crash" {
        // crash replays name the generated case; run it in a process of its own
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["case", &prop, &facet, &get("case")])
            .env("VERIF_SEED", get("seed"))
            .status();
        return match st.map(|s| s.code()) {
            Ok(Some(0)) => {
                println!("replay passes");
                0
            }
            _ => {
                println!("VIOLATION property={} replay={}", p.id, file);
                1
            }
        };
    }
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                let mut s = Src::replay(tape.clone());
                let r = run_case(f, &mut s);
                (r, s.describe)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    println!("case: {}", r.1);
    match r.0 {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(e) => {
            println!("signature: {}\nfailure: {}", e.sig, e.msg);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}

fn check(root: &Path, p: &Property, tier: &str, only: Option<String>, cases: Option<u64>) -> i32 {
    let started = Instant::now();
    let seed = env_seed();
    let status = std::env::var("VERIF_STATUS").ok().and_then(|p| std::fs::File::create(p).ok());
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    });
    let known = load_known(root, p.id);
    let mut all_stats: Vec<(String, FacetStats)> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut violations: Vec<(String, Failure)> = vec![];
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();

    // watchdog: no progress for a long time is an error of the check, never a violation
    let progress = std::sync::Arc::new(AtomicU64::new(0));
    {
        let progress = progress.clone();
        let id = p.id;
        let limit: u64 = if tier == "thorough" { 1800 } else { 400 };
        std::thread::spawn(move || {
            let mut last = 0;
            let mut stale = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let now = progress.load(Ordering::Relaxed);
                if now == last {
                    stale += 1;
                } else {
                    stale = 0;
                }
                last = now;
                if stale > limit {
                    println!("ERROR property={id} no progress for {limit} s (inconclusive)");
                    std::process::exit(3);
                }
            }
        });
    }

    for (facet_index, f) in p.facets.iter().enumerate() {
        if let Some(o) = &only {
            if o != f.name {
                continue;
            }
        }
        let total = cases.unwrap_or(if tier == "thorough" { f.thorough } else { f.quick });
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
        let merged: Mutex<(FacetStats, HashSet<u64>)> = Mutex::new((
            FacetStats {
                evaluations: 0,
                nontrivial: 0,
                checks: 0,
                classes: BTreeMap::new(),
                samples: vec![],
                known_hits: BTreeMap::new(),
            },
            HashSet::new(),
        ));
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, stop, failures, merged, status, known, progress) = (&next, &stop, &failures, &merged, &status, &known, &progress);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let mut st = FacetStats {
                            evaluations: 0,
                            nontrivial: 0,
                            checks: 0,
                            classes: BTreeMap::new(),
                            samples: vec![],
                            known_hits: BTreeMap::new(),
                        };
                        let mut fps: HashSet<u64> = HashSet::new();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= total {
                                break;
                            }
                            if let Some(file) = status {
                                use std::os::unix::fs::FileExt;
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(facet_index as u64 + 1).to_le_bytes());
                                b[8..].copy_from_slice(&i.to_le_bytes());
                                file.write_all_at(&b, t as u64 * 16).ok();
                            }
                            let mut s = Src::random(case_seed(seed, p.id, f.name, i));
                            let r = run_case(f, &mut s);
                            progress.fetch_add(1, Ordering::Relaxed);
                            st.evaluations += 1;
                            st.checks += s.checks;
                            for c in &s.classes {
                                *st.classes.entry(c.clone()).or_insert(0) += 1;
                            }
                            if s.nontrivial {
                                st.nontrivial += 1;
                                fps.insert(s.fingerprint() ^ fnv(f.name.as_bytes()));
                                if !s.describe.is_empty() && (i < 3 || i % (total / 5 + 1) == 0) {
                                    st.samples.push((i, clip(&s.describe)));
                                }
                            }
                            if let Err(e) = r {
                                if known.iter().any(|k| k.sig == e.sig) {
                                    *st.known_hits.entry(e.sig).or_insert(0) += 1;
                                } else {
                                    let mut fl = failures.lock().unwrap();
                                    if fl.iter().filter(|x| x.fail.sig == e.sig).count() < 40 {
                                        fl.push(Failure { index: i, tape: s.tape, fail: e });
                                    }
                                    if fl.len() > 200 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.0.evaluations += st.evaluations;
                        m.0.nontrivial += st.nontrivial;
                        m.0.checks += st.checks;
                        for (k, v) in st.classes {
                            *m.0.classes.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in st.known_hits {
                            *m.0.known_hits.entry(k).or_insert(0) += v;
                        }
                        m.0.samples.extend(st.samples);
                        m.1.extend(fps);
                    })
                    .unwrap();
            }
        });
        let (mut st, fps) = merged.into_inner().unwrap();
        st.samples.sort();
        distinct.extend(fps);
        for (k, v) in &st.known_hits {
            *known_seen.entry(k.clone()).or_insert(0) += v;
        }
        let mut fl = failures.into_inner().unwrap();
        fl.sort_by_key(|x| (x.tape.len(), x.index));
        for x in fl {
            if violations.iter().filter(|(_, v)| v.fail.sig == x.fail.sig).count() == 0 {
                violations.push((f.name.to_string(), x));
            }
        }
        all_stats.push((f.name.to_string(), st));
    }

    // findings that are on file
    for k in &known {
        let n = known_seen.get(&k.sig).copied().unwrap_or(0);
        if n > 0 {
            println!("KNOWN-FINDING: property={} {} [{} cases]", p.id, k.what, n);
        }
    }

    // shrink and report
    let dir = root.join("replays");
    for (n, (facet, x)) in violations.iter().enumerate() {
        if n >= 6 {
            println!("({} further distinct failure signatures not shown)", violations.len() - n);
            break;
        }
        let f = p.facets.iter().find(|f| f.name == facet).unwrap();
        let (tape, last, desc) = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || shrink(f, x.tape.clone(), &x.fail.sig, 1500))
                .unwrap()
                .join()
                .unwrap()
        });
        progress.fetch_add(1, Ordering::Relaxed);
        std::fs::create_dir_all(&dir).ok();
        let path = dir.join(format!("{}-{}-{:016x}.txt", p.id, facet, fnv(x.fail.sig.as_bytes())));
        let msg = if last.msg.is_empty() { x.fail.msg.clone() } else { last.msg.clone() };
        let text = format!(
            "property: {}\nfacet: {}\nseed: {}\ncase: {}\nsignature: {}\nfailure: {}\ninput: {}\ntape: {}\n",
            p.id,
            facet,
            seed,
            x.index,
            x.fail.sig,
            msg.replace('\n', " "),
            desc.replace('\n', " "),
            tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
        );
        std::fs::write(&path, text).ok();
        println!("facet {} case {} signature {}", facet, x.index, x.fail.sig);
        println!("  failure: {}", clip(&msg));
        println!("  minimal input: {}", clip(&desc));
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }

    // evidence
    let evals: u64 = all_stats.iter().map(|(_, s)| s.evaluations).sum();
    let checks: u64 = all_stats.iter().map(|(_, s)| s.checks).sum();
    let mut j = json::Obj::new();
    j.str("property", p.id);
    j.str("tier", if tier == "thorough" { "thorough" } else { "quick" });
    j.raw("seed", &format!("{}", seed as i64));
    j.str("level", "exploration");
    let mut c = json::Obj::new();
    c.raw("evaluations", &evals.to_string());
    c.raw("distinct_nontrivial", &distinct.len().to_string());
    c.str("rule", p.rule);
    let mut samples = vec![];
    for (name, st) in &all_stats {
        for (i, s) in st.samples.iter().take(3) {
            samples.push(json::string(&format!("{name}#{i}: {s}")));
        }
    }
    c.raw("samples", &format!("[{}]", samples.join(",")));
    c.raw("oracle_comparisons", &checks.to_string());
    let mut fo = json::Obj::new();
    for (name, st) in &all_stats {
        let mut o = json::Obj::new();
        o.raw("evaluations", &st.evaluations.to_string());
        o.raw("nontrivial", &st.nontrivial.to_string());
        let mut cl = json::Obj::new();
        for (k, v) in &st.classes {
            cl.raw(k, &v.to_string());
        }
        o.raw("classes", &cl.finish());
        fo.raw(name, &o.finish());
    }
    c.raw("facets", &fo.finish());
    if !known_seen.is_empty() {
        let mut ko = json::Obj::new();
        for (k, v) in &known_seen {
            ko.raw(k, &v.to_string());
        }
        c.raw("known_finding_hits", &ko.finish());
    }
    j.raw("coverage", &c.finish());
    j.raw(
        "assumptions",
        &format!("[{}]", p.assumptions.iter().map(|a| json::string(a)).collect::<Vec<_>>().join(",")),
    );
    j.raw("wall_s", &format!("{:.3}", started.elapsed().as_secs_f64()));
    j.raw("violations", &violations.len().to_string());
    let dir = root.join("evidence");
    std::fs::create_dir_all(&dir).ok();
    if only.is_none() && cases.is_none() {
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), j.finish() + "\n") {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    println!(
        "property={} tier={} seed={} evaluations={} distinct_nontrivial={} comparisons={} violations={} wall={:.1}s",
        p.id,
        tier,
        seed as i64,
        evals,
        distinct.len(),
        checks,
        violations.len(),
        started.elapsed().as_secs_f64()
    );
    if std::env::var("VERIF_VERBOSE").is_ok() {
        for (name, st) in &all_stats {
            println!("  {name}: {} evals {} nontrivial; {:?}", st.evaluations, st.nontrivial, st.classes);
        }
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}
