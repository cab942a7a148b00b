//! Harness runtime: seeded random source, event counters, violation recording, panic classification and the report
//! the Python runner turns into evidence.
pub mod oracle;

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    /// inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        let w = hi - lo;
        if w == u64::MAX {
            self.u64()
        } else {
            lo + self.u64() % (w + 1)
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    /// integers concentrated on the values where encodings and limits change shape
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => *self.pick(&[
                0x7f, 0x80, 0xff, 0x100, 0xffff, 0x1_0000, u32::MAX as u64, u32::MAX as u64 + 1,
                u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 55, 56,
            ]),
            3 => self.u64() >> self.below(64),
            4 => 1u64 << self.below(64),
            5 => (1u64 << self.below(64)).wrapping_sub(1),
            6 => self.range(0, 300),
            _ => self.u64(),
        }
    }
    /// byte strings whose lengths cross RLP's header boundaries
    pub fn edge_bytes(&mut self, max: usize) -> Vec<u8> {
        let n = match self.below(7) {
            0 => 0,
            1 => 1,
            2 => *self.pick(&[31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 255, 256, 257]),
            3 => self.below(16),
            4 => self.below(80),
            _ => self.below(max + 1),
        }
        .min(max);
        let mut v = self.bytes(n);
        match self.below(6) {
            0 => v.iter_mut().for_each(|b| *b = 0),
            1 if n > 0 => v[0] = 0,
            2 if n > 0 => v[0] = *self.pick(&[0x7f, 0x80, 0xb7, 0xb8, 0xc0, 0xf7, 0xf8, 0xff, 1, 2]),
            _ => {}
        }
        v
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

#[derive(Clone, Debug)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

thread_local! {
    static GUARDED: Cell<u32> = Cell::new(0);
    static LAST: RefCell<Option<Panicked>> = RefCell::new(None);
    /// the repository's source line that led to the last panic nobody guarded against, if it was raised in a library
    static THROUGH: RefCell<Option<String>> = RefCell::new(None);
}

/// The innermost frame that is no library's, or a library's at work on a type of the repository's: `Some` if it is the
/// repository's and not the harness's.
fn led_here() -> Option<String> {
    let trace = std::backtrace::Backtrace::force_capture().to_string();
    let mut name = "";
    for l in trace.lines() {
        let Some(at) = l.trim().strip_prefix("at ") else {
            name = l;
            continue;
        };
        let crates = ["axon_", "common_", "core_"];
        if at.contains("/.cargo/") && name.split(['<', ' ', '&', ',', '(']).skip(1).any(|t| crates.iter().any(|c| t.starts_with(c)) && t.contains("::")) {
            return Some(name.trim().split_once(": ").map_or(name, |n| n.1).to_string());
        }
        if at.contains("/.cargo/") || at.contains("/rustc/") || at.contains("shims/") || at.contains("vlib/src/lib.rs") {
            continue;
        }
        let at = at.rsplit("/ws/").next().unwrap_or(at).trim_start_matches("./");
        if in_tree(at) {
            return Some(at.to_string());
        }
        if at.contains("harness/") {
            return None;
        }
    }
    None
}

/// Every panic of the process, in whatever thread, as (location, message, thread).
pub static PANICS: std::sync::Mutex<Vec<(String, String, String)>> = std::sync::Mutex::new(Vec::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("panic at {loc}: {msg}");
            if std::thread::current().name() == Some("main") && !in_tree(&loc) && !msg.starts_with(MUST) {
                let led = led_here();
                THROUGH.with(|t| *t.borrow_mut() = led);
            }
        }
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 1000 {
                p.push((loc.clone(), msg.clone(), std::thread::current().name().unwrap_or_default().to_owned()));
            }
        }
        LAST.with(|l| *l.borrow_mut() = Some(Panicked { msg, loc }));
    }));
}

/// Runs code under test; a panic becomes a value the oracle can judge.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| {
        LAST.with(|l| l.borrow_mut().take()).unwrap_or(Panicked { msg: "?".into(), loc: "?".into() })
    })
}

/// runs on a thread that has run nothing before; a panic carries over to the caller's thread
pub fn fresh<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    match std::thread::scope(|s| s.spawn(|| guard(f)).join()) {
        Ok(Ok(t)) => t,
        Ok(Err(p)) => {
            let msg = p.msg.clone();
            LAST.with(|l| *l.borrow_mut() = Some(p));
            std::panic::resume_unwind(Box::new(msg))
        }
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub const MUST: &str = "MUST|";
/// For results that any correct tree has to deliver.
pub trait Must<T> {
    fn must(self, key: &str) -> T;
}
impl<T, E: std::fmt::Debug> Must<T> for Result<T, E> {
    #[track_caller]
    fn must(self, key: &str) -> T {
        match self {
            Ok(t) => t,
            Err(e) => panic!("{MUST}{key}|{}", format!("{e:?}").chars().take(600).collect::<String>()),
        }
    }
}
impl<T> Must<T> for Option<T> {
    #[track_caller]
    fn must(self, key: &str) -> T {
        match self {
            Some(t) => t,
            None => panic!("{MUST}{key}|nothing was returned"),
        }
    }
}

/// Is this panic location in the repository's own sources?
pub fn in_tree(loc: &str) -> bool {
    ["core/", "common/", "protocol/", "devtools/"].iter().any(|p| loc.starts_with(p))
}

pub struct Violation {
    pub key: String,
    pub what: String,
    pub detail: Value,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub rng: Rng,
    pub scratch: std::path::PathBuf,
    pub repo: String,
    /// judgements are not recorded (a model is only used to drive a workload)
    pub mute: bool,
    start: Instant,
    budget: Duration,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    kinds: BTreeMap<String, HashSet<u64>>,
    samples: Vec<Value>,
    sampled: HashSet<String>,
    violations: Vec<Violation>,
    notes: Vec<String>,
}

impl Ctx {
    /// Re-seeds the stage so that each one replays by itself.
    pub fn stage(&mut self, name: &str) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        name.hash(&mut h);
        self.rng = Rng::new(self.seed.wrapping_mul(0x1000_0001_b3) ^ h.finish());
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if self.mute {
            return;
        }
        *self.counters.entry(name.to_string()).or_default() += n;
    }
    pub fn event(&mut self, name: &str) {
        self.add(name, 1)
    }
    pub fn count(&self, name: &str) -> u64 {
        self.counters.get(name).copied().unwrap_or(0)
    }
    /// A distinct, non-trivial thing the monitor judged.
    pub fn seen<T: Hash>(&mut self, kind: &str, t: T) -> bool {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        kind.hash(&mut h);
        t.hash(&mut h);
        let v = h.finish();
        self.kinds.entry(kind.to_string()).or_default().insert(v);
        self.distinct.insert(v)
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 12 {
            self.samples.push(v)
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into())
    }
    pub fn violate(&mut self, key: impl Into<String>, what: impl Into<String>, detail: Value) {
        if self.mute {
            return;
        }
        let key = key.into();
        if self.violations.iter().any(|v| v.key == key) {
            return self.add("violations.repeated", 1);
        }
        self.violations.push(Violation { key, what: what.into(), detail })
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    /// `ok` must hold: otherwise a violation under `key`.
    pub fn ensure(&mut self, ok: bool, key: &str, what: impl FnOnce() -> (String, Value)) -> bool {
        if self.mute {
            return ok;
        }
        self.event("oracle.judgements");
        if !ok {
            let (w, d) = what();
            self.violate(key, w, d);
        } else if self.samples.len() < 10 && !self.sampled.contains(key) {
            self.sampled.insert(key.to_string());
            let d = guard(|| what().1).unwrap_or(Value::Null);
            if d.as_object().map_or(false, |o| !o.is_empty()) {
                let mut t = d.to_string();
                if t.len() > 1500 {
                    t = t.chars().take(1500).collect::<String>() + "...";
                }
                self.samples.push(json!({"judged": key, "case": t}));
            }
        }
        ok
    }
    /// Time left under the tier's budget, `share` of it counted from the start.
    pub fn within(&self, share: f64) -> bool {
        self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * share
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

pub type Check = fn(&mut Ctx);

/// `bin PID --tier T --seed S --out FILE --scratch DIR --budget SECS`
struct Stderr;
impl log::Log for Stderr {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() % 10_000_000;
        eprintln!("{t} {} {} {}", std::thread::current().name().unwrap_or_default(), r.level(), r.args());
    }
    fn flush(&self) {}
}
pub fn run(checks: &[(&str, Check)]) {
    // for looking into things: VLOG=1 shows what the code under test logs
    if std::env::var("VLOG").is_ok() {
        let _ = log::set_logger(&Stderr).map(|()| log::set_max_level(log::LevelFilter::Debug));
    }
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or_else(|| d.to_string())
    };
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let thorough = get("--tier", "quick") == "thorough";
    let budget = get("--budget", if thorough { "300" } else { "30" }).parse().unwrap_or(30);
    let scratch = std::path::PathBuf::from(get("--scratch", "/tmp/verif-scratch"));
    std::fs::create_dir_all(&scratch).unwrap();
    let Some((_, f)) = checks.iter().find(|(n, _)| *n == prop) else {
        eprintln!("unknown property {prop}; have {:?}", checks.iter().map(|c| c.0).collect::<Vec<_>>());
        std::process::exit(4)
    };
    let mut c = Ctx {
        prop,
        thorough,
        seed,
        rng: Rng::new(seed),
        scratch,
        repo: std::env::var("AXON_REPO").unwrap_or_else(|_| "/repo".into()),
        mute: false,
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        counters: Default::default(),
        distinct: Default::default(),
        kinds: Default::default(),
        samples: vec![],
        sampled: Default::default(),
        violations: vec![],
        notes: vec![],
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    let mut crashed = r.err().map(|_| LAST.with(|l| l.borrow_mut().take()));
    // A workload step that has to succeed on any correct tree (`must`), or a panic raised by the code under test
    // itself while it served a valid workload, is an observation about that code; anything else is the harness's own.
    if let Some(Some(p)) = &crashed {
        if let Some(rest) = p.msg.strip_prefix(MUST) {
            let (key, what) = rest.split_once('|').unwrap_or((rest, ""));
            c.event("oracle.judgements");
            c.violate(key, format!("a step that has to succeed failed: {what}"), json!({"at": p.loc}));
            crashed = None;
        } else if in_tree(&p.loc) {
            c.event("oracle.judgements");
            let file = p.loc.split(':').next().unwrap_or("").to_string();
            c.violate(format!("panic/{file}"), format!("a valid workload made the code panic at {}: {}", p.loc, p.msg), json!({}));
            crashed = None;
        } else if let Some(at) = THROUGH.with(|t| t.borrow_mut().take()) {
            c.event("oracle.judgements");
            let file = at.split(':').next().unwrap_or("").to_string();
            c.violate(format!("panic/{file}"), format!("a valid workload made the code at {at} panic: {} ({})", p.msg, p.loc), json!({}));
            crashed = None;
        }
    }
    let out = json!({
        "property": c.prop,
        "seed": c.seed,
        "counters": c.counters,
        "distinct": c.distinct.len(),
        "kinds": c.kinds.iter().map(|(k, v)| (k.clone(), v.len())).collect::<BTreeMap<_, _>>(),
        "samples": c.samples,
        "notes": c.notes,
        "wall_s": c.start.elapsed().as_secs_f64(),
        "violations": c.violations.iter().map(|v| json!({"key": v.key, "what": v.what, "detail": v.detail})).collect::<Vec<_>>(),
        "crashed": crashed.as_ref().map(|p| p.as_ref().map(|p| format!("{}: {}", p.loc, p.msg))),
    });
    let path = get("--out", "/dev/stdout");
    std::fs::write(&path, serde_json::to_string_pretty(&out).unwrap()).unwrap();
    std::process::exit(if crashed.is_some() { 3 } else if c.violated() { 1 } else { 0 })
}

pub fn hex(b: impl AsRef<[u8]>) -> String {
    let mut s = String::new();
    for (i, x) in b.as_ref().iter().enumerate() {
        if i == 4096 {
            s.push_str("..");
            break;
        }
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// a source location without its line: stable under edits elsewhere in the file
pub fn short_loc(loc: &str) -> String {
    loc.split(':').next().unwrap_or(loc).rsplit("/repo/").next().unwrap_or(loc).to_string()
}
