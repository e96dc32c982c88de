//! Exploration engine: counting, panic capture, hang/crash attribution, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub const VERIF: &str = env!("CARGO_MANIFEST_DIR");
pub fn verif_dir() -> String { VERIF.trim_end_matches("/harness").to_string() }

// ---------------------------------------------------------------- allocator
pub struct Counting;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size() as i64);
        if l.size() > (6usize << 30) { return std::ptr::null_mut(); }
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size() as i64);
        if l.size() > (6usize << 30) { return std::ptr::null_mut(); }
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        note(-(l.size() as i64));
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        if n > (6usize << 30) { return std::ptr::null_mut(); }
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[inline]
fn note(d: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get().wrapping_add(d);
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}
/// Peak bytes allocated by `f` beyond what was live before, on this thread.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get()) - base;
    (r, peak)
}

// ---------------------------------------------------------------- panics
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; static GUARD: Cell<u32> = const { Cell::new(0) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if GUARD.with(|g| g.get()) > 0 {
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
        } else {
            eprintln!("harness panic at {loc}: {msg}");
        }
    }));
}
/// Runs code under test; a panic becomes Err(description).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- hashing
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in bytes.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h ^ bytes.len() as u64
}
pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{BuildHasher, BuildHasherDefault};
    BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(t)
}

// ---------------------------------------------------------------- context
pub struct Violation { pub sig: String, pub detail: String }
pub struct Known { pub property: String, pub sig: String, pub what: String }

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    cases: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Vec<Mutex<HashSet<u64>>>,
    tags: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    known: Vec<Known>,
    stop: AtomicBool,
    notes: Mutex<BTreeMap<String, String>>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    active: Vec<AtomicU64>,
    trace_dir: Option<String>,
}
static TID: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MYTID: usize = TID.fetch_add(1, SeqCst);
    static TRACE: RefCell<Option<fs::File>> = const { RefCell::new(None) };
}
const SH: usize = 64;
pub const CASE_TIMEOUT_S: u64 = 200;
const MAX_VIOL: usize = 12;

impl Ctx {
    pub fn new(prop: &str, tier: Tier) -> &'static Ctx {
        let known = load_known();
        let c = Box::leak(Box::new(Ctx {
            prop: prop.into(), tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
            start: Instant::now(), cases: 0.into(), transitions: 0.into(), traces: 0.into(),
            states: (0..SH).map(|_| Mutex::new(HashSet::new())).collect(),
            outcomes: (0..SH).map(|_| Mutex::new(HashSet::new())).collect(),
            tags: Default::default(), samples: Default::default(), violations: Default::default(),
            known_hit: Default::default(), known, stop: false.into(), notes: Default::default(),
            rule: Default::default(), assumptions: Default::default(),
            active: (0..256).map(|_| AtomicU64::new(0)).collect(),
            trace_dir: std::env::var("MC_TRACE").ok(),
        }));
        let c: &'static Ctx = c;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = c.start.elapsed().as_millis() as u64 + 1;
            for a in &c.active {
                let t = a.load(Relaxed);
                if t != 0 && now > t + CASE_TIMEOUT_S * 1000 {
                    eprintln!("case exceeded {CASE_TIMEOUT_S}s");
                    std::process::exit(97);
                }
            }
        });
        c
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.thorough() { t } else { q } }
    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
    pub fn rule(&self, s: &str) { *self.rule.lock().unwrap() = s.into() }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()) }
    pub fn note(&self, k: &str, v: impl ToString) { self.notes.lock().unwrap().insert(k.into(), v.to_string()); }
    pub fn tag(&self, k: &str) { *self.tags.lock().unwrap().entry(k.into()).or_default() += 1; }
    pub fn tag_n(&self, k: &str, n: u64) { *self.tags.lock().unwrap().entry(k.into()).or_default() += n; }
    pub fn steps(&self, n: u64) { self.transitions.fetch_add(n, Relaxed); }
    /// Registers a reached model state; true when new.
    pub fn state(&self, h: u64) -> bool { self.states[(h % SH as u64) as usize].lock().unwrap().insert(h) }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 5 { let x = f(); s.push(x) }
    }
    /// One execution of the code under test, compared with the model inside `f`.
    /// `f` returns a hash of what was observed.
    pub fn case(&self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<u64, String>) {
        if self.stopped() { return }
        let tid = MYTID.with(|t| *t) % 256;
        self.active[tid].store(self.start.elapsed().as_millis() as u64 + 1, Relaxed);
        if let Some(d) = &self.trace_dir {
            TRACE.with(|t| {
                let mut t = t.borrow_mut();
                let file = t.get_or_insert_with(|| fs::File::create(format!("{d}/{tid}.txt")).unwrap());
                let s = desc();
                file.set_len(0).unwrap(); file.rewind().unwrap();
                file.write_all(s.as_bytes()).unwrap();
            });
        }
        let n = self.cases.fetch_add(1, Relaxed);
        self.traces.fetch_add(1, Relaxed);
        if n % 9973 == 17 || n < 1 { self.sample(&desc); }
        let r = guard(f).unwrap_or_else(Err);
        self.active[tid].store(0, Relaxed);
        match r {
            Ok(h) => { self.outcomes[(h % SH as u64) as usize].lock().unwrap().insert(h); }
            Err(e) => self.violation(desc(), e),
        }
        if self.trace_dir.is_some() {
            TRACE.with(|t| if let Some(f) = t.borrow_mut().as_mut() { let _ = f.set_len(0); });
        }
    }
    /// Cases checked inside one `case` beyond the first.
    pub fn more(&self, n: u64) { self.cases.fetch_add(n, Relaxed); self.traces.fetch_add(n, Relaxed); }
    /// Distinct outcomes observed inside a batch.
    pub fn outcome(&self, h: u64) { self.outcomes[(h % SH as u64) as usize].lock().unwrap().insert(h); }
    pub fn violation(&self, sig: String, detail: String) {
        for k in &self.known {
            if k.property == self.prop && sig == k.sig {
                self.known_hit.lock().unwrap().insert(k.sig.clone(), k.what.clone());
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        v.push(Violation { sig, detail });
        if v.len() >= MAX_VIOL { self.stop.store(true, Relaxed) }
    }
    pub fn finish(&self, level: &str) -> i32 {
        let dir = verif_dir();
        let st: u64 = self.states.iter().map(|m| m.lock().unwrap().len() as u64).sum();
        let out: u64 = self.outcomes.iter().map(|m| m.lock().unwrap().len() as u64).sum();
        let mut v = self.violations.lock().unwrap();
        v.sort_by_key(|x| (x.sig.len(), x.sig.clone()));
        for (s, w) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, w, s);
        }
        let mut cov = String::new();
        let cases = self.cases.load(Relaxed);
        let _ = write!(cov, "\"evaluations\":{cases},\"distinct_nontrivial\":{out},\"states\":{st},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"rule\":{},",
            self.transitions.load(Relaxed), self.traces.load(Relaxed), !self.stopped(), js(&self.rule.lock().unwrap()));
        let _ = write!(cov, "\"samples\":[{}]", self.samples.lock().unwrap().iter().map(|s| js(&clip(s))).collect::<Vec<_>>().join(","));
        let _ = write!(cov, ",\"breakdown\":{{{}}}", self.tags.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        let _ = write!(cov, ",\"bounds\":{{{}}}", self.notes.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","));
        let wall = self.start.elapsed().as_secs_f64();
        let ev = format!("{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"{level}\",\"coverage\":{{{cov}}},\"assumptions\":[{}],\"wall_s\":{wall:.3},\"violations\":{}}}\n",
            js(&self.prop), if self.thorough() { "thorough" } else { "quick" }, self.seed,
            self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","), v.len());
        let _ = fs::create_dir_all(format!("{dir}/evidence"));
        fs::write(format!("{dir}/evidence/{}.json", self.prop), ev).unwrap();
        eprintln!("{}: cases={cases} states={st} transitions={} outcomes={out} violations={} wall={wall:.1}s",
            self.prop, self.transitions.load(Relaxed), v.len());
        if v.is_empty() { return 0 }
        for (i, x) in v.iter().enumerate() {
            let p = write_replay(&self.prop, i, &x.sig, &x.detail);
            eprintln!("--- {}\n    {}", clip(&x.sig), clip(&x.detail));
            println!("VIOLATION property={} replay={}", self.prop, p);
            if i >= 4 { break }
        }
        1
    }
}
pub fn write_replay(prop: &str, i: usize, sig: &str, detail: &str) -> String {
    let d = format!("{}/replays", verif_dir());
    let _ = fs::create_dir_all(&d);
    let p = format!("{d}/{prop}-{i}.txt");
    let _ = fs::write(&p, format!("property: {prop}\ncase: {sig}\nobserved: {detail}\nreplay: MC_ONLY narrows nothing; rerun `bash /verif/check.sh {prop}`: exploration is deterministic and meets this case again. A hex class image in the case can be fed to `mc dump <hexfile>`.\n"));
    p
}
pub fn clip(s: &str) -> String {
    if s.len() <= 1500 { s.into() } else {
        let mut e = 1500; while !s.is_char_boundary(e) { e -= 1 }
        format!("{}... ({} bytes)", &s[..e], s.len())
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"'); o
}
/// known_findings.txt: lines `known: property=<id> sig=<case description> what=<text>`; `fixed:` lines are ignored.
fn load_known() -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let (p, r) = r.split_once(" sig=").expect("known_findings format");
                let (sig, what) = r.split_once(" what=").expect("known_findings format");
                out.push(Known { property: p.into(), sig: sig.into(), what: what.into() });
            }
        }
    }
    out
}
pub fn threads() -> usize {
    static N: OnceLock<usize> = OnceLock::new();
    *N.get_or_init(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16))
}
/// All words of length `len` over `a`, as mixed-radix numbers.
pub fn word<T: Copy>(mut k: usize, len: usize, a: &[T], out: &mut Vec<T>) { out.clear(); for _ in 0..len { out.push(a[k % a.len()]); k /= a.len() } }
/// Runs f(0..n) on all cores; work is handed out in index order.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let chunk = (n / (threads() * 64)).clamp(1, 4096);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads().min(n.max(1))).map(|_| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                let i = next.fetch_add(chunk, Relaxed);
                if i >= n { break }
                for k in i..(i + chunk).min(n) { f(k) }
            }).unwrap()
        }).collect();
        for h in hs { if h.join().is_err() { eprintln!("harness thread panicked"); std::process::exit(2) } }
    });
}
pub fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { let _ = write!(s, "{x:02x}"); } s }
pub fn write_crash_evidence(prop: &str, tier: Tier, cases: &[String]) {
    let dir = verif_dir();
    let _ = fs::create_dir_all(format!("{dir}/evidence"));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let _ = fs::write(format!("{dir}/evidence/{prop}.json"), format!("{{\"property\":{},\"tier\":\"{}\",\"seed\":{seed},\"level\":\"other\",\"coverage\":{{\"explanation\":\"the code under test ended the process; cases in flight are listed\",\"samples\":[{}]}},\"wall_s\":0,\"violations\":1}}\n",
        js(prop), if tier == Tier::Thorough { "thorough" } else { "quick" }, cases.iter().map(|s| js(&clip(s))).collect::<Vec<_>>().join(",")));
}
