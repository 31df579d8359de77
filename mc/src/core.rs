//! Exploration engine: runs enumerated cases on the real code in isolated,
//! deterministic threads, collects coverage counters and turns failures into
//! replayable violations.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::{Debug, Write as _};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A property failure observed in the code under test.
#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable signature: which promise is broken and at which kind of input.
    pub sig: String,
    /// Full human-readable description.
    pub detail: String,
}
pub type R<T = ()> = Result<T, Fail>;

impl Fail {
    pub fn new(sig: impl Into<String>, detail: impl Into<String>) -> Fail {
        Fail { sig: sig.into(), detail: detail.into() }
    }
}

pub trait Sut<T> {
    /// An error returned by the code under test where it must succeed.
    fn sut(self, what: &str) -> R<T>;
}
impl<T, E: Debug> Sut<T> for Result<T, E> {
    fn sut(self, what: &str) -> R<T> {
        self.map_err(|e| {
            let mut d = format!("{e:?}");
            d.truncate(d.char_indices().nth(1500).map(|(i, _)| i).unwrap_or(d.len()));
            Fail::new(format!("error:{what}"), d)
        })
    }
}
impl<T> Sut<T> for Option<T> {
    fn sut(self, what: &str) -> R<T> {
        self.ok_or_else(|| Fail::new(format!("none:{what}"), "unexpected None"))
    }
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($t:tt)+) => { return Err($crate::core::Fail::new($sig, format!($($t)+))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($t:tt)+) => { if !($c) { $crate::fail!($sig, $($t)+) } };
}

// --- deterministic environment -------------------------------------------------

thread_local! {
    static RNG: Cell<u64> = const { Cell::new(0x5EED) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CLOCK: Cell<i64> = const { Cell::new(0) };
}

fn splitmix(state: &Cell<u64>) -> u64 {
    let mut z = state.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
    state.set(z);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Every source of randomness of the process (HashMap seeds, thread_rng) is
/// served by a generator seeded per exploration thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, _flags: u32) -> isize {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    let r = RNG.try_with(|c| {
        for chunk in out.chunks_mut(8) {
            let v = splitmix(c).to_le_bytes();
            chunk.copy_from_slice(&v[..chunk.len()]);
        }
    });
    if r.is_err() {
        return libc::syscall(libc::SYS_getrandom, buf, len, 0) as isize;
    }
    len as isize
}

/// Wall clock seen by the code under test; settable by a case.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    let fake = CLOCK.try_with(|c| c.get()).unwrap_or(0);
    if fake != 0 && id == libc::CLOCK_REALTIME {
        (*ts).tv_sec = fake;
        (*ts).tv_nsec = 0;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as i32
}

thread_local! {
    static MUTE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Executes without counting outcomes, for a step repeated only to reach a
/// state.
pub fn muted<T>(f: impl FnOnce() -> T) -> T {
    MUTE.with(|m| m.set(true));
    let r = f();
    MUTE.with(|m| m.set(false));
    r
}

pub struct Silence(i32);
/// Drops everything written to the standard error until the returned value is
/// dropped.
pub fn silence() -> Silence {
    unsafe {
        let old = libc::dup(2);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 2);
        libc::close(null);
        Silence(old)
    }
}
impl Drop for Silence {
    fn drop(&mut self) {
        unsafe {
            libc::dup2(self.0, 2);
            libc::close(self.0);
        }
    }
}

pub fn set_clock(unix: i64) { CLOCK.with(|c| c.set(unix)) }
pub fn set_rng(seed: u64) { RNG.with(|c| c.set(seed)) }

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(info.payload());
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
/// A panic outside of guarded code is an error of the check.
pub fn shielded(f: impl FnOnce() -> i32) -> i32 {
    panic::catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        eprintln!("CHECK ERROR: panic at {loc}: {msg}");
        3
    })
}
fn payload(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "<non-string panic>".into())
}

/// Source file of a panic location, without directory prefixes that depend on
/// the machine and without the line number.
fn site(loc: &str) -> String {
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let short = file
        .strip_prefix("/repo/")
        .map(|s| s.to_string())
        .unwrap_or_else(|| {
            let parts: Vec<_> = file.rsplitn(4, '/').collect();
            parts.into_iter().take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/")
        });
    short
}

/// Runs code under test; a panic inside it becomes a [`Fail`], a panic of the
/// harness itself aborts the check as an error.
pub fn guard<T>(what: &str, f: impl FnOnce() -> R<T>) -> R<T> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/verif/mc/") {
                eprintln!("CHECK ERROR: harness panic at {loc}: {msg} ({what})");
                std::process::exit(3);
            }
            let mut m = msg.lines().next().unwrap_or("").to_string();
            if let Some((i, _)) = m.char_indices().nth(100) {
                m.truncate(i);
            }
            let what = if what.is_empty() { String::new() } else { format!("{what}:") };
            Err(Fail::new(
                format!("panic:{what}{}", site(&loc)),
                format!("panicked at {loc}: {m}"),
            ))
        }
    }
}

// --- context --------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sig: String,
    /// Case keys the finding is limited to.
    pub cases: BTreeSet<String>,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub start: Instant,
    pub evaluations: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    states: Mutex<HashSet<u64>>,
    distinct: Mutex<HashSet<u64>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, Fail)>>,
    matched: Mutex<BTreeMap<String, (u64, String)>>,
    seen_known_cases: Mutex<BTreeSet<(String, String)>>,
    pub extra: Mutex<BTreeMap<String, serde_json::Value>>,
    known: Vec<Known>,
    stop: AtomicBool,
}

const MAX_VIOLATIONS: usize = 40;

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, only: Option<String>) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            only,
            start: Instant::now(),
            evaluations: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            states: Mutex::new(HashSet::new()),
            distinct: Mutex::new(HashSet::new()),
            outcomes: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            matched: Mutex::new(BTreeMap::new()),
            seen_known_cases: Mutex::new(BTreeSet::new()),
            extra: Mutex::new(BTreeMap::new()),
            known: load_known(prop),
            stop: AtomicBool::new(false),
        }
    }

    /// Records a distinct state of the exploration, identified by its
    /// canonical form.
    pub fn state(&self, canonical: &str) -> bool {
        self.states.lock().unwrap().insert(fnv(canonical.as_bytes()))
    }
    /// Records a distinct and non-trivial input of an enumeration, identified by
    /// its content.
    pub fn distinct(&self, content: &[u8]) { self.distinct.lock().unwrap().insert(fnv(content)); }
    pub fn step(&self) { self.transitions.fetch_add(1, Ordering::Relaxed); }
    pub fn steps(&self, n: u64) { self.transitions.fetch_add(n, Ordering::Relaxed); }
    pub fn trace(&self) { self.traces.fetch_add(1, Ordering::Relaxed); }
    pub fn eval(&self) { self.evaluations.fetch_add(1, Ordering::Relaxed); }
    pub fn evals(&self, n: u64) { self.evaluations.fetch_add(n, Ordering::Relaxed); }
    /// Counts how often each kind of outcome was observed, so that a vacuous
    /// exploration is visible in the evidence.
    pub fn outcome(&self, kind: impl Into<String>) {
        if MUTE.with(|m| m.get()) {
            return;
        }
        *self.outcomes.lock().unwrap().entry(kind.into()).or_insert(0) += 1;
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            let mut s = s.into();
            if let Some((i, _)) = s.char_indices().nth(600) {
                s.truncate(i);
            }
            v.push(s);
        }
    }
    pub fn note(&self, key: &str, val: impl Into<serde_json::Value>) {
        self.extra.lock().unwrap().insert(key.into(), val.into());
    }
    pub fn stopped(&self) -> bool { self.stop.load(Ordering::Relaxed) }
    pub fn wants(&self, key: &str) -> bool { self.only.as_deref().map(|o| o == key).unwrap_or(true) }

    pub fn violation(&self, key: &str, f: Fail) {
        for k in &self.known {
            if k.sig == f.sig && k.cases.contains(key) {
                let mut m = self.matched.lock().unwrap();
                m.entry(k.what.clone()).or_insert((0, f.detail.clone())).0 += 1;
                self.seen_known_cases.lock().unwrap().insert((k.sig.clone(), key.into()));
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS {
            v.push((key.into(), f));
        }
        if v.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    /// Executes one case in the current thread.
    pub fn case(&self, key: &str, f: impl FnOnce() -> R) {
        if self.stopped() || !self.wants(key) {
            return;
        }
        self.eval();
        if let Err(e) = guard("", f) {
            self.violation(key, e);
        }
    }

    /// Executes all cases, each in a fresh thread whose randomness depends
    /// only on the key of the case and the seed; results do not depend on
    /// scheduling.
    pub fn run<C: Sync>(&self, cases: &[C], key: impl Fn(&C) -> String + Sync, f: impl Fn(&C, &str) -> R + Sync) {
        let next = AtomicU64::new(0);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        std::thread::scope(|s| {
            for _ in 0..workers {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if i >= cases.len() || self.stopped() {
                        break;
                    }
                    let c = &cases[i];
                    let k = key(c);
                    if !self.wants(&k) {
                        continue;
                    }
                    let seed = fnv(k.as_bytes()) ^ self.seed.wrapping_mul(0x9E37_79B9);
                    std::thread::scope(|s2| {
                        let f = &f;
                        let k = &k;
                        std::thread::Builder::new()
                            .stack_size(16 << 20)
                            .spawn_scoped(s2, move || {
                                set_rng(seed);
                                self.case(k, || f(c, k));
                            })
                            .expect("spawn");
                    });
                });
            }
        });
    }

    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        let violations = self.violations.lock().unwrap();
        let states = self.states.lock().unwrap().len() as u64;
        let evals = self.evaluations.load(Ordering::Relaxed);
        let transitions = self.transitions.load(Ordering::Relaxed);
        let traces = self.traces.load(Ordering::Relaxed);
        let samples = self.samples.lock().unwrap().clone();
        let outcomes = self.outcomes.lock().unwrap().clone();
        let matched = self.matched.lock().unwrap().clone();
        let mut cov = serde_json::Map::new();
        if level == "model_checking" {
            cov.insert("states".into(), states.into());
            cov.insert("transitions".into(), transitions.into());
            cov.insert("traces_validated_against_impl".into(), traces.into());
        } else {
            // one of the two counts groups of executions, if both are used
            let distinct = self.distinct.lock().unwrap().len() as u64;
            cov.insert("evaluations".into(), transitions.max(evals).into());
            cov.insert("distinct_nontrivial".into(), if distinct > 0 { distinct } else { states }.into());
        }
        cov.insert("rule".into(), rule.into());
        cov.insert("samples".into(), samples.into());
        cov.insert("exhaustive".into(), (!self.stopped()).into());
        cov.insert("outcomes".into(), serde_json::to_value(&outcomes).unwrap());
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let wall = self.start.elapsed().as_secs_f64();
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": wall,
            "violations": violations.len(),
            "known_findings_observed": matched.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
        });
        if self.only.is_none() {
            std::fs::create_dir_all("/verif/evidence").expect("evidence dir");
            std::fs::write(
                format!("/verif/evidence/{}.json", self.prop),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("evidence");
        }
        println!(
            "{} tier={} states={states} transitions={transitions} traces={traces} evaluations={evals} wall={wall:.1}s",
            self.prop,
            if self.thorough { "thorough" } else { "quick" }
        );
        let mut o = String::new();
        for (k, v) in &outcomes {
            let _ = write!(o, " {k}={v}");
        }
        if !o.is_empty() {
            println!("outcomes:{o}");
        }
        for (what, (n, detail)) in &matched {
            println!("KNOWN-FINDING: property={} {what} [{n} case(s); e.g. {detail}]", self.prop);
        }
        if std::env::var("VERIF_LIST").is_ok() {
            for (key, f) in violations.iter() {
                println!("CASE\t{}\t{}", f.sig, key);
            }
        }
        if violations.is_empty() {
            if self.only.is_none() && states < 2 && evals < 2 {
                eprintln!("CHECK ERROR: vacuous exploration");
                return 3;
            }
            return 0;
        }
        // Deterministic report order
        let mut v: Vec<_> = violations.iter().cloned().collect();
        v.sort_by(|a, b| (a.0.len(), &a.0, &a.1.sig).cmp(&(b.0.len(), &b.0, &b.1.sig)));
        let mut seen = BTreeSet::new();
        let _ = std::fs::create_dir_all("/verif/work/replay");
        let mut n = 0;
        for (key, f) in v.iter() {
            if !seen.insert(f.sig.clone()) {
                continue;
            }
            let path = format!("/verif/work/replay/{}-{n}.json", self.prop);
            let rep = serde_json::json!({
                "property": self.prop, "case": key, "sig": f.sig, "detail": f.detail,
                "seed": self.seed, "tier": if self.thorough { "thorough" } else { "quick" },
                "replay_with": format!("bash /verif/run.sh replay {path}"),
            });
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
            println!("VIOLATION property={} replay={path}", self.prop);
            println!("  case: {key}\n  sig:  {}\n  what: {}", f.sig, f.detail);
            n += 1;
            if n >= 10 {
                break;
            }
        }
        1
    }
}

fn load_known(prop: &str) -> Vec<Known> {
    let Ok(text) = std::fs::read_to_string("/verif/known-findings.txt") else { return vec![] };
    let mut out = vec![];
    for line in text.lines().map(str::trim).filter(|l| l.starts_with('{')) {
        let v: serde_json::Value = serde_json::from_str(line).expect("known-findings.txt");
        if v["property"] != prop {
            continue;
        }
        out.push(Known {
            property: prop.into(),
            sig: v["sig"].as_str().expect("sig").into(),
            cases: v["cases"].as_array().expect("cases").iter().map(|c| c.as_str().unwrap().to_string()).collect(),
            what: v["what"].as_str().expect("what").into(),
        });
    }
    out
}

/// Lets the decoder reserve as much memory as a damaged length asks for; the
/// pages are never touched.
struct Roomy;
const HUGE: usize = 1 << 32;
unsafe impl std::alloc::GlobalAlloc for Roomy {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() < HUGE {
            return std::alloc::System.alloc(l);
        }
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        match libc::mmap(std::ptr::null_mut(), l.size(), libc::PROT_READ | libc::PROT_WRITE, flags, -1, 0) {
            libc::MAP_FAILED => std::ptr::null_mut(),
            p => p as *mut u8,
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if l.size() < HUGE {
            std::alloc::System.dealloc(p, l)
        } else {
            libc::munmap(p as *mut libc::c_void, l.size());
        }
    }
}
#[global_allocator]
static ROOMY: Roomy = Roomy;
