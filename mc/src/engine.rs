//! Stateless, deviation-bounded exhaustive explorer.
//!
//! A harness body is a deterministic program over a [`Ch`]. Every `all(n)` is a
//! dimension that is enumerated completely; every `dev(n)` is a dimension whose
//! value 0 is the default and whose other values each cost one deviation. The explorer
//! runs the body on *every* choice sequence whose deviation cost is within the bound.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Ch {
    prefix: Vec<u16>,
    trace: Vec<(u16, u16, bool)>,
    pub verbose: bool,
    notes: Vec<String>,
    diverged: bool,
    input_hash: u64,
    outcome_hash: u64,
    /// Operations performed on the code under test (for transition counts).
    ops: u64,
    /// Complete dimensions also cost a deviation (see [`Unit::cheap`]).
    cheap: bool,
    /// Receives the first generated file instead of the rest of the body.
    tap: Option<Arc<Tap>>,
    tapped: Option<R>,
    /// Choice beyond the prefix: `min(policy, n - 1)`.
    policy: u16,
}
pub type Tap = dyn Fn(&mut Ch, &[u8]) -> R + Send + Sync;
struct TapDone;

impl Ch {
    fn new(prefix: Vec<u16>, verbose: bool) -> Self {
        Ch {
            prefix,
            trace: Vec::new(),
            verbose,
            notes: Vec::new(),
            diverged: false,
            input_hash: 0,
            outcome_hash: 0,
            ops: 0,
            cheap: false,
            tap: None,
            tapped: None,
            policy: 0,
        }
    }
    fn choice(&mut self, n: usize, cost: bool) -> usize {
        assert!(n > 0 && n < 65536, "bad arity {n}");
        let i = self.trace.len();
        let mut c = if i < self.prefix.len() { self.prefix[i] } else { self.policy.min(n as u16 - 1) };
        if c as usize >= n {
            // A recorded prefix must replay: anything else is a harness error.
            self.diverged = true;
            c = 0;
        }
        self.trace.push((c, n as u16, cost));
        c as usize
    }
    /// A completely enumerated dimension.
    pub fn all(&mut self, n: usize) -> usize {
        let cost = self.cheap;
        self.choice(n, cost)
    }
    /// A dimension that is completely enumerated even in a cheap unit.
    pub fn every(&mut self, n: usize) -> usize {
        self.choice(n, false)
    }
    /// A dimension with a default (0) and deviations.
    pub fn dev(&mut self, n: usize) -> usize {
        self.choice(n, true)
    }
    pub fn all_of<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.all(v.len());
        v[i].clone()
    }
    pub fn dev_of<T: Clone>(&mut self, v: &[T]) -> T {
        let i = self.dev(v.len());
        v[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.all(2) == 1
    }
    pub fn dev_flag(&mut self) -> bool {
        self.dev(2) == 1
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.notes.push(cut(f(), 1500));
        }
    }
    /// Record the concrete input given to the code under test.
    pub fn input<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = Fnv(self.input_hash ^ 0xcbf29ce484222325);
        t.hash(&mut h);
        self.input_hash = h.finish() | 1;
    }
    /// Record a concrete file given to the code under test.
    pub fn file(&mut self, b: &[u8]) {
        self.input(b);
        if let (Some(t), None) = (self.tap.clone(), &self.tapped) {
            let saved = std::mem::replace(&mut self.policy, 0);
            let r = match no_panic(|| t(self, b)) {
                Ok(r) => r,
                Err(p) => fail(panic_key(&p), format!("panic: {p}")),
            };
            self.policy = saved;
            self.tapped = Some(r);
            std::panic::resume_unwind(Box::new(TapDone));
        }
    }
    /// Record what was observed.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        let mut h = Fnv(self.outcome_hash ^ 0xcbf29ce484222325);
        t.hash(&mut h);
        self.outcome_hash = h.finish() | 1;
        self.ops += 1;
    }
    pub fn op(&mut self) {
        self.ops += 1;
    }
}

pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        // final avalanche
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable class of the failure (used to identify known findings).
    pub key: String,
    pub msg: String,
}
pub fn cut(mut s: String, n: usize) -> String {
    if s.len() > n {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
        s.push_str("...");
    }
    s
}
pub type R = Result<(), Fail>;
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        key: key.into(),
        msg: cut(msg.into(), 1000),
    })
}
#[macro_export]
macro_rules! ck {
    ($cond:expr, $key:expr) => { if !($cond) { return $crate::engine::fail($key, concat!("failed: ", stringify!($cond))); } };
    ($cond:expr, $key:expr, $($arg:tt)+) => { if !($cond) { return $crate::engine::fail($key, format!($($arg)+)); } };
}
/// `eq!(actual, expected, key)`: actual comes from the code under test.
#[macro_export]
macro_rules! eq {
    ($a:expr, $b:expr, $key:expr) => {
        match (&$a, &$b) { (a, b) => if !(*a == *b) {
            return $crate::engine::fail($key, format!("{}: got {:?}, expected {:?}", stringify!($a), a, b));
        } }
    };
    ($a:expr, $b:expr, $key:expr, $($arg:tt)+) => {
        match (&$a, &$b) { (a, b) => if !(*a == *b) {
            return $crate::engine::fail($key, format!("{}: got {:?}, expected {:?} [{}]", stringify!($a), a, b, format!($($arg)+)));
        } }
    };
}
/// Unwrap a result of the code under test that must be Ok.
#[macro_export]
macro_rules! ok {
    ($e:expr, $key:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return $crate::engine::fail($key, format!("{}: unexpected error {:?}", stringify!($e), e)),
        }
    };
}
#[macro_export]
macro_rules! some {
    ($e:expr, $key:expr) => {
        match $e {
            Some(v) => v,
            None => return $crate::engine::fail($key, format!("{}: unexpected None", stringify!($e))),
        }
    };
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if std::env::var_os("MC_BACKTRACE").is_some() {
            eprintln!("PANIC {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}

/// Run a closure, turning a panic into an error text.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

pub type Body = dyn Fn(&mut Ch) -> R + Send + Sync;

#[derive(Clone)]
pub struct Unit {
    pub name: String,
    pub bound: u32,
    pub body: Arc<Body>,
    /// What the unit enumerates (for the evidence).
    pub what: String,
    /// Every non-zero choice costs a deviation, not only those of `dev`.
    pub cheap: bool,
}
/// The unit's generated files given to `tap`, whose verdict replaces the body's.
pub fn tapped(u: &Unit, bound: u32, tap: Arc<Tap>) -> Unit {
    let body = u.body.clone();
    Unit {
        name: u.name.clone(),
        bound,
        what: format!("files of: {}", u.what),
        cheap: true,
        body: Arc::new(move |ch: &mut Ch| {
            ch.tap = Some(tap.clone());
            let _ = no_panic(|| body(ch));
            ch.tap = None;
            ch.tapped.take().unwrap_or(Ok(()))
        }),
    }
}
/// The file generated by the execution that takes choice `min(policy, n - 1)` everywhere
/// (after `prefix`).
pub fn sample(u: &Unit, prefix: &[u16], policy: u16) -> Option<(Vec<u8>, Vec<u16>)> {
    let got = Arc::new(Mutex::new(None));
    let g = got.clone();
    let t = tapped(u, 0, Arc::new(move |_: &mut Ch, b: &[u8]| {
        *g.lock().unwrap() = Some(b.to_vec());
        Ok(())
    }));
    let mut ch = Ch::new(prefix.to_vec(), false);
    ch.policy = policy;
    let _ = no_panic(|| (t.body)(&mut ch));
    let b = got.lock().unwrap().take()?;
    if ch.diverged {
        return None;
    }
    Some((b, ch.trace.iter().map(|t| t.1).collect()))
}
pub fn unit(
    name: &str,
    bound: u32,
    what: &str,
    body: impl Fn(&mut Ch) -> R + Send + Sync + 'static,
) -> Unit {
    Unit {
        name: name.into(),
        bound,
        what: what.into(),
        body: Arc::new(body),
        cheap: false,
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub unit: String,
    pub choices: Vec<u16>,
    pub key: String,
    pub msg: String,
    pub notes: Vec<String>,
}

pub struct UnitReport {
    pub name: String,
    pub what: String,
    pub bound: u32,
    pub executions: u64,
    pub edges: u64,
    pub ops: u64,
    pub inputs: u64,
    pub outcomes: u64,
    pub complete: bool,
    pub secs: f64,
    pub violations: Vec<Violation>,
    pub samples: Vec<(Vec<u16>, Vec<String>)>,
}

struct Shared {
    queue: Mutex<(Vec<Vec<u16>>, usize)>, // pending prefixes, idle workers
    cv: Condvar,
    stop: AtomicBool,
    hungry: AtomicBool,
}

struct Slot {
    start_ms: AtomicU64,
    choices: Mutex<Vec<u16>>,
}

fn run_one(u: &Unit, prefix: &[u16], verbose: bool) -> (Ch, R) {
    let mut ch = Ch::new(prefix.to_vec(), verbose);
    ch.cheap = u.cheap;
    let r = match no_panic(|| (u.body)(&mut ch)) {
        Ok(r) => r,
        Err(p) => {
            let key = panic_key(&p);
            Err(Fail {
                key,
                msg: format!("panic: {p}"),
            })
        }
    };
    (ch, r)
}
pub fn panic_key(p: &str) -> String {
    // Drop line numbers so that the class survives unrelated edits.
    let (msg, loc) = p.rsplit_once(" @ ").unwrap_or((p, ""));
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let msg: String = msg.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).take(80).collect();
    format!("panic:{file}:{msg}")
}

pub fn explore(u: &Unit, threads: usize, deadline: Instant, prop: &str) -> UnitReport {
    let t0 = Instant::now();
    let shared = Shared {
        queue: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        hungry: AtomicBool::new(true),
    };
    let executions = AtomicU64::new(0);
    let edges = AtomicU64::new(0);
    let ops = AtomicU64::new(0);
    let incomplete = AtomicBool::new(false);
    let inputs: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let violations: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
    let slots: Vec<Slot> = (0..threads)
        .map(|_| Slot {
            start_ms: AtomicU64::new(0),
            choices: Mutex::new(vec![]),
        })
        .collect();
    let done = AtomicUsize::new(0);
    let hang_secs: u64 = std::env::var("MC_HANG_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (shared, slots, executions, edges, ops, incomplete, inputs, outcomes, violations, done) = (
                &shared, &slots, &executions, &edges, &ops, &incomplete, &inputs, &outcomes, &violations, &done,
            );
            let u = &*u;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut local: Vec<Vec<u16>> = Vec::new();
                    let mut my_in: HashSet<u64> = HashSet::new();
                    let mut my_out: HashSet<u64> = HashSet::new();
                    let (mut n, mut e, mut o) = (0u64, 0u64, 0u64);
                    'outer: loop {
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => {
                                let mut q = shared.queue.lock().unwrap();
                                loop {
                                    if shared.stop.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    if let Some(p) = q.0.pop() {
                                        if q.0.is_empty() {
                                            shared.hungry.store(true, Ordering::Relaxed);
                                        }
                                        break p;
                                    }
                                    q.1 += 1;
                                    shared.hungry.store(true, Ordering::Relaxed);
                                    if q.1 == threads {
                                        shared.stop.store(true, Ordering::Relaxed);
                                        shared.cv.notify_all();
                                        break 'outer;
                                    }
                                    q = shared.cv.wait(q).unwrap();
                                    q.1 -= 1;
                                }
                            }
                        };
                        if shared.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if n & 63 == 0 && Instant::now() > deadline {
                            incomplete.store(true, Ordering::Relaxed);
                            shared.stop.store(true, Ordering::Relaxed);
                            shared.cv.notify_all();
                            break;
                        }
                        slots[w].choices.lock().unwrap().clone_from(&prefix);
                        slots[w]
                            .start_ms
                            .store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let (ch, r) = run_one(u, &prefix, false);
                        slots[w].start_ms.store(0, Ordering::Relaxed);
                        n += 1;
                        if ch.diverged || ch.trace.len() < prefix.len() {
                            eprintln!("HARNESS ERROR: prefix {:?} of unit {} diverged", prefix, u.name);
                            std::process::exit(3);
                        }
                        e += (ch.trace.len() + 1 - prefix.len()) as u64;
                        o += ch.ops;
                        if ch.input_hash != 0 && my_in.len() < 20_000_000 {
                            my_in.insert(ch.input_hash);
                        }
                        if ch.outcome_hash != 0 && my_out.len() < 20_000_000 {
                            my_out.insert(ch.outcome_hash);
                        }
                        if let Err(f) = r {
                            let mut v = violations.lock().unwrap();
                            if !v.iter().any(|x| x.key == f.key) {
                                v.push(Violation {
                                    unit: u.name.clone(),
                                    choices: ch.trace.iter().map(|t| t.0).collect(),
                                    key: f.key,
                                    msg: f.msg,
                                    notes: vec![],
                                });
                                if v.len() >= 20 {
                                    shared.stop.store(true, Ordering::Relaxed);
                                    shared.cv.notify_all();
                                }
                            }
                        }
                        // children
                        let mut cost: u32 = ch.trace[..prefix.len()]
                            .iter()
                            .map(|t| (t.2 && t.0 != 0) as u32)
                            .sum();
                        for i in prefix.len()..ch.trace.len() {
                            let (c, arity, costs) = ch.trace[i];
                            debug_assert_eq!(c, 0);
                            if costs && cost + 1 > u.bound {
                                continue;
                            }
                            for alt in 1..arity {
                                let mut p: Vec<u16> = ch.trace[..i].iter().map(|t| t.0).collect();
                                p.push(alt);
                                local.push(p);
                            }
                            if costs && c != 0 {
                                cost += 1;
                            }
                        }
                        if local.len() > 1 && shared.hungry.load(Ordering::Relaxed) {
                            let mut q = shared.queue.lock().unwrap();
                            let take = (local.len() / 2).max(1);
                            q.0.extend(local.drain(..take));
                            shared.hungry.store(q.0.len() < threads, Ordering::Relaxed);
                            shared.cv.notify_all();
                        }
                    }
                    executions.fetch_add(n, Ordering::Relaxed);
                    edges.fetch_add(e, Ordering::Relaxed);
                    ops.fetch_add(o, Ordering::Relaxed);
                    let mut g = inputs.lock().unwrap();
                    if g.is_empty() { *g = my_in } else { g.extend(my_in) }
                    drop(g);
                    let mut g = outcomes.lock().unwrap();
                    if g.is_empty() { *g = my_out } else { g.extend(my_out) }
                    drop(g);
                    done.fetch_add(1, Ordering::Release);
                })
                .unwrap();
        }
        // Watchdog: an execution that does not come back is a violation of termination.
        while done.load(Ordering::Acquire) < threads {
            std::thread::sleep(Duration::from_millis(5));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for sl in &slots {
                let st = sl.start_ms.load(Ordering::Relaxed);
                if st != 0 && now > st + hang_secs * 1000 {
                    let c = sl.choices.lock().unwrap().clone();
                    let v = Violation {
                        unit: u.name.clone(),
                        choices: c,
                        key: "hang".into(),
                        msg: format!("execution did not terminate within {hang_secs} s"),
                        notes: vec![],
                    };
                    let path = crate::report::write_replay(prop, &v, 0);
                    println!("{prop}/{}: {}", v.unit, v.msg);
                    println!("VIOLATION property={prop} replay={path}");
                    std::process::exit(1);
                }
            }
        }
    });
    let mut violations = violations.into_inner().unwrap();
    for v in &mut violations {
        minimise(u, v);
        let (ch, _) = run_one(u, &v.choices, true);
        v.notes = ch.notes;
        // Replaying the recorded choices must fail the same way, twice.
        for _ in 0..2 {
            let (_, r) = run_one(u, &v.choices, false);
            match r {
                Err(f) if f.key == v.key => {}
                other => {
                    eprintln!("HARNESS ERROR: violation {:?} does not replay: {:?}", v, other);
                    std::process::exit(3);
                }
            }
        }
    }
    // Samples: the default execution and a few others, replayed for determinism.
    let mut samples = Vec::new();
    for probe in [0usize, 1, 2] {
        let (ch0, _) = run_one(u, &[], false);
        let mut p: Vec<u16> = ch0.trace.iter().map(|t| t.0).collect();
        if probe > 0 {
            let cands: Vec<usize> = (0..p.len()).filter(|i| ch0.trace[*i].1 > 1 && (!ch0.trace[*i].2 || u.bound > 0)).collect();
            if cands.is_empty() {
                break;
            }
            let i = cands[(cands.len() * probe / 3).min(cands.len() - 1)];
            p.truncate(i);
            p.push(1);
        }
        let (a, _) = run_one(u, &p, true);
        let (b, _) = run_one(u, &p, true);
        if a.input_hash != b.input_hash || a.outcome_hash != b.outcome_hash || a.trace != b.trace {
            eprintln!("HARNESS ERROR: unit {} is not deterministic on {:?}", u.name, p);
            std::process::exit(3);
        }
        samples.push((a.trace.iter().map(|t| t.0).collect(), a.notes));
    }
    UnitReport {
        name: u.name.clone(),
        what: u.what.clone(),
        bound: u.bound,
        executions: executions.into_inner(),
        edges: edges.into_inner(),
        ops: ops.into_inner(),
        inputs: inputs.into_inner().unwrap().len() as u64,
        outcomes: outcomes.into_inner().unwrap().len() as u64,
        complete: !incomplete.into_inner(),
        secs: t0.elapsed().as_secs_f64(),
        violations,
        samples,
    }
}

fn minimise(u: &Unit, v: &mut Violation) {
    let still = |c: &[u16]| -> Option<(Vec<u16>, String)> {
        let (ch, r) = run_one(u, c, false);
        match r {
            Err(f) if f.key == v.key && !ch.diverged => {
                Some((ch.trace.iter().map(|t| t.0).collect(), f.msg))
            }
            _ => None,
        }
    };
    let mut cur = v.choices.clone();
    let mut msg = v.msg.clone();
    let t = Instant::now();
    let mut progress = true;
    while progress && t.elapsed() < Duration::from_secs(5) {
        progress = false;
        for i in 0..cur.len() {
            if i >= cur.len() || cur[i] == 0 {
                continue;
            }
            for alt in 0..cur[i] {
                let mut c = cur.clone();
                c[i] = alt;
                if let Some((n, m)) = still(&c) {
                    cur = n;
                    msg = m;
                    progress = true;
                    break;
                }
                if t.elapsed() > Duration::from_secs(5) {
                    break;
                }
            }
        }
    }
    v.choices = cur;
    v.msg = msg;
}

pub fn replay(u: &Unit, choices: &[u16]) -> (Vec<String>, R) {
    let (ch, r) = run_one(u, choices, true);
    (ch.notes, r)
}
