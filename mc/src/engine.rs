//! Exhaustive exploration engine: runs every case of a check on a pool of workers, counts what was
//! covered, reports violations with replay files, and writes the evidence file.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Fail {
    /// full description of the failing execution: initial state, operations, query
    pub exec: String,
    pub msg: String,
    /// Rust code reproducing the execution
    pub repro: String,
}
pub fn fail<T>(exec: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { exec: exec.into(), msg: msg.into(), repro: String::new() })
}
pub type Res = Result<(), Fail>;

pub struct Case {
    pub key: String,
    pub run: Box<dyn Fn(&mut Rec) -> Res + Send + Sync>,
}

/// Per-case recorder.
#[derive(Default)]
pub struct Rec {
    pub states: HashSet<u128>,
    pub transitions: u64,
    pub validated: u64,
    pub max_ratio: f64,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub max_depth: usize,
    pub skipped: u64,
}
impl Rec {
    pub fn state(&mut self, h: u128) -> bool {
        self.states.insert(h)
    }
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn ok(&mut self, n: u64) {
        self.validated += n;
    }
    pub fn outcome(&mut self, s: &'static str) {
        *self.outcomes.entry(s).or_insert(0) += 1;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
    /// Compare |err| against tol, remembering how close correct code comes to the tolerance.
    pub fn within(&mut self, err: f64, tol: f64) -> bool {
        if !(err <= tol) {
            return false;
        }
        if tol > 0.0 && tol.is_finite() {
            self.max_ratio = self.max_ratio.max(err / tol);
        }
        true
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static SLOT: RefCell<usize> = const { RefCell::new(usize::MAX) };
}
/// per worker: start time in ms (0 = not inside the implementation)
static INSIDE: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static CLOCK: Mutex<Option<Instant>> = Mutex::new(None);
fn now_ms() -> u64 {
    let mut g = CLOCK.lock().unwrap();
    g.get_or_insert_with(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Run implementation code; a panic is returned as an error text.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = SLOT.with(|s| *s.borrow());
    let nested = slot == usize::MAX || INSIDE[slot].load(Ordering::Relaxed) != 0;
    if !nested {
        // coarse clock: refreshed by the watchdog thread
        INSIDE[slot].store(COARSE.load(Ordering::Relaxed).max(1), Ordering::Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if !nested {
        INSIDE[slot].store(0, Ordering::Relaxed);
    }
    r.map_err(|_| {
        let (l, m) = last_panic();
        format!("panicked at {l}: {m}")
    })
}
static COARSE: AtomicU64 = AtomicU64::new(1);

// CPU clocks of the worker threads: a starved call is not a hanging one.
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}
/// The CPU clock of this thread.
fn own_clock() -> i32 {
    let mut c = 0;
    unsafe {
        if pthread_getcpuclockid(pthread_self(), &mut c) == 0 {
            c
        } else {
            0
        }
    }
}
fn cpu_ms(clock: i32) -> Option<u64> {
    let mut t = [0i64; 2];
    (clock != 0 && unsafe { clock_gettime(clock, &mut t) } == 0).then(|| t[0] as u64 * 1000 + t[1] as u64 / 1_000_000)
}

/// Size of the explored space. The quick command of a cheap check explores the middle one.
#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
    Deep,
}
impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T, deep: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
            Tier::Deep => deep,
        }
    }
}
pub struct Opts {
    pub id: &'static str,
    pub tier: Tier,
    /// the command that was run: "quick" or "thorough"
    pub command: &'static str,
    pub seed: u64,
    pub only: Option<String>,
    pub root: String,
}
pub struct Meta {
    pub rule: String,
    pub bounds: String,
    pub oracle: String,
    pub assumptions: Vec<String>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entries of the known-findings file for this property: the exact `exec` strings.
fn known(root: &str, id: &str) -> Vec<String> {
    let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == id)
        .map(|(_, e)| e.trim().to_string())
        .collect()
}

pub fn run(opts: &Opts, meta: Meta, cases: Vec<Case>) -> i32 {
    let t0 = Instant::now();
    let _ = now_ms();
    let only = opts.only.clone();
    let cases: Vec<Case> =
        cases.into_iter().filter(|c| only.as_ref().map_or(true, |o| c.key == *o)).collect();
    if let Some(o) = &only {
        if cases.is_empty() {
            eprintln!("no case with key {o}");
            return 3;
        }
    }
    let next = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    let total: Mutex<Rec> = Mutex::new(Rec::default());
    let fails: Mutex<Vec<(usize, String, Fail)>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 32);
    let current: Vec<AtomicUsize> = (0..64).map(|_| AtomicUsize::new(usize::MAX)).collect();
    let clocks: Vec<AtomicI32> = (0..64).map(|_| AtomicI32::new(0)).collect();
    let knowns = known(&opts.root, opts.id);
    let hang_ms = 60_000u64;

    std::thread::scope(|s| {
        let (cases, next, done, total, fails, errors, current, clocks, meta) =
            (&cases, &next, &done, &total, &fails, &errors, &current, &clocks, &meta);
        // watchdog: implementation calls must return
        s.spawn(move || {
            let mut last = Instant::now();
            let mut coarse = 1u64;
            // (start of the call, CPU time of its thread when it was first seen to be long)
            let mut long = [(0u64, 0u64); 64];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                // count only time in which this process was really scheduled
                let dt = (last.elapsed().as_millis() as u64).min(100);
                last = Instant::now();
                coarse += dt;
                COARSE.store(coarse, Ordering::Relaxed);
                for w in 0..workers {
                    let st = INSIDE[w].load(Ordering::Relaxed);
                    let age = coarse.saturating_sub(st);
                    if st == 0 || age < 2000 {
                        continue;
                    }
                    let cpu = cpu_ms(clocks[w].load(Ordering::Relaxed)).unwrap_or(coarse);
                    if long[w].0 != st {
                        long[w] = (st, cpu);
                    }
                    // a call that burns no CPU time either waits for something or starves
                    if cpu.saturating_sub(long[w].1) > hang_ms || age > 10 * hang_ms {
                        let ci = current[w].load(Ordering::Relaxed);
                        let key = cases.get(ci).map(|c| c.key.clone()).unwrap_or_default();
                        let f = Fail {
                            exec: key.clone(),
                            msg: format!("a call into the library did not return within {hang_ms} ms"),
                            repro: String::new(),
                        };
                        let path = write_replay(opts, 0, &key, &f);
                        println!("  {} :: {}", f.exec, f.msg);
                        println!("VIOLATION property={} replay={}", opts.id, path);
                        write_evidence(opts, &meta_ref(meta), cases.len(), ci, &total.lock().unwrap(), t0, 1);
                        std::process::exit(1);
                    }
                }
            }
        });
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|x| *x.borrow_mut() = w);
                        clocks[w].store(own_clock(), Ordering::Relaxed);
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= cases.len() || fails.lock().unwrap().len() >= 40 {
                                break;
                            }
                            current[w].store(i, Ordering::Relaxed);
                            let mut rec = Rec::default();
                            let r = catch_unwind(AssertUnwindSafe(|| (cases[i].run)(&mut rec)));
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(f)) => fails.lock().unwrap().push((i, cases[i].key.clone(), f)),
                                Err(_) => {
                                    INSIDE[w].store(0, Ordering::Relaxed);
                                    let (loc, msg) = last_panic();
                                    if loc.starts_with("/repo/") {
                                        fails.lock().unwrap().push((
                                            i,
                                            cases[i].key.clone(),
                                            Fail {
                                                exec: cases[i].key.clone(),
                                                msg: format!("library panicked at {loc}: {msg}"),
                                                repro: String::new(),
                                            },
                                        ));
                                    } else {
                                        errors.lock().unwrap().push(format!("{}: harness panic at {loc}: {msg}", cases[i].key));
                                    }
                                }
                            }
                            let mut t = total.lock().unwrap();
                            t.states.extend(rec.states);
                            t.transitions += rec.transitions;
                            t.validated += rec.validated;
                            t.skipped += rec.skipped;
                            t.max_ratio = t.max_ratio.max(rec.max_ratio);
                            t.max_depth = t.max_depth.max(rec.max_depth);
                            for (k, v) in rec.outcomes {
                                *t.outcomes.entry(k).or_insert(0) += v;
                            }
                            if t.samples.len() < 6 && (i % 97 == 0 || t.samples.is_empty()) {
                                t.samples.extend(rec.samples);
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });

    let total = total.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    let errors = errors.into_inner().unwrap();
    fails.sort_by_key(|f| f.0);
    let ran = next.load(Ordering::Relaxed).min(cases.len());
    let mut new = 0;
    for (n, (_, key, f)) in fails.iter().enumerate() {
        if knowns.iter().any(|k| *k == f.exec) {
            println!("KNOWN-FINDING: property={} {} :: {}", opts.id, f.exec, f.msg);
        } else {
            new += 1;
            let path = write_replay(opts, n, key, f);
            println!("  {} :: {}", f.exec, f.msg);
            println!("VIOLATION property={} replay={}", opts.id, path);
            if new >= 10 {
                break;
            }
        }
    }
    if only.is_none() {
        write_evidence(opts, &meta_ref(&meta), cases.len(), ran, &total, t0, new);
    }
    println!(
        "{} {}: cases={}/{} states={} transitions={} validated={} outcomes={:?} depth={} skipped={} max_err/tol={:.2e} wall={:.1}s",
        opts.id,
        if new == 0 { "held" } else { "VIOLATED" },
        ran,
        cases.len(),
        total.states.len(),
        total.transitions,
        total.validated,
        total.outcomes,
        total.max_depth,
        total.skipped,
        total.max_ratio,
        t0.elapsed().as_secs_f64()
    );
    if new > 0 {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(5) {
            eprintln!("ERROR {e}");
        }
        return 3;
    }
    if only.is_none() && (total.states.len() < 2 || total.transitions == 0 || total.validated == 0) {
        eprintln!("ERROR vacuous exploration");
        return 3;
    }
    0
}

struct MetaRef<'a>(&'a Meta);
fn meta_ref(m: &Meta) -> MetaRef<'_> {
    MetaRef(m)
}

fn write_replay(opts: &Opts, n: usize, key: &str, f: &Fail) -> String {
    let dir = format!("{}/replays", opts.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{n}.txt", opts.id);
    let repro = if f.repro.is_empty() { String::new() } else { format!("\n--- Rust reproduction ---\n{}\n", f.repro) };
    let body = format!(
        "property: {}\nexecution: {}\nobserved: {}\ncase-key: {}\nreplay with: VERIF_TIER={} {}/check.sh {} --only '{}'\n{}",
        opts.id,
        f.exec,
        f.msg,
        key,
        opts.command,
        opts.root,
        opts.id,
        key,
        repro
    );
    let _ = std::fs::write(&path, body);
    path
}

fn write_evidence(opts: &Opts, meta: &MetaRef, ncases: usize, ran: usize, t: &Rec, t0: Instant, violations: usize) {
    let m = meta.0;
    let dir = format!("{}/evidence", opts.root);
    let _ = std::fs::create_dir_all(&dir);
    let outcomes: Vec<String> = t.outcomes.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect();
    let samples: Vec<String> = t.samples.iter().map(|s| jstr(s)).collect();
    let assumptions: Vec<String> = m.assumptions.iter().map(|s| jstr(s)).collect();
    let body = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"cases_completed\": {},\n  \"max_depth\": {},\n  \"outside_bound\": {},\n  \"exhaustive\": {},\n  \"outcomes\": {{{}}},\n  \"max_error_over_tolerance\": {:e},\n  \"rule\": {},\n  \"bounds\": {},\n  \"oracle\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        jstr(opts.id),
        jstr(opts.command),
        opts.seed,
        t.states.len(),
        t.transitions,
        t.validated,
        ncases,
        ran,
        t.max_depth,
        t.skipped,
        ran == ncases && violations == 0,
        outcomes.join(", "),
        t.max_ratio,
        jstr(&m.rule),
        jstr(&m.bounds),
        jstr(&m.oracle),
        samples.join(", "),
        assumptions.join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let _ = std::fs::write(format!("{dir}/{}.json", opts.id), body);
}

pub struct Hash(u64, u64);
impl Default for Hash {
    fn default() -> Self {
        Self::new()
    }
}
impl Hash {
    pub fn new() -> Hash {
        Hash(0x243f6a8885a308d3, 0x13198a2e03707344)
    }
    pub fn u(&mut self, x: u64) -> &mut Self {
        self.0 = (self.0 ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
        self.1 = (self.1.rotate_left(17) ^ x.wrapping_mul(0xc2b2ae3d27d4eb4f)).wrapping_mul(0x165667b19e3779f9);
        self
    }
    pub fn f(&mut self, x: f64) -> &mut Self {
        self.u(x.to_bits())
    }
    pub fn fs<'a>(&mut self, xs: impl IntoIterator<Item = &'a f64>) -> &mut Self {
        for x in xs {
            self.f(*x);
        }
        self
    }
    pub fn s(&mut self, x: &str) -> &mut Self {
        for b in x.bytes() {
            self.u(b as u64);
        }
        self
    }
    pub fn done(&self) -> u128 {
        let a = (self.0 ^ (self.0 >> 31)).wrapping_mul(0x94d049bb133111eb);
        let b = (self.1 ^ (self.1 >> 29)).wrapping_mul(0xbf58476d1ce4e5b9);
        ((a as u128) << 64) | b as u128
    }
}
