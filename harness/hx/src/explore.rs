//! Bounded exhaustive exploration engine.
//!
//! A *case function* asks a [`Chooser`] for every nondeterministic decision
//! (which operation, which argument, which fault, which schedule ...) and then
//! executes the resulting behaviour on the real code, checking it against an
//! oracle. The engine enumerates *all* decision vectors of the case function
//! (depth-first, in parallel); nothing is sampled. A violation is identified by
//! its decision vector, which replays it exactly.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// The source of decisions of one execution.
pub struct Chooser {
    prefix: Vec<u32>,
    taken: Vec<(u32, u32)>,
    max_points: usize,
}

impl Chooser {
    pub fn new(prefix: Vec<u32>) -> Self {
        Self { prefix, taken: vec![], max_points: 100_000 }
    }
    /// A decision among `0..n`. `n == 0` is a harness error.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "HARNESS: choose(0)");
        if n == 1 {
            return 0; // not a decision
        }
        let i = self.taken.len();
        let c = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        assert!(c < n, "HARNESS: replayed choice {c} out of range {n} at point {i}");
        assert!(i < self.max_points, "HARNESS: too many choice points");
        self.taken.push((c as u32, n as u32));
        c
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    /// True if the last decision was not part of a previously executed prefix, i.e. the
    /// behaviour after it has not been checked by an earlier execution.
    pub fn fresh(&self) -> bool {
        self.taken.len() >= self.prefix.len()
    }
    pub fn choices(&self) -> Vec<u32> {
        self.taken.iter().map(|x| x.0).collect()
    }
}

/// Result of one execution.
pub enum Fail {
    /// The decision vector does not denote a case (e.g. an operation that is not enabled).
    Skip,
    /// The property is broken. `key` names the failing call site or input class
    /// for the known-findings file.
    Bad { key: String, msg: String },
}
pub type Res = Result<(), Fail>;

pub fn bad<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Bad { key: String::new(), msg: msg.into() })
}
pub fn bad_key<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Bad { key: key.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return $crate::explore::bad(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::explore::bad(format!("{}: {:?} != {:?}", format!($($t)*), a, b)); }
    }};
}

/// Coverage counters, one per worker; merged at the end of a family.
#[derive(Default)]
pub struct Cov {
    pub transitions: u64,
    pub traces: u64,
    states: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    want: bool,
    desc: Option<String>,
    pub counters: BTreeMap<&'static str, u64>,
}
impl Cov {
    /// A state (graph, program, table content ...) reached and checked.
    pub fn state(&mut self, s: impl Hash) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        self.states.insert(h.finish());
    }
    /// `n` steps executed on the implementation.
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One complete execution compared with the oracle.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome(&mut self, o: &str) {
        if let Some(x) = self.outcomes.get_mut(o) {
            *x += 1;
        } else if self.outcomes.len() < 60 {
            self.outcomes.insert(o.to_string(), 1);
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want && self.desc.is_none() {
            let mut s = f();
            if s.len() > 1200 {
                let mut i = 1200;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.desc = Some(s);
        }
    }
    /// Replaces the description of the case.
    pub fn redescribe(&mut self, f: impl FnOnce() -> String) {
        self.desc = None;
        self.describe(f);
    }
    fn merge(&mut self, o: Cov) {
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.states.extend(o.states);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: RefCell<u32> = const { RefCell::new(0) };
}

/// Installs a panic hook that records the message instead of printing it while guarded.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("HX_BT").is_some() {
            eprintln!("{msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if GUARDED.with(|g| *g.borrow()) > 0 {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} [at {loc}]")));
        } else {
            eprintln!("PANIC {msg} at {loc}");
        }
    }));
}

/// Runs `f`, returning the panic message if it panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Replaces digits in panic locations so that keys are stable across unrelated edits.
fn panic_key(m: &str) -> String {
    // only the message class: strip numbers
    let s: String = m.split(" [at ").next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).collect();
    format!("panic: {}", s.chars().take(120).collect::<String>())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default, Debug)]
pub struct FamilyReport {
    pub name: String,
    pub bound: String,
    pub evaluations: u64,
    pub skipped: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub complete: bool,
    pub left: u64,
    pub wall_s: f64,
    pub samples: Vec<String>,
    pub outcomes: BTreeMap<String, u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub choice_points_max: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub choices: Vec<u32>,
    pub key: String,
    pub msg: String,
}

pub struct Runner {
    pub id: String,
    pub tier: Tier,
    pub threads: usize,
    pub families: Vec<FamilyReport>,
    pub violation: Option<Violation>,
    pub known: Vec<(String, String)>,
    pub known_hits: BTreeMap<String, (u64, String)>,
    pub replay: Option<(String, Vec<u32>)>,
    pub only: Option<String>,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    pub rule: String,
    pub slot_dir: Option<PathBuf>,
    pub verbose: bool,
    pub started: Instant,
    pub budget_scale: f64,
    /// per-case hang limit, seconds
    pub case_limit: u64,
    /// development mode: collect every distinct failure instead of stopping at the first
    pub survey: bool,
    pub surveyed: BTreeMap<String, (u64, Violation)>,
}

struct Queue {
    stack: VecDeque<Vec<u32>>,
    active: usize,
}

impl Runner {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Picks the bound for the tier.
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() { quick } else { thorough }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Explores every decision vector of `f`, at most for `cap_s` seconds of wall time
    /// (a capped family is reported as incomplete).
    pub fn family<F>(&mut self, name: &str, bound: &str, cap_s: f64, f: F)
    where
        F: Fn(&mut Chooser, &mut Cov) -> Res + Sync,
    {
        if let Some((fam, choices)) = self.replay.clone() {
            if fam == name {
                self.replay_one(name, choices, &f);
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.starts_with(o.as_str()) {
                return;
            }
        }
        if self.violation.is_some() {
            return;
        }
        let t0 = Instant::now();
        let cap = Duration::from_secs_f64(cap_s * self.budget_scale);
        let q = Mutex::new(Queue { stack: VecDeque::from([vec![]]), active: 0 });
        let cv = Condvar::new();
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let found: Mutex<Option<Violation>> = Mutex::new(None);
        let known_hits: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(Default::default());
        let total: Mutex<(Cov, FamilyReport)> = Mutex::new(Default::default());
        let samples_left = AtomicU64::new(3);
        let begun: Vec<AtomicU64> = (0..self.threads).map(|_| AtomicU64::new(0)).collect();
        let done = AtomicBool::new(false);
        let hungry = AtomicU64::new(0);
        let known = self.known.clone();
        let slot_dir = self.slot_dir.clone();
        let limit = self.case_limit;
        let survey = self.survey;
        let surveyed: Mutex<BTreeMap<String, (u64, Violation)>> = Mutex::new(Default::default());
        std::thread::scope(|sc| {
            // hang watchdog
            {
                let (begun, done, t0) = (&begun, &done, t0);
                sc.spawn(move || {
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(Duration::from_millis(100));
                        let now = t0.elapsed().as_millis() as u64 + 1;
                        for b in begun {
                            let s = b.load(Ordering::Relaxed);
                            if s != 0 && now > s + limit * 1000 {
                                eprintln!("HX-HANG");
                                std::process::exit(97);
                            }
                        }
                    }
                });
            }
            let mut hs = vec![];
            for w in 0..self.threads {
                let (q, cv, stop, capped, found, known_hits, total, samples_left, begun, hungry, known, slot_dir, f, surveyed) = (
                    &q, &cv, &stop, &capped, &found, &known_hits, &total, &samples_left, &begun, &hungry, &known,
                    &slot_dir, &f, &surveyed,
                );
                let name = name.to_string();
                let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                    let mut cov = Cov::default();
                    let mut rep = FamilyReport::default();
                    let mut slot = slot_dir.as_ref().map(|d| {
                        std::fs::File::create(d.join(format!("slot{w}"))).expect("slot file")
                    });
                    // every other worker prefers the earliest open alternatives, so that a family
                    // that is cut by its cap has seen variations of early and late decisions
                    let wide = w % 2 == 1;
                    let mut local: VecDeque<Vec<u32>> = VecDeque::new();
                    loop {
                        if local.is_empty() {
                            let mut g = q.lock().unwrap();
                            hungry.fetch_add(1, Ordering::Relaxed);
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if let Some(p) = if wide { g.stack.pop_front() } else { g.stack.pop_back() } {
                                    local.push_back(p);
                                    g.active += 1;
                                    break;
                                }
                                if g.active == 0 {
                                    break;
                                }
                                g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                            }
                            hungry.fetch_sub(1, Ordering::Relaxed);
                            if local.is_empty() {
                                break;
                            }
                        }
                        while let Some(prefix) = if wide && local.len() < 200_000 { local.pop_front() } else { local.pop_back() } {
                            if stop.load(Ordering::Relaxed) || t0.elapsed() > cap {
                                if !stop.load(Ordering::Relaxed) {
                                    capped.store(true, Ordering::Relaxed);
                                }
                                rep.left += 1 + local.len() as u64;
                                local.clear();
                                break;
                            }
                            if let Some(s) = slot.as_mut() {
                                use std::os::unix::fs::FileExt;
                                let mut line = format!("{name}\t");
                                for c in &prefix {
                                    line.push_str(&c.to_string());
                                    line.push(' ');
                                }
                                line.push('\n');
                                let _ = s.write_all_at(line.as_bytes(), 0);
                            }
                            begun[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let plen = prefix.len();
                            let mut c = Chooser::new(prefix);
                            let want = rep.samples.len() < 3 && samples_left.load(Ordering::Relaxed) > 0;
                            cov.want = want;
                            cov.desc = None;
                            let r = guard(|| f(&mut c, &mut cov));
                            begun[w].store(0, Ordering::Relaxed);
                            let r = match r {
                                Ok(r) => r,
                                Err(p) => Err(Fail::Bad { key: panic_key(&p), msg: format!("panicked: {p}") }),
                            };
                            assert!(c.taken.len() >= plen, "HARNESS: nondeterministic case (prefix not consumed)");
                            rep.choice_points_max = rep.choice_points_max.max(c.taken.len() as u64);
                            for i in plen..c.taken.len() {
                                // push in reverse so that simpler alternatives are explored first
                                for alt in (1..c.taken[i].1).rev() {
                                    let mut p: Vec<u32> = c.taken[..i].iter().map(|x| x.0).collect();
                                    p.push(alt);
                                    local.push_back(p);
                                }
                            }
                            match r {
                                Ok(()) => {
                                    rep.evaluations += 1;
                                    if want {
                                        if let Some(d) = cov.desc.take() {
                                            samples_left.fetch_sub(1, Ordering::Relaxed);
                                            rep.samples.push(d);
                                        }
                                    }
                                }
                                Err(Fail::Skip) => rep.skipped += 1,
                                Err(Fail::Bad { key, msg }) => {
                                    rep.evaluations += 1;
                                    if known.iter().any(|(k, _)| *k == key) {
                                        let mut g = known_hits.lock().unwrap();
                                        g.entry(key).or_insert_with(|| (0, msg)).0 += 1;
                                    } else if survey {
                                        let k = if key.is_empty() { msg.lines().next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(110).collect() } else { key.clone() };
                                        let v = Violation { family: name.clone(), choices: c.choices(), key, msg };
                                        let mut g = surveyed.lock().unwrap();
                                        let e = g.entry(k).or_insert_with(|| (0, v.clone()));
                                        e.0 += 1;
                                        if v.choices.len() < e.1.choices.len() {
                                            e.1 = v;
                                        }
                                    } else {
                                        let mut g = found.lock().unwrap();
                                        let v = Violation { family: name.clone(), choices: c.choices(), key, msg };
                                        match &*g {
                                            Some(o) if o.choices.len() <= v.choices.len() => {}
                                            _ => *g = Some(v),
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            if local.len() > 1 && hungry.load(Ordering::Relaxed) > 0 {
                                let mut g = q.lock().unwrap();
                                let k = local.len() / 2;
                                g.stack.extend(local.drain(..k));
                                cv.notify_all();
                            }
                        }
                        let mut g = q.lock().unwrap();
                        g.active -= 1;
                        if g.active == 0 {
                            cv.notify_all();
                        }
                    }
                    let mut g = total.lock().unwrap();
                    g.0.merge(cov);
                    let t = &mut g.1;
                    t.evaluations += rep.evaluations;
                    t.skipped += rep.skipped;
                    t.left += rep.left;
                    t.choice_points_max = t.choice_points_max.max(rep.choice_points_max);
                    t.samples.extend(rep.samples);
                });
                hs.push(h.unwrap());
            }
            for h in hs {
                if h.join().is_err() {
                    eprintln!("HX-HARNESS-ERROR: worker died");
                    std::process::exit(3);
                }
            }
            done.store(true, Ordering::Relaxed);
        });
        let (cov, mut rep) = total.into_inner().unwrap();
        let q = q.into_inner().unwrap();
        rep.left += q.stack.len() as u64;
        rep.name = name.into();
        rep.bound = bound.into();
        rep.states = cov.states.len() as u64;
        rep.transitions = cov.transitions;
        rep.traces = cov.traces;
        rep.outcomes = cov.outcomes;
        rep.counters = cov.counters;
        rep.complete = !capped.load(Ordering::Relaxed) && rep.left == 0;
        rep.samples.truncate(3);
        rep.wall_s = t0.elapsed().as_secs_f64();
        for (k, (n, m)) in known_hits.into_inner().unwrap() {
            let e = self.known_hits.entry(k).or_insert((0, m));
            e.0 += n;
        }
        if self.verbose {
            eprintln!(
                "  {:<28} eval {:>8} skip {:>7} states {:>8} trans {:>9} traces {:>8} cp {:>3} {:>6.1}s {}{}",
                rep.name,
                rep.evaluations,
                rep.skipped,
                rep.states,
                rep.transitions,
                rep.traces,
                rep.choice_points_max,
                rep.wall_s,
                if rep.complete { "complete" } else { "CAPPED" },
                if rep.left > 0 { format!(" left {}", rep.left) } else { String::new() }
            );
            for (o, n) in &rep.outcomes {
                eprintln!("      outcome {o}: {n}");
            }
            for (o, n) in &rep.counters {
                eprintln!("      count {o}: {n}");
            }
        }
        for (k, (n, v)) in surveyed.into_inner().unwrap() {
            let e = self.surveyed.entry(k).or_insert((0, v));
            e.0 += n;
        }
        let v = found.into_inner().unwrap();
        if let Some(v) = v {
            // Determinism: the same decisions must fail again.
            let mut c = Chooser::new(v.choices.clone());
            let mut cov = Cov { want: true, ..Default::default() };
            let again = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || guard(|| f(&mut c, &mut cov)))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            let ok = matches!(again, Ok(Ok(())) | Ok(Err(Fail::Skip)));
            let mut v = v;
            if ok {
                v.msg = format!("(not reproduced on an immediate second run) {}", v.msg);
            }
            if let Some(d) = cov.desc {
                v.msg = format!("{}\n  case: {}", v.msg, d);
            }
            self.violation = Some(v);
        }
        self.families.push(rep);
    }

    fn replay_one<F>(&mut self, name: &str, choices: Vec<u32>, f: &F)
    where
        F: Fn(&mut Chooser, &mut Cov) -> Res + Sync,
    {
        let mut c = Chooser::new(choices.clone());
        let mut cov = Cov { want: true, ..Default::default() };
        let r = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || guard(|| f(&mut c, &mut cov)))
                .unwrap()
                .join()
                .unwrap()
        });
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(Fail::Bad { key: panic_key(&p), msg: format!("panicked: {p}") }),
        };
        if let Some(d) = &cov.desc {
            println!("case: {d}");
        }
        match r {
            Ok(()) => println!("replay: the case passes"),
            Err(Fail::Skip) => println!("replay: skipped (not a case)"),
            Err(Fail::Bad { key, msg }) => {
                println!("replay: FAILS key={key:?}\n{msg}");
                if !self.known.iter().any(|(k, _)| *k == key) {
                    self.violation = Some(Violation { family: name.into(), choices, key, msg });
                }
            }
        }
    }
}
