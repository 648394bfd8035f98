//! The explorer: enumerates cases of suites on worker threads, checks each on
//! the real code, replays single cases, and writes evidence.
//!
//! A *case* is `(suite, ints, bytes, choices)` and fully determines one
//! execution. `Suite::unit` enumerates cases; `Suite::exec` runs one.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

impl Tier {
    pub fn q<T>(self, quick: T, thorough: T) -> T {
        match self { Tier::Quick => quick, Tier::Thorough => thorough }
    }
    pub fn thorough(self) -> bool { self == Tier::Thorough }
}

#[derive(Clone, Debug)]
pub struct Fail { pub key: String, pub msg: String }

pub type Res = Result<(), Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => {
        if !$c { return $crate::eng::fail($key, format!($($a)*)); }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub suite: String,
    pub ints: Vec<u64>,
    pub bytes: Vec<u8>,
    pub ch: Vec<u32>,
}

impl Case {
    pub fn new(suite: &str, ints: &[u64]) -> Case {
        Case { suite: suite.into(), ints: ints.to_vec(), bytes: vec![], ch: vec![] }
    }
    pub fn b(suite: &str, ints: &[u64], bytes: &[u8]) -> Case {
        Case { suite: suite.into(), ints: ints.to_vec(), bytes: bytes.to_vec(), ch: vec![] }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "suite {}", self.suite);
        let _ = writeln!(s, "ints {}", self.ints.iter().map(|x| x.to_string())
                         .collect::<Vec<_>>().join(" "));
        let _ = writeln!(s, "bytes {}", hex(&self.bytes));
        let _ = writeln!(s, "choices {}", self.ch.iter().map(|x| x.to_string())
                         .collect::<Vec<_>>().join(" "));
        s
    }
    pub fn parse(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "suite" => c.suite = v.trim().into(),
                "ints" => c.ints = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
                "bytes" => c.bytes = (0..v.trim().len() / 2).map(
                    |i| u8::from_str_radix(&v.trim()[2 * i..2 * i + 2], 16).unwrap()).collect(),
                "choices" => c.ch = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
                _ => (),
            }
        }
        c
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { let _ = write!(s, "{:02x}", x); }
    s
}

/// Short hex for messages.
pub fn hx(b: &[u8]) -> String {
    if b.len() <= 80 { hex(b) } else { format!("{}..({} bytes)", hex(&b[..60]), b.len()) }
}

/// The choices of one execution. `pick` is a plain nondeterministic choice,
/// `dev` one whose nonzero answers are deviations from the default.
#[derive(Default, Debug)]
pub struct Ch {
    prefix: Vec<u32>,
    pub pts: Vec<(u32, u32, bool)>,
    pub diverged: bool,
}

impl Ch {
    pub fn new(prefix: &[u32]) -> Ch {
        Ch { prefix: prefix.to_vec(), pts: vec![], diverged: false }
    }
    fn at(&mut self, n: u32, dev: bool) -> u32 {
        let i = self.pts.len();
        let mut c = self.prefix.get(i).copied().unwrap_or(0);
        if c >= n { self.diverged = true; c = 0; }
        self.pts.push((n, c, dev));
        c
    }
    pub fn pick(&mut self, n: usize) -> usize { self.at(n as u32, false) as usize }
    pub fn dev(&mut self, n: usize) -> usize { self.at(n as u32, true) as usize }
    pub fn devs(&self) -> usize { self.pts.iter().filter(|p| p.2 && p.1 != 0).count() }
}

pub type ChRef = Rc<RefCell<Ch>>;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 31;
    }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx(0x9e3779b97f4a7c15);
    t.hash(&mut h);
    h.finish()
}
#[derive(Default, Clone, Copy)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdH>>;

const STATE_CAP: usize = 4_000_000;

#[derive(Default)]
pub struct Stats {
    /// executions on the real code
    pub execs: u64,
    /// implementation steps checked against the model
    pub transitions: u64,
    /// executions whose whole observable trace was compared with the model's
    pub traces: u64,
    pub states: IdSet,
    pub state_capped: bool,
    pub outcomes: BTreeMap<&'static str, u64>,
    pub suites: BTreeMap<&'static str, u64>,
    /// set by exec for the enumerator
    pub sig: u64,
}

impl Stats {
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP { self.states.insert(h); } else { self.state_capped = true; }
    }
    pub fn step(&mut self, n: u64) { self.transitions += n; }
    pub fn out(&mut self, k: &'static str) { *self.outcomes.entry(k).or_insert(0) += 1; }
    pub fn trace(&mut self) { self.traces += 1; }
}

pub trait Suite: Sync + Send {
    fn name(&self) -> &'static str;
    /// One line saying what is enumerated and within what bounds.
    fn bounds(&self, tier: Tier) -> String;
    fn units(&self, tier: Tier) -> usize;
    fn unit(&self, u: usize, tier: Tier, cx: &mut Cx);
    fn exec(&self, case: &Case, ch: &ChRef, st: &mut Stats) -> Res;
    /// Human-readable rendering for samples and reports.
    fn show(&self, case: &Case) -> String {
        format!("{:?} {} {:?}", case.ints, hx(&case.bytes), case.ch)
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() }
            else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}
pub fn last_panic() -> String { PANIC_MSG.with(|p| p.borrow().clone()) }

/// Call `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

struct Slot { seq: AtomicU64, case: RwLock<Case>, idle: AtomicBool }

pub struct Shared {
    stop: AtomicBool,
    next: AtomicUsize,
    units_done: AtomicUsize,
    fails: Mutex<Vec<(Case, Fail)>>,
    known_hit: Mutex<BTreeMap<String, (Case, Fail)>>,
    errors: Mutex<Vec<String>>,
    samples: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
    slots: Vec<Slot>,
    deadline: Option<Instant>,
    capped: AtomicBool,
}

pub struct Cx<'a> {
    pub st: Stats,
    sh: &'a Shared,
    slot: usize,
    journal: Option<&'a std::fs::File>,
    sampled: BTreeMap<&'static str, u32>,
    fails_seen: usize,
}

impl<'a> Cx<'a> {
    pub fn stopped(&self) -> bool { self.sh.stop.load(Relaxed) }

    /// Execute one case and check it. Returns the signal set by `exec`.
    pub fn run(&mut self, s: &dyn Suite, case: Case) -> u64 {
        let ch = Rc::new(RefCell::new(Ch::new(&case.ch)));
        self.run_ch(s, case, &ch)
    }

    fn run_ch(&mut self, s: &dyn Suite, case: Case, ch: &ChRef) -> u64 {
        if self.stopped() { return 0; }
        let slot = &self.sh.slots[self.slot];
        *slot.case.write().unwrap() = case;
        slot.seq.fetch_add(1, Relaxed);
        slot.idle.store(false, Relaxed);
        let case = slot.case.read().unwrap();
        if let Some(mut j) = self.journal {
            use std::io::{Seek, Write};
            let t = format!("{}\n\n\n", case.to_text());
            let _ = j.seek(std::io::SeekFrom::Start(0));
            let _ = j.set_len(0);
            let _ = j.write_all(t.as_bytes());
        }
        self.st.execs += 1;
        self.st.sig = 0;
        let n = s.name();
        *self.st.suites.entry(n).or_insert(0) += 1;
        let k = self.sampled.entry(n).or_insert(0);
        *k += 1;
        // A few spread-out cases per suite and thread as samples.
        if matches!(*k, 1 | 50 | 2000) {
            let line = format!("{}: {}", n, s.show(&case));
            let mut v = self.sh.samples.lock().unwrap();
            if v.len() < 200 { v.push(line); }
        }
        let r = run_one(s, &case, ch, &mut self.st);
        slot.idle.store(true, Relaxed);
        let sig = self.st.sig;
        match r {
            Ok(()) => (),
            Err(RunErr::Fail(f)) => {
                let c: Case = case.clone();
                drop(case);
                self.failed(s, c, f);
            },
            Err(RunErr::Harness(e)) => {
                let t = format!("{}: {} on {:?}", n, e, *case);
                self.sh.errors.lock().unwrap().push(t);
                self.sh.stop.store(true, Relaxed);
            },
        }
        sig
    }

    fn failed(&mut self, s: &dyn Suite, mut c: Case, f: Fail) {
        if self.sh.known.iter().any(|k| k.1 == f.key) {
            self.sh.known_hit.lock().unwrap().entry(f.key.clone()).or_insert((c, f));
            return;
        }
        // The same case must fail the same way again, or the harness does not
        // own all nondeterminism.
        let ch = Rc::new(RefCell::new(Ch::new(&c.ch)));
        let mut st = Stats::default();
        match run_one(s, &c, &ch, &mut st) {
            Err(RunErr::Fail(ref g)) if g.key == f.key => (),
            other => {
                let t = format!("case does not reproduce ({:?} then {:?}): {:?}", f, other.err(), c);
                self.sh.errors.lock().unwrap().push(t);
                self.sh.stop.store(true, Relaxed);
                return;
            },
        }
        c.ch = ch.borrow().pts.iter().map(|p| p.1).collect();
        while c.ch.last() == Some(&0) { c.ch.pop(); }
        let mut v = self.sh.fails.lock().unwrap();
        self.fails_seen += 1;
        if !v.iter().any(|x| x.1.key == f.key) { v.push((c, f)); }
        if v.len() >= max_fails() || self.fails_seen > 200.max(max_fails()) { self.sh.stop.store(true, Relaxed); }
    }

    /// Depth-first exploration of all choice sequences of `base` with at most
    /// `bound` deviations (`pick`s are unbounded).
    pub fn explore(&mut self, s: &dyn Suite, base: Case, bound: usize) -> u64 {
        let mut stack: Vec<Vec<u32>> = vec![base.ch.clone()];
        let mut n = 0;
        while let Some(prefix) = stack.pop() {
            if self.stopped() { return n; }
            if let Some(d) = self.sh.deadline {
                if n % 1024 == 0 && Instant::now() > d {
                    self.sh.capped.store(true, Relaxed);
                    return n;
                }
            }
            let mut c = base.clone();
            c.ch = prefix.clone();
            let ch = Rc::new(RefCell::new(Ch::new(&prefix)));
            self.run_ch(s, c, &ch);
            n += 1;
            if self.stopped() { return n; }
            let ch = ch.borrow();
            if ch.diverged || ch.pts.len() < prefix.len() {
                self.sh.errors.lock().unwrap().push(format!(
                    "{}: divergence replaying {:?} of {:?}", s.name(), prefix, base));
                self.sh.stop.store(true, Relaxed);
                return n;
            }
            let mut devs = ch.pts[..prefix.len()].iter().filter(|p| p.2 && p.1 != 0).count();
            for i in prefix.len()..ch.pts.len() {
                let (cnt, chosen, dev) = ch.pts[i];
                debug_assert!(chosen == 0);
                if dev && devs + 1 > bound { continue; }
                for alt in (1..cnt).rev() {
                    let mut p: Vec<u32> = ch.pts[..i].iter().map(|x| x.1).collect();
                    p.push(alt);
                    stack.push(p);
                }
                if dev && chosen != 0 { devs += 1; }
            }
        }
        n
    }

    pub fn past_deadline(&self) -> bool {
        if let Some(d) = self.sh.deadline {
            if Instant::now() > d { self.sh.capped.store(true, Relaxed); return true; }
        }
        false
    }
}

#[derive(Debug)]
enum RunErr { Fail(Fail), Harness(String) }

fn run_one(s: &dyn Suite, case: &Case, ch: &ChRef, st: &mut Stats) -> Result<(), RunErr> {
    let r = panic::catch_unwind(AssertUnwindSafe(|| s.exec(case, ch, st)));
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(f)) => Err(RunErr::Fail(f)),
        Err(_) => {
            let m = last_panic();
            if m.contains("HARNESS") || m.contains("mc/src/") && !m.contains("fourleaf") && m.contains("index out of") {
                return Err(RunErr::Harness(m));
            }
            // Strip the line so that the key does not depend on layout.
            let k: String = m.split(" at ").next().unwrap_or("").chars().take(60).collect();
            Err(RunErr::Fail(Fail { key: format!("panic:{}", k), msg: format!("panicked: {}", m) }))
        },
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub suites: Vec<Box<dyn Suite>>,
}

/// Stop after this many distinct violations.
fn max_fails() -> usize {
    std::env::var("MC_MAXFAIL").ok().and_then(|x| x.parse().ok()).unwrap_or(5)
}

fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or("/verif".into()) }

fn read_known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (p, k) = l.split_once(" key=")?;
        if p == id { Some((p.to_string(), k.to_string())) } else { None }
    }).collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Runs in the child process. Exit code: 0 held, 1 violation, 3 harness error.
pub fn run_check(ck: &Check, tier: Tier, journal: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let nthreads = if journal.is_some() { 1 }
        else { std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(
            || std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)) };
    let only = std::env::var("MC_SUITE").ok();
    let suites: Vec<&Box<dyn Suite>> = ck.suites.iter().filter(
        |s| only.as_ref().map_or(true, |o| s.name().contains(&o[..]))).collect();
    let mut all: Vec<(usize, usize)> = vec![];
    for (i, s) in suites.iter().enumerate() {
        for u in 0..s.units(tier) { all.push((i, u)); }
    }
    let limit = std::env::var("MC_LIMIT_S").ok().and_then(|x| x.parse::<u64>().ok())
        .unwrap_or(tier.q(240, 780));
    let sh = Arc::new(Shared {
        stop: AtomicBool::new(false), next: AtomicUsize::new(0), units_done: AtomicUsize::new(0),
        fails: Mutex::new(vec![]), known_hit: Mutex::new(BTreeMap::new()),
        errors: Mutex::new(vec![]), samples: Mutex::new(vec![]),
        known: read_known(ck.id),
        slots: (0..nthreads).map(|_| Slot { seq: AtomicU64::new(0), case: RwLock::new(Case::default()),
                                            idle: AtomicBool::new(true) }).collect(),
        deadline: Some(t0 + Duration::from_secs(limit)),
        capped: AtomicBool::new(false),
    });
    let jf = journal.map(|j| std::fs::File::create(j).unwrap());
    let merged = Mutex::new(Stats::default());
    let times: Mutex<BTreeMap<&'static str, f64>> = Mutex::new(BTreeMap::new());
    let done = AtomicBool::new(false);
    std::thread::scope(|sc| {
        let sh = &sh; let all = &all; let suites = &suites; let merged = &merged; let jf = &jf;
        let done = &done; let times = &times;
        let mut hs = vec![];
        for t in 0..nthreads {
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut cx = Cx { st: Stats::default(), sh, slot: t, journal: jf.as_ref(),
                                  sampled: BTreeMap::new(), fails_seen: 0 };
                loop {
                    let k = sh.next.fetch_add(1, SeqCst);
                    if k >= all.len() || cx.stopped() { break; }
                    if cx.past_deadline() { break; }
                    let (i, u) = all[k];
                    let u0 = Instant::now();
                    let r = guard(|| suites[i].unit(u, tier, &mut cx));
                    if let Err(e) = r {
                        sh.errors.lock().unwrap().push(format!("{} unit {}: {}", suites[i].name(), u, e));
                        sh.stop.store(true, Relaxed);
                    }
                    *times.lock().unwrap().entry(suites[i].name()).or_insert(0.0) += u0.elapsed().as_secs_f64();
                    sh.units_done.fetch_add(1, Relaxed);
                }
                sh.slots[t].idle.store(true, Relaxed);
                let mut m = merged.lock().unwrap();
                m.execs += cx.st.execs; m.transitions += cx.st.transitions; m.traces += cx.st.traces;
                m.state_capped |= cx.st.state_capped;
                if m.states.is_empty() { m.states = std::mem::take(&mut cx.st.states); }
                else { for x in cx.st.states.drain() { m.states.insert(x); } }
                for (k, v) in &cx.st.outcomes { *m.outcomes.entry(k).or_insert(0) += v; }
                for (k, v) in &cx.st.suites { *m.suites.entry(k).or_insert(0) += v; }
            }).unwrap());
        }
        // Hang detector: one case running for a very long time.
        sc.spawn(move || {
            let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); nthreads];
            let hang = std::env::var("MC_HANG_S").ok().and_then(|x| x.parse().ok()).unwrap_or(45u64);
            while !done.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for t in 0..nthreads {
                    let s = sh.slots[t].seq.load(Relaxed);
                    if s != last[t].0 || sh.slots[t].idle.load(Relaxed) { last[t] = (s, Instant::now()); continue; }
                    if s > 0 && last[t].1.elapsed().as_secs() > hang {
                        if let Ok(c) = sh.slots[t].case.try_read() {
                            let f = Fail { key: "hang".into(), msg: format!(
                                "one execution has not finished after {} s", hang) };
                            let p = write_replay(ck.id, &c, &f, 0);
                            println!("VIOLATION property={} replay={}", ck.id, p);
                            println!("  {}: {}", c.suite, f.msg);
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        for h in hs { let _ = h.join(); }
        done.store(true, Relaxed);
    });
    let m = merged.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    let fails = sh.fails.lock().unwrap();
    let errors = sh.errors.lock().unwrap();
    let known = sh.known_hit.lock().unwrap();
    let capped = sh.capped.load(Relaxed);
    let complete = !capped && sh.units_done.load(Relaxed) == all.len() && errors.is_empty();
    for e in errors.iter() { println!("HARNESS-ERROR: {}", e); }
    let code = if !fails.is_empty() { 1 } else if !errors.is_empty() { 3 } else { 0 };
    for (_, (c, f)) in known.iter() {
        println!("KNOWN-FINDING: property={} {} [{}]", ck.id, f.msg, f.key);
        let _ = c;
    }
    for (n, (c, f)) in fails.iter().enumerate() {
        let p = write_replay(ck.id, c, f, n);
        println!("VIOLATION property={} replay={}", ck.id, p);
        println!("  [{}] {}: {}", f.key, c.suite, f.msg);
        if let Some(s) = suites.iter().find(|s| s.name() == c.suite) {
            println!("  case: {}", s.show(c));
        }
    }
    // evidence
    let mut samples = sh.samples.lock().unwrap().clone();
    samples.sort(); samples.dedup();
    let step = (samples.len() / 40).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).collect();
    let mut cov = String::new();
    let rule = format!("{} Bounds: {}", ck.rule,
        suites.iter().map(|s| format!("[{}] {}", s.name(), s.bounds(tier))).collect::<Vec<_>>().join("; "));
    let _ = write!(cov, "\"rule\": {}, \"exhaustive\": {}, ", js(&rule), complete && !m.state_capped);
    if ck.level == "model_checking" {
        let _ = write!(cov, "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ",
            m.states.len(), m.transitions, m.traces);
    } else {
        let _ = write!(cov, "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"steps_compared\": {}, ",
            m.execs, m.states.len(), m.transitions);
    }
    let _ = write!(cov, "\"states_count_capped\": {}, \"stopped_by_time_cap\": {}, \"units_total\": {}, \"units_completed\": {}, ",
        m.state_capped, capped, all.len(), sh.units_done.load(Relaxed));
    let _ = write!(cov, "\"outcomes\": {{{}}}, ", m.outcomes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(cov, "\"executions_per_suite\": {{{}}}, ", m.suites.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = write!(cov, "\"samples\": [{}]", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let assumptions = ["The reference model in /verif/mc/src/model.rs and stream models in the suites state the intended behaviour",
        "Nothing outside the stated alphabets and bounds is claimed"];
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1);
    let ev = format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \
        \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        js(ck.id), js(tier.q("quick", "thorough")), seed, js(ck.level), cov,
        assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), wall, fails.len());
    let dir = std::env::var("MC_EVIDENCE_DIR").unwrap_or(format!("{}/evidence", verif_dir()));
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, ck.id), ev) {
        println!("HARNESS-ERROR: cannot write evidence: {}", e);
        return 3;
    }
    println!("{} {:?}: executions={} states={} transitions={} traces={} units={}/{} complete={} wall={:.1}s",
        ck.id, tier, m.execs, m.states.len(), m.transitions, m.traces,
        sh.units_done.load(Relaxed), all.len(), complete, wall);
    println!("  outcomes: {:?}", m.outcomes);
    let tm = times.into_inner().unwrap();
    println!("  per suite: {:?}", m.suites.iter().map(|(k, v)| format!("{}: {} in {:.1} cpu-s", k, v, tm.get(k).unwrap_or(&0.0))).collect::<Vec<_>>());
    code
}

fn write_replay(id: &str, c: &Case, f: &Fail, n: usize) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}.case", dir, id, n);
    let _ = std::fs::write(&p, format!("property {}\n{}# [{}] {}\n", id, c.to_text(), f.key,
                                       f.msg.replace('\n', " ")));
    p
}

/// Replay one case; exit code 1 if it fails.
pub fn replay(ck: &Check, c: &Case) -> i32 {
    let s = match ck.suites.iter().find(|s| s.name() == c.suite) {
        Some(s) => s, None => { println!("no such suite {}", c.suite); return 3; },
    };
    println!("case: {}", s.show(c));
    let ch = Rc::new(RefCell::new(Ch::new(&c.ch)));
    let mut st = Stats::default();
    match run_one(&**s, c, &ch, &mut st) {
        Ok(()) => { println!("holds"); 0 },
        Err(RunErr::Fail(f)) => { println!("FAILS [{}] {}", f.key, f.msg); 1 },
        Err(RunErr::Harness(e)) => { println!("HARNESS-ERROR {}", e); 3 },
    }
}

/// Entry point of each binary: `run <id> <tier>`, `child <id> <tier> [journal]`,
/// `replay <file>`, `list`.
pub fn main(checks: &dyn Fn(&str) -> Option<Check>) -> ! {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|x| &x[..]) {
        Some("run") => supervise(&a[2], a.get(3).map(|x| &x[..]).unwrap_or("quick")),
        Some("child") => {
            let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            match checks(&a[2]) {
                Some(ck) => run_check(&ck, tier, a.get(4).map(|x| &x[..])),
                None => { println!("unknown check {}", a[2]); 3 },
            }
        },
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let id = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("").trim().to_string();
            match checks(&id) {
                Some(ck) => {
                    let c = Case::parse(&t);
                    std::thread::Builder::new().stack_size(64 << 20)
                        .spawn(move || replay(&ck, &c)).unwrap().join().unwrap_or(3)
                },
                None => 3,
            }
        },
        _ => { println!("usage: run|child|replay"); 2 },
    };
    std::process::exit(code)
}

fn supervise(id: &str, tier: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let st = match std::process::Command::new(&exe).args(["child", id, tier]).status() {
        Ok(s) => s, Err(e) => { println!("HARNESS-ERROR: {}", e); return 3; },
    };
    if let Some(c) = st.code() { if c != 101 { return c; } }
    // Killed by a signal (stack overflow, abort): find the case with a
    // journalled single-threaded run, then confirm it by replaying it alone.
    println!("child ended abnormally ({}), locating the case", st);
    let j = std::env::temp_dir().join(format!("mc-journal-{}-{}", id, std::process::id()));
    let st2 = std::process::Command::new(&exe).args(["child", id, tier]).arg(&j).status();
    let t = std::fs::read_to_string(&j).unwrap_or_default();
    let _ = std::fs::remove_file(&j);
    match st2 {
        Ok(s) if s.code().is_none() => {
            let c = Case::parse(&t);
            let f = Fail { key: "abort".into(), msg: format!("process died: {}", s) };
            let p = write_replay(id, &c, &f, 0);
            let again = std::process::Command::new(&exe).args(["replay", &p]).status();
            if again.map(|x| x.code().is_none()).unwrap_or(false) {
                println!("VIOLATION property={} replay={}", id, p);
                println!("  {}: {}", c.suite, f.msg);
                1
            } else { println!("HARNESS-ERROR: abort did not reproduce"); 3 }
        },
        Ok(s) => s.code().map(|c| if c == 0 { 3 } else { c }).unwrap_or(3),
        Err(_) => 3,
    }
}
