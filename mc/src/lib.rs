//! Shared engine of the checks: bounded exhaustive enumeration of cases on the
//! real code, with counters, watchdog, known findings, replay files, evidence.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod util;
pub mod bf;
pub mod plonkref;
pub mod bfc;
pub mod vmset;
pub mod prove;
pub mod tiny;
pub mod tinyset;
pub mod extract;
pub mod zp;
pub mod solve;
pub mod forge;
pub mod eccset;
pub mod eccz;

thread_local! {
    static QUIET: RefCell<u32> = RefCell::new(0);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|e: Box<dyn Any + Send>| {
        let loc = LAST_PANIC.with(|l| l.borrow().clone());
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        format!("panicked: {} {}", m, loc)
    })
}

#[derive(Default, Clone)]
struct Slot {
    since: Option<Instant>,
    label: String,
}

struct Shared {
    prop: String,
    tier: String,
    seed: i64,
    start: Instant,
    states: Mutex<HashSet<u64>>,
    transitions: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    sections: Mutex<Vec<(String, u64, f64)>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    slots: Mutex<Vec<Slot>>,
    stop: AtomicBool,
    case_limit_s: AtomicU64,
}

/// Handle of one check run.
#[derive(Clone)]
pub struct Ctx {
    s: Arc<Shared>,
}

/// Per-thread recorder; merged into the run at the end of a section.
pub struct Rec {
    c: Ctx,
    slot: usize,
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
    label: String,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

const MAX_VIOLATIONS: usize = 8;

impl Rec {
    /// Name the case being evaluated (used in replay files and by the watchdog).
    pub fn label(&mut self, l: impl Into<String>) {
        self.label = l.into();
        let mut g = self.c.s.slots.lock().unwrap();
        g[self.slot] = Slot { since: Some(Instant::now()), label: self.label.clone() };
    }
    /// Record an observed state (deduplicated by hash).
    pub fn state<T: Hash>(&mut self, t: &T) {
        self.states.insert(h64(t));
    }
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome(&mut self, k: &str) {
        *self.outcomes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let mut g = self.c.s.samples.lock().unwrap();
        if g.len() < 12 {
            let mut s = f();
            s.truncate(400);
            g.push(s);
        }
    }
    /// Report a violation; `key` identifies the failing case for known findings.
    pub fn violation(&mut self, key: &str, detail: impl Into<String>) {
        let d = format!("case: {}\nkey: {}\n{}", self.label, key, detail.into());
        self.c.report(key, d);
    }
    /// Evaluate one case; Err or panic is a violation with the current label as its key.
    pub fn case(&mut self, f: impl FnOnce(&mut Rec) -> Result<(), String>) {
        self.traces += 1;
        self.transitions += 1;
        let r = {
            let me: &mut Rec = self;
            guard(|| f(me))
        };
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => {
                let k = self.label.clone();
                self.violation(&k, e);
            }
        }
    }
    pub fn stopped(&self) -> bool {
        self.c.s.stop.load(SeqCst)
    }
    pub fn ctx(&self) -> Ctx {
        self.c.clone()
    }
}

impl Drop for Rec {
    fn drop(&mut self) {
        let s = &self.c.s;
        s.states.lock().unwrap().extend(self.states.drain());
        s.transitions.fetch_add(self.transitions, SeqCst);
        s.traces.fetch_add(self.traces, SeqCst);
        let mut o = s.outcomes.lock().unwrap();
        for (k, v) in std::mem::take(&mut self.outcomes) {
            *o.entry(k).or_insert(0) += v;
        }
        s.slots.lock().unwrap()[self.slot] = Slot::default();
    }
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.s.tier == "thorough"
    }
    pub fn quick(&self) -> bool {
        !self.thorough()
    }
    /// choose a bound by tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn assume(&self, s: &str) {
        self.s.assumptions.lock().unwrap().push(s.into());
    }
    /// Watchdog limit per labelled case.
    pub fn case_limit(&self, secs: u64) {
        self.s.case_limit_s.store(secs, SeqCst);
    }
    pub fn rec(&self) -> Rec {
        let mut g = self.s.slots.lock().unwrap();
        g.push(Slot::default());
        let slot = g.len() - 1;
        Rec {
            c: self.clone(),
            slot,
            states: HashSet::new(),
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            label: String::new(),
        }
    }
    fn known_for(&self, key: &str) -> Option<String> {
        self.s.known.iter().find(|(k, _)| k == key).map(|(_, w)| w.clone())
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known_for(key).is_some()
    }
    fn report(&self, key: &str, detail: String) {
        if self.known_for(key).is_some() {
            *self.s.known_hit.lock().unwrap().entry(key.to_string()).or_insert(0) += 1;
            return;
        }
        let mut g = self.s.violations.lock().unwrap();
        if g.len() < MAX_VIOLATIONS {
            g.push((key.to_string(), detail));
        }
        if g.len() >= MAX_VIOLATIONS {
            self.s.stop.store(true, SeqCst);
        }
    }
    pub fn stopped(&self) -> bool {
        self.s.stop.load(SeqCst)
    }
    /// Exhaustively evaluate `f` on every item, in parallel.
    pub fn par<T: Sync, F>(&self, section: &str, items: &[T], f: F)
    where
        F: Fn(&T, &mut Rec) + Sync,
    {
        self.par_n(section, items.len(), |i, r| f(&items[i], r))
    }
    /// As `par`, over the indices 0..n.
    pub fn par_n<F>(&self, section: &str, n: usize, f: F)
    where
        F: Fn(usize, &mut Rec) + Sync,
    {
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8).min(n.max(1));
        let chunk = (n / (threads * 64)).clamp(1, 4096);
        let infra: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || {
                        let mut r = self.rec();
                        loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= n || self.stopped() {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                r.label(format!("{}#{}", section, i));
                                // a panic outside `case` is the code under test failing where it
                                // must not: reported under the current label
                                let res = guard(|| f(i, &mut r));
                                if let Err(e) = res {
                                    let k = r.label.clone();
                                    r.violation(&k, e);
                                }
                                done.fetch_add(1, SeqCst);
                                if self.stopped() {
                                    break;
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if let Some(e) = infra.into_inner().unwrap() {
            eprintln!("engine error: {}", e);
            std::process::exit(3);
        }
        let secs = t0.elapsed().as_secs_f64();
        let d = done.load(SeqCst);
        eprintln!("[{}] {}: {} items in {:.2}s", self.s.prop, section, d, secs);
        self.s.sections.lock().unwrap().push((section.into(), d, secs));
    }
    /// A sequential section.
    pub fn seq(&self, section: &str, f: impl FnOnce(&mut Rec) + Send) {
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut r = self.rec();
                    r.label(section);
                    let res = guard(|| f(&mut r));
                    if let Err(e) = res {
                        let k = r.label.clone();
                        r.violation(&k, e);
                    }
                })
                .unwrap();
        });
        let secs = t0.elapsed().as_secs_f64();
        eprintln!("[{}] {}: {:.2}s", self.s.prop, section, secs);
        self.s.sections.lock().unwrap().push((section.into(), 1, secs));
    }
    fn write_evidence(&self) {
        let s = &self.s;
        let viol = s.violations.lock().unwrap().len();
        let ev = serde_json::json!({
            "property": s.prop,
            "tier": s.tier,
            "seed": s.seed,
            "level": "model_checking",
            "coverage": {
                "states": s.states.lock().unwrap().len() as u64,
                "transitions": s.transitions.load(SeqCst),
                "traces_validated_against_impl": s.traces.load(SeqCst),
                "samples": s.samples.lock().unwrap().clone(),
                "exhaustive": viol == 0,
                "sections": s.sections.lock().unwrap().iter().map(|(n, d, t)| serde_json::json!({"name": n, "items": d, "wall_s": t})).collect::<Vec<_>>(),
                "outcomes": s.outcomes.lock().unwrap().clone(),
                "known_findings_hit": s.known_hit.lock().unwrap().clone(),
            },
            "assumptions": s.assumptions.lock().unwrap().clone(),
            "wall_s": s.start.elapsed().as_secs_f64(),
            "violations": viol,
        });
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{}/{}.json", dir, s.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    fn finish(&self) -> ! {
        self.write_evidence();
        let s = &self.s;
        for (k, n) in s.known_hit.lock().unwrap().iter() {
            let w = self.known_for(k).unwrap_or_default();
            println!("KNOWN-FINDING: property={} {} [{}; {} cases]", s.prop, w, k, n);
        }
        let v = s.violations.lock().unwrap();
        eprintln!(
            "[{}] states={} transitions={} traces={} violations={} wall={:.1}s outcomes={:?}",
            s.prop,
            s.states.lock().unwrap().len(),
            s.transitions.load(SeqCst),
            s.traces.load(SeqCst),
            v.len(),
            s.start.elapsed().as_secs_f64(),
            s.outcomes.lock().unwrap()
        );
        if v.is_empty() {
            std::process::exit(0);
        }
        let dir = format!("{}/replay", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}.txt", dir, s.prop);
        let mut t = String::new();
        for (k, d) in v.iter() {
            let _ = writeln!(t, "== {}\n{}\n", k, d);
        }
        let _ = std::fs::write(&path, &t);
        let mut show = t.clone();
        if show.len() > 3000 {
            let mut e = 3000;
            while !show.is_char_boundary(e) {
                e -= 1;
            }
            show.truncate(e);
        }
        eprintln!("{}", show);
        println!("VIOLATION property={} replay={}", s.prop, path);
        std::process::exit(1);
    }
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096 / (1 << 20))
        .unwrap_or(0)
}

/// Entry point of every check binary: `<bin> [quick|thorough]`.
pub fn main(prop: &str, f: impl FnOnce(&Ctx)) -> ! {
    let tier = std::env::args()
        .nth(1)
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let kf = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    // line: "known: property=<id> key=<key> :: <what fails>"
    let known = kf
        .lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={} key=", prop)))
        .filter_map(|l| l.split_once(" :: ").map(|(a, b)| (a.trim().to_string(), b.trim().to_string())))
        .collect();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = loc.clone());
        if QUIET.with(|q| *q.borrow()) == 0 {
            eprintln!("engine panic: {} {}", info, loc);
        }
    }));
    let c = Ctx {
        s: Arc::new(Shared {
            prop: prop.into(),
            tier,
            seed,
            start: Instant::now(),
            states: Default::default(),
            transitions: Default::default(),
            traces: Default::default(),
            samples: Default::default(),
            sections: Default::default(),
            outcomes: Default::default(),
            assumptions: Default::default(),
            violations: Default::default(),
            known,
            known_hit: Default::default(),
            slots: Default::default(),
            stop: Default::default(),
            case_limit_s: AtomicU64::new(180),
        }),
    };
    // watchdog: a labelled case that neither ends nor stays within memory is a
    // non-terminating / exploding execution of the code under test
    let w = c.clone();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let limit = Duration::from_secs(w.s.case_limit_s.load(SeqCst));
        let big = rss_mb() > 18_000;
        let mut worst: Option<(Duration, String)> = None;
        for s in w.s.slots.lock().unwrap().iter() {
            if let Some(t) = s.since {
                let e = t.elapsed();
                if worst.as_ref().map(|x| x.0 < e).unwrap_or(true) {
                    worst = Some((e, s.label.clone()));
                }
            }
        }
        if let Some((e, l)) = worst {
            if e > limit || big {
                w.report(&l, format!("case: {}\ndid not end within its bound ({:?} elapsed, rss {} MB)", l, e, rss_mb()));
                w.s.stop.store(true, SeqCst);
                w.finish();
            }
        }
    });
    f(&c);
    c.finish()
}
