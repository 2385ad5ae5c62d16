//! Stateless model-checking engine.
//!
//! A *scenario* is a closed driver: a deterministic function of the choices it
//! takes from a `Ctl`. `dfs` enumerates every choice sequence of the scenario
//! (optionally with a bound on the number of deviations from the default
//! choice), `sweep` enumerates every index of a finite space. Both run the real
//! code on every execution; the body compares it with a reference model and
//! returns `Err` on a disagreement. A panic in the body is a disagreement too.
//!
//! Every execution is identified by (scenario, choice list) and can be
//! replayed. A failure that does not repeat when replayed alone is reported as one
//! of the whole run: the code under test keeps state between calls.

use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
    fn write_u64(&mut self, x: u64) { self.0 = x; }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0x9e3779b97f4a7c15u64 ^ (b.len() as u64).wrapping_mul(0xff51afd7ed558ccd);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9fb21c651e98df25);
        h ^= h >> 29;
    }
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

const STATE_CAP: usize = 3_000_000;

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub nontrivial: u64,
    pub checks: u64,
    pub states: IdSet,
    pub states_capped: bool,
    pub outcomes: IdSet,
    pub tags: HashMap<&'static str, u64>,
    pub max_depth: usize,
}

impl Stats {
    fn absorb(&mut self, o: Stats) {
        self.execs += o.execs;
        self.steps += o.steps;
        self.nontrivial += o.nontrivial;
        self.checks += o.checks;
        self.states_capped |= o.states_capped;
        self.max_depth = self.max_depth.max(o.max_depth);
        if self.states.is_empty() { self.states = o.states } else { self.states.extend(o.states) }
        if self.outcomes.is_empty() { self.outcomes = o.outcomes } else { self.outcomes.extend(o.outcomes) }
        for (k, v) in o.tags { *self.tags.entry(k).or_insert(0) += v }
    }
}

pub struct Ctl {
    path: Vec<u32>,
    arity: Vec<u32>,
    pos: usize,
    dev_bound: u32,
    dev_used: u32,
    pub index: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub stats: Stats,
}

struct Divergence(String);

impl Ctl {
    fn new(dev_bound: u32) -> Ctl {
        Ctl { path: Vec::new(), arity: Vec::new(), pos: 0, dev_bound, dev_used: 0, index: 0,
              tracing: false, trace: Vec::new(), stats: Stats::default() }
    }

    /// Nondeterministic choice among `0..n`; every value is explored.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: empty choice");
        let i = self.pos;
        self.pos += 1;
        if i < self.path.len() {
            if i < self.arity.len() {
                if self.arity[i] != n as u32 { self.diverged(i, n) }
            } else {
                self.arity.push(n as u32);
            }
            if self.path[i] >= n as u32 { self.diverged(i, n) }
            self.path[i] as usize
        } else {
            self.path.push(0);
            self.arity.push(n as u32);
            0
        }
    }

    #[cold]
    fn diverged(&self, i: usize, n: usize) -> ! {
        std::panic::panic_any(Divergence(format!("choice {} of {:?}: arity {} now, {:?} before", i, self.path, n, self.arity.get(i))))
    }

    #[inline]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.choose(xs.len()); &xs[i] }

    #[inline]
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }

    /// A choice whose default is 0 and whose other values are deviations; at
    /// most `dev_bound` deviations happen in one execution.
    #[inline]
    /// The rest of the choices made before is not to be had any more.
    pub fn cut_short(&mut self) { self.pos = self.pos.max(self.path.len()) }
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.dev_used >= self.dev_bound { return 0 }
        let c = self.choose(n);
        if c > 0 { self.dev_used += 1 }
        c
    }

    /// A transition of the system was taken.
    #[inline]
    pub fn step(&mut self) { self.stats.steps += 1 }
    #[inline]
    pub fn steps(&mut self, n: u64) { self.stats.steps += n }

    #[inline]
    pub fn nontrivial(&mut self) { self.stats.nontrivial += 1 }

    /// Record a canonical state; true if it is new to this worker.
    #[inline]
    pub fn visit(&mut self, h: u64) -> bool {
        if self.stats.states.len() >= STATE_CAP { self.stats.states_capped = true; return true }
        self.stats.states.insert(h)
    }
    #[inline]
    pub fn visit_bytes(&mut self, b: &[u8]) -> bool { self.visit(hash_bytes(b)) }

    #[inline]
    pub fn outcome(&mut self, h: u64) { if self.stats.outcomes.len() < 1_000_000 { self.stats.outcomes.insert(h); } }

    #[inline]
    pub fn tag(&mut self, t: &'static str) { *self.stats.tags.entry(t).or_insert(0) += 1 }

    #[inline]
    pub fn log<F: FnOnce() -> String>(&mut self, f: F) { if self.tracing { let s = f(); self.trace.push(s) } }
}

thread_local! {
    static IN_RUN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| crate::guard::untracked(|| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !IN_RUN.try_with(|r| r.get()).unwrap_or(true) { eprintln!("panic: {} at {}", msg, loc) }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("panic: {} at {}", msg, loc));
    })));
}

enum Outcome { Ok, Fail(String), Diverged(String) }

// ---------------------------------------------------------------------------
// Crash slots: the case each worker is executing, in a file mapping that
// survives the death of the process.

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
const SLOT: usize = 4096;
const MAX_WORKERS: usize = 64;
const NAME: usize = 64;
const MAX_NAMES: usize = 256;

struct Slots { base: *mut u32 }
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    fn open(path: Option<&str>) -> Slots {
        use std::os::unix::io::AsRawFd;
        let len = SLOT * MAX_WORKERS + NAME * MAX_NAMES;
        if let Some(p) = path {
            if let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p) {
                if f.set_len(len as u64).is_ok() {
                    let b = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
                    if b as isize != -1 { return Slots { base: b as *mut u32 } }
                }
            }
        }
        let v = vec![0u32; len / 4].into_boxed_slice();
        Slots { base: Box::leak(v).as_mut_ptr() }
    }
    // layout: [active, scenario, kind, n, choices..]
    #[inline]
    fn set(&self, w: usize, scenario: u32, kind: u32, choices: &[u32]) {
        unsafe {
            let s = self.base.add(w * SLOT / 4);
            let n = choices.len().min(SLOT / 4 - 8);
            s.write_volatile(0);
            s.add(1).write_volatile(scenario);
            s.add(2).write_volatile(kind);
            s.add(3).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(choices.as_ptr(), s.add(4), n);
            s.write_volatile(1);
        }
    }
    // scenario names, after the slots
    fn name(&self, sid: u32, name: &str) {
        if sid as usize >= MAX_NAMES { return }
        unsafe {
            let p = (self.base as *mut u8).add(SLOT * MAX_WORKERS + sid as usize * NAME);
            std::ptr::write_bytes(p, 0, NAME);
            std::ptr::copy_nonoverlapping(name.as_ptr(), p, name.len().min(NAME - 1));
        }
    }
    fn clear(&self, w: usize) { unsafe { self.base.add(w * SLOT / 4).write_volatile(0) } }
}

pub struct Violation {
    pub scenario: String,
    pub kind: &'static str,
    pub choices: Vec<u32>,
    pub message: String,
    pub trace: Vec<String>,
}

struct Report {
    name: String,
    kind: &'static str,
    note: String,
    stats: Stats,
    wall: f64,
    complete: bool,
    samples: Vec<String>,
}

pub struct Args {
    pub tier: String,
    pub seed: u64,
    pub out: Option<String>,
    pub slots: Option<String>,
    pub replay: Option<(String, String, Vec<u32>)>,
    pub threads: usize,
    pub only: Option<String>,
    pub scale: u32,
}

pub struct Runner {
    pub property: &'static str,
    pub args: Args,
    reports: Vec<Report>,
    violation: Option<Violation>,
    slots: Slots,
    next_scenario: u32,
    error: Option<String>,
    matched: bool,
    start: Instant,
    heart: Vec<AtomicU64>,
}

struct Heart { stop: AtomicBool }

impl Runner {
    pub fn new(property: &'static str) -> Runner {
        install_hook();
        let mut a = Args { tier: "quick".into(), seed: 1, out: None, slots: None, replay: None,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4), only: None, scale: 100 };
        let v: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i < v.len() {
            let val = || v.get(i + 1).cloned().unwrap_or_default();
            match v[i].as_str() {
                "--tier" => a.tier = val(),
                "--seed" => a.seed = val().parse().unwrap_or(1),
                "--out" => a.out = Some(val()),
                "--slots" => a.slots = Some(val()),
                "--threads" => a.threads = val().parse().unwrap(),
                "--only" => a.only = Some(val()),
                "--scale" => a.scale = val().parse().unwrap(),
                "--replay" => {
                    // scenario;kind;c,c,c
                    let t = val();
                    let p: Vec<&str> = t.split(';').collect();
                    let cs = p[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                    a.replay = Some((p[0].to_string(), p[1].to_string(), cs));
                }
                x => { eprintln!("unknown argument {}", x); std::process::exit(3) }
            }
            i += 2;
        }
        if cfg!(miri) { a.threads = 1 }
        let slots = Slots::open(a.slots.as_deref().filter(|_| !cfg!(miri)));
        Runner { property, args: a, reports: Vec::new(), violation: None, slots, next_scenario: 0, error: None,
            matched: false, start: Instant::now(), heart: (0..MAX_WORKERS).map(|_| AtomicU64::new(0)).collect() }
    }

    pub fn thorough(&self) -> bool { self.args.tier == "thorough" }
    /// Pick a bound by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }

    fn stop(&self) -> bool { self.violation.is_some() || self.error.is_some() }

    fn wants(&mut self, name: &str) -> bool {
        if self.stop() { return false }
        if let Some((s, _, _)) = &self.args.replay { return s == name }
        if let Some(o) = &self.args.only { return o == name }
        true
    }

    fn run_once<F: Fn(&mut Ctl) -> Res>(c: &mut Ctl, body: &F) -> Outcome {
        c.pos = 0;
        c.dev_used = 0;
        c.stats.execs += 1;
        IN_RUN.with(|r| r.set(true));
        let out = catch_unwind(AssertUnwindSafe(|| body(c)));
        IN_RUN.with(|r| r.set(false));
        match out {
            Ok(Ok(())) => Outcome::Ok,
            Ok(Err(m)) => Outcome::Fail(m),
            Err(p) => match p.downcast::<Divergence>() {
                Ok(d) => Outcome::Diverged(d.0),
                Err(_) => Outcome::Fail(LAST_PANIC.with(|p| p.borrow().clone())),
            },
        }
    }

    fn trace_of<F: Fn(&mut Ctl) -> Res>(choices: &[u32], index: u64, dev_bound: u32, body: &F) -> (Outcome, Vec<String>) {
        let mut c = Ctl::new(dev_bound);
        c.path = choices.to_vec();
        c.index = index;
        c.tracing = true;
        let o = Self::run_once(&mut c, body);
        (o, c.trace)
    }

    fn settle<F: Fn(&mut Ctl) -> Res>(&mut self, name: &str, kind: &'static str, dev_bound: u32, mut fails: Vec<(Vec<u32>, u64, Outcome)>, body: &F) {
        fails.sort_by(|a, b| (a.0.len(), &a.0, a.1).cmp(&(b.0.len(), &b.0, b.1)));
        if let Some((choices, index, o)) = fails.into_iter().next() {
            match o {
                Outcome::Diverged(d) => self.error = Some(format!("{}: nondeterministic harness: {}", name, d)),
                Outcome::Ok => unreachable!(),
                Outcome::Fail(m) => {
                    let (o1, _) = Self::trace_of(&choices, index, dev_bound, body);
                    let (o2, trace) = Self::trace_of(&choices, index, dev_bound, body);
                    let mut note = String::new();
                    match (&o1, &o2) {
                        (Outcome::Fail(a), Outcome::Fail(b)) if a == b && *a == m => {}
                        (Outcome::Fail(a), Outcome::Fail(_)) => { let _ = write!(note, " [replay failed with: {}]", a); }
                        _ => {
                            // the scenarios are deterministic: the code remembers something
                            let m = format!("{} [only after other calls in the same process: alone, choices {:?} index {} hold]", m, choices, index);
                            self.violation = Some(Violation { scenario: name.into(), kind: "run", choices: vec![], message: m, trace: vec![] });
                            return;
                        }
                    }
                    let choices = if kind == "sweep" { vec![(index >> 32) as u32, index as u32] } else { choices };
                    self.violation = Some(Violation { scenario: name.into(), kind, choices, message: m + &note, trace });
                }
            }
        }
    }

    fn replay_here<F: Fn(&mut Ctl) -> Res>(&mut self, name: &str, kind: &'static str, dev_bound: u32, body: &F) {
        let choices = self.args.replay.as_ref().unwrap().2.clone();
        self.matched = true;
        let (path, index) = if kind == "sweep" { (vec![], (choices[0] as u64) << 32 | choices[1] as u64) } else { (choices.clone(), 0) };
        let (o, trace) = Self::trace_of(&path, index, dev_bound, body);
        for t in &trace { println!("  {}", t) }
        match o {
            Outcome::Ok => println!("replay: held"),
            Outcome::Diverged(d) => self.error = Some(d),
            Outcome::Fail(m) => {
                println!("replay: {}", m);
                self.violation = Some(Violation { scenario: name.into(), kind, choices, message: m, trace });
            }
        }
    }

    /// Explore every choice sequence of `body`.
    pub fn dfs<F: Fn(&mut Ctl) -> Res + Sync>(&mut self, name: &str, dev_bound: u32, note: &str, body: F) {
        let sid = self.next_scenario;
        self.next_scenario += 1;
        self.names().lock().unwrap().push(name.to_string());
        self.slots.name(sid, name);
        if !self.wants(name) { return }
        if self.args.replay.is_some() { return self.replay_here(name, "dfs", dev_bound, &body) }
        let t0 = Instant::now();
        // split into prefixes
        let want = self.args.threads * 48;
        let mut queue: std::collections::VecDeque<Vec<u32>> = std::collections::VecDeque::new();
        let mut tasks: Vec<Vec<u32>> = Vec::new();
        queue.push_back(Vec::new());
        let mut fails: Vec<(Vec<u32>, u64, Outcome)> = Vec::new();
        let mut samples: Vec<String> = Vec::new();
        let mut runs = 0;
        while let Some(p) = queue.pop_front() {
            if queue.len() + tasks.len() + 1 >= want || runs > 4000 { tasks.push(p); continue }
            runs += 1;
            let mut c = Ctl::new(dev_bound);
            c.path = p.clone();
            self.slots.set(MAX_WORKERS - 1, sid, 0, &p);
            let o = Self::run_once(&mut c, &body);
            let n = c.arity.get(p.len()).copied();
            match o {
                Outcome::Ok => match n {
                    None => tasks.push(p),
                    Some(n) => for i in 0..n { let mut q = p.clone(); q.push(i); queue.push_back(q) },
                },
                // an execution that fails still has its siblings explored, but one failure is enough
                o => { fails.push((c.path.clone(), 0, o)); break }
            }
        }
        self.slots.clear(MAX_WORKERS - 1);
        let mut total = Stats::default();
        if fails.is_empty() {
            let next = AtomicUsize::new(0);
            let stop = AtomicBool::new(false);
            let out: Mutex<(Stats, Vec<(Vec<u32>, u64, Outcome)>)> = Mutex::new((Stats::default(), Vec::new()));
            let heart = Heart { stop: AtomicBool::new(false) };
            let threads = self.args.threads.min(tasks.len().max(1)).min(MAX_WORKERS - 2);
            for h in &self.heart { h.store(0, Ordering::Relaxed) }
            let work = |w: usize| {
                let mut c = Ctl::new(dev_bound);
                loop {
                    let t = next.fetch_add(1, Ordering::Relaxed);
                    if t >= tasks.len() || stop.load(Ordering::Relaxed) { break }
                    let fixed = tasks[t].len();
                    c.path.clear();
                    c.path.extend_from_slice(&tasks[t]);
                    c.arity.clear();
                    loop {
                        self.slots.set(w, sid, 0, &c.path);
                        let o = Self::run_once(&mut c, &body);
                        self.heart[w].fetch_add(1, Ordering::Relaxed);
                        c.stats.max_depth = c.stats.max_depth.max(c.pos);
                        // drop stale tail (an execution may end early)
                        if !matches!(o, Outcome::Ok) {
                            stop.store(true, Ordering::Relaxed);
                            out.lock().unwrap().1.push((c.path.clone(), 0, o));
                            break;
                        }
                        if c.pos < c.path.len() {
                            stop.store(true, Ordering::Relaxed);
                            out.lock().unwrap().1.push((c.path.clone(), 0, Outcome::Diverged("execution took fewer choices than its prefix".into())));
                            break;
                        }
                        if stop.load(Ordering::Relaxed) { break }
                        // odometer
                        while c.path.len() > fixed {
                            let i = c.path.len() - 1;
                            if c.path[i] + 1 < c.arity[i] { c.path[i] += 1; c.arity.truncate(i + 1); break }
                            c.path.pop();
                            c.arity.pop();
                        }
                        if c.path.len() <= fixed { break }
                    }
                }
                self.slots.clear(w);
                out.lock().unwrap().0.absorb(std::mem::take(&mut c.stats));
            };
            self.parallel(threads, &heart, &work);
            let (s, f) = out.into_inner().unwrap();
            total = s;
            fails = f;
            // a few actual executions, written out
            let picks = [0usize, tasks.len() / 3, tasks.len() * 2 / 3];
            for k in picks {
                if fails.is_empty() && samples.len() < 3 {
                    if let Some(t) = tasks.get(k) {
                        let (_, tr) = Self::trace_of(t, 0, dev_bound, &body);
                        let s = format!("{} {:?}: {}", name, t, tr.join("; "));
                        samples.push(clip(&s, 400));
                    }
                }
            }
            samples.dedup();
        }
        let complete = fails.is_empty();
        self.settle(name, "dfs", dev_bound, fails, &body);
        self.reports.push(Report { name: name.into(), kind: "dfs", note: note.into(), stats: total, wall: t0.elapsed().as_secs_f64(), complete, samples });
    }

    /// Explore every index in `0..total`.
    pub fn sweep<F: Fn(&mut Ctl, u64) -> Res + Sync>(&mut self, name: &str, total: u64, note: &str, body: F) {
        let sid = self.next_scenario;
        self.next_scenario += 1;
        self.names().lock().unwrap().push(name.to_string());
        self.slots.name(sid, name);
        if !self.wants(name) { return }
        let b = |c: &mut Ctl| { let i = c.index; body(c, i) };
        if self.args.replay.is_some() { return self.replay_here(name, "sweep", 0, &b) }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let chunk = (total / (self.args.threads as u64 * 64)).clamp(1, 1 << 16);
        let out: Mutex<(Stats, Vec<(Vec<u32>, u64, Outcome)>)> = Mutex::new((Stats::default(), Vec::new()));
        let heart = Heart { stop: AtomicBool::new(false) };
        for h in &self.heart { h.store(0, Ordering::Relaxed) }
        let threads = self.args.threads.min(MAX_WORKERS - 2);
        let work = |w: usize| {
            let mut c = Ctl::new(0);
            'outer: loop {
                let a = next.fetch_add(chunk, Ordering::Relaxed);
                if a >= total || stop.load(Ordering::Relaxed) { break }
                for i in a..(a + chunk).min(total) {
                    self.slots.set(w, sid, 1, &[(i >> 32) as u32, i as u32]);
                    c.index = i;
                    let o = Self::run_once(&mut c, &b);
                    self.heart[w].fetch_add(1, Ordering::Relaxed);
                    if !matches!(o, Outcome::Ok) {
                        stop.store(true, Ordering::Relaxed);
                        out.lock().unwrap().1.push((Vec::new(), i, o));
                        break 'outer;
                    }
                }
            }
            self.slots.clear(w);
            out.lock().unwrap().0.absorb(std::mem::take(&mut c.stats));
        };
        self.parallel(threads, &heart, &work);
        let (stats, fails) = out.into_inner().unwrap();
        let complete = fails.is_empty();
        let mut samples = Vec::new();
        if complete && total > 0 {
            for i in [total / 5, total / 2, total - 1] {
                let (_, tr) = Self::trace_of(&[], i, 0, &b);
                if !tr.is_empty() { samples.push(clip(&format!("{} #{}: {}", name, i, tr.join("; ")), 300)) }
            }
            samples.dedup();
        }
        self.settle(name, "sweep", 0, fails, &b);
        self.reports.push(Report { name: name.into(), kind: "sweep", note: note.into(), stats, wall: t0.elapsed().as_secs_f64(), complete, samples });
    }

    fn parallel(&self, threads: usize, heart: &Heart, work: &(dyn Fn(usize) + Sync)) {
        if threads <= 1 { return work(0) }
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|w| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || work(w)).unwrap())
                .collect();
            let dog = s.spawn(|| {
                let mut last: Vec<(u64, Instant)> = (0..threads).map(|w| (self.heart[w].load(Ordering::Relaxed), Instant::now())).collect();
                while !heart.stop.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(500));
                    for w in 0..threads {
                        let b = self.heart[w].load(Ordering::Relaxed);
                        if b != last[w].0 { last[w] = (b, Instant::now()) }
                        let active = unsafe { self.slots.base.add(w * SLOT / 4).read_volatile() } == 1;
                        if active && last[w].1.elapsed() > Duration::from_secs(45) {
                            // leave the slots in place: the runner script replays them
                            println!("HANG worker {}", w);
                            std::process::exit(86);
                        }
                    }
                }
            });
            for h in hs { let _ = h.join(); }
            heart.stop.store(true, Ordering::Relaxed);
            dog.thread().unpark();
        });
    }

    fn names(&self) -> &'static Mutex<Vec<String>> {
        static N: Mutex<Vec<String>> = Mutex::new(Vec::new());
        &N
    }

    /// Record a failure found outside of an enumeration (e.g. a fact about the types).
    pub fn fact(&mut self, name: &str, r: Res) {
        self.names().lock().unwrap().push(name.to_string());
        self.next_scenario += 1;
        if !self.wants(name) { return }
        if self.args.replay.is_some() { self.matched = true }
        if let Err(m) = r {
            self.violation = Some(Violation { scenario: name.into(), kind: "fact", choices: vec![], message: m, trace: vec![] });
        }
    }

    pub fn finish(self) -> ! {
        let mut j = String::new();
        let mut s = |k: &str, v: String| { let _ = write!(j, "{}\"{}\":{}", if j.is_empty() { "{" } else { "," }, k, v); };
        s("property", q(self.property));
        s("tier", q(&self.args.tier));
        s("wall_s", format!("{:.3}", self.start.elapsed().as_secs_f64()));
        s("scenario_names", format!("[{}]", self.names().lock().unwrap().iter().map(|n| q(n)).collect::<Vec<_>>().join(",")));
        let mut parts = Vec::new();
        for r in &self.reports {
            let mut tags: Vec<_> = r.stats.tags.iter().collect();
            tags.sort();
            parts.push(format!(
                "{{\"name\":{},\"kind\":\"{}\",\"bound\":{},\"executions\":{},\"transitions\":{},\"states\":{},\"states_capped\":{},\"outcomes\":{},\"nontrivial\":{},\"max_choices\":{},\"complete\":{},\"wall_s\":{:.3},\"tags\":{{{}}},\"samples\":[{}]}}",
                q(&r.name), r.kind, q(&r.note), r.stats.execs, r.stats.steps, r.stats.states.len(), r.stats.states_capped,
                r.stats.outcomes.len(), r.stats.nontrivial, r.stats.max_depth, r.complete, r.wall,
                tags.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(","),
                r.samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")
            ));
        }
        s("scenarios", format!("[{}]", parts.join(",")));
        if let Some(e) = &self.error { s("error", q(e)) }
        if let Some(v) = &self.violation {
            s("violation", format!("{{\"scenario\":{},\"kind\":\"{}\",\"choices\":{:?},\"message\":{},\"trace\":[{}]}}",
                q(&v.scenario), v.kind, v.choices, q(&v.message), v.trace.iter().map(|t| q(&clip(t, 2000))).collect::<Vec<_>>().join(",")));
        }
        j.push('}');
        if let Some(o) = &self.args.out { std::fs::write(o, &j).expect("write report") }
        for r in &self.reports {
            println!("{:<28} execs={} steps={} states={} outcomes={} nontrivial={} {:.2}s{}", r.name, r.stats.execs, r.stats.steps,
                r.stats.states.len(), r.stats.outcomes.len(), r.stats.nontrivial, r.wall, if r.complete { "" } else { " INCOMPLETE" });
        }
        let code = if let Some(e) = &self.error { println!("ERROR {}", e); 2 }
            else if let Some(v) = &self.violation {
                println!("FAILED {} {:?}: {}", v.scenario, v.choices, v.message);
                for t in &v.trace { println!("    {}", clip(t, 600)) }
                1
            } else if self.args.replay.is_some() && !self.matched { println!("ERROR no such scenario"); 2 }
            else { 0 };
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string() }
    let mut k = n;
    while !s.is_char_boundary(k) { k -= 1 }
    format!("{}... ({} bytes)", &s[..k], s.len())
}

/// JSON string literal (ASCII only).
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (' '..='~').contains(&c) => o.push(c),
            c => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { let _ = write!(o, "\\u{:04x}", u); } }
        }
    }
    o.push('"');
    o
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)) } }};
}
