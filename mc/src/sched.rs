//! A controlled scheduler for two real threads.
//!
//! Only one of the two runs at a time. A thread gives up the processor at the
//! points the plan names: at the n-th basic block, load or store it executes
//! (builds with `--cfg mc_sched`, where the compiler calls us at each of them),
//! or where it asks to (`yield_here`). If the thread that is to run is blocked
//! by a lock the waiting one holds, both are let go: that is one more schedule,
//! and the results have to be the same.
use std::cell::{Cell, RefCell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[cfg(all(mc_sched, target_arch = "x86_64"))]
mod points {
    // The countdown of the thread is the only thing touched per point.
    std::arch::global_asm!(r#"
    .section .tbss.mc_count,"awT",@nobits
    .p2align 3
mc_count:
    .zero 8
    .text
    .globl __sanitizer_cov_trace_pc_guard_init
    .globl __sanitizer_cov_trace_pc_guard
    .globl __sanitizer_cov_load1
    .globl __sanitizer_cov_load2
    .globl __sanitizer_cov_load4
    .globl __sanitizer_cov_load8
    .globl __sanitizer_cov_load16
    .globl __sanitizer_cov_store1
    .globl __sanitizer_cov_store2
    .globl __sanitizer_cov_store4
    .globl __sanitizer_cov_store8
    .globl __sanitizer_cov_store16
    .globl mc_set_count
    .globl mc_get_count
__sanitizer_cov_trace_pc_guard_init:
    ret
__sanitizer_cov_trace_pc_guard:
__sanitizer_cov_load1:
__sanitizer_cov_load2:
__sanitizer_cov_load4:
__sanitizer_cov_load8:
__sanitizer_cov_load16:
__sanitizer_cov_store1:
__sanitizer_cov_store2:
__sanitizer_cov_store4:
__sanitizer_cov_store8:
__sanitizer_cov_store16:
    sub qword ptr fs:[mc_count@tpoff], 1
    je 2f
    ret
2:
    sub rsp, 8
    call mc_point
    add rsp, 8
    ret
mc_set_count:
    mov qword ptr fs:[mc_count@tpoff], rdi
    ret
mc_get_count:
    mov rax, qword ptr fs:[mc_count@tpoff]
    ret
"#);
    extern "C" { fn mc_set_count(n: u64); fn mc_get_count() -> u64; }
    pub fn set(n: u64) { unsafe { mc_set_count(n) } }
    pub fn get() -> u64 { unsafe { mc_get_count() } }
    #[no_mangle]
    extern "C" fn mc_point() { super::at_point() }
    pub const ON: bool = true;
}
#[cfg(not(all(mc_sched, target_arch = "x86_64")))]
mod points {
    pub fn set(_: u64) {}
    pub fn get() -> u64 { 0 }
    pub const ON: bool = false;
}
/// Does the compiler call us at every block, load and store?
pub const POINTS: bool = points::ON;
const NEVER: u64 = 1 << 60;
/// How often a thread has been waiting for the other one.
static LOCKS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ME: Cell<(*const Pair, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static MINE: RefCell<Option<Owner>> = const { RefCell::new(None) };
}

pub struct Pair {
    turn: AtomicUsize,
    /// nobody waits any more
    free: AtomicBool,
    done: [AtomicBool; 2],
    seq: AtomicU64,
    quit: AtomicBool,
    /// what is still to be run before each switch; the second thread's job
    plan: UnsafeCell<Vec<u64>>,
    next: UnsafeCell<usize>,
    job: UnsafeCell<Option<Box<dyn FnOnce()>>>,
    switches: AtomicU64,
    blocked: AtomicU64,
    tid: [AtomicUsize; 2],
    /// the second thread has taken its job
    picked: AtomicBool,
}
unsafe impl Send for Pair {}
unsafe impl Sync for Pair {}

struct Owner(Arc<Pair>);
impl Drop for Owner { fn drop(&mut self) { self.0.quit.store(true, SeqCst); } }

impl Pair {
    fn budget(&self) -> u64 {
        unsafe {
            let i = &mut *self.next.get();
            let p = &*self.plan.get();
            let n = p.get(*i).copied().unwrap_or(NEVER);
            *i += 1;
            n.min(NEVER)
        }
    }
    fn wait(&self, me: usize, started: bool) {
        let (mut n, mut since) = (0u32, None);
        while self.turn.load(Acquire) != me {
            if self.free.load(Acquire) || self.done[1 - me].load(Acquire) { return }
            n += 1;
            if n % 64 != 0 { std::hint::spin_loop(); continue }
            if n < 4096 { continue }
            std::thread::yield_now();
            // one that has not started holds nothing the other could wait for
            if !started || n % 1024 != 0 { continue }
            let s = since.get_or_insert_with(Instant::now);
            // is the other one blocked?
            if s.elapsed() > Duration::from_micros(200) {
                *s = Instant::now();
                if !self.stuck(me) { continue }
                self.blocked.fetch_add(1, Relaxed);
                self.free.store(true, SeqCst);
                return;
            }
        }
    }
    /// Does the thread that is to run wait for the waiting one? Asleep it is
    /// for a moment also if the allocator is busy; the holder of a lock like
    /// that one goes on, even if the machine is crowded.
    fn stuck(&self, me: usize) -> bool {
        if !(0..3).all(|_| self.asleep(1 - me)) { return false }
        let long = match LOCKS.load(Relaxed) { 0 => 600, 1..=500 => 4, _ => 0 };
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(long) {
            std::thread::sleep(Duration::from_millis(1));
            if !self.asleep(1 - me) { return false }
        }
        LOCKS.fetch_add(1, Relaxed);
        true
    }
    /// Is the thread asleep, waiting for something?
    fn asleep(&self, who: usize) -> bool {
        std::thread::yield_now();
        if who == 1 && !self.picked.load(Acquire) { return false }
        let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", self.tid[who].load(Acquire))).unwrap_or_default();
        s.rsplit(") ").next().map_or(false, |x| x.starts_with('S'))
    }
    /// Give the processor to the other thread, if it has work left.
    fn switch(&self, me: usize) {
        if self.free.load(Acquire) || self.done[1 - me].load(Acquire) { return }
        self.switches.fetch_add(1, Relaxed);
        self.turn.store(1 - me, Release);
        self.wait(me, true);
    }
}

#[cfg_attr(not(all(mc_sched, target_arch = "x86_64")), allow(dead_code))]
fn at_point() {
    let (p, me) = ME.with(|m| m.get());
    if p.is_null() { return }
    let p = unsafe { &*p };
    p.switch(me);
    points::set(if p.free.load(Acquire) { NEVER } else { p.budget() });
}

/// A place where a thread says that the other one could run now.
pub fn yield_here() {
    let (p, me) = ME.with(|m| m.get());
    if !p.is_null() { unsafe { (*p).switch(me) } }
}

fn tid() -> usize {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).expect("harness: no thread id")
}
/// Do both run freely, as one was blocked by the other?
pub fn freed() -> bool {
    let (p, _) = ME.with(|m| m.get());
    !p.is_null() && unsafe { (*p).free.load(Acquire) }
}

fn second(p: Arc<Pair>) {
    p.tid[1].store(tid(), SeqCst);
    let mut seen = 0;
    let mut idle = Instant::now();
    let mut n = 0u32;
    loop {
        let s = p.seq.load(Acquire);
        if s == seen {
            if p.quit.load(Relaxed) { return }
            n += 1;
            if n < 2000 { std::hint::spin_loop() } else {
                std::thread::yield_now();
                if n % 64 == 0 && idle.elapsed() > Duration::from_millis(20) { std::thread::sleep(Duration::from_micros(200)) }
            }
            continue;
        }
        seen = s;
        n = 0;
        let job = unsafe { (*p.job.get()).take() };
        p.picked.store(true, SeqCst);
        ME.with(|m| m.set((&*p, 1)));
        p.wait(1, false);
        if let Some(j) = job { j() }
        ME.with(|m| m.set((std::ptr::null(), 0)));
        // the last thing: the next run may start now
        p.done[1].store(true, SeqCst);
        idle = Instant::now();
    }
}

/// Run `f` with the countdown armed; what `f` does is subject to the plan.
pub fn armed<T>(f: impl FnOnce() -> T) -> T {
    let (p, _) = ME.with(|m| m.get());
    let n = if p.is_null() { NEVER } else { unsafe { (*p).budget() } };
    points::set(n);
    let r = f();
    points::set(NEVER);
    r
}

/// The number of points `f` passes.
pub fn count(f: impl FnOnce()) -> u64 {
    points::set(NEVER);
    f();
    let n = NEVER - points::get();
    points::set(NEVER);
    n
}

pub struct Ran { pub switches: u64, pub blocked: u64 }

/// Run both: the first one here, the second one in the partner thread. `plan`
/// holds the number of points to the next switch, in the order in which the
/// threads get to run; switching happens at the end of a thread anyway.
pub fn both(plan: &[u64], a: impl FnOnce(), b: impl FnOnce()) -> Ran {
    let pair = MINE.with(|m| m.borrow_mut().get_or_insert_with(|| {
        let p = Arc::new(Pair { turn: AtomicUsize::new(0), free: AtomicBool::new(false), done: [AtomicBool::new(true), AtomicBool::new(true)], seq: AtomicU64::new(0), quit: AtomicBool::new(false),
            plan: UnsafeCell::new(Vec::new()), next: UnsafeCell::new(0), job: UnsafeCell::new(None), switches: AtomicU64::new(0), blocked: AtomicU64::new(0), tid: [AtomicUsize::new(tid()), AtomicUsize::new(0)], picked: AtomicBool::new(false) });
        let q = p.clone();
        std::thread::Builder::new().stack_size(16 << 20).spawn(move || second(q)).expect("thread");
        Owner(p)
    }).0.clone());
    let before = pair.blocked.load(Relaxed);
    pair.switches.store(0, Relaxed);
    unsafe {
        *pair.plan.get() = plan.to_vec();
        *pair.next.get() = 0;
        // the partner is done with the job before this call returns
        let j: Box<dyn FnOnce() + '_> = Box::new(b);
        *pair.job.get() = Some(std::mem::transmute::<Box<dyn FnOnce() + '_>, Box<dyn FnOnce() + 'static>>(j));
    }
    pair.free.store(false, SeqCst);
    pair.picked.store(false, SeqCst);
    pair.done[0].store(false, SeqCst);
    pair.done[1].store(false, SeqCst);
    pair.turn.store(0, SeqCst);
    pair.seq.fetch_add(1, SeqCst);
    ME.with(|m| m.set((&*pair, 0)));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(a));
    ME.with(|m| m.set((std::ptr::null(), 0)));
    pair.done[0].store(true, SeqCst);
    let mut n = 0u32;
    while !pair.done[1].load(Acquire) { n += 1; if n < 2000 { std::hint::spin_loop() } else { std::thread::yield_now() } }
    if let Err(e) = r { std::panic::resume_unwind(e) }
    Ran { switches: pair.switches.load(Relaxed), blocked: pair.blocked.load(Relaxed) - before }
}
