//! C17: writer failures are reported and never corrupt or extend the output.
use json::codegen::Generator;
use json::JsonValue;
use mc::gen::*;
use mc::model::value::*;
use mc::model::*;
use mc::*;
use std::io::{self, ErrorKind, Write};

mc::fast_alloc!();

#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    /// accept everything
    All,
    /// accept at most so many bytes
    Short(usize),
    /// interrupted so many times in a row
    Intr(u32),
    /// an error of this kind
    Err(ErrorKind),
    /// accept so many bytes, fail at the next call
    ShortErr(usize, ErrorKind),
    /// accept nothing
    Zero,
    /// an error of the operating system
    Os(i32),
}

const KINDS: [ErrorKind; 16] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::WriteZero,
    ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::PermissionDenied, ErrorKind::NotFound, ErrorKind::OutOfMemory, ErrorKind::ConnectionReset,
    ErrorKind::AddrInUse, ErrorKind::AlreadyExists, ErrorKind::Unsupported, ErrorKind::ConnectionAborted];

/// The failing output: it keeps what was delivered and everything that
/// happened after it reported an error.
struct Out<D: FnMut(usize, &[u8]) -> F> {
    got: Vec<u8>,
    calls: usize,
    pending: Option<F>,
    failed: Option<F>,
    after: usize,
    decide: D,
    intr: u32,
    vectored: bool,
    flushes: bool,
}

#[derive(Debug)]
struct Mark(usize);
impl std::fmt::Display for Mark { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "mark {}", self.0) } }
impl std::error::Error for Mark {}

impl<D: FnMut(usize, &[u8]) -> F> Out<D> {
    fn new(decide: D) -> Self { Out { got: Vec::new(), calls: 0, pending: None, failed: None, after: 0, decide, intr: 0, vectored: MODE.with(|m| m.get()), flushes: !MODE.with(|m| m.get()) } }
}
impl<D: FnMut(usize, &[u8]) -> F> Write for Out<D> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            if !b.is_empty() { self.after += 1 }
            // from now on it would take anything
            self.got.extend_from_slice(b);
            return Ok(b.len());
        }
        if self.intr > 0 { self.intr -= 1; return Err(ErrorKind::Interrupted.into()) }
        if b.is_empty() { return Ok(0) }
        let f = match self.pending.take() { Some(f) => f, None => { let c = self.calls; self.calls += 1; (self.decide)(c, b) } };
        match f {
            F::All => { self.got.extend_from_slice(b); Ok(b.len()) }
            F::Short(k) => { let n = k.min(b.len()); self.got.extend_from_slice(&b[..n]); Ok(n) }
            F::Intr(n) => { self.intr = n - 1; Err(ErrorKind::Interrupted.into()) }
            F::Err(k) => { self.failed = Some(f); Err(io::Error::new(k, Mark(self.got.len()))) }
            F::Os(n) => { self.failed = Some(f); Err(io::Error::from_raw_os_error(n)) }
            F::Zero => { self.failed = Some(f); Ok(0) }
            F::ShortErr(k, e) => {
                let n = k.min(b.len());
                self.got.extend_from_slice(&b[..n]);
                self.pending = Some(F::Err(e));
                Ok(n)
            }
        }
    }
    // takes several slices in one call
    fn write_vectored(&mut self, s: &[io::IoSlice<'_>]) -> io::Result<usize> {
        if self.vectored { let all: Vec<u8> = s.iter().flat_map(|s| s.iter().copied()).collect(); self.write(&all) } else { self.write(s.iter().find(|s| !s.is_empty()).map_or(&[][..], |s| &s[..])) }
    }
    // whether or not this is called, what was accepted was accepted
    fn flush(&mut self) -> io::Result<()> { if self.flushes { Ok(()) } else { Err(io::Error::new(ErrorKind::Unsupported, "cannot flush")) } }
}

thread_local! {
    /// whether the output takes several slices at once and cannot flush
    static MODE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// On an ordinary output and on one that takes several slices at once.
fn both(mut f: impl FnMut() -> Res) -> Res {
    MODE.with(|m| m.set(false));
    f()?;
    MODE.with(|m| m.set(true));
    let r = f();
    MODE.with(|m| m.set(false));
    r.map_err(|e| format!("output with write_vectored, without flush: {}", e))
}

struct User<'a, W: Write>(&'a mut W);
impl<'a, W: Write> Generator for User<'a, W> {
    type T = W;
    fn get_writer(&mut self) -> &mut W { self.0 }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> { self.0.write_all(&[min]) }
}

/// 0: compact, 1: a user's generator, 2 and more: pretty with route - 2 spaces.
fn send<W: Write>(v: &JsonValue, route: usize, w: &mut W) -> io::Result<()> {
    match route { 0 => v.write(w), 1 => User(w).write_json(v), n => v.write_pretty(w, n as u16 - 2) }
}

struct Case { v: JsonValue, before: RV, full: Vec<Vec<u8>> }
const ROUTES: [usize; 4] = [0, 1, 2, 4];
impl Case {
    fn new(t: &RV) -> Case {
        let v = build(t);
        let full = vec![v.dump().into_bytes(), v.dump().into_bytes(), v.pretty(0).into_bytes(), v.pretty(2).into_bytes()];
        Case { before: view(&v), v, full }
    }
}

/// Serialize once under the plan and judge everything. Returns the number of
/// calls made.
fn run<D: FnMut(usize, &[u8]) -> F>(c: &mut Ctl, case: &Case, ri: usize, d: D) -> Result<usize, String> {
    let full = &case.full[ri];
    let mut o = Out::new(d);
    let r = send(&case.v, ROUTES[ri], &mut o);
    c.steps(o.calls as u64 + 1);
    let at = o.got.iter().zip(full).take_while(|(a, b)| a == b).count();
    let what = || format!("route {} of {}", ["write", "a user's generator", "write_pretty(0)", "write_pretty(2)"][ri], q(&clip(&case.v.dump(), 120)));
    if o.after > 0 { return Err(format!("{}: {} writes after the output failed with {:?}", what(), o.after, o.failed)) }
    if at < o.got.len() { return Err(format!("{}: delivered {} is no prefix, it differs from byte {} on (call {}; failed {:?})", what(), q(&clip(&String::from_utf8_lossy(&o.got), 300)), at, o.calls, o.failed)) }
    match (r, o.failed) {
        (Ok(()), None) => if o.got.len() != full.len() { return Err(format!("{}: success with {} of {} bytes delivered", what(), o.got.len(), full.len())) },
        (Ok(()), Some(f)) => return Err(format!("{}: success although the output failed with {:?} after {} of {} bytes", what(), f, o.got.len(), full.len())),
        (Err(e), None) => return Err(format!("{}: error {:?} although the output never failed", what(), e)),
        (Err(e), Some(f)) => {
            let good = match f {
                F::Err(k) => e.kind() == k && e.get_ref().and_then(|x| x.downcast_ref::<Mark>()).map(|m| m.0) == Some(o.got.len()),
                F::Os(n) => e.raw_os_error() == Some(n),
                F::Zero => e.kind() == ErrorKind::WriteZero,
                _ => false,
            };
            if !good { return Err(format!("{}: the output failed with {:?} after {} bytes, reported is {:?}", what(), f, o.got.len(), e)) }
        }
    }
    if view(&case.v) != case.before { return Err(format!("{}: the value changed", what())) }
    Ok(o.calls)
}

/// Every fault kind at every call, and at every byte.
fn faults(c: &mut Ctl, case: &Case, kinds: &[F], bytes: bool) -> Res { both(|| faults_(c, case, kinds, bytes)) }
fn faults_(c: &mut Ctl, case: &Case, kinds: &[F], bytes: bool) -> Res {
    for ri in 0..ROUTES.len() {
        let n = run(c, case, ri, |_, _| F::All)?;
        for k in 0..n {
            for f in kinds {
                c.nontrivial();
                c.stats.checks += 1;
                run(c, case, ri, |i, _| if i == k { *f } else { F::All })?;
            }
        }
        if bytes {
            for b in 0..case.full[ri].len() {
                c.nontrivial();
                // space for b bytes only
                let mut left = b;
                run(c, case, ri, |_, s| if s.len() <= left { left -= s.len(); F::All } else if left == 0 { F::Err(ErrorKind::Other) } else { F::ShortErr(left, ErrorKind::WouldBlock) })?;
                let mut left = b;
                run(c, case, ri, |_, s| if left == 0 { F::Zero } else { let t = left.min(s.len()); left -= t; F::Short(t) })?;
            }
        }
    }
    Ok(())
}

fn samples() -> Vec<RV> {
    let mut v = leaves();
    v.push(RV::Nan);
    // every form of a number
    for (m, e) in [(1u64, 0i64), (u64::MAX, 0), (5, -1), (12345, -3), (12345, -5), (12345, -9), (12345, -17), (12345, -18), (12345, -40), (12345, -32768), (1, -18), (9, -400), (7, 3), (7, 19), (7, 20), (12345, 25), (1, 32767), (u64::MAX, 32767), (u64::MAX, -32768), (u64::MAX, -5), (0, 0), (10, 5)] {
        v.push(RV::d(false, m, e));
        v.push(RV::d(true, m, e));
    }
    for s in ["\"", "\\", "\n", "\u{0}", "\u{1f}", "a\u{1}", "\u{1}b", "a\u{1}b\u{2}c", "\u{7f}\u{e9}\u{1F600}", "\"\"\"", "x\ty\u{8}\u{c}\r", "plain", "\u{e9}\n\u{20ac}\u{3}\u{10348}"] { v.push(RV::s(s)) }
    v.push(RV::Str(text_of_len(31)));
    v.push(RV::Str(format!("{}\u{5}{}\"", ascii_of_len(40), text_of_len(40))));
    let objs = vec![
        RV::Arr(vec![]), RV::Obj(vec![]), RV::Arr(vec![RV::Arr(vec![]), RV::Obj(vec![])]),
        RV::Obj(vec![("".into(), RV::Null)]), RV::Obj(vec![("a\u{1}b".into(), RV::s("c\u{2}d")), ("e\"".into(), RV::Arr(vec![RV::s("\n"), RV::d(true, 15, -30)]))]),
        RV::Obj(vec![("a".into(), RV::Obj(vec![("b".into(), RV::Obj(vec![("c".into(), RV::Arr(vec![RV::i(1), RV::i(-2)]))])), ("d".into(), RV::Bool(true))])), ("e".into(), RV::Obj(vec![]))]),
        RV::Arr(vec![RV::Obj(vec![("k".into(), RV::Arr(vec![RV::s("\u{1}"), RV::Bool(false), RV::Null])), (text_of_len(40), RV::d(false, 12345, -3))]), RV::Arr(vec![RV::Arr(vec![RV::Arr(vec![RV::i(0)])])])]),
    ];
    v.extend(objs);
    v
}

fn main() {
    let mut r = Runner::new("C17");
    let mut kinds: Vec<F> = KINDS.iter().map(|k| F::Err(*k)).collect();
    kinds.extend([F::Zero, F::Intr(1), F::Intr(3), F::Short(1), F::Short(2), F::Short(3), F::ShortErr(1, ErrorKind::Other), F::ShortErr(2, ErrorKind::BrokenPipe), F::Os(4000), F::Os(28), F::Os(32)]);
    let sv = samples();
    r.sweep("single faults", sv.len() as u64, "every kind of value x 4 routes x 2 kinds of outputs (plain; taking several slices at once and unable to flush) x every call of the output x 27 faults, and every amount of space with short writes before the error", |c, i| {
        let case = Case::new(&sv[i as usize]);
        c.visit_bytes(&case.full[0]);
        faults(c, &case, &kinds, true)?;
        faults(c, &Case { v: build_as(&sv[i as usize], Style::Heap), before: case.before.clone(), full: case.full.clone() }, &kinds[..3], false)
    });
    let (lv, keys) = ([RV::Null, RV::d(true, 25, -20), RV::s("x\u{7}"), RV::s("k")], ["a", "\u{1}"]);
    let few = [F::Err(ErrorKind::Other), F::Err(ErrorKind::WouldBlock), F::Zero, F::Intr(2), F::Short(1), F::ShortErr(1, ErrorKind::BrokenPipe), F::Os(28)];
    let b = r.by(4, 5);
    r.dfs("trees", 0, "all trees of up to 4 (5) further nodes x 4 routes x 2 kinds of outputs (plain; taking several slices at once and unable to flush) x every call x 7 faults, and every amount of space", |c| {
        let mut b = b;
        let t = tree(c, &mut b, 4, &lv, &keys);
        c.log(|| show(&t));
        c.visit_bytes(build(&t).dump().as_bytes());
        faults(c, &Case::new(&t), &few, true)
    });
    // several faults in one serialization
    let small = [RV::Arr(vec![RV::s("a\u{1}"), RV::d(true, 15, -1)]), RV::Obj(vec![("k\n".into(), RV::Arr(vec![RV::Bool(true), RV::d(false, 3, 25)]))]),
        RV::d(true, 12345, -20), RV::s("\u{1}x\u{2}"), RV::Obj(vec![("a".into(), RV::Obj(vec![])), ("b".into(), RV::Null)])];
    let db = r.by(4, 5);
    let sc: Vec<Case> = small.iter().map(Case::new).collect();
    r.dfs("several faults", db, "5 values x 4 routes x 2 kinds of outputs (plain; taking several slices at once and unable to flush): every plan with up to 4 (5) deviations among interrupted, short by one, one byte only, error, no space, at any calls", |c| {
        let k = c.choose(sc.len());
        let ri = c.choose(ROUTES.len());
        let mode = c.flag();
        MODE.with(|m| m.set(mode));
        c.nontrivial();
        // the plan is drawn call by call
        let cell = std::cell::RefCell::new(std::mem::take(&mut c.trace));
        let tracing = c.tracing;
        let p: *mut Ctl = c;
        let mut stats = 0u64;
        let res = {
            let d = |i: usize, s: &[u8]| {
                // the closure is the only user of the controller while the code runs
                let c = unsafe { &mut *p };
                let f = match c.deviate(6) { 0 => F::All, 1 => F::Intr(1), 2 => F::Short(s.len().saturating_sub(1).max(1)), 3 => F::Short(1), 4 => F::Err(ErrorKind::TimedOut), _ => F::Zero };
                if tracing { cell.borrow_mut().push(format!("call {} with {} bytes: {:?}", i, s.len(), f)) }
                f
            };
            let full = &sc[k];
            let mut dummy = d;
            judge_raw(full, ri, &mut dummy, &mut stats)
        };
        MODE.with(|m| m.set(false));
        c.trace = cell.into_inner();
        c.steps(stats);
        res
    });
    // long outputs: a fault near every place where a buffer could end
    let long = [RV::Arr((0..700).map(|i| RV::i(i * 37)).collect()), RV::Str(text_of_len(5000)), RV::Str(format!("{}\u{1}{}", ascii_of_len(3000), ascii_of_len(6000))),
        RV::Obj((0..200).map(|i| (format!("key{}", i), RV::Str(ascii_of_len(i)))).collect()),
        RV::Arr(vec![RV::Str(ascii_of_len(9000)), RV::Str(text_of_len(9000)), RV::d(false, 1, -100)])];
    let lc: Vec<Case> = long.iter().map(Case::new).collect();
    r.sweep("long outputs", 5 * 4 * 600, "5 long values x 4 routes x 2 kinds of outputs (plain; taking several slices at once and unable to flush): space for the first 300 byte counts, for those around every multiple of 1024 and for those before the end; then refusing or no space", |c, i| {
        let (k, ri, j) = (i as usize / 2400, i as usize / 600 % 4, i as usize % 600);
        let n = lc[k].full[ri].len();
        let b = if j < 200 { j } else if j < 400 { (n - 1).saturating_sub(j - 200) } else { ((j - 400) / 10 + 1) * 1024 + (j - 400) % 10 - 5 };
        if b >= n { return Ok(()) }
        c.nontrivial();
        both(|| {
        let mut left = b;
        run(c, &lc[k], ri, |_, s| if s.len() <= left { left -= s.len(); F::All } else if left == 0 { F::Err(ErrorKind::PermissionDenied) } else { F::ShortErr(left, ErrorKind::Other) })?;
        let mut left = b;
        run(c, &lc[k], ri, |_, s| if left == 0 { F::Zero } else { let t = left.min(s.len()).min(100); left -= t; F::Short(t) })?;
        // at some call, counted
        run(c, &lc[k], ri, |q, _| if q == j { F::Err(ErrorKind::Other) } else { F::All })?;
        Ok(())
        })
    });
    r.sweep("all calls disturbed", 5 * 4 * 12 + sv.len() as u64 * 4 * 12, "every call short by a fixed pattern and interrupted before: the output is complete", |c, i| {
        let (x, ri, p) = (i as usize / 48, i as usize / 12 % 4, i as usize % 12);
        let own;
        let case = if x < 5 { &lc[x] } else { own = Case::new(&sv[x - 5]); &own };
        c.nontrivial();
        both(|| run(c, case, ri, |q, s| {
            let k = [1, 2, 3, 7, 64, 1000][p % 6];
            if p >= 6 && q % 2 == 0 { F::Intr(1 + q as u32 % 3) } else { F::Short(k.min(s.len())) }
        }).map(|_| ()))
    });
    // failures leave nothing behind: the next serialization is complete
    r.dfs("sequences", 0, "every history of 3 serializations of 5 values, each succeeding or failing at one of 8 calls: the outcome of each depends on its own output only", |c| {
        c.nontrivial();
        for _ in 0..3 {
            let k = c.choose(sc.len());
            let ri = [0, 3][c.choose(2)];
            let at = c.choose(5);
            c.log(|| format!("value {} route {} failing at call {}", k, ri, [0, 1, 3, 6, 1000][at]));
            run(c, &sc[k], ri, |i, _| if i == [0, 1, 3, 6, 1000][at] { F::Err(ErrorKind::BrokenPipe) } else { F::All })?;
        }
        Ok(())
    });
    r.finish()
}

/// `run` for plans that use the controller themselves.
fn judge_raw(case: &Case, ri: usize, d: &mut dyn FnMut(usize, &[u8]) -> F, steps: &mut u64) -> Res {
    let full = &case.full[ri];
    let mut o = Out::new(|i: usize, s: &[u8]| d(i, s));
    let r = send(&case.v, ROUTES[ri], &mut o);
    *steps += o.calls as u64;
    if o.after > 0 { return Err(format!("{} writes after the output failed", o.after)) }
    if !full.starts_with(&o.got) { return Err(format!("delivered {} is no prefix of {}", q(&String::from_utf8_lossy(&o.got)), q(&String::from_utf8_lossy(full)))) }
    match (&r, o.failed) {
        (Ok(()), None) if o.got.len() == full.len() => {}
        (Err(e), Some(F::Err(k))) if e.kind() == k && e.get_ref().and_then(|x| x.downcast_ref::<Mark>()).map(|m| m.0) == Some(o.got.len()) => {}
        (Err(e), Some(F::Zero)) if e.kind() == ErrorKind::WriteZero => {}
        _ => return Err(format!("result {:?}, output failed {:?}, {} of {} bytes delivered", r, o.failed, o.got.len(), full.len())),
    }
    if view(&case.v) != case.before { return Err("the value changed".into()) }
    Ok(())
}
