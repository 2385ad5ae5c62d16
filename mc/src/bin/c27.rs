//! C27: calls from several threads never influence each other.
use json::number::Number;
use json::object::Object;
use json::short::Short;
use json::JsonValue;
use mc::gen::*;
use mc::model::*;
use mc::sched::*;
use mc::*;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::io::{self, Write};
use std::sync::Mutex;

mc::fast_alloc!();

/// Handed between threads whatever the type says; what it says is judged apart.
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}
impl<T> Any<T> { fn get(&self) -> &T { &self.0 } }

/// What a call gave; looked at after the threads are through.
enum Out { V(JsonValue), R(json::Result<JsonValue>), S(String), O(Object), B(bool), T(Vec<String>), F(Vec<f64>), I(Option<i64>), W(Vec<u8>) }
impl Out {
    fn text(&self) -> String {
        match self {
            Out::V(v) => format!("{:?}", view(v)),
            Out::R(Ok(v)) => format!("{:?}", view(v)),
            Out::R(Err(e)) => format!("{:?}", e),
            Out::S(s) => s.clone(),
            Out::O(o) => format!("{:?}", o.iter().map(|(k, v)| (k, view(v))).collect::<Vec<_>>()),
            Out::B(b) => b.to_string(),
            Out::T(t) => format!("{:?}", t),
            Out::F(f) => format!("{:?}", f.iter().map(|x| x.to_bits()).collect::<Vec<_>>()),
            Out::I(i) => format!("{:?}", i),
            Out::W(w) => String::from_utf8_lossy(w).into_owned(),
        }
    }
}

/// What an operation works on: a value of the thread's own, and one shared.
/// The two threads make the same calls with different data (`k`).
struct World { k: usize, own: JsonValue, shared: &'static Any<JsonValue> }
struct Op { name: &'static str, run: fn(&mut World, usize) -> Out, want: [String; 2] }

const LONG: [&str; 2] = ["a key of more than thirty-two bytes", "A KEY OF MORE THAN THIRTY-TWO BYTES"];
const A: [&str; 2] = ["a", "b"];
const O: [&str; 2] = ["o", "p"];
const S: [&str; 2] = ["x\n", "y\t"];
const T: [&str; 2] = ["\u{e9}", "\u{20ac}"];

fn model(k: usize) -> RV {
    RV::Obj(vec![(A[k].into(), RV::i(k as i64 + 1)), (COLLIDE[k].into(), RV::Arr(vec![RV::Null, RV::Bool(k == 0), RV::s(S[k]), RV::d(true, [125, 375][k], -3)])), (COLLIDE[1 - k].into(), RV::s(T[k])),
        (LONG[k].into(), RV::Str(text_of_len(35 + k))), (O[k].into(), RV::Obj(vec![("p".into(), RV::Nan)]))])
}
fn members(k: usize) -> Vec<(String, RV)> { let RV::Obj(o) = model(k) else { unreachable!() }; o }

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    macro_rules! op { ($name:expr, $w:ident, $k:ident, $run:expr, $want:expr) => { v.push(Op { name: $name, run: { fn f($w: &mut World, $k: usize) -> Out { let _ = (&$w, $k); $run } f }, want: { let f = |$k: usize| -> String { let _ = $k; $want }; [f(0), f(1)] } }) } }
    macro_rules! parses { ($t:expr, $u:expr) => { op!(concat!("parse ", $t), w, k, Out::R(json::parse([$t, $u][k])), format!("{:?}", ref_parse([$t, $u][k]).unwrap_or_else(|_| panic!("harness")))) } }
    macro_rules! dumps { ($name:expr, $t:expr, $u:expr) => { op!($name, w, k, { let (s, m, e) = [$t, $u][k]; Out::S(Number::from_parts(s, m, e).to_string()) }, { let (s, m, e) = [$t, $u][k]; crate::number_text(s, m, e) }) } }
    parses!("1", "2");
    parses!("[]", "{}");
    parses!("{\"a\":1}", "{\"b\":2}");
    parses!("{\"a\":1,\"b\":2,\"a\":3}", "{\"c\":4,\"a\":5,\"c\":6}");
    parses!("\"x\\n\\u00e9\"", "\"y\\t\\u00fc\"");
    parses!("-12.5e3", "45.75E-2");
    op!("parse 123456789012345678901", w, k, Out::B(json::parse(["123456789012345678901", "987654321098765432109"][k]).map(|v| v == [Number::from_parts(true, 12345678901234567890, 1), Number::from_parts(true, 9876543210987654321, 2)][k]).unwrap_or(k == 1)), "true".into());
    parses!("[[{\"k\":[]}],true,null]", "[[{\"l\":{}}],false,[]]");
    parses!("[\"\\u0041 string of more than thirty bytes\\t\",\"\\uD83D\\uDE00\"]", "[\"\\u0042 STRING OF MORE THAN THIRTY BYTES\\n\",\"\\uD83D\\uDE01\"]");
    parses!("{\"a\\n\":\"b\\t\",\"c\":{\"\\\"\":2}}", "{\"d\\t\":\"e\\n\",\"f\":{\"\\\\\":3}}");
    op!("parse [1,}", w, k, Out::R(json::parse(["[1,}", "\n[22;"][k])), ["UnexpectedCharacter { ch: '}', line: 1, column: 4 }", "UnexpectedCharacter { ch: ';', line: 2, column: 4 }"][k].into());
    op!("parse \"ab", w, k, Out::R(json::parse(["\"ab", "{\"a\":"][k])), "UnexpectedEndOfJson".into());
    op!("parse \\n tru!", w, k, Out::R(json::parse(["\n tru!", "nulx"][k])), ["UnexpectedCharacter { ch: '!', line: 2, column: 5 }", "UnexpectedCharacter { ch: 'x', line: 1, column: 4 }"][k].into());
    op!("dump own", w, k, Out::S(w.own.dump()), ser::dump(&model(k)));
    op!("pretty own", w, k, Out::S(w.own.pretty(2 + k as u16)), ser::pretty(&model(k), 2 + k));
    op!("write own", w, k, { let mut o = Vec::new(); w.own.write(&mut o).unwrap(); Out::W(o) }, ser::dump(&model(k)));
    op!("write pretty", w, k, { let mut o = Vec::new(); w.own.write_pretty(&mut o, 1 + k as u16).unwrap(); Out::W(o) }, ser::pretty(&model(k), 1 + k));
    op!("object dump", w, k, { let JsonValue::Object(ref o) = w.own else { return Out::B(false) }; Out::T(vec![o.dump(), o.pretty(k as u16)]) }, format!("{:?}", [ser::dump(&model(k)), ser::pretty(&model(k), k)]));
    op!("dump text", w, k, Out::S(JsonValue::from(["q\"\\\u{1}\u{e9}\n", "r\\\"\u{1f}\u{fc}\r"][k]).dump()), ["\"q\\\"\\\\\\u0001\u{e9}\\n\"", "\"r\\\\\\\"\\u001f\u{fc}\\r\""][k].into());
    op!("dump long text", w, k, Out::S(JsonValue::from(LONG[k]).dump()), format!("\"{}\"", LONG[k]));
    dumps!("print 0", (true, 0, 0), (false, 0, 3));
    dumps!("print 7", (true, 7, 0), (false, 8, 0));
    dumps!("print 18446744073709551615", (true, u64::MAX, 0), (false, 12345678901234567890, 0));
    dumps!("print 12345.678", (true, 12345678, -3), (false, 98765432, -3));
    dumps!("print 0.00025", (true, 25, -5), (false, 375, -6));
    dumps!("print 12345678901234567.890", (true, 12345678901234567890, -17), (false, 9876543210987654321, -16));
    dumps!("print 1.25e-38", (true, 125, -40), (false, 3755, -43));
    dumps!("print 7e-40", (true, 7, -40), (false, 3, -41));
    dumps!("print 1.2345678901234567890e0", (true, 12345678901234567890, -19), (false, 9876543210987654321, -18));
    dumps!("print 12e5", (true, 12, 5), (false, 34, 6));
    dumps!("print 1.2e31", (true, 12, 30), (false, 345, 40));
    dumps!("print 5e300", (true, 5, 300), (false, 6, 301));
    op!("from floats", w, k, Out::T([[0.1, 1e22, -0.375, 5e-324], [0.2, 1e21, -0.625, 1.7e308]][k].iter().map(|x| JsonValue::from(*x).dump()).collect()), [format!("{:?}", ["0.1", "1e22", "-0.375", "5e-324"]), format!("{:?}", ["0.2", "1e21", "-0.625", "1.7e308"])][k].clone());
    op!("to floats", w, k, Out::F(vec![f64::from(Number::from_parts(true, [125, 375][k], -2)), f64::from(Number::from_parts(false, 1 + k as u64, 22)), JsonValue::from([1.1, 1.2][k]).as_f64().unwrap(), f64::from(Number::from_parts(true, 3, [50, -50][k])), f32::from(Number::from_parts(true, [125, 375][k], -3)) as f64]), format!("{:?}", [(if k == 0 { 1.25f64 } else { 3.75f64 }).to_bits(), (if k == 0 { -1e22f64 } else { -2e22f64 }).to_bits(), (if k == 0 { 1.1f64 } else { 1.2f64 }).to_bits(), (if k == 0 { 3e50f64 } else { 3e-50f64 }).to_bits(), (if k == 0 { 0.125f64 } else { 0.375f64 }).to_bits()]));
    op!("fixed point", w, k, Out::I(JsonValue::from([-12.34, 56.78][k]).as_fixed_point_i64(2 + k as u16)), ["Some(-1234)", "Some(56780)"][k].into());
    op!("to integer", w, k, Out::I(i64::try_from(Number::from_parts(k == 1, 77 + k as u64, 0)).ok()), ["Some(-77)", "Some(78)"][k].into());
    op!("compare numbers", w, k, Out::B(if k == 0 { Number::from_parts(true, 100, -2) == Number::from_parts(true, 1, 0) && JsonValue::from(2) == 2u8 && JsonValue::from(2.5) != 2.25 } else { Number::from_parts(true, 1, 2) == 100 && Number::from_parts(true, 1, 2) != Number::from_parts(true, 1, 3) && JsonValue::from(3.5) == 3.5 }), "true".into());
    op!("insert", w, k, { let mut o = Object::new(); o.insert(COLLIDE[k], 1.into()); o.insert(LONG[k], 2.into()); o.insert(COLLIDE[1 - k], 3.into()); o.insert(COLLIDE[k], (4 + k).into()); o.insert("", JsonValue::Null); Out::O(o) }, format!("{:?}", [(COLLIDE[k], RV::i(4 + k as i64)), (LONG[k], RV::i(2)), (COLLIDE[1 - k], RV::i(3)), ("", RV::Null)]));
    op!("insert one", w, k, { let mut o = Object::new(); o.insert(A[k], (k + 1).into()); Out::B(o[A[k]] == k + 1 && o[A[1 - k]].is_null()) }, "true".into());
    op!("remove", w, k, { let mut x = w.own.clone(); x.remove(COLLIDE[k]); x.remove(A[k]); x.remove("none"); Out::V(x) }, format!("{:?}", RV::Obj(members(k)[2..].to_vec())));
    op!("look up", w, k, Out::B(w.own[A[k]] == 1 + k && w.own[COLLIDE[1 - k]] == T[k] && w.own[O[k]]["p"].is_number() && w.own["no"]["such"][3].is_null() && w.own[COLLIDE[k]][2] == S[k] && w.own[A[1 - k]].is_null()), "true".into());
    op!("clone", w, k, { let c = w.own.clone(); let d = c.clone(); drop(c); Out::V(d) }, format!("{:?}", model(k)));
    op!("compare", w, k, { let c = w.own.clone(); Out::B(c == w.own && w.own == w.own && (w.own == *w.shared.get()) == (k == 0)) }, "true".into());
    op!("iterate", w, k, { let mut t = Vec::new(); for (k, v) in w.own.entries() { t.push(k.to_string()); for x in v.members().rev() { t.push(x.to_string()) } } Out::T(t) }, format!("{:?}", [A[k], COLLIDE[k], ["-0.125", "-0.375"][k], S[k], ["true", "false"][k], "null", COLLIDE[1 - k], LONG[k], O[k]]));
    op!("array calls", w, k, { let mut a = json::array![1 + k, "two", null]; a.push(4.5 + k as f64).unwrap(); a.array_remove(1); let p = a.pop(); a[1] = "s".into(); a[9] = p; let t = a[0].take(); a.push(t).unwrap(); Out::V(a) }, format!("{:?}", RV::Arr(vec![RV::Null, RV::s("s"), RV::d(false, 45 + 10 * k as u64, -1), RV::i(1 + k as i64)])));
    op!("text calls", w, k, { let x = ["short", "TEXTS"][k]; let mut s = JsonValue::from(x); let t = s.take_string().unwrap(); let mut l = JsonValue::String(text_of_len(31 + k)); l.clear(); let u = JsonValue::from(t.as_str()); Out::B(s.is_null() && l == "" && u == x && u == t && u.as_str() == Some(x)) }, "true".into());
    op!("build", w, k, { let mut o = json::object!{ a: [k, { b: null }], [A[k]]: "d" }; o["e"][LONG[k]] = 1.into(); Out::V(o) }, format!("{:?}", { let mut o = vec![("a".into(), RV::Arr(vec![RV::i(k as i64), RV::Obj(vec![("b".into(), RV::Null)])]))]; if k == 0 { o[0].1 = RV::s("d") } else { o.push(("b".into(), RV::s("d"))) } o.push(("e".into(), RV::Obj(vec![(LONG[k].into(), RV::i(1))]))); RV::Obj(o) }));
    op!("convert", w, k, { let h: HashMap<&str, Option<u8>> = [(A[k], Some(200 + k as u8))].into_iter().collect(); Out::V(JsonValue::from(vec![JsonValue::from(h), JsonValue::from(Some(S[k]))])) }, format!("{:?}", RV::Arr(vec![RV::Obj(vec![(A[k].into(), RV::i(200 + k as i64))]), RV::s(S[k])])));
    op!("display", w, k, Out::T(vec![format!("{}", w.own), format!("{:#}", w.own[COLLIDE[k]]), w.own[COLLIDE[1 - k]].to_string()]), format!("{:?}", [ser::dump(&model(k)), ser::pretty(&members(k)[1].1, 4), T[k].to_string()]));
    op!("round trip", w, k, Out::R(json::parse(&w.own.dump())), format!("{:?}", { let mut o = members(k); o[4].1 = RV::Obj(vec![("p".into(), RV::Null)]); RV::Obj(o) }));
    // one value, read by both
    op!("shared: look up", w, k, { let s = w.shared.get(); Out::B(if k == 0 { s["a"] == 1 && s[COLLIDE[0]][3] == -0.125 && s["no"][7].is_null() && s.has_key("o") } else { s[COLLIDE[1]] == "\u{e9}" && !s.has_key("p") && s.len() == 5 && s[LONG[0]].as_str().map(|x| x.len()) == Some(35) }) }, "true".into());
    op!("shared: dump", w, k, Out::S(w.shared.get().dump()), ser::dump(&model(0)));
    op!("shared: pretty", w, k, { let mut o = Vec::new(); w.shared.get().write_pretty(&mut o, 3 - k as u16).unwrap(); Out::W(o) }, ser::pretty(&model(0), 3 - k));
    op!("shared: clone", w, k, Out::V(w.shared.get().clone()), format!("{:?}", model(0)));
    op!("shared: compare", w, k, { let s = w.shared.get(); Out::B((*s == w.own) == (k == 0) && (w.own == *s) == (k == 0) && s[COLLIDE[0]] != s["o"]) }, "true".into());
    op!("shared: iterate", w, k, { let s = w.shared.get(); let mut t = Vec::new(); for (k, v) in s.entries().rev() { t.push(k.to_string()); for x in v.members() { t.push(x.to_string()) } } Out::T(t) }, format!("{:?}", ["o", LONG[0], COLLIDE[1], COLLIDE[0], "null", "true", "x\n", "-0.125", "a"]));
    op!("shared: numbers", w, k, { let s = w.shared.get(); Out::B(if k == 0 { s["a"].as_u8() == Some(1) && s["a"].as_f64() == Some(1.0) && s["a"].as_str().is_none() } else { s[COLLIDE[0]][3].as_fixed_point_i64(3) == Some(-125) && s[COLLIDE[0]].contains("x\n") && !s[COLLIDE[0]].contains(5) }) }, "true".into());
    v
}

/// The text of a number as alone in the first thread; what it has to denote is
/// judged elsewhere.
/// In a process of its own, as nothing here may use the library before the
/// first use is explored.
fn number_text(s: bool, m: u64, e: i16) -> String { iso::isolated(|| Number::from_parts(s, m, e).to_string()).expect("harness") }

fn guarded(op: &Op, w: &mut World) -> Result<Out, String> {
    let k = w.k;
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| armed(|| (op.run)(w, k)))).map_err(|e| format!("panic {:?}", e.downcast_ref::<String>()))
}
fn judge(op: &Op, k: usize, r: Result<Out, String>, who: &str) -> Res {
    let got = match &r { Ok(o) => o.text(), Err(e) => e.clone() };
    if got != op.want[k] { return Err(format!("{}: {} ({}) gives {}, expected {}", who, op.name, k, q(&clip(&got, 300)), q(&clip(&op.want[k], 300)))) }
    Ok(())
}

/// Is a type Send, Sync? An inherent constant wins over the trait's.
macro_rules! is { ($t:ty) => {{
    #[allow(dead_code)]
    trait No { const IS: bool = false; }
    #[allow(dead_code)]
    struct A<T: ?Sized>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    struct B<T: ?Sized>(std::marker::PhantomData<T>);
    impl<T: ?Sized> No for A<T> {}
    impl<T: ?Sized> No for B<T> {}
    #[allow(dead_code)]
    impl<T: ?Sized + Send> A<T> { const IS: bool = true; }
    #[allow(dead_code)]
    impl<T: ?Sized + Sync> B<T> { const IS: bool = true; }
    (stringify!($t), <A<$t>>::IS, <B<$t>>::IS)
}} }

/// A writer in whose calls the threads may switch.
struct Out1<'a> { buf: Vec<u8>, at: &'a dyn Fn(), k: usize }
impl Write for Out1<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { (self.at)(); let n = b.len().min(self.k); self.buf.extend_from_slice(&b[..n]); (self.at)(); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn main() {
    let mut r = Runner::new("C27");
    // a pair of threads per worker
    r.args.threads = (r.args.threads / 2).max(1);
    for (t, send, sync) in [is!(JsonValue), is!(Object), is!(Number), is!(Short), is!(json::Error), is!(json::Result<JsonValue>), is!(json::iterators::Members<'static>), is!(json::iterators::Entries<'static>)] {
        r.fact(Box::leak(format!("{} is Send and Sync", t).into_boxed_str()), if send && sync { Ok(()) } else { Err(format!("{}: Send {}, Sync {}", t, send, sync)) });
    }
    let ops = Any(ops());
    let ops = &ops;
    if POINTS {
        // each in a process in which the library has not been used before
        static NOTHING: Any<JsonValue> = Any(JsonValue::Null);
        let bare = |k: usize| World { k, own: JsonValue::Null, shared: &NOTHING };
        let full = |k: usize| World { k, own: build(&model(k)), shared: Box::leak(Box::new(Any(build(&model(0))))) };
        let text = |r: Result<Out, String>| match r { Ok(o) => o.text(), Err(e) => e };
        let no = ops.0.len();
        let jobs: Vec<(usize, bool, u64)> = {
            // which calls need the values, and how many points they pass the first time
            let next = std::sync::atomic::AtomicUsize::new(0);
            let out = Mutex::new(vec![(0, false, 0u64); no]);
            std::thread::scope(|s| for _ in 0..8 { s.spawn(|| loop {
                let x = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if x >= no { return }
                let op = &ops.get()[x];
                let lone = (0..2).all(|k| iso::isolated(|| text(guarded(op, &mut bare(k)))).map_or(false, |t| t == op.want[k]));
                let n = iso::isolated(|| { let mut w = if lone { bare(0) } else { full(0) }; count(|| { std::hint::black_box((op.run)(&mut w, 0)); }).to_string() }).expect("harness");
                out.lock().unwrap()[x] = (x, lone, n.parse().expect("harness"));
            }); });
            out.into_inner().unwrap()
        };
        let firsts: Vec<usize> = ["parse {\"a\":1,\"b\":2,\"a\":3}", "parse [\"\\u0041 string of more than thirty bytes\\t\",\"\\uD83D\\uDE00\"]", "dump text", "print 12345.678", "from floats", "to floats", "insert", "compare numbers"].iter().map(|k| ops.0.iter().position(|o| o.name == *k).unwrap_or_else(|| panic!("harness: {}", k))).collect();
        let then: &[usize] = if r.thorough() { &(0..no).collect::<Vec<_>>() } else { &firsts };
        let mut cases: Vec<(usize, bool, u64)> = Vec::new();
        for (x, _, n) in &jobs { for last in [false, true] { if !last || r.thorough() { cases.extend((0..*n).map(|k| (*x, last, k + 1))) } } }
        println!("{} points the first time", jobs.iter().map(|j| j.2).sum::<u64>());
        let (cases, jobs) = (&cases, &jobs);
        r.sweep("first use", cases.len() as u64, "in a process that has not used the library before: each of 57 operations preempted at every point, the same one with other data and then 8 others (all others, before and after it) run completely there", |c, i| {
            let (x, last, k) = cases[i as usize];
            let a = &ops.get()[x];
            let mut ys: Vec<usize> = then.to_vec();
            if last { ys.push(x) } else { ys.insert(0, x) }
            c.steps(ys.len() as u64 + 1);
            c.nontrivial();
            c.log(|| format!("{} switching after {}", a.name, k));
            let got = iso::isolated(|| {
                let w = |x: usize, k| Any(if jobs[x].1 { bare(k) } else { full(k) });
                let (mut wa, mut wb) = (w(x, 0), ys.iter().map(|y| w(*y, 1)).collect::<Vec<_>>());
                let (mut ra, mut rb) = (Any(None), Any(Vec::new()));
                both(&[k], || ra.0 = Some(guarded(a, &mut wa.0)), || for (y, w) in ys.iter().zip(&mut wb) { rb.0.push(guarded(&ops.get()[*y], &mut w.0)) });
                if let Err(e) = judge(a, 0, ra.0.unwrap(), "first") { return e }
                for (y, r) in ys.iter().zip(rb.0) { if let Err(e) = judge(&ops.get()[*y], 1, r, "second") { return e } }
                String::new()
            })?;
            if got.is_empty() { Ok(()) } else { Err(format!("first use of the library, switching after {} points of `{}`: {} thread", k, a.name, got)) }
        });
    }
    let shared: &'static Any<JsonValue> = Box::leak(Box::new(Any(build(&model(0)))));
    let world = |k: usize| World { k, own: build(&model(k)), shared };
    // alone, on this thread and on another one, before anything else
    r.sweep("alone", ops.0.len() as u64 * 4, "every operation with either data alone, in a fresh thread as well", |c, i| {
        let (op, k) = (&ops.get()[i as usize / 4], i as usize / 2 % 2);
        c.step();
        c.nontrivial();
        if i % 2 == 0 { return judge(op, k, guarded(op, &mut world(k)), "alone") }
        let mut out = Any(None);
        let o = &mut out;
        std::thread::scope(|s| { s.spawn(move || { let o = o; o.0 = Some(guarded(op, &mut world(k))) }); });
        judge(op, k, out.0.take().unwrap(), "alone in a new thread")
    });
    if POINTS {
        let n: Vec<u64> = ops.0.iter().map(|op| { let mut w = world(0); count(|| { std::hint::black_box((op.run)(&mut w, 0)); }) }).collect();
        let (tot, max) = (n.iter().sum::<u64>(), n.iter().max().unwrap());
        println!("{} operations, {} points, longest {}", n.len(), tot, max);
        let n = &n;
        let pair = |c: &mut Ctl, x: usize, y: usize, plan: &[u64]| -> Res {
            let (a, b) = (&ops.get()[x], &ops.get()[y]);
            let (mut wa, mut wb) = (Any(world(0)), Any(world(1)));
            let (mut ra, mut rb) = (Any(None), Any(None));
            let ran = both(plan, || ra.0 = Some(guarded(a, &mut wa.0)), || rb.0 = Some(guarded(b, &mut wb.0)));
            c.steps(ran.switches + 2);
            if ran.switches > 0 { c.nontrivial() }
            if ran.blocked > 0 { c.tag("one blocked by the other") }
            c.log(|| format!("{} | {} switching after {:?}", a.name, b.name, plan));
            if plan[0] % 16 == 0 { c.visit(hash_bytes(format!("{} {} {:?}", x, y, plan).as_bytes())); }
            judge(a, 0, ra.0.take().unwrap(), &format!("first thread, switching after {:?} points to `{}`", plan, b.name))?;
            judge(b, 1, rb.0.take().unwrap(), &format!("second thread, switching after {:?} points from `{}`", plan, a.name))
        };
        let total: u64 = n.iter().sum::<u64>() * n.len() as u64;
        // (operation, point) in a flat space
        let start: Vec<u64> = n.iter().scan(0, |s, x| { let t = *s; *s += x; Some(t) }).collect();
        let start = &start;
        r.sweep("one preemption", total, "all pairs of 57 operations: the first one preempted at every basic block, load and store, the second one run completely there", |c, i| {
            let (y, k) = ((i % n.len() as u64) as usize, i / n.len() as u64);
            let x = start.partition_point(|s| *s <= k) - 1;
            pair(c, x, y, &[k - start[x] + 1])
        });
        // two and three preemptions for short operations
        let lim = r.by(150, 500);
        let mut small: Vec<usize> = (0..n.len()).filter(|x| n[*x] <= lim).collect();
        small.sort_by_key(|x| n[*x]);
        let sm = &small;
        println!("{} operations of up to {} points", sm.len(), lim);
        r.dfs("two preemptions", 0, "all pairs of the operations of at most 150 (500) points: the first one preempted at every point, the second one at every point, both completed", |c| {
            let (x, y) = (*c.pick(sm), *c.pick(sm));
            let (k, l) = (c.choose(n[x] as usize), c.choose(n[y] as usize));
            pair(c, x, y, &[k as u64 + 1, l as u64 + 1])
        });
        let lim3 = r.by(60, 130);
        let sm3: Vec<usize> = small.iter().cloned().filter(|x| n[*x] <= lim3).collect();
        r.dfs("three preemptions", 0, "the operations of at most 60 (130) points, the first one preempted twice, the second one once, at all points", |c| {
            let (x, y) = (*c.pick(&sm3), *c.pick(&sm3));
            let (k, l) = (c.choose(n[x] as usize), c.choose(n[y] as usize));
            let k2 = c.choose(n[x] as usize - k);
            pair(c, x, y, &[k as u64 + 1, l as u64 + 1, k2 as u64 + 1])
        });
        // things that could add up between threads: each of the two has most of
        // what a limit or a buffer allows
        let big: Vec<(&str, fn(usize) -> String, [String; 2])> = {
            fn nest(k: usize, d: usize) -> String { if k == 0 { format!("{}1{}", "[".repeat(d), "]".repeat(d)) } else { format!("{}2{}", "{\"k\":".repeat(d), "}".repeat(d)) } }
            fn long(k: usize, n: usize) -> String { format!("\"{}\"", ["a\\n\u{e9}", "b\\t\\u0041"][k].repeat(n)) }
            fn wide(k: usize, n: usize) -> String { let t: Vec<String> = (0..n).map(|i| if k == 0 { i.to_string() } else { format!("\"{}\":{}", i, i + 1) }).collect(); if k == 0 { format!("[{}]", t.join(",")) } else { format!("{{{}}}", t.join(",")) } }
            fn again(t: &str) -> String { match json::parse(t) { Ok(v) => v.dump(), Err(e) => format!("{:?}", e) } }
            let plain = |k: usize| ["a\\n\u{e9}", "b\\tA"][k].repeat(300);
            vec![
                ("parse and dump 400 levels", |k| again(&nest(k, 400)), [nest(0, 400), nest(1, 400)]),
                ("parse 300 levels beside 300", |k| again(&format!("[{},{}]", nest(k, 300), nest(1 - k, 300))), [format!("[{},{}]", nest(0, 300), nest(1, 300)), format!("[{},{}]", nest(1, 300), nest(0, 300))]),
                ("parse 513 levels", |k| again(&nest(k, 513)), ["ExceededDepthLimit".into(), "ExceededDepthLimit".into()]),
                ("parse and dump a long string", |k| again(&long(k, 300)), [format!("\"{}\"", plain(0)), format!("\"{}\"", plain(1))]),
                ("parse and dump 200 members", |k| again(&wide(k, 200)), [wide(0, 200), wide(1, 200)]),
                ("break off in 300 levels", |k| again(&format!("{}!", &nest(k, 300)[..[300, 1500][k]])), ["UnexpectedCharacter { ch: '!', line: 1, column: 301 }".into(), "UnexpectedCharacter { ch: '!', line: 1, column: 1501 }".into()]),
                ("pretty print 200 levels", |k| { let mut v = JsonValue::from(k); for _ in 0..200 { v = JsonValue::Array(vec![v]) } let t = v.pretty(1); format!("{} {}", t.len(), v == v.clone()) }, { let t = |k: usize| format!("{} true", (0..200usize).map(|i| 2 * (i + 2)).sum::<usize>() + 200 + k.to_string().len()); [t(0), t(1)] }),
                ("many numbers", |k| (0..60).map(|i| JsonValue::from((i * 37 + k) as f64 / 8.0).dump()).collect::<Vec<_>>().join(","), { let t = |k: usize| (0..60).map(|i| format!("{}", (i * 37 + k) as f64 / 8.0)).collect::<Vec<_>>().join(","); [t(0), t(1)] }),
            ]
        };
        let nb: Vec<u64> = big.iter().map(|b| count(|| { std::hint::black_box((b.1)(0)); })).collect();
        let stride = r.by(97, 5);
        let cases: Vec<(usize, usize, u64)> = (0..big.len()).flat_map(|x| { let n = nb[x]; (0..big.len()).flat_map(move |y| (1..=n).filter(move |k| (k - 1) % stride == (y as u64 * 61) % stride).map(move |k| (x, y, k))) }).collect();
        println!("{} points of large operations", nb.iter().sum::<u64>());
        let (big, cases) = (&big, &cases);
        r.sweep("large operations", cases.len() as u64, "all pairs of 8 operations on deep, long or wide values: the first one preempted at every 97th (5th) point, the second one run completely there", |c, i| {
            let (x, y, k) = cases[i as usize];
            let (mut ra, mut rb) = (Any(None), Any(None));
            let run = |f: fn(usize) -> String, k: usize| std::panic::catch_unwind(|| armed(|| f(k))).unwrap_or_else(|_| "panic".into());
            let ran = both(&[k], || ra.0 = Some(run(big[x].1, 0)), || rb.0 = Some(run(big[y].1, 1)));
            c.steps(ran.switches + 2);
            c.nontrivial();
            c.log(|| format!("{} | {} switching after {}", big[x].0, big[y].0, k));
            for (who, o, k2, got) in [("first", x, 0, ra.0.unwrap()), ("second", y, 1, rb.0.unwrap())] {
                if got != big[o].2[k2] { return Err(format!("{} thread, switching after {} points of `{}` to `{}`: {} gives {}, expected {}", who, k, big[x].0, big[y].0, big[o].0, q(&clip(&got, 200)), q(&clip(&big[o].2[k2], 200)))) }
            }
            Ok(())
        });
        // the shared value and the world afterwards
        r.fact("the shared value is as before", observe(&model(0), shared.get()));
        r.finish()
    }
    // call by call: which thread makes which call next
    let few: Vec<usize> = ["parse \"x\\n\\u00e9\"", "parse [1,}", "parse {\"a\":1}", "dump own", "pretty own", "print 18446744073709551615", "from floats", "insert", "remove", "clone", "shared: look up", "shared: dump", "text calls", "build", "object dump"].iter().filter_map(|k| ops.0.iter().position(|o| o.name == *k)).collect();
    let nf = few.len();
    let cl = r.by(4, 5);
    r.dfs("calls of two threads", 0, "all sequences of 4 (5) calls out of 15, each made by either of two threads with a value of its own: every result as alone", |c| {
        let seq: Vec<(usize, usize)> = (0..cl).map(|i| (if i == 0 { 0 } else { c.choose(2) }, few[c.choose(nf)])).collect();
        c.nontrivial();
        c.steps(cl as u64);
        c.log(|| seq.iter().map(|(t, o)| format!("{}: {}", t, ops.get()[*o].name)).collect::<Vec<_>>().join("; "));
        let (mut wa, mut wb) = (Any(world(0)), Any(world(1)));
        let res = Mutex::new(Ok(()));
        let at = std::sync::atomic::AtomicUsize::new(0);
        let (res, at, s) = (&res, &at, &seq);
        let run = |me: usize, w: &mut World| {
            loop {
                let k = at.load(std::sync::atomic::Ordering::SeqCst);
                if k >= s.len() { return }
                if s[k].0 != me { yield_here(); if at.load(std::sync::atomic::Ordering::SeqCst) == k { std::hint::spin_loop() } continue }
                let op = &ops.get()[s[k].1];
                let r = judge(op, me, guarded(op, w), &format!("call {} in thread {}", k, me));
                if r.is_err() { *res.lock().unwrap() = r }
                at.store(k + 1, std::sync::atomic::Ordering::SeqCst);
            }
        };
        both(&[], || run(0, &mut wa.0), || run(1, &mut wb.0));
        let r = res.lock().unwrap().clone();
        r
    });
    // a value handed to and fro
    let hand = [api::Op::Push(RV::s("s")), api::Op::Insert("k".into(), RV::Str(text_of_len(33))), api::Op::SetKey("a key of more than thirty-two bytes".into(), RV::i(1), 0), api::Op::SetIdx(0, RV::Arr(vec![RV::i(1)])), api::Op::Remove("k".into()), api::Op::Clear, api::Op::Take, api::Op::TakeString, api::Op::Replace(RV::s("short"))];
    let hl = r.by(5, 6);
    r.dfs("a value moved between threads", 0, "all histories of 5 (6) calls out of 9 on one value that is moved to the other thread before each of them, or not; dropped by either", |c| {
        let seq: Vec<(usize, usize)> = (0..hl).map(|i| (if i == 0 { 0 } else { i % 2 }, c.choose(hand.len()))).collect();
        let last = c.choose(2);
        c.nontrivial();
        c.steps(hl as u64);
        c.log(|| format!("{:?}", seq.iter().map(|s| api::short(&hand[s.1])).collect::<Vec<_>>()));
        let slot = Mutex::new(Any((RV::Null, Some(JsonValue::Null))));
        let res = Mutex::new(Ok(()));
        let at = std::sync::atomic::AtomicUsize::new(0);
        let (slot, res, at, s, hand) = (&slot, &res, &at, &seq, &hand);
        let run = |me: usize| {
            loop {
                let k = at.load(std::sync::atomic::Ordering::SeqCst);
                if k > s.len() { return }
                let whose = if k == s.len() { last } else { s[k].0 };
                if whose != me { yield_here(); continue }
                let mut g = slot.lock().unwrap_or_else(|e| e.into_inner());
                if k == s.len() { g.0 .1 = None } else {
                    let mut v = g.0 .1.take().unwrap();
                    let m = &mut g.0 .0;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| api::apply(&hand[s[k].1], m, &mut v).and_then(|_| observe(m, &v)))).unwrap_or_else(|_| Err("panic".into()));
                    if r.is_err() { *res.lock().unwrap() = r }
                    g.0 .1 = Some(v);
                }
                drop(g);
                at.store(k + 1, std::sync::atomic::Ordering::SeqCst);
            }
        };
        both(&[], || run(0), || run(1));
        let r = res.lock().unwrap().clone();
        r
    });
    // inside the calls of a writer
    let docs = [RV::i(7), RV::s("a\n"), RV::Arr(vec![RV::i(1), RV::s("x")]), RV::Obj(vec![("k".into(), RV::Arr(vec![]))]), RV::Obj(vec![("k".into(), RV::Null), ("l".into(), RV::Str(text_of_len(20)))])];
    let wd = r.by(3, 4);
    r.dfs("inside writer calls", wd, "all pairs of 5 documents x compact and pretty, written to writers that take 1 or 5 or all bytes a call: threads switch at up to 3 (4) of the entries and exits of writer calls, everywhere possible", |c| {
        let (x, y) = (c.pick(&docs), c.pick(&docs));
        let (px, k) = (c.flag(), [64, 5, 1][c.choose(3)]);
        // a fresh choice at every place: the threads take turns in making it
        let ctl = std::cell::Cell::new(c as *mut Ctl);
        let switch = || { if freed() { return } let c = unsafe { &mut *ctl.get() }; if c.deviate(2) == 1 { yield_here() } };
        let vals = Any((build(x), build(y)));
        let (mut a, mut b) = (Vec::new(), Vec::new());
        {
            let (at, v) = (&switch as &dyn Fn(), vals.get());
            let (wa, wb) = (Any(&mut a), Any(&mut b));
            let at = Any(at);
            let (at, wa, wb) = (&at, wa, wb);
            let run = move |v: &JsonValue, pretty: bool, buf: Any<&mut Vec<u8>>| {
                let mut w = Out1 { buf: Vec::new(), at: *at.get(), k };
                if pretty { v.write_pretty(&mut w, 1).unwrap() } else { v.write(&mut w).unwrap() }
                *buf.0 = w.buf;
            };
            let ran = both(&[], || run(&v.0, px, wa), || run(&v.1, !px, wb));
            let c = unsafe { &mut *ctl.get() };
            c.steps(ran.switches + 2);
            if ran.blocked > 0 { c.cut_short() }
            if ran.switches > 0 { c.nontrivial() }
            c.log(|| format!("{} | {}, {} bytes a call, {} switches", v.0, v.1, k, ran.switches));
        }
        let want = |v: &RV, p: bool| if p { ser::pretty(v, 1) } else { ser::dump(v) };
        if a != want(x, px).as_bytes() { return Err(format!("first thread writes {}", q(&String::from_utf8_lossy(&a)))) }
        if b != want(y, !px).as_bytes() { return Err(format!("second thread writes {}", q(&String::from_utf8_lossy(&b)))) }
        Ok(())
    });
    r.fact("the shared value is as before", observe(&model(0), shared.get()));
    r.finish()
}
