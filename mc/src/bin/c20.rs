//! C20: no use of the safe API corrupts, leaks or misuses memory.
use json::codegen::Generator;
use json::object::Object;
use json::JsonValue;
use mc::gen::*;
use mc::guard::*;
use mc::model::value::*;
use mc::model::*;
use mc::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(not(any(miri, mc_asan)))]
#[global_allocator]
static GUARD: Guard = Guard;

/// Read every byte of every string, key and number; text must be UTF-8.
fn touch(v: &JsonValue) -> Result<u64, String> {
    fn text(s: &str, what: &str) -> Result<u64, String> {
        match std::str::from_utf8(s.as_bytes()) {
            Ok(_) => Ok(s.bytes().fold(7, |h, b| h * 31 % 1_000_000_007 + b as u64)),
            Err(e) => Err(format!("{} is not UTF-8: {} in {:?}", what, e, &s.as_bytes()[..s.len().min(80)])),
        }
    }
    match v {
        JsonValue::Short(_) | JsonValue::String(_) => text(v.as_str().ok_or("a string without text")?, "a string"),
        JsonValue::Number(n) => Ok(format!("{}", n).len() as u64),
        JsonValue::Array(a) => { let mut h = 1; for x in a { h = h * 33 % 1_000_000_007 + touch(x)? } Ok(h) }
        JsonValue::Object(o) => { let mut h = 2; for (k, x) in o.iter() { h = h * 35 % 1_000_000_007 + text(k, "a key")? + touch(x)? } Ok(h) }
        _ => Ok(3),
    }
}

/// Touch, and everything that hands out text of its own.
fn touch_all(v: &JsonValue) -> Res {
    touch(v)?;
    for s in [v.dump(), v.pretty(1), format!("{}", v), format!("{:?}", v)] {
        if std::str::from_utf8(s.as_bytes()).is_err() { return Err(format!("text handed out is not UTF-8: {:?}", &s.as_bytes()[..s.len().min(80)])) }
    }
    Ok(())
}

/// Run it with every allocation watched.
fn watch(f: impl FnOnce() -> Res) -> Res {
    let (r, blocks, bytes) = tracked(|| catch_unwind(AssertUnwindSafe(f)));
    sweep();
    let wrong = misuse();
    let r = match r { Ok(r) => r, Err(p) => {
        if let Some(w) = wrong { return Err(w) }
        std::panic::resume_unwind(p)
    } };
    if let Some(w) = wrong { return Err(w) }
    r?;
    if blocks != 0 || bytes != 0 { return Err(format!("{} blocks with {} bytes leak", blocks, bytes)) }
    Ok(())
}

thread_local! { static EDGE: Edge = Edge::new(); }

/// Parse a text that ends, and one that starts, at inaccessible memory.
fn parse_text(c: &mut Ctl, s: &str) -> Res {
    c.steps(2);
    watch(|| {
        let small = s.len() < 200_000 && !cfg!(miri);
        let run = |t: &str| -> Res {
            match json::parse(t) {
                Ok(v) => touch(&v).map(|_| ()),
                Err(e) => { if std::str::from_utf8(e.to_string().as_bytes()).is_err() { return Err("error text is not UTF-8".into()) } Ok(()) }
            }
        };
        if small { EDGE.with(|e| { run(e.end(s))?; run(e.start(s)) }) } else { run(s) }
    })
}

const L33: &str = "a key of exactly thirty-three byt";
const L32: &str = "a key of exactly thirty-two bytes"; // 33 with the s, cut below

fn docs() -> Vec<String> {
    vec![
        format!("{{\"k\":[1,\"x\",{{\"m\":null}}],\"{}\":\"a string that lives on the heap, \\u00e9\",\"e\":{{}}}}", L33),
        format!("[\"s\",\"a string that lives on the heap too\",{{\"{}\":[]}},[[\"\\n\"]]]", &L32[..32]),
        "\"short\"".into(), "\"a string of more than thirty bytes, on the heap\"".into(), "-1.5e3".into(), "null".into(),
    ]
}

const OPS: usize = 46;
/// One call, or a small group of them, on two values.
fn op(k: usize, a: &mut JsonValue, b: &mut JsonValue) -> Res {
    match k {
        0 => std::mem::swap(a, b),
        1 => *b = a.clone(),
        2 => *a = b.take(),
        3 => a["k"] = b.clone(),
        4 => a[L33] = b.take(),
        5 => a[0] = b.clone(),
        6 => a[1] = b.take(),
        7 => { let _ = a.push(b.clone()); }
        8 => { let x = a.pop(); touch(&x)?; }
        9 => { let x = a.array_remove(0); touch(&x)?; }
        10 => { let x = a.remove("k"); touch(&x)?; }
        11 => { let x = a.remove(L33); touch(&x)?; }
        12 => { let _ = a.insert(L33, b.clone()); }
        13 => { let _ = a.insert("k", "text"); }
        14 => a.clear(),
        15 => { let mut x = a.take(); *b = x["k"].take(); *a = x }
        16 => { if let Some(s) = a.take_string() { if std::str::from_utf8(s.as_bytes()).is_err() { return Err("take_string: not UTF-8".into()) } *b = JsonValue::from(s) } }
        17 => *a = json::parse(&a.dump()).map_err(|e| e.to_string())?,
        18 => *a = JsonValue::from(a.pretty(2)),
        19 => { let mut s = [0u8; 9]; let mut w = &mut s[..]; let _ = a.write(&mut w); let mut w = &mut s[..]; let _ = a.write_pretty(&mut w, 3); }
        20 => for (_, v) in a.entries_mut() { let t = v.take(); *v = JsonValue::from(vec![t]) },
        21 => for v in a.members_mut() { *v = b.clone() },
        22 => *a = JsonValue::Object(a.entries().map(|(k, v)| (k, v.clone())).collect()),
        23 => *a = JsonValue::from(a.members().cloned().collect::<Vec<JsonValue>>()),
        24 => { let mut i = a.entries(); i.next(); i.next_back(); let mut j = a.members_mut(); j.next_back(); j.next(); }
        25 => { if a == b { touch(a)?; } if *a == "short" { touch(a)?; } }
        26 => { let s = a.as_str().unwrap_or("nothing").to_string(); *b = JsonValue::from(s.as_str()) }
        27 => *a = JsonValue::from(Some(b.take())),
        28 => a["k"]["m"][2] = JsonValue::from("deep"),
        29 => { let e = json::parse("[\"\u{20ac}\" x"); if let Err(e) = e { *b = JsonValue::from(e.to_string()) } }
        30 => *a = JsonValue::from(&[a.clone(), b.take()][..]),
        31 => {
            // moved about
            let mut v = Vec::new();
            v.push(a.take());
            for _ in 0..5 { v.push(b.clone()) }
            v.rotate_left(1);
            let x = Box::new(v.pop().unwrap());
            *a = *x;
        }
        32 => { if let JsonValue::Object(o) = a { let mut p = Box::new(o.clone()); p.insert("boxed", b.clone()); *b = JsonValue::Object(*p) } }
        33 => { let mut o = Object::with_capacity(2); for n in [0, 31, 32, 33, 40] { o.insert(&"abcdefghijklmnopqrstuvwxyz0123456789ABCDEFG"[..n], b.clone()) } *a = JsonValue::Object(o) }
        34 => { let mut m = HashMap::new(); m.insert(L33, a.take()); *a = JsonValue::from(m) }
        35 => { let mut m = BTreeMap::new(); m.insert("x".to_string(), a.take()); m.insert(L33.to_string(), b.clone()); *b = JsonValue::from(m) }
        36 => while let Some(k) = a.entries().next().map(|e| e.0.to_string()) { a.remove(&k); },
        37 => b.clone_from(a),
        38 => { if let JsonValue::Object(o) = a { o.clear(); o.insert("after clear", b.take()) } }
        39 => { let t = touch(a)?; *b = JsonValue::from(t) }
        40 => { if let JsonValue::Object(o) = a { let mut n: Object = o.iter().map(|(k, v)| (format!("{}{}", k, k), v.clone())).collect(); std::mem::swap(o, &mut n) } }
        41 => { if let JsonValue::Array(v) = a { v.reserve(9); v.retain(|x| !x.is_null()); v.truncate(2) } }
        42 => { for n in 0..6 { a[format!("grow{}", n)] = b.clone() } }
        43 => { #[allow(deprecated)] if let JsonValue::Object(o) = a { o.override_last(b.take()); if let Some(x) = o.get_mut("k") { *x = b.clone() } } }
        44 => if let JsonValue::Object(o) = a {
            // into one with room, into a larger, into a smaller one
            let mut p = Object::with_capacity(9);
            p.clone_from(o);
            p.insert("more", b.clone());
            for n in 0..5 { p[format!("more{}", n)] = JsonValue::Null }
            let small = std::mem::replace(o, p.clone());
            p.clone_from(&small);
            if let JsonValue::Object(q) = b { p.clone_from(q); q.clone_from(o); }
            *b = JsonValue::Object(p);
        },
        45 => if let JsonValue::Array(v) = a { let mut w = vec![b.clone(), b.take(), JsonValue::from(L33)]; w.clone_from(v); std::mem::swap(v, &mut w); w.truncate(1); v.clone_from(&w); *b = JsonValue::Array(w) },
        _ => {}
    }
    Ok(())
}

struct Boom(usize);
impl Write for Boom {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.0 == 0 { panic!("boom") } self.0 -= 1; Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct G(Boom);
impl Generator for G {
    type T = Boom;
    fn get_writer(&mut self) -> &mut Boom { &mut self.0 }
    fn write_min(&mut self, _: &[u8], m: u8) -> io::Result<()> { self.0.write_all(&[m]) }
}
/// A source that lies about its length and may panic.
struct Src { at: usize, n: usize, hint: usize, boom: usize }
impl Iterator for Src {
    type Item = (String, JsonValue);
    fn next(&mut self) -> Option<Self::Item> {
        if self.at == self.boom { panic!("boom") }
        if self.at == self.n { return None }
        self.at += 1;
        Some((text_of_len(self.at * 7 % 50), JsonValue::from(format!("value {}", self.at))))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.hint, None) }
}
/// A conversion that panics.
#[derive(Clone)]
struct Conv(usize);
impl From<Conv> for JsonValue { fn from(c: Conv) -> JsonValue { if c.0 == 0 { panic!("boom") } JsonValue::from(vec![format!("conv {}", c.0)]) } }
/// A key that says something else each time it is asked.
struct Fickle(std::cell::Cell<usize>, Vec<String>);
impl AsRef<str> for Fickle { fn as_ref(&self) -> &str { let i = self.0.get(); self.0.set(i + 1); &self.1[i % self.1.len()] } }

fn expect_boom(f: impl FnOnce()) { let _ = catch_unwind(AssertUnwindSafe(f)); }

fn main() {
    let mut r = Runner::new("C20");
    let tiny = cfg!(miri);
    let asan = cfg!(mc_asan);
    let _ = catch_unwind(|| panic!("boom"));
    // ---- parsing any text
    let syms = ["[", "]", "{", "}", ",", ":", "\"", "0", "1", "-", ".", "e", "true", " ", "\\", "\\u", "n", "a", "D83D", "DC00", "00e9", "\n", "\u{e9}", "\u{1}", "null", "nul", "\u{1F600}", "E+5", "a string of more than thirty bytes", "99999999999999999999"];
    let tl = if tiny { 1 } else if asan { 3 } else { r.by(4, 5) };
    r.dfs("symbol strings", 0, "every string of up to 4 (5; under ASan 3) grammar symbols, parsed right before and right behind inaccessible memory", |c| {
        let n = c.choose(tl + 1);
        let s: String = (0..n).map(|_| *c.pick(&syms)).collect();
        c.nontrivial();
        c.log(|| q(&s));
        parse_text(c, &s)
    });
    r.sweep("prefixes and edits", DOCS.len() as u64, "every prefix and suffix of the corpus, every single character removed, doubled or replaced by one of 14 others", |c, i| {
        let d: Vec<char> = DOCS[i as usize].chars().collect();
        for k in 0..=d.len() {
            c.nontrivial();
            parse_text(c, &d[..k].iter().collect::<String>())?;
            parse_text(c, &d[k..].iter().collect::<String>())?;
            if k < d.len() && !tiny {
                let (a, b): (String, String) = (d[..k].iter().collect(), d[k + 1..].iter().collect());
                parse_text(c, &format!("{}{}", a, b))?;
                parse_text(c, &format!("{}{}{}{}", a, d[k], d[k], b))?;
                for x in ["\"", "\\", "{", "}", "[", "]", ",", ":", "0", "e", "-", "\u{0}", "\u{20ac}", "\u{1F600}"] { parse_text(c, &format!("{}{}{}", a, x, b))? }
            }
        }
        Ok(())
    });
    let sl = if tiny { 36 } else if asan { 80 } else { r.by(140, 400) };
    r.sweep("literals of every length", sl as u64, "strings, keys, escapes, numbers and blanks of every length to 140 (400), complete and cut at the end", |c, i| {
        let n = i as usize;
        c.nontrivial();
        let t = text_of_len(n);
        for s in [format!("\"{}\"", t), format!("\"{}", t), format!("\"{}\\u00e9\"", t), format!("\"{}\\u00e", t), format!("\"{}\\", t), format!("\"{}\\uD83D\\uDE00{}\"", t, t), format!("\"{}\\uD83D", t),
                  format!("{{\"{}\":\"{}\"}}", t, t), format!("{{\"{}\"", t), format!("{{\"{}\\n{}\":1,\"{}\\n{}\":2}}", t, t, t, t), "1".repeat(n), format!("-{}", "9".repeat(n)), format!("0.{}", "7".repeat(n)), format!("1e{}", "0".repeat(n)),
                  format!("{}1", " ".repeat(n)), "\n".repeat(n), format!("1{}", "\t".repeat(n)), "[".repeat(n), format!("{}{}", "[".repeat(n), "]".repeat(n)), format!("[{}", "1,".repeat(n)), format!("{}{}", "{\"a\":".repeat(n), "1"),
                  format!("{{{}}}", (0..n).map(|k| format!("\"{}\":{}", ascii_of_len(k), k)).collect::<Vec<_>>().join(",")), format!("{{{}", (0..n).map(|k| format!("\"{}\":[\"{}\"]", text_of_len(k % 40), k)).collect::<Vec<_>>().join(","))] { parse_text(c, &s)? }
        Ok(())
    });
    // ---- histories of calls
    let ds = docs();
    let hl = if tiny { 1 } else if asan { 3 } else { r.by(3, 4) };
    let starts = if tiny { 2 } else { ds.len() };
    r.dfs("histories", 0, "every history of 3 (4) calls out of 46 kinds on two values, starting from 12 pairs of documents, one of them with 4 (5) calls", |c| {
        let d = c.choose(starts);
        let e = c.choose(2);
        // one pair of documents gets one call more
        let n = if d == 0 && e == 1 && !tiny && !asan { hl + 1 } else { hl };
        let mut ops = [0usize; 8];
        for k in 0..n { ops[k] = c.choose(OPS) }
        c.steps(n as u64);
        c.nontrivial();
        c.log(|| format!("a = document {}, b = document {}, calls {:?}", d, e, &ops[..n]));
        let mut state = 0;
        watch(|| {
            let mut a = json::parse(&ds[d]).map_err(|e| e.to_string())?;
            let mut b = json::parse(&ds[e]).map_err(|e| e.to_string())?;
            for k in &ops[..n] { op(*k, &mut a, &mut b)? }
            touch_all(&a)?;
            touch_all(&b)?;
            state = touch(&a)? * 65599 + touch(&b)?;
            Ok(())
        })?;
        c.visit(state);
        Ok(())
    });
    let gl = if tiny { 2 } else { r.by(5, 6) };
    r.dfs("long histories", 0, "every history of 5 (6) calls out of 14 kinds", |c| {
        let pick = [1, 2, 3, 4, 7, 10, 11, 12, 14, 17, 20, 22, 38, 42];
        let mut ops = [0usize; 8];
        for k in 0..gl { ops[k] = *c.pick(&pick) }
        c.steps(gl as u64);
        c.nontrivial();
        watch(|| {
            let mut a = json::parse(&ds[0]).map_err(|e| e.to_string())?;
            let mut b = json::parse(&ds[1]).map_err(|e| e.to_string())?;
            for k in &ops[..gl] { op(*k, &mut a, &mut b)? }
            touch(&a)?;
            touch(&b)?;
            Ok(())
        })
    });
    // ---- objects: keys of every length, every size
    let kl = if tiny { 12 } else if asan { 70 } else { r.by(130, 400) };
    r.sweep("keys", (kl * 4) as u64, "keys of every length to 130 (400) in objects that grow, are cloned, overwritten, emptied, moved and dropped, from 4 capacities", |c, i| {
        let (n, cap) = (i as usize / 4 + if tiny { 22 } else { 0 }, [0usize, 1, 3, 16][i as usize % 4]);
        c.nontrivial();
        c.steps(12);
        watch(|| {
            let mut o = if cap == 0 { Object::new() } else { Object::with_capacity(cap) };
            for k in 0..6 { o.insert(&text_of_len(n + k), JsonValue::from(text_of_len(k * 9))) }
            let mut d = Object::with_capacity(cap * 2);
            d.insert(&text_of_len(n), JsonValue::from(text_of_len(n)));
            d.clone_from(&o);
            let mut d = d;
            touch(&JsonValue::Object(d.clone()))?;
            for k in 0..3 { d.remove(&text_of_len(n + k)); o.insert(&text_of_len(n + k), JsonValue::Null) }
            let v = vec![JsonValue::Object(o), JsonValue::Object(d.clone())];
            let w = v.clone();
            touch_all(&w[0])?;
            drop(v);
            touch_all(&w[1])?;
            d.clear();
            for k in 0..9 { d[text_of_len(n + k)] = JsonValue::from(k) }
            for (_, x) in d.iter_mut() { *x = JsonValue::from(text_of_len(35)) }
            let e = JsonValue::from(d);
            touch_all(&e)?;
            if e == w[0] { return Err("different objects are equal".into()) }
            Ok(())
        })
    });
    let on = if tiny { 12 } else if asan { 120 } else { r.by(300, 900) };
    r.sweep("object sizes", (on * KEY_FAMILIES) as u64, "objects of every size to 300 (900), 8 key families: filled, cloned, removed from, cleared while partly iterated, dropped", |c, i| {
        let (n, f) = (i as usize / KEY_FAMILIES, i as usize % KEY_FAMILIES);
        let keys = key_family(f, n);
        c.nontrivial();
        c.steps(n as u64);
        watch(|| {
            let mut o: Object = keys.iter().map(|k| (k, JsonValue::from(k.as_str()))).collect();
            for (_, v) in o.iter() { touch(v)?; }
            let mut p = Object::new();
            for k in &keys { p.insert(k, JsonValue::from(vec![1])) }
            touch(&JsonValue::Object(p.clone()))?;
            if n > 0 { p.remove(&keys[n / 2]); p.remove(&keys[0]); p.remove(&keys[n - 1]); }
            touch(&JsonValue::Object(p.clone()))?;
            { let mut it = o.iter_mut(); it.next(); it.next_back(); }
            o.clear();
            o.insert("x", JsonValue::Object(p));
            touch(&JsonValue::Object(o))?;
            Ok(())
        })
    });
    let places = TIDES.len() * TIDES.len() * TIDES.len();
    r.sweep("tides", if tiny { 12 } else { places as u64 }, "arrays and objects that grow and shrink to every three of the sizes 0, 1, 20, 70, 300, 1100 in turn", |c, i| {
        let i = if tiny { i as usize * 5 % 27 / 9 * 36 + i as usize * 5 % 27 / 3 % 3 * 6 + i as usize * 5 % 3 } else { i as usize };
        c.nontrivial();
        watch(|| {
            let (mut a, mut b, mut o) = (JsonValue::new_array(), JsonValue::new_array(), Object::new());
            let mut n = 0;
            for t in [TIDES[i / 36], TIDES[i / 6 % 6], TIDES[i % 6], 2] {
                while n < t { a.push(text_of_len(n % 41)).unwrap(); b.push(n).unwrap(); o.insert(&text_of_len(n % 300), JsonValue::from(n)); n += 1 }
                while n > t {
                    n -= 1;
                    if a.pop() != text_of_len(n % 41) { return Err(format!("pop gives something else at {}", n)) }
                    touch(&b.array_remove(n % 7 * n / 7))?;
                    if let Some(k) = { let k = o.iter().nth(n % 5 * n / 5).map(|e| e.0.to_string()); k } { o.remove(&k); }
                }
                touch(&a)?;
                touch(&b)?;
                for (k, v) in o.iter() { std::hint::black_box((k.len(), touch(v)?)); }
            }
            touch_all(&a.clone())?;
            touch_all(&JsonValue::Object(o.clone()))
        })
    });
    // ---- strings
    let nl = if tiny { 40 } else if asan { 120 } else { r.by(400, 1500) };
    r.sweep("strings", nl as u64, "strings of every length to 400 (1500): built, cloned, taken, cleared, replaced, serialized, compared", |c, i| {
        let n = i as usize;
        let t = text_of_len(n);
        c.nontrivial();
        c.steps(10);
        watch(|| {
            for s in [t.clone(), ascii_of_len(n), format!("{}\u{1}\"{}", ascii_of_len(n / 2), text_of_len(n - n / 2)), wide_of_len(2, n), wide_of_len(3, n), wide_of_len(4, n)] {
                let mut v = JsonValue::from(s.as_str());
                let w = v.clone();
                touch_all(&v)?;
                if v != w || v.as_str() != Some(&s) || v.take_string().as_deref() != Some(&s) || !v.is_null() { return Err("text changed".into()) }
                let mut x = JsonValue::from(vec![w.clone(), w, JsonValue::String(s.clone())]);
                x[0].clear();
                x[1] = x[2].take();
                x.push(Some(s.clone())).map_err(|e| e.to_string())?;
                touch_all(&x)?;
                let _ = json::from(x["k"].take());
                // as keys, and read
                let mut o = Object::new();
                o.insert(&s, JsonValue::from(s.as_str()));
                o[&s] = JsonValue::Null;
                let lit = ser::str_text(&s);
                let mut y = json::parse(&format!("{{{}:[{}],\"\":{}}}", lit, lit, lit)).map_err(|e| e.to_string())?;
                touch(&JsonValue::Object(o.clone()))?;
                if y.remove(&s) != json::array![s.clone()] && !s.is_empty() || o.remove(&s).is_none() { return Err("text changed".into()) }
                touch_all(&y)?;
            }
            Ok(())
        })
    });
    // ---- numbers print into buffers on the stack
    r.sweep("numbers", if tiny { 200 } else { 65536 }, "every exponent with the longest and shortest mantissas, printed by every route", |c, i| {
        let e = if tiny { i as i64 * 327 - 32768 } else { i as i64 - 32768 };
        c.nontrivial();
        c.steps(5);
        watch(|| {
            for m in [0u64, 1, 9, 10, 99, 1234567890, 9_999_999_999_999_999_999, u64::MAX] {
                for pos in [true, false] {
                    let n = unsafe { json::number::Number::from_parts_unchecked(pos, m, e as i16) };
                    let v = JsonValue::Number(n);
                    touch_all(&v)?;
                    if !tiny { parse_bare(&v.dump())?; }
                    std::hint::black_box((v.as_f64(), v.as_f32(), v.as_u64(), v.as_i8(), v.as_fixed_point_i64(i as u16), v.as_fixed_point_u64((i / 7) as u16), n == 5u8, n == 0.5));
                }
            }
            Ok(())
        })
    });
    r.sweep("floats", if tiny { 100 } else { 2046 * 16 }, "floats of every exponent converted, printed and read", |c, i| {
        let f = f64::from_bits((i % 2046 + 1) << 52 | (i / 2046).wrapping_mul(0x1234567891234) & ((1 << 52) - 1));
        c.nontrivial();
        c.step();
        watch(|| { touch_all(&JsonValue::from(f))?; touch_all(&JsonValue::from(-f as f32)) })
    });
    // ---- user code that misbehaves
    r.dfs("panicking user code", 0, "user outputs, generators, sources, conversions that panic or lie at every point: nothing leaks or is freed twice, and the values stay usable", |c| {
        let kind = c.choose(6);
        let at = c.choose(if tiny { 4 } else { 40 });
        let d = c.choose(3);
        c.nontrivial();
        c.step();
        c.log(|| format!("kind {}, point {}, document {}", kind, at, d));
        watch(|| {
            let mut v = json::parse(&ds[d]).map_err(|e| e.to_string())?;
            match kind {
                0 => expect_boom(|| { let _ = v.write(&mut Boom(at)); }),
                1 => expect_boom(|| { let _ = v.write_pretty(&mut Boom(at), 2); }),
                2 => expect_boom(|| { let _ = G(Boom(at)).write_json(&v); }),
                3 => for hint in [0, at / 2, at, at + 5, 1000] {
                    for boom in [at / 3, at, usize::MAX] {
                        let mut o = None;
                        expect_boom(|| o = Some(Src { at: 0, n: at, hint, boom }.collect::<Object>()));
                        if let Some(o) = o { touch_all(&JsonValue::Object(o))? }
                    }
                },
                4 => {
                    let xs: Vec<Conv> = (0..at + 1).rev().map(Conv).collect();
                    expect_boom(|| { let _ = JsonValue::from(xs.clone()); });
                    expect_boom(|| { let _ = JsonValue::from(&xs[..]); });
                    expect_boom(|| { let _ = xs.iter().map(|x| (format!("k{}", x.0), x.clone())).collect::<Object>(); });
                    expect_boom(|| { let _ = v.push(Conv(at % 2)); });
                    expect_boom(|| { let _ = v.insert("k", Conv(at % 2)); });
                    let mut m = BTreeMap::new();
                    for x in &xs { m.insert(text_of_len(x.0), x.clone()); }
                    expect_boom(|| { let _ = JsonValue::from(m); });
                }
                _ => {
                    let o: Object = (0..at).map(|k| (Fickle(std::cell::Cell::new(k), vec!["a".into(), text_of_len(40), "".into(), text_of_len(33)]), k)).collect();
                    touch_all(&JsonValue::Object(o))?
                }
            }
            touch_all(&v)
        })
    });
    r.sweep("deep values", if tiny { 3 } else { 60 }, "arrays and objects nested to 1180 deep: built, cloned, compared, printed, dropped", |c, i| {
        let n = i as usize * 20;
        c.nontrivial();
        c.step();
        watch(|| {
            let mut v = JsonValue::from(text_of_len(33));
            for k in 0..n { v = if k % 2 == 0 { JsonValue::from(vec![v]) } else { let mut o = JsonValue::new_object(); o[text_of_len(k % 40)] = v; o } }
            let w = v.clone();
            if w != v { return Err("the clone differs".into()) }
            touch_all(&w)
        })
    });
    // counters of users, if there are any, wrap at these numbers of copies
    let mut counts: Vec<usize> = if tiny { vec![3, 257] } else { vec![65537, 70000, 1025, 513] };
    if !tiny { counts.extend((1..=r.by(300usize, 1100)).rev()) }
    r.sweep("many copies", counts.len() as u64 * 3, "1 to 300 (1100) copies at a time, and up to 70000, of a value with long keys and texts, dropped in 3 orders", |c, i| {
        let (n, how) = (counts[i as usize / 3], i % 3);
        c.nontrivial();
        c.steps(n as u64);
        watch(|| {
            let mut v = json::object!{ "a key that does not fit the inline buffer": ["a text that does not fit the inline storage"] };
            if n < 2000 { v[text_of_len(70)] = json::array!["short", {}, []] }
            let mut all = vec![v];
            for k in 0..n { let w = all[if i % 2 == 0 { 0 } else { k }].clone(); all.push(w) }
            match how {
                0 => { all.drain(..n); touch_all(&all[0])? }
                1 => { all.truncate(1); touch_all(&all[0])?; let w = all[0].clone(); all.remove(0); touch_all(&w)? }
                _ => { for w in all.iter_mut().step_by(2) { *w = JsonValue::Null } for w in all.iter().skip(1).step_by(if n < 2000 { 2 } else { 998 }) { touch(w)?; } }
            }
            Ok(())
        })
    });
    r.sweep("threads", if tiny { 2 } else { 64 }, "values built here are changed and dropped by another thread and come back", |c, i| {
        c.nontrivial();
        c.step();
        let mut v = build(&RV::Obj(vec![("k".into(), RV::Str(text_of_len(i as usize))), (text_of_len(40), RV::Arr(vec![RV::i(1)]))]));
        let w = v.clone();
        let h = std::thread::spawn(move || { for n in 0..20 { v[text_of_len(n * 3)] = w.clone(); } let r = touch_all(&v); sweep(); (v, r, misuse()) });
        let (v, r, m) = h.join().map_err(|_| "the thread panicked")?;
        r?;
        if let Some(m) = m { return Err(m) }
        touch_all(&v)?;
        drop(v);
        sweep();
        match misuse() { Some(m) => Err(m), None => Ok(()) }
    });
    r.finish()
}

fn parse_bare(s: &str) -> Res { EDGE.with(|e| { let v = json::parse(e.end(s)).map_err(|e| e.to_string())?; touch(&v).map(|_| ()) }) }
