//! C30: work and memory grow no faster than the size of what is worked on.
//!
//! Work is counted, not timed: the basic blocks, loads and stores the crate
//! executes (the build calls us at each) and the bytes the copy, fill and
//! compare routines of the C library would touch.
use json::object::Object;
use json::JsonValue;
use mc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

#[cfg(all(mc_sched, target_arch = "x86_64"))]
mod bytes {
    std::arch::global_asm!(r#"
    .section .tbss.mc_bytes,"awT",@nobits
    .p2align 3
mc_bytes:
    .zero 8
    .text
    .globl memcpy
    .globl memmove
    .globl memset
    .globl memcmp
    .globl bcmp
    .globl mc_bytes_get
memmove:
    mov rax, rdi
    mov rcx, rdi
    sub rcx, rsi
    cmp rcx, rdx
    jae 3f
    add qword ptr fs:[mc_bytes@tpoff], rdx
    mov rcx, rdx
    lea rdi, [rdi + rdx - 1]
    lea rsi, [rsi + rdx - 1]
    std
    rep movsb
    cld
    ret
memcpy:
    mov rax, rdi
3:
    add qword ptr fs:[mc_bytes@tpoff], rdx
    mov rcx, rdx
    rep movsb
    ret
memset:
    mov r8, rdi
    mov eax, esi
    add qword ptr fs:[mc_bytes@tpoff], rdx
    mov rcx, rdx
    rep stosb
    mov rax, r8
    ret
bcmp:
memcmp:
    mov rcx, rdx
    cmp rcx, rcx
    repe cmpsb
    mov r8, rdx
    lea r9, [rcx]
    je 4f
    movzx eax, byte ptr [rdi - 1]
    movzx edx, byte ptr [rsi - 1]
    sub eax, edx
    sub r8, r9
    add qword ptr fs:[mc_bytes@tpoff], r8
    ret
4:
    add qword ptr fs:[mc_bytes@tpoff], r8
    xor eax, eax
    ret
mc_bytes_get:
    mov rax, qword ptr fs:[mc_bytes@tpoff]
    ret
"#);
    extern "C" { fn mc_bytes_get() -> u64; }
    pub fn get() -> u64 { unsafe { mc_bytes_get() } }
}
#[cfg(not(all(mc_sched, target_arch = "x86_64")))]
mod bytes { pub fn get() -> u64 { 0 } }

/// Allocator that knows how much is in use, per thread.
struct Meter;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn note(d: i64) {
    let _ = LIVE.try_with(|l| { l.set(l.get() + d); let _ = PEAK.try_with(|p| if l.get() > p.get() { p.set(l.get()) }); });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // the block always moves, so that the cost does not depend on luck
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l) }
        q
    }
}
#[global_allocator]
static METER: Meter = Meter;

#[derive(Clone, Copy, Debug)]
struct Cost { work: u64, peak: u64 }
fn cost(f: impl FnOnce()) -> Cost {
    let (b, c) = (bytes::get(), CALLS.with(|c| c.get()));
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let w = sched::count(f);
    Cost { work: w + (bytes::get() - b) / 8 + 4 * (CALLS.with(|c| c.get()) - c), peak: (PEAK.with(|p| p.get()) - base).max(0) as u64 }
}

/// Costs at sizes n, 2n and 4n: from 2n to 4n may cost twice what it cost from
/// n to 2n; a squared term makes that four times. The slack leaves room for a
/// logarithm and for uneven trees. Buffers that double and a first allocation
/// that was enough at n make small sizes uneven too, so a suspicion counts only
/// when the larger sizes, at which such steps even out, bear it out.
fn judge(what: &str, c: [Cost; 3], slack: f64, more: &dyn Fn(usize) -> Cost) -> Res {
    let d = |x: Cost, y: Cost| (y.work as f64 - x.work as f64).max(0.0);
    let strong = c[2].work > 11 * c[0].work + 8000;
    // trees of members whose names differ in the last characters are uneven
    if strong || slack < 3.0 && d(c[1], c[2]) > slack * d(c[0], c[1]) + 4000.0 {
        if c[2].work > 14 * c[0].work && c[2].work > 1 << 28 { return Err(format!("{}: at n, 2n and 4n it takes {}, {}, {} steps", what, c[0].work, c[1].work, c[2].work)) }
        let c8 = more(8);
        let at = |w: String| Err(format!("{}: at n, 2n, 4n and 8n it takes {}, {}, {}, {} steps{}", what, c[0].work, c[1].work, c[2].work, c8.work, w));
        if strong && c8.work > 3 * c[2].work { return at("".into()) }
        let c16 = more(16);
        if d(c[2], c16) > 8.0 * d(c[0], c[2]) { return at(format!(", at 16n {}", c16.work)) }
    }
    if c[2].peak > 9 * c[0].peak + 16384 {
        if c[2].peak > 14 * c[0].peak && c[2].peak > 1 << 28 { return Err(format!("{}: at n, 2n and 4n it takes {}, {}, {} bytes", what, c[0].peak, c[1].peak, c[2].peak)) }
        let c16 = more(16);
        if c16.peak > 9 * c[2].peak { return Err(format!("{}: at n, 2n, 4n and 16n it takes {}, {}, {}, {} bytes", what, c[0].peak, c[1].peak, c[2].peak, c16.peak)) }
    }
    Ok(())
}

struct Sink(u64);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len() as u64; Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn walk(v: &JsonValue) -> u64 {
    let mut n = v.len() as u64 + v.is_empty() as u64;
    for x in v.members() { n += walk(x) }
    for x in v.members().rev() { n += x.is_null() as u64 }
    for (k, x) in v.entries() { n += k.len() as u64 + walk(x) }
    for (k, _) in v.entries().rev() { n += k.len() as u64 }
    n + v.as_str().map_or(0, |s| s.len() as u64) + v.as_f64().is_some() as u64
}
const OPS: [&str; 13] = ["dump", "pretty", "display", "write", "write_pretty", "clone", "compare", "walk", "look up", "write to all", "take apart", "contains", "drop"];
fn op(k: usize, v: JsonValue) -> Cost {
    let other = if k == 6 { v.clone() } else { JsonValue::Null };
    let mut v = v;
    let keys: Vec<String> = if k == 8 { v.entries().map(|e| e.0.to_string()).collect() } else { vec![] };
    let c = cost(|| { match k {
        0 => drop(v.dump()),
        1 => drop(v.pretty(2)),
        2 => drop(format!("{}{:#}", v, v)),
        3 => v.write(&mut Sink(0)).unwrap(),
        4 => v.write_pretty(&mut Sink(0), 1).unwrap(),
        5 => drop(v.clone()),
        6 => { std::hint::black_box(v == other); }
        7 => { std::hint::black_box(walk(&v)); }
        8 => { for i in 0..v.len() { std::hint::black_box(&v[i]); } for k in &keys { std::hint::black_box((&v[k.as_str()], v.has_key(k))); } }
        9 => { for x in v.members_mut() { x.take(); } for (_, x) in v.entries_mut() { *x = 1.into(); } }
        10 => { while !v.pop().is_null() {} v.clear() }
        11 => { std::hint::black_box(v.contains("no such thing")); }
        _ => drop(std::mem::replace(&mut v, JsonValue::Null)),
    } });
    drop(v);
    c
}

/// head, n times the body, tail. `#` in the body is the number of the round.
fn text(head: &str, body: &str, tail: &str, n: usize) -> String {
    let mut s = String::with_capacity(head.len() + n * (body.len() + 8) + tail.len());
    s.push_str(head);
    if body.contains('#') { for i in 0..n { s.push_str(&body.replace('#', &(i + 1).to_string())) } } else { for _ in 0..n { s.push_str(body) } }
    s.push_str(tail);
    s
}
fn pump(c: &mut Ctl, head: &str, body: &str, tail: &str, n: usize, slack: f64) -> Res {
    let name = || format!("{} {}^n {}", q(&clip(head, 30)), q(&clip(body, 60)), q(&clip(tail, 30)));
    let t: Vec<String> = [n, 2 * n, 4 * n].iter().map(|n| text(head, body, tail, *n)).collect();
    let mut vs = Vec::new();
    let p: Vec<Cost> = t.iter().map(|t| { let mut v = None; let c = cost(|| v = json::parse(t).ok()); vs.push(v); c }).collect();
    c.step();
    judge(&format!("parse of {}", name()), [p[0], p[1], p[2]], slack, &|k| { let t = text(head, body, tail, k * n); cost(|| drop(json::parse(&t))) })?;
    for (t, p) in t.iter().zip(&p) { if p.peak > 1000 * t.len() as u64 + 65536 { return Err(format!("parse of {}: {} bytes of memory for {} of text", name(), p.peak, t.len())) } }
    let Some(vs) = vs.into_iter().collect::<Option<Vec<JsonValue>>>() else { c.tag("refused"); return Ok(()) };
    c.nontrivial();
    c.tag("accepted");
    for k in 0..OPS.len() {
        let p: Vec<Cost> = vs.iter().map(|v| op(k, v.clone())).collect();
        c.step();
        judge(&format!("{} of the value of {}", OPS[k], name()), [p[0], p[1], p[2]], slack, &|m| json::parse(&text(head, body, tail, m * n)).map_or(Cost { work: 0, peak: 0 }, |v| op(k, v)))?;
    }
    Ok(())
}

fn seqs(alphabet: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for l in 1..=max { for k in 0..alphabet.pow(l as u32) { let mut k = k; out.push((0..l).map(|_| { let d = k % alphabet; k /= alphabet; d }).collect()) } }
    out
}

fn main() {
    let mut r = Runner::new("C30");
    if !sched::POINTS { r.fact("instrumented build", Err("this build does not count".into())) }
    const N: usize = 1000;
    let elems = ["0,", "-1.5e-3,", "\"\",", "\"abc\",", "\"a string of more than thirty bytes, all plain\",", "\"\\n\\u0041\",", "\"é𝄞\",", "[],", "{},", "[1,[2]],", "{\"a\":1,\"b\":{}},", "null,", "true,", "1e400,", "18446744073709551616,", "0.1234567890123456789,", " ", "\n", "\"#\",", "#,", "[#],", "x", "\"", "["];
    let s = seqs(elems.len(), r.by(2, 3));
    r.sweep("elements", s.len() as u64, "every sequence of 2 (3) of 24 pieces repeated n times in an array: parse and 13 operations", |c, i| {
        let body: String = s[i as usize].iter().map(|x| elems[*x]).collect();
        pump(c, "[", &body, "0]", N, 2.6)
    });
    let chars = ["a", "\\n", "\\u0041", "\\ud83d\\ude00", "é", "𝄞", "\\\\", "\\\"", "/", "\\u00e9", "\u{7f}", "#", "long run of plain text", "\\ud800", "\t"];
    let frames = [("\"", "\""), ("{\"", "\":1}"), ("[\"", "\",\"\\n\"]"), ("\"", ""), ("\"", "\\x\""), ("\"", "\\u12"), ("[1,\"", "\" \"\"]"), ("{\"k\":\"", "\"}"), ("\"\\n", "\""), ("\"", "\\ud800\"")];
    let s = seqs(chars.len(), r.by(2, 3));
    r.sweep("strings", s.len() as u64 * frames.len() as u64, "every sequence of 2 (3) of 15 pieces repeated n times in a string, as value, key, element, unterminated and broken at the end", |c, i| {
        let (h, t) = frames[i as usize % frames.len()];
        let body: String = s[i as usize / frames.len()].iter().map(|x| chars[*x]).collect();
        pump(c, h, &body, t, 2 * N, 2.6)
    });
    let ws = [" ", "\n", "\t", "\r", "\u{b}", "\u{c}"];
    let gaps = [("", "1"), ("1", ""), ("[", "]"), ("[", "1]"), ("[1", ",2]"), ("[1,", "2]"), ("[1", "]"), ("{", "}"), ("{", "\"a\":1}"), ("{\"a\"", ":1}"), ("{\"a\":", "1}"), ("{\"a\":1", ",\"b\":1}"), ("{\"a\":1,", "\"b\":1}"), ("{\"a\":1", "}"), ("[", "x]"), ("[1", "2]"), ("", ""), ("{\"a\"", "}"), ("1", "1"), ("[\"", "\"]"), ("tr", "ue"), ("[1,", "")];
    let s = seqs(ws.len(), r.by(2, 4));
    r.sweep("gaps", s.len() as u64 * gaps.len() as u64, "every sequence of 2 (4) of 6 white space characters repeated n times in every gap, with and without an error behind it", |c, i| {
        let (h, t) = gaps[i as usize % gaps.len()];
        let body: String = s[i as usize / gaps.len()].iter().map(|x| ws[*x]).collect();
        pump(c, h, &body, t, 3 * N, 2.6)
    });
    let digits = ["0", "1", "9", "5"];
    let nums = [("", ""), ("-", ""), ("1", ""), ("0.", ""), ("1.", ""), ("1e", ""), ("1e-", ""), ("1.5E+", ""), ("", "1"), ("1", "e5"), ("1", ".5"), ("0.", "e-5"), ("18446744073709551616", ""), ("12345678901234567890.", "e7"), ("1", "x"), ("[1", "]"), ("[0.", "e"), ("{\"a\":-", "}"), ("1e0", ""), ("0.0", "1")];
    let s = seqs(digits.len(), r.by(3, 5));
    r.sweep("digits", s.len() as u64 * nums.len() as u64, "every sequence of 3 (5) of 4 digits repeated n times in every part of a number", |c, i| {
        let (h, t) = nums[i as usize % nums.len()];
        let body: String = s[i as usize / nums.len()].iter().map(|x| digits[*x]).collect();
        pump(c, h, &body, t, 2 * N, 2.6)
    });
    let keys = ["\"#\":", "\"key#\":", "\"#th\":", "\"a long name that is not kept inline, number #\":", "\"#\\n\":", "\"é#\":", "\"#-long\":", "\"same\":", "\"same\":1,\"other\":", "\"k\\u0041#\":"];
    let vals = ["1,", "\"text\",", "{},", "[#],", "{\"#\":#},", "null ,\n", "\"a string of more than thirty bytes, all plain\","];
    let ends = [("{", "\"z\":0}"), ("[{", "\"z\":0}]"), ("{\"z\":0,", "\"z\":0}"), ("{", "}"), ("{", "\"z\"")];
    let members = r.by(N / 4, N);
    r.sweep("members", (keys.len() * keys.len() * vals.len() * ends.len()) as u64, "every pair of 10 kinds of member names (numbered, long, escaped, repeated) x 7 values x 5 frames", |c, i| {
        let i = i as usize;
        let (k, l, v, e) = (i % 10, i / 10 % 10, i / 100 % vals.len(), i / 100 / vals.len());
        let body = if k == l { format!("{}{}", keys[k], vals[v]) } else { format!("{}{}{}{}", keys[k], vals[v], keys[l], vals[(v + 1) % vals.len()]) };
        let mixed = |k: usize| keys[k].contains("-long") || !keys[k].contains('#');
        pump(c, ends[e].0, &body, ends[e].1, members, if mixed(k) && mixed(l) { 2.8 } else { 3.0 })
    });
    let heads = ["[", "{\"a\":", "[1,", "[{\"k\":"];
    let inner = ["1,", "[],", "{\"a\":1},", "\"x\",", "\n", "[[[]]],", "x"];
    r.sweep("deep", (heads.len() * inner.len() * 8) as u64, "repetition inside 0..500 open levels of 4 kinds", |c, i| {
        let i = i as usize;
        let (h, b, d) = (heads[i % 4], inner[i / 4 % inner.len()], [0, 1, 2, 10, 50, 100, 200, 250][i / 4 / inner.len()]);
        let close: String = h.chars().rev().filter_map(|c| match c { '[' => Some(']'), '{' => Some('}'), _ => None }).collect();
        pump(c, &format!("{}[", h.repeat(d)), b, &format!("0]{}", close.repeat(d)), N / 4, 2.6)
    });

    // names that differ in few places only
    let mut fam: Vec<(usize, Vec<usize>)> = vec![];
    for l in [4usize, 6, 8, 12, 16, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 80, 100, 128, 129, 200, 256, 300] {
        for stride in [1usize, 2, 3, 4, 5, 7, 8, 16, 32, 64] {
            let span = 3 * stride + 1;
            if span > l { continue }
            let all = l - span;
            let places = r.by(if stride == 1 { 24 } else { 8 }, 1000);
            let mut at: Vec<usize> = (0..=all).filter(|p| *p < 4 || all - p < 4 || all < places || p * places / (all + 1) != (p + all) * places / (all + 1) && p % (all / places).max(1) == 0).collect();
            at.dedup();
            for p in at { fam.push((l, (0..4).map(|k| p + k * stride).collect())) }
        }
        // the first and the last, and the middle
        if l >= 12 { fam.push((l, vec![0, 1, l - 2, l - 1])); fam.push((l, vec![0, l / 3, 2 * l / 3, l - 1])) }
    }
    let fam = &fam;
    fn family(l: usize, at: &[usize], fill: u8, n: usize) -> Vec<String> {
        // number i in base 12, at the places; in no particular order, in
        // which a search tree is flat whatever the order of the hashes
        let mut order: Vec<usize> = (0..n).collect();
        let mut x = 0x9e3779b97f4a7c15u64;
        for i in (1..n).rev() { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); order.swap(i, (x >> 33) as usize % (i + 1)) }
        order.into_iter().map(|i| { let mut k = vec![fill; l]; let mut i = i; for p in at.iter().rev() { k[*p] = b"0123456789ab"[i % 12]; i /= 12 } String::from_utf8(k).unwrap() }).collect()
    }
    r.sweep("name families", fam.len() as u64 * 2, "members whose names, of 4 to 300 bytes, differ in 4 places only, side by side or apart, everywhere in the name: insertion, look up, removal and comparison", |c, i| {
        let (l, at) = &fam[i as usize / 2];
        let fill = [b'x', b' '][i as usize % 2];
        c.nontrivial();
        let ops: [(&str, fn(&[String]) -> Cost); 3] = [
            ("insertion", |k| { let mut o = Object::new(); cost(|| for k in k { o.insert(k, JsonValue::Null) }) }),
            ("look up", |k| { let o: Object = k.iter().map(|k| (k, 1)).collect(); cost(|| for k in k { std::hint::black_box((o.get(k), &o[k.as_str()])); }) }),
            ("comparison, copy and removal", |k| { let o: Object = k.iter().map(|k| (k, 1)).collect(); cost(|| { let mut p = o.clone(); std::hint::black_box(o == p); p.remove(&k[k.len() / 2]); }) }),
        ];
        for (name, f) in ops {
            c.step();
            let n = 300;
            let cs = [1, 2, 4].map(|m| f(&family(*l, at, fill, m * n)));
            judge(&format!("{} of n names of {} bytes {} that differ at {:?}", name, l, q(&(fill as char).to_string()), at), cs, 3.0, &|m| f(&family(*l, at, fill, m * n)))?;
        }
        Ok(())
    });

    // histories of calls
    type F = fn(usize) -> Cost;
    fn obj(n: usize) -> Object { let mut o = Object::new(); for i in 0..n { o.insert(&format!("key {} here", i), i.into()) } o }
    fn arr(n: usize) -> JsonValue { JsonValue::Array((0..n).map(|i| i.into()).collect()) }
    fn names(n: usize) -> Vec<String> { (0..n).map(|i| format!("key {} here", i)).collect() }
    let hist: Vec<(&str, F, f64)> = vec![
        ("push", |n| { let mut v = JsonValue::new_array(); cost(|| for i in 0..n { v.push(i).unwrap() }) }, 2.6),
        ("pop", |n| { let mut v = arr(n); cost(|| for _ in 0..n { v.pop(); }) }, 2.6),
        ("array_remove of the last", |n| { let mut v = arr(n); cost(|| for i in (0..n).rev() { v.array_remove(i); }) }, 2.6),
        ("array_remove of the first", |n| { let mut v = arr(n); cost(|| { v.array_remove(0); }) }, 2.6),
        ("array_remove beyond the end", |n| { let mut v = arr(n); cost(|| for _ in 0..n { v.array_remove(n); }) }, 2.6),
        ("assignment by index", |n| { let mut v = arr(n); cost(|| for i in 0..n { v[i] = "x".into() }) }, 2.6),
        ("assignment just beyond the end", |n| { let mut v = JsonValue::new_array(); cost(|| for i in 0..n { v[i] = i.into() }) }, 2.6),
        ("len and is_empty", |n| { let v = arr(n); let o = JsonValue::Object(obj(n)); cost(|| for _ in 0..n { std::hint::black_box((v.len(), v.is_empty(), o.len(), o.is_empty())); }) }, 2.6),
        ("missing members", |n| { let v = arr(n); let o = JsonValue::Object(obj(n)); cost(|| for _ in 0..n { std::hint::black_box((&v[n], &o["no"], o.has_key("key"), &v["a"])); }) }, 3.0),
        ("size hints", |n| { let v = arr(n); cost(|| { let mut m = v.members(); while m.next().is_some() { std::hint::black_box((m.size_hint(), m.len())); } }) }, 2.6),
        ("size hints of entries", |n| { let v = JsonValue::Object(obj(n)); cost(|| { let mut m = v.entries(); while m.next().is_some() { std::hint::black_box((m.size_hint(), m.len())); } }) }, 2.6),
        ("from both ends", |n| { let v = JsonValue::Object(obj(n)); let a = arr(n); cost(|| { let mut m = v.entries(); while m.next().is_some() { m.next_back(); } let mut m = a.members(); while m.next().is_some() { m.next_back(); } }) }, 2.6),
        ("iter of an object", |n| { let o = obj(n); cost(|| for (k, v) in o.iter() { std::hint::black_box((k, v)); }) }, 2.6),
        ("insert", |n| { let k = names(n); let mut o = Object::new(); cost(|| for (i, k) in k.iter().enumerate() { o.insert(k, i.into()) }) }, 2.8),
        ("insert into a value", |n| { let k = names(n); let mut o = JsonValue::new_object(); cost(|| for (i, k) in k.iter().enumerate() { o.insert(k, i).unwrap() }) }, 2.8),
        ("assignment by name", |n| { let k = names(n); let mut o = JsonValue::new_object(); cost(|| for (i, k) in k.iter().enumerate() { o[k.as_str()] = i.into() }) }, 2.8),
        ("overwriting", |n| { let mut o = obj(n); let k = names(n); cost(|| for k in &k { o.insert(k, 1.into()) }) }, 2.8),
        ("overwriting one", |n| { let mut o = obj(n); cost(|| for i in 0..n { o.insert("key 7 here", i.into()) }) }, 3.0),
        ("get", |n| { let o = obj(n); let k = names(n); cost(|| for k in &k { std::hint::black_box((o.get(k), &o[k.as_str()])); }) }, 2.8),
        ("get_mut", |n| { let mut o = obj(n); let k = names(n); cost(|| for k in &k { if let Some(x) = o.get_mut(k) { x.take(); } }) }, 2.8),
        ("one removal", |n| { let mut o = obj(n); cost(|| { o.remove("key 3 here"); }) }, 2.8),
        ("removal of the first", |n| { let mut o = obj(n); cost(|| { o.remove("key 0 here"); }) }, 2.8),
        ("removal of what is not there", |n| { let mut o = obj(n); cost(|| for _ in 0..n { o.remove("no"); }) }, 3.0),
        ("clear", |n| { let mut o = obj(n); cost(|| { o.clear(); }) }, 2.6),
        ("clone of an object", |n| { let o = obj(n); cost(|| drop(o.clone())) }, 2.6),
        ("comparing objects", |n| { let o = obj(n); let p = o.clone(); cost(|| { std::hint::black_box(o == p); }) }, 2.8),
        ("comparing objects in another order", |n| { let o = obj(n); let mut p = Object::new(); for i in (0..n).rev() { p.insert(&format!("key {} here", i), i.into()) } cost(|| { std::hint::black_box(o == p); }) }, 2.8),
        ("collecting", |n| { let k = names(n); cost(|| { let o: Object = k.iter().map(|k| (k.as_str(), 1)).collect(); std::hint::black_box(&o); }) }, 2.8),
        ("from a vector", |n| { let v: Vec<usize> = (0..n).collect(); cost(|| drop(JsonValue::from(v))) }, 2.6),
        ("from a vector of strings", |n| { let v = names(n); cost(|| drop(json::from(v))) }, 2.6),
        ("from a slice", |n| { let v: Vec<f64> = (0..n).map(|x| x as f64 / 7.0).collect(); cost(|| drop(JsonValue::from(&v[..]))) }, 2.6),
        ("from a tree map", |n| { let v: std::collections::BTreeMap<String, usize> = (0..n).map(|i| (format!("key {} here", i), i)).collect(); cost(|| drop(JsonValue::from(v))) }, 2.8),
        ("wrapping and unwrapping", |n| { let mut v = JsonValue::from("a string of more than thirty bytes, all plain".repeat(n / 10)); cost(|| for _ in 0..n { let mut w = JsonValue::new_array(); w.push(v.take()).unwrap(); v = w[0].take(); }) }, 2.6),
        ("moving in and out of an object", |n| { let mut v = arr(n); cost(|| for _ in 0..n { let mut w = JsonValue::new_object(); w["x"] = v.take(); v = w.remove("x"); }) }, 2.6),
        ("take_string", |n| { let mut v = JsonValue::from("x".repeat(n)); cost(|| drop(v.take_string())) }, 2.6),
        ("reading a string", |n| { let v = JsonValue::from("x".repeat(n)); cost(|| for _ in 0..n { std::hint::black_box((v.as_str(), v.as_f64(), v.as_bool(), v.is_string(), v.len())); }) }, 2.6),
        ("numbers", |n| cost(|| for i in 0..n { let v = JsonValue::from(i as f64 * 1.1e-300); std::hint::black_box((v.as_f64(), v.as_u64(), v.as_fixed_point_u64(2), v == 3)); }), 2.6),
        ("errors", |n| { let s = format!("[{}x]", "1,\n".repeat(n)); cost(|| { let e = json::parse(&s).unwrap_err(); drop(e.to_string()); drop(format!("{:?}", e)) }) }, 2.6),
        ("many short texts", |n| cost(|| for _ in 0..n { drop(json::parse("{\"a\":[1,2,\"x\\n\"]}").unwrap().dump()) }), 2.6),
        ("many errors", |n| cost(|| for _ in 0..n { drop(json::parse("{\"a\":[1,2,\"x\\n\"}").unwrap_err().to_string()) }), 2.6),
        ("wide indentation", |n| { let v = json::parse("[[[1]]]").unwrap(); cost(|| drop(v.pretty(n.min(u16::MAX as usize) as u16))) }, 2.6),
        ("growing copies", |n| { let v = arr(n); cost(|| { let mut w = JsonValue::new_array(); for _ in 0..4 { w.push(v.clone()).unwrap() } std::hint::black_box(&w); }) }, 2.6),
    ];
    let hist = &hist;
    let sizes: Vec<usize> = if r.thorough() { (1..=40).map(|k| 100 * k).collect() } else { vec![500, 700, 1000, 1500, 3000] };
    let sizes = &sizes;
    r.sweep("calls", (hist.len() * sizes.len()) as u64, "42 histories of n calls x sizes", |c, i| {
        let (name, f, slack) = &hist[i as usize % hist.len()];
        let n = sizes[i as usize / hist.len()];
        c.step();
        c.nontrivial();
        judge(&format!("{} (n = {})", name, n), [f(n), f(2 * n), f(4 * n)], *slack, &|k| f(k * n))
    });
    // what takes no more when the value is longer, on every large value
    type Do = fn(&mut JsonValue);
    fn inside(v: &mut JsonValue) -> &mut JsonValue {
        // the large container of any of the makers below
        if v.len() == 1 && v.is_array() { &mut v[0] } else if v.has_key("only") { &mut v["only"] } else { v }
    }
    let makers: Vec<(&str, fn(usize) -> JsonValue)> = vec![
        ("an array of n", arr),
        ("an object of n", |n| JsonValue::Object(obj(n))),
        ("a text of n", |n| JsonValue::from("x".repeat(10 * n))),
        ("an array of an array of n", |n| json::array![arr(n)]),
        ("an array of an object of n", |n| json::array![JsonValue::Object(obj(n))]),
        ("an object with an array of n", |n| json::object!{ only: arr(n) }),
        ("an object with an object of n", |n| json::object!{ only: JsonValue::Object(obj(n)) }),
        ("an array of a text of n", |n| json::array!["x".repeat(10 * n)]),
        ("an array of n texts", |n| json::from(names(n))),
        ("an array of n objects", |n| JsonValue::Array((0..n).map(|i| json::object!{ a: i }).collect())),
        ("an object of n arrays", |n| JsonValue::Object((0..n).map(|i| (format!("key {} here", i), json::array![i])).collect())),
        ("a parsed array of n", |n| json::parse(&text("[", "[#],", "0]", n)).unwrap()),
        ("a parsed object of n", |n| json::parse(&text("{", "\"key # here\":#,", "\"z\":0}", n)).unwrap()),
    ];
    let dos: Vec<(&str, Do)> = vec![
        ("take and put back", |v| { let t = v.take(); *v = t }),
        ("take the inner one and put it back", |v| { let t = inside(v).take(); *inside(v) = t }),
        ("take_string and put back", |v| { if let Some(t) = inside(v).take_string() { *inside(v) = t.into() } }),
        ("wrap in an array and unwrap", |v| { let mut a = json::array![v.take()]; *v = a.pop() }),
        ("wrap by array_remove", |v| { let mut a = json::array![1, v.take()]; *v = a.array_remove(1) }),
        ("wrap in an object and unwrap", |v| { let mut a = json::object!{ k: v.take() }; *v = a.remove("k") }),
        ("wrap by the macros", |v| { let mut a = json::array![{ "k": [null, v.take()] }]; *v = a[0]["k"][1].take() }),
        ("insert and replace", |v| { let mut a = json::object!{ k: 1 }; a.insert("k", v.take()).unwrap(); a["l"] = a["k"].take(); *v = a["l"].take() }),
        ("push and pop", |v| { let mut a = json::array![]; a.push(v.take()).unwrap(); *v = a.pop() }),
        ("convert", |v| { *v = json::from(Some(v.take())) }),
        ("convert a vector", |v| { let mut a = json::from(vec![v.take()]); *v = a.pop() }),
        ("collect", |v| { let mut o: Object = vec![("k", v.take())].into_iter().collect(); *v = o.remove("k").unwrap() }),
        ("Object wrapped and unwrapped", |v| if let JsonValue::Object(o) = v.take() { *v = json::from(o) } else { *v = 1.into() }),
        ("push and pop inside", |v| { let v = inside(v); if v.push(1).is_ok() { v.pop(); } }),
        ("array_remove of the last", |v| { let v = inside(v); if v.push(1).is_ok() { let l = v.len(); v.array_remove(l - 1); } }),
        ("assign first, middle and last", |v| { let v = inside(v); let l = v.len(); if v.is_array() { v[0] = 1.into(); v[l / 2] = "x".into(); v[l - 1] = JsonValue::Null } }),
        ("assign by name", |v| { let v = inside(v); if v.is_object() { v["key 7 here"] = 1.into(); v["key 0 here".to_string()] = "x".into(); v[&"key 9 here".to_string()] = JsonValue::Null } }),
        ("insert over", |v| { let _ = inside(v).insert("key 5 here", 2); }),
        ("get_mut", |v| if let JsonValue::Object(o) = inside(v) { if let Some(x) = o.get_mut("key 3 here") { *x = 1.into() } std::hint::black_box((o.get("key 4 here"), o.len(), o.is_empty())); }),
        ("remove what is not there", |v| { let v = inside(v); v.remove("no"); v.array_remove(usize::MAX); }),
        ("wrong calls", |v| { let v = inside(v); if v.is_object() { let _ = v.push(1); v.pop(); v.take_string(); } else { let _ = v.insert("a", 1); v.remove("a"); } }),
        ("read by index and name", |v| { std::hint::black_box((&v[0], &v[usize::MAX], &v["key 5 here"], &v["no"], v.has_key("key 6 here"), v.has_key("no"))); let w = inside(v); std::hint::black_box((&w[0], &w[usize::MAX], &w["key 5 here"], &w["no"], w.has_key("key 6 here"), w.has_key("no"))); }),
        ("ask", |v| { for v in [&*v, &v[0]] { std::hint::black_box((v.len(), v.is_empty(), v.is_array(), v.is_object(), v.is_string(), v.is_null(), v.as_str(), v.as_f64(), v.as_bool(), v.as_u64(), v.as_number(), v.as_fixed_point_i64(2))); } let v = inside(v); std::hint::black_box((v.len(), v.is_empty(), v.is_array(), v.as_str(), v.as_number())); }),
        ("begin to iterate", |v| { let v = inside(v); std::hint::black_box((v.members().len(), v.members().next(), v.members().next_back(), v.entries().len(), v.entries().next(), v.entries().next_back(), v.members().size_hint(), v.entries().size_hint())); std::hint::black_box((v.members_mut().next().is_some(), v.members_mut().next_back().is_some(), v.members_mut().len())); std::hint::black_box((v.entries_mut().next().is_some(), v.entries_mut().next_back().is_some(), v.entries_mut().len())); }),
        ("look for the first", |v| { let v = inside(v); if v.is_array() { v[0] = 77.into(); std::hint::black_box(v.contains(77)); } }),
        ("compare with something else", |v| { let v = inside(v); std::hint::black_box((*v == 1, *v == "x", *v == json::Null, *v == true, *v == JsonValue::new_array(), JsonValue::new_object() == *v)); }),
        ("write to an output that refuses", |v| { struct No; impl std::io::Write for No { fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::Other.into()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } } if !v.is_string() && !v[0].is_string() { std::hint::black_box((v.write(&mut No).is_err(), v.write_pretty(&mut No, 2).is_err())); } }),
    ];
    let (makers, dos) = (&makers, &dos);
    let asked = r.by(1000, 3000);
    r.sweep("calls on large values", (makers.len() * dos.len()) as u64, "26 pieces of use that take no more when the value is longer, n times on each of 13 kinds of values of size n", |c, i| {
        let ((m, make), (d, f)) = (&makers[i as usize % makers.len()], &dos[i as usize / makers.len()]);
        c.step();
        c.nontrivial();
        let at = |n: usize| { let mut v = make(n); let k = cost(|| for _ in 0..n { f(&mut v) }); drop(v); k };
        judge(&format!("{}, n times, on {}", d, m), [1, 2, 4].map(|k| at(k * asked)), 3.0, &|k| at(k * asked))
    });
    // what leaves the size as it was leaves the memory as it was
    let cycles: Vec<(&str, Do)> = vec![
        ("replaced by a clone", |v| { let w = v.clone(); *v = w }),
        ("clone_from a clone", |v| { let w = v.clone(); v.clone_from(&w) }),
        ("parsed from what it dumps", |v| { let w = json::parse(&v.dump()).unwrap(); *v = w }),
        ("inner one replaced by a clone", |v| { let w = inside(v).clone(); *inside(v) = w }),
        ("pop and push", |v| { let v = inside(v); let x = v.pop(); let _ = v.push(x); }),
        ("remove and insert", |v| { let v = inside(v); if v.is_object() { let x = v.remove("key 3 here"); v["key 3 here"] = x } }),
        ("all removed and inserted", |v| { let v = inside(v); let k: Vec<String> = v.entries().map(|e| e.0.to_string()).collect(); for k in k { let x = v.remove(&k); v[k] = x } }),
        ("cleared and filled", |v| { let v = inside(v); let w = v.clone(); v.clear(); for x in w.members() { v.push(x.clone()).unwrap() } for (k, x) in w.entries() { v.insert(k, x.clone()).unwrap() } if let Some(s) = w.as_str() { *v = s.into() } }),
        ("taken and put back", |v| { let w = v.take(); *v = w }),
        ("array_remove and push", |v| { let v = inside(v); let x = v.array_remove(0); let _ = v.push(x); }),
        ("collected again", |v| { let v = inside(v); if v.is_object() { let o: Object = v.entries().map(|(k, x)| (k, x.clone())).collect(); *v = o.into() } else if v.is_array() { *v = v.members().cloned().collect::<Vec<_>>().into() } }),
        ("overwritten with itself", |v| { let v = inside(v); let l = v.len(); for i in 0..l { if v.is_array() { let x = v[i].clone(); v[i] = x } } let k: Vec<String> = v.entries().map(|e| e.0.to_string()).collect(); for k in k { let x = v[&k].clone(); v.insert(&k, x).unwrap() } }),
        ("printed", |v| { drop((v.dump(), v.pretty(2), v.to_string())); v.write(&mut Sink(0)).unwrap() }),
        ("taken as a string", |v| { let v = inside(v); if let Some(s) = v.take_string() { *v = s.into() } }),
    ];
    let cycles = &cycles;
    let rounds = r.by(40, 400);
    r.sweep("steady", (makers.len() * cycles.len() * cycles.len() * 4) as u64, "every pair of 14 changes that leave a value's size as it is, 40 (400) times in turn, on 13 kinds of values of 4 sizes: the memory held and used stays what it was", |c, i| {
        let i = i as usize;
        let (m, make) = &makers[i % makers.len()];
        let i = i / makers.len();
        let n = [1usize, 9, 33, 130][i % 4];
        let ((an, a), (bn, b)) = (&cycles[i / 4 % cycles.len()], &cycles[i / 4 / cycles.len()]);
        c.step();
        c.nontrivial();
        let mut v = make(n);
        let base = LIVE.with(|l| l.get());
        let (w, x) = (v.clone(), v.dump().len());
        let fresh = (LIVE.with(|l| l.get()) - base).max(64) as u64 + x as u64;
        drop(w);
        for k in 0..rounds {
            let before = LIVE.with(|l| l.get());
            PEAK.with(|p| p.set(before));
            a(&mut v);
            b(&mut v);
            let held = LIVE.with(|l| l.get()) - base;
            let peak = PEAK.with(|p| p.get()) - before;
            if held > 6 * fresh as i64 + 4096 || peak > 24 * fresh as i64 + 16384 {
                return Err(format!("{} (n = {}), {} and {}: after {} rounds it holds {} bytes more than when new, and used {} in the last round; a copy takes {}", m, n, an, bn, k + 1, held, peak, fresh));
            }
        }
        Ok(())
    });
    r.finish()
}
