//! C16: all serialization routes produce the same bytes.
use json::codegen::Generator;
use json::JsonValue;
use mc::gen::*;
use mc::model::value::*;
use mc::model::*;
use mc::*;
use std::io::{self, Write};

mc::fast_alloc!();

/// The least a user has to write.
struct Least(Vec<u8>);
impl Generator for Least {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> { &mut self.0 }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> { self.0.push(min); Ok(()) }
}

/// A user's generator that overrides every hook it may.
struct Own { out: Vec<u8>, scratch: Vec<u8>, dent: usize, n: Option<usize> }
impl Own {
    fn new(n: Option<usize>) -> Own { Own { out: Vec::new(), scratch: Vec::new(), dent: 0, n } }
    fn flush(&mut self) { let s = std::mem::take(&mut self.scratch); self.out.extend(s) }
    fn done(mut self) -> Vec<u8> { self.flush(); self.out }
}
impl Generator for Own {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> { &mut self.scratch }
    fn write(&mut self, s: &[u8]) -> io::Result<()> { self.flush(); self.out.extend_from_slice(s); Ok(()) }
    fn write_char(&mut self, c: u8) -> io::Result<()> { self.flush(); self.out.push(c); Ok(()) }
    fn write_min(&mut self, s: &[u8], min: u8) -> io::Result<()> {
        self.flush();
        if self.n.is_some() { self.out.extend_from_slice(s) } else { self.out.push(min) }
        Ok(())
    }
    fn new_line(&mut self) -> io::Result<()> {
        if let Some(n) = self.n {
            self.flush();
            self.out.push(b'\n');
            let w = self.dent * n;
            self.out.resize(self.out.len() + w, b' ');
        }
        Ok(())
    }
    fn indent(&mut self) { self.dent += 1 }
    fn dedent(&mut self) { self.dent -= 1 }
}

/// Accepts `k` bytes a call.
struct Bits(Vec<u8>, usize);
impl Write for Bits {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(self.1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn same(want: &[u8], got: &[u8], how: &str) -> Res {
    if want == got { return Ok(()) }
    let at = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let near = |x: &[u8]| q(&String::from_utf8_lossy(&x[at.saturating_sub(20)..(at + 40).min(x.len())]));
    Err(format!("{} gives other bytes from {} on: {} instead of {} (lengths {} and {})", how, at, near(got), near(want), got.len(), want.len()))
}

fn compact(c: &mut Ctl, v: &JsonValue, want: &str) -> Res {
    c.steps(11);
    let want = want.as_bytes();
    same(want, v.dump().as_bytes(), "dump")?;
    same(want, json::stringify(v.clone()).as_bytes(), "stringify")?;
    let mut w = Vec::new();
    v.write(&mut w).map_err(|e| e.to_string())?;
    same(want, &w, "write")?;
    #[allow(deprecated)]
    { w.clear(); v.to_writer(&mut w); same(want, &w, "to_writer")?; }
    let mut w = b"before ".to_vec();
    v.write(&mut w).map_err(|e| e.to_string())?;
    same(&[b"before ", want].concat(), &w, "write behind other bytes")?;
    for k in [1, 7] {
        let mut w = Bits(Vec::new(), k);
        v.write(&mut w).map_err(|e| e.to_string())?;
        same(want, &w.0, "write in pieces")?;
    }
    {
        let mut s = vec![0xaau8; want.len()];
        let mut cur = &mut s[..];
        v.write(&mut cur).map_err(|e| format!("writing into a slice of the right size: {}", e))?;
        if !cur.is_empty() { return Err(format!("{} bytes missing in a slice", cur.len())) }
        same(want, &s, "write to a slice")?;
    }
    {
        let mut b = io::BufWriter::with_capacity(16, Vec::new());
        v.write(&mut b).map_err(|e| e.to_string())?;
        same(want, &b.into_inner().map_err(|e| e.to_string())?, "write to a BufWriter")?;
    }
    let mut g = Least(Vec::new());
    g.write_json(v).map_err(|e| e.to_string())?;
    same(want, &g.0, "a minimal generator")?;
    let mut g = Own::new(None);
    g.write_json(v).map_err(|e| e.to_string())?;
    same(want, &g.done(), "a generator of one's own")?;
    let mut w = Vec::new();
    let mut g = json::codegen::WriterGenerator::new(&mut w);
    g.write_json(v).map_err(|e| e.to_string())?;
    same(want, &w, "WriterGenerator")?;
    let mut g = json::codegen::DumpGenerator::new();
    g.write_json(v).map_err(|e| e.to_string())?;
    same(want, g.consume().as_bytes(), "DumpGenerator")?;
    match v {
        JsonValue::Object(o) => {
            same(want, o.dump().as_bytes(), "Object::dump")?;
            same(want, json::stringify(o.clone()).as_bytes(), "stringify of the object")?;
            same(want, v.to_string().as_bytes(), "Display")?;
            let mut g = Least(Vec::new());
            g.write_object(o).map_err(|e| e.to_string())?;
            same(want, &g.0, "write_object")?;
        }
        JsonValue::Array(a) => {
            same(want, v.to_string().as_bytes(), "Display")?;
            same(want, format!("{:}", v).as_bytes(), "Display")?;
            same(want, json::stringify(a.clone()).as_bytes(), "stringify of the array")?;
        }
        JsonValue::String(s) => same(want, json::stringify(s.clone()).as_bytes(), "stringify of the string")?,
        JsonValue::Short(s) => same(want, json::stringify(s.as_str()).as_bytes(), "stringify of the str")?,
        JsonValue::Number(n) => same(want, json::stringify(*n).as_bytes(), "stringify of the number")?,
        JsonValue::Boolean(b) => same(want, json::stringify(*b).as_bytes(), "stringify of the bool")?,
        JsonValue::Null => same(want, json::stringify(json::Null).as_bytes(), "stringify of null")?,
    }
    Ok(())
}

fn pretty(c: &mut Ctl, v: &JsonValue, n: u16, want: &str) -> Res {
    c.steps(9);
    let want = want.as_bytes();
    same(want, v.pretty(n).as_bytes(), "pretty")?;
    same(want, json::stringify_pretty(v.clone(), n).as_bytes(), "stringify_pretty")?;
    let mut w = b"x".to_vec();
    v.write_pretty(&mut w, n).map_err(|e| e.to_string())?;
    same(want, &w[1..], "write_pretty")?;
    for k in [1, 5] {
        let mut w = Bits(Vec::new(), k);
        v.write_pretty(&mut w, n).map_err(|e| e.to_string())?;
        same(want, &w.0, "write_pretty in pieces")?;
    }
    let mut g = Own::new(Some(n as usize));
    g.write_json(v).map_err(|e| e.to_string())?;
    same(want, &g.done(), "a pretty generator of one's own")?;
    let mut g = json::codegen::PrettyGenerator::new(n);
    g.write_json(v).map_err(|e| e.to_string())?;
    same(want, g.consume().as_bytes(), "PrettyGenerator")?;
    let mut w = Vec::new();
    let mut g = json::codegen::PrettyWriterGenerator::new(&mut w, n);
    g.write_json(v).map_err(|e| e.to_string())?;
    same(want, &w, "PrettyWriterGenerator")?;
    if let JsonValue::Object(o) = v { same(want, o.pretty(n).as_bytes(), "Object::pretty")? }
    if n == 4 && (v.is_object() || v.is_array()) { same(want, format!("{:#}", v).as_bytes(), "Display {:#}")? }
    Ok(())
}

fn every(c: &mut Ctl, v: &JsonValue, ns: &[u16]) -> Res {
    compact(c, v, &v.dump())?;
    for n in ns { pretty(c, v, *n, &v.pretty(*n))? }
    Ok(())
}

fn mixed(len: usize) -> RV {
    // text with an escape somewhere in the middle
    RV::Str(format!("{}\u{1}{}", ascii_of_len(len / 2), text_of_len(len - len / 2)))
}

/// One serialization of a history.
fn act(k: usize, vals: &[JsonValue], exp: &[(String, String, String)]) -> Res {
    let (i, how) = (k / 6, k % 6);
    let v = &vals[i];
    match how {
        0 => same(exp[i].0.as_bytes(), v.dump().as_bytes(), "dump"),
        1 => same(exp[i].1.as_bytes(), v.pretty(2).as_bytes(), "pretty(2)"),
        2 => { let mut w = Vec::new(); v.write(&mut w).map_err(|e| e.to_string())?; same(exp[i].0.as_bytes(), &w, "write") }
        3 => { let mut w = Vec::new(); v.write_pretty(&mut w, 7).map_err(|e| e.to_string())?; same(exp[i].2.as_bytes(), &w, "write_pretty(7)") }
        4 => {
            // output that fails midway
            let mut s = vec![0u8; exp[i].0.len() / 2];
            let mut cur = &mut s[..];
            if v.write(&mut cur).is_ok() { return Err("writing into half the space succeeded".into()) }
            same(&exp[i].0.as_bytes()[..exp[i].0.len() / 2], &s, "write into half the space")
        }
        _ => {
            let mut s = vec![0u8; exp[i].1.len() / 3];
            let mut cur = &mut s[..];
            if v.write_pretty(&mut cur, 2).is_ok() { return Err("pretty-writing into a third of the space succeeded".into()) }
            same(&exp[i].1.as_bytes()[..exp[i].1.len() / 3], &s, "write_pretty into a third of the space")
        }
    }
}

fn main() {
    let mut r = Runner::new("C16");
    let (lv, keys) = (leaves(), ["a", "", "\u{e9}\n", "key longer than thirty-two bytes, on the heap"]);
    let lv2: Vec<RV> = vec![RV::Null, RV::d(false, 25, -2), RV::s("x\u{7}"), RV::Str(text_of_len(40)), RV::Nan];
    r.dfs("leaves", 0, "all trees of up to 2 further nodes with every leaf kind, every route, indentations 0, 1, 4", |c| {
        let mut b = 2;
        let t = tree(c, &mut b, 3, &lv, &keys[..2]);
        let v = build(&t);
        c.nontrivial();
        c.visit_bytes(v.dump().as_bytes());
        c.log(|| show(&t));
        every(c, &v, &[0, 1, 4])
    });
    let b2 = r.by(5, 6);
    r.dfs("trees", 0, "all trees of up to 5 (6) further nodes with 5 leaf kinds, every route, indentations 2, 4", |c| {
        let mut b = b2;
        let t = tree(c, &mut b, 5, &lv2, &keys[1..3]);
        let v = build(&t);
        c.nontrivial();
        c.visit_bytes(v.dump().as_bytes());
        c.log(|| show(&t));
        every(c, &v, &[2, 4])
    });
    let b3 = r.by(4, 5);
    r.dfs("built differently", 0, "all trees of up to 4 (5) further nodes: each way of building them, a clone and the re-parsed value give the same bytes by every route", |c| {
        let mut b = b3;
        let t = tree(c, &mut b, 4, &lv2[..4], &keys);
        let v = build(&t);
        let (d, p) = (v.dump(), v.pretty(3));
        c.nontrivial();
        c.log(|| show(&t));
        for st in &STYLES[1..] {
            let w = build_as(&t, *st);
            compact(c, &w, &d).map_err(|e| format!("built {:?}: {}", st, e))?;
            pretty(c, &w, 3, &p).map_err(|e| format!("built {:?}: {}", st, e))?;
        }
        for w in [v.clone(), json::parse(&d).map_err(|e| e.to_string())?, json::parse(&p).map_err(|e| e.to_string())?] {
            compact(c, &w, &d)?;
            pretty(c, &w, 3, &p)?;
        }
        Ok(())
    });
    // output length: buffers of any power of two
    let mut sizes: Vec<usize> = (0..r.by(2600, 9000)).collect();
    for p in [4096usize, 8192, 16384, 32768, 65536, 131072, 1 << 20] { for d in -18i64..=18 { sizes.push((p as i64 + d) as usize) } }
    r.sweep("lengths", sizes.len() as u64, "outputs of every length to 2600 (9000) and around powers of two to 2^20: plain, escaped and mixed strings, as value, element, member and key, and long arrays", |c, i| {
        let n = sizes[i as usize];
        c.nontrivial();
        let mut vs = vec![RV::Str(ascii_of_len(n)), mixed(n),
            RV::Obj(vec![("k".into(), mixed(n / 2)), (text_of_len(n / 2), RV::d(false, 1234567, -3))])];
        if n < 6000 {
            vs.push(RV::Arr((0..n / 4).map(|k| RV::i(k as i64 % 1000)).collect()));
            vs.push(RV::Arr(vec![RV::Str(text_of_len(n)), RV::d(true, u64::MAX, -9), RV::Str(text_of_len(3))]));
        }
        for t in vs { every(c, &build(&t), if i % 16 == 0 || n < 300 { &[2, 4] } else { &[] })? }
        Ok(())
    });
    r.sweep("indentation", r.by(1400, 65536), "every indentation to 1400 (65535), by every pretty route", |c, i| {
        c.nontrivial();
        let v = build(&RV::Arr(vec![RV::i(1), RV::Obj(vec![("a".into(), RV::s("\n"))])]));
        pretty(c, &v, i as u16, &v.pretty(i as u16))
    });
    r.sweep("numbers", 65536, "every exponent with 12 mantissas by every compact route", |c, i| {
        let e = i as i64 - 32768;
        c.nontrivial();
        for m in [0u64, 1, 7, 10, 12, 105, 12345, 999999, 1 << 32, 10_000_000_000_000_000, u64::MAX / 10, u64::MAX] {
            let v = JsonValue::Number(unsafe { json::number::Number::from_parts_unchecked(i % 3 != 0, m, e as i16) });
            let d = v.dump();
            let mut w = Vec::new();
            v.write(&mut w).map_err(|e| e.to_string())?;
            same(d.as_bytes(), &w, "write")?;
            let mut w = Bits(Vec::new(), 3);
            v.write_pretty(&mut w, 2).map_err(|e| e.to_string())?;
            same(d.as_bytes(), &w.0, "write_pretty in pieces")?;
            same(d.as_bytes(), v.pretty(4).as_bytes(), "pretty")?;
            same(d.as_bytes(), v.to_string().as_bytes(), "Display")?;
            let mut g = Own::new(None);
            g.write_json(&v).map_err(|e| e.to_string())?;
            same(d.as_bytes(), &g.done(), "a generator of one's own")?;
            c.steps(6);
        }
        Ok(())
    });
    r.sweep("characters", 0x110000 / 64, "every Unicode character in values and keys by every compact route", |c, i| {
        let s: String = (0..64).filter_map(|k| char::from_u32(i as u32 * 64 + k)).collect();
        c.nontrivial();
        compact(c, &JsonValue::from(s.as_str()), &JsonValue::from(s.as_str()).dump())?;
        for ch in s.chars() {
            let v = build(&RV::Obj(vec![(ch.to_string(), RV::Str(format!("x{}", ch)))]));
            if i < 16 || ch as u32 % 64 == 0 { compact(c, &v, &v.dump())? } else {
                let mut w = Vec::new();
                v.write(&mut w).map_err(|e| e.to_string())?;
                same(v.dump().as_bytes(), &w, "write")?;
                c.steps(2);
            }
        }
        Ok(())
    });
    r.sweep("after changes", 1 << 8, "a value grown and shrunk through every subset of 8 changes: serialized between the changes, it ends with the bytes of a freshly built one", |c, i| {
        c.nontrivial();
        let mut v = build(&RV::Obj(vec![("a".into(), RV::Arr(vec![RV::i(1)])), ("b".into(), RV::s("t"))]));
        let mut m = vec![("a".to_string(), RV::Arr(vec![RV::i(1)])), ("b".to_string(), RV::s("t"))];
        for k in 0..8 {
            if i >> k & 1 == 0 { continue }
            match k {
                0 => { v["a"].push("z").unwrap(); if let Some(e) = m.iter_mut().find(|e| e.0 == "a") { if let RV::Arr(a) = &mut e.1 { a.push(RV::s("z")) } } }
                1 => { v["c"] = JsonValue::from(text_of_len(50)); RV::set(&mut m, "c", RV::Str(text_of_len(50))) }
                2 => { v.remove("a"); m.retain(|e| e.0 != "a") }
                3 => { v["b"] = JsonValue::from(-0.5); RV::set(&mut m, "b", RV::d(true, 5, -1)) }
                4 => { v["a"] = build(&RV::Obj(vec![])); RV::set(&mut m, "a", RV::Obj(vec![])) }
                5 => { v.remove("c"); m.retain(|e| e.0 != "c") }
                6 => { for (k, x) in v.entries_mut() { if k == "b" { *x = JsonValue::Null } } if let Some(e) = m.iter_mut().find(|e| e.0 == "b") { e.1 = RV::Null } }
                _ => { v.insert("\u{1}", v.clone()).unwrap(); let o = RV::Obj(m.clone()); RV::set(&mut m, "\u{1}", o) }
            }
            every(c, &v, &[4])?;
        }
        let f = build(&RV::Obj(m));
        same(f.dump().as_bytes(), v.dump().as_bytes(), "the changed value")?;
        same(f.pretty(2).as_bytes(), v.pretty(2).as_bytes(), "the changed value")
    });
    let big = [1usize, 3, 17, 40, 300, 1100];
    let vals = lits();
    let nv = vals.len();
    r.sweep("three after one another", (nv * nv) as u64, "every three of 41 values of every kind as elements and as members, one below another, and as key and value", |c, i| {
        let (a, b) = (&vals[i as usize % nv].1, &vals[i as usize / nv].1);
        c.nontrivial();
        for (_, x) in &vals {
            let k = match x { RV::Str(k) if k != "a" => k.clone(), _ => "b".into() };
            let v = RV::Arr(vec![a.clone(), b.clone(), x.clone(), RV::Obj(vec![("a".into(), x.clone()), (k, RV::Arr(vec![b.clone()])), ("c".into(), a.clone())])]);
            every(c, &build(&v), &[2])?;
        }
        Ok(())
    });
    let tiny = tiny();
    let runs = run_lengths(r.by(30, 150));
    r.sweep("alike and another", (tiny.len() * tiny.len() * runs.len()) as u64, "1 to 30 (150) and up to 1025 times each of 25 tiny values with another one of them in front, in the middle or behind, in arrays and objects, every route", |c, i| {
        let i = i as usize;
        let (x, y, n) = (&tiny[i % tiny.len()], &tiny[i / tiny.len() % tiny.len()], runs[i / tiny.len() / tiny.len()]);
        c.nontrivial();
        let a = alike(x, y, n, i % 3);
        if (n < 30 || n % 64 == 0) && i % 2 == 0 { every(c, &build(&named(&a)), &[1])? }
        every(c, &build(&RV::Arr(a)), &[2])
    });
    let (base, odd) = ([0, 7, 10, 20], [0, 5, 7, 10, 11, 16, 18, 20]);
    let counts = [8usize, 10, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 150, 256, 257, 300];
    r.sweep("one other element", (counts.len() * 32 * 302) as u64, "8 to 300 times one of 4 tiny values with one of 8 others at every place, in arrays and objects, every compact route", |c, i| {
        let i = i as usize;
        let (n, p, x, y) = (counts[i / 302 / 32], i % 302, &tiny[base[i / 302 % 4]], &tiny[odd[i / 302 / 4 % 8]]);
        if p >= n { return Ok(()) }
        c.nontrivial();
        let mut a = vec![x.clone(); n];
        a[p] = y.clone();
        let v = build(&if p % 4 == 3 { named(&a) } else { RV::Arr(a) });
        let want = v.dump();
        compact(c, &v, &want)
    });
    // any number of changes between two serializations
    let mut between: Vec<usize> = vec![65537, 65536, 65535, 1024];
    between.extend((0..=r.by(520usize, 2100)).rev());
    let between = &between;
    r.sweep("many changes between", (between.len() * 4 * 6) as u64, "0 to 520 (2100) and up to 65537 changes of each of 6 kinds between two serializations of 4 values, which are as those of the same value built anew", |c, i| {
        let i = i as usize;
        let (shape, kind, n) = (i % 4, i / 4 % 6, between[i / 24]);
        c.nontrivial();
        c.steps(n as u64);
        let mut m = match shape {
            0 => RV::Arr(vec![RV::i(1), RV::s("t"), RV::Arr(vec![])]),
            1 => RV::Obj(vec![("a".into(), RV::i(1)), ("b".into(), RV::s("t")), (ascii_of_len(40), RV::i(3))]),
            2 => RV::Arr(vec![RV::i(0), RV::Arr(vec![RV::i(1), RV::i(2), RV::i(3)])]),
            _ => RV::Obj(vec![("x".into(), RV::Null), ("in".into(), RV::Obj(vec![("a".into(), RV::i(1)), ("b".into(), RV::s("t")), ("c".into(), RV::Bool(true))]))]),
        };
        let mut v = build(&m);
        let want = build(&m).dump();
        compact(c, &v, &want)?;
        {
            let m = match (&mut m, shape) { (RV::Arr(a), 2) => &mut a[1], (RV::Obj(o), 3) => &mut o[1].1, (m, _) => m };
            let v = match shape { 2 => &mut v[1], 3 => &mut v["in"], _ => &mut v };
            for s in 0..n {
                let x = RV::i((s % 10) as i64);
                match m {
                    RV::Arr(a) => match kind {
                        0 => { a[0] = x.clone(); v[0] = build(&x) }
                        1 => if s % 2 == 0 { a.pop(); v.pop(); } else { a.push(x.clone()); v.push(build(&x)).unwrap() },
                        2 => { let l = a.len() - 1; a[l] = x.clone(); *v.members_mut().next_back().unwrap() = build(&x) }
                        3 => if s % 3 == 0 { a.clear(); v.clear() } else { a.push(x.clone()); v.push(build(&x)).unwrap() },
                        4 => { a.remove(0); v.array_remove(0); a.push(x.clone()); v.push(build(&x)).unwrap() }
                        _ => { *a = vec![x.clone(), RV::s("n"), x.clone()]; let w = json::array![s % 10, "n", s % 10]; if s % 2 == 0 { *v = w } else { v.take(); *v = w } }
                    },
                    RV::Obj(o) => {
                        fn put(o: &mut Vec<(String, RV)>, k: &str, x: &RV) { match o.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = x.clone(), None => o.push((k.into(), x.clone())) } }
                        match kind {
                            0 => { put(o, "a", &x); v["a"] = build(&x) }
                            1 => if s % 2 == 0 { o.retain(|e| e.0 != "b"); v.remove("b"); } else { put(o, "b", &x); v.insert("b", build(&x)).unwrap() },
                            2 => { let l = o.len() - 1; o[l].1 = x.clone(); *v.entries_mut().next_back().unwrap().1 = build(&x) }
                            3 => if s % 3 == 0 { o.clear(); v.clear() } else { let k = ["", "k", "a"][s % 3]; put(o, k, &x); v.insert(k, build(&x)).unwrap() },
                            4 => { let k = o.remove(0).0; v.remove(&k); put(o, &k, &x); v.insert(&k, build(&x)).unwrap() }
                            _ => { *o = vec![("n".into(), x.clone()), ("a".into(), RV::Null)]; let w = json::object!{ n: s % 10, a: null }; if s % 2 == 0 { *v = w } else { v.take(); *v = w } }
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
        let f = build(&m);
        compact(c, &v, &f.dump()).and_then(|_| pretty(c, &v, 2, &f.pretty(2))).map_err(|e| format!("{} changes of kind {} to {}: {}", n, kind, want, e))
    });
    r.sweep("after changes, large", (big.len() * 3 * 144) as u64, "arrays, objects and arrays in objects of 1 to 1100 elements, every pair of 12 changes in place: serialized by every route before, between and behind, each time as a freshly built value is", |c, i| {
        let i = i as usize;
        let (n, kind, ops) = (big[i % big.len()], i / big.len() % 3, i / big.len() / 3);
        c.nontrivial();
        let elem = |k: usize| match k % 4 { 0 => RV::i(k as i64 % 10), 1 => RV::s("t"), 2 => RV::Arr(vec![RV::i(1)]), _ => RV::Bool(true) };
        let key = |k: usize| format!("key{:04}", k);
        let inner = if kind == 1 { RV::Obj((0..n).map(|k| (key(k), elem(k))).collect()) } else { RV::Arr((0..n).map(elem).collect()) };
        let mut m = if kind == 2 { RV::Obj(vec![("a".into(), RV::i(0)), ("in".into(), inner)]) } else { inner };
        let mut v = build(&m);
        let check = |c: &mut Ctl, m: &RV, v: &JsonValue, when: &str| -> Res {
            let f = build(m);
            compact(c, v, &f.dump()).and_then(|_| if n < 300 { pretty(c, v, 2, &f.pretty(2)) } else { same(f.pretty(2).as_bytes(), v.pretty(2).as_bytes(), "pretty") }).map_err(|e| format!("{} elements, {}: {}", n, when, e))
        };
        check(c, &m, &v, "at first")?;
        for o in [ops / 12, ops % 12] {
            let at = [0, n / 2, n - 1][o % 3].min(n - 1);
            c.log(|| format!("change {} at {}", o, at));
            {
                let m = match &mut m { RV::Obj(o) if kind == 2 => &mut o[1].1, m => m };
                let v = if kind == 2 { &mut v["in"] } else { &mut v };
                let digit = RV::i(9 - o as i64 % 7);
                let new = [digit, RV::s("u"), RV::Bool(false)][o / 3 % 3].clone();
                match (m, o / 3) {
                    (RV::Arr(a), 0 | 1) if at < a.len() => { a[at] = new.clone(); v[at] = build(&new) }
                    (RV::Arr(a), 2) if at < a.len() => { a[at] = new.clone(); *v.members_mut().nth(at).unwrap() = build(&new) }
                    (RV::Arr(a), _) => { let l = a.len() - 1; a[l] = RV::i(o as i64); v.pop(); v.push(o).unwrap() }
                    (RV::Obj(a), 0) => { a[at].1 = new.clone(); let k = a[at].0.clone(); v[k] = build(&new) }
                    (RV::Obj(a), 1) => { a[at].1 = new.clone(); v.entries_mut().nth(at).unwrap().1.clone_from(&build(&new)) }
                    (RV::Obj(a), 2) => { a[at].1 = new.clone(); if let JsonValue::Object(x) = v { *x.get_mut(&a[at].0).unwrap() = build(&new) } }
                    (RV::Obj(a), _) => { let k = a.remove(at).0; v.remove(&k); let k = format!("new{:02}{:02}", o, at % 100); a.push((k.clone(), new.clone())); v[k] = build(&new) }
                    _ => {}
                }
            }
            check(c, &m, &v, "after a change")?;
        }
        // another value of the same size where this one was
        drop(v);
        let mut other = m.clone();
        match &mut other { RV::Arr(a) => a[0] = RV::Bool(false), RV::Obj(o) => if let RV::Arr(a) = &mut o[if kind == 2 { 1 } else { 0 }].1 { a[0] = RV::Bool(false) } else { o[0].1 = RV::Bool(false) }, _ => {} }
        let v = build(&other);
        check(c, &other, &v, "built where another was")
    });
    // histories of serializations
    let vals: Vec<JsonValue> = [RV::Obj(vec![("k".into(), RV::Arr(vec![RV::i(1), RV::s("a\n")])), ("l".into(), RV::Obj(vec![]))]),
        RV::Arr(vec![RV::Str(text_of_len(1500)), RV::d(true, 5, -30)]), RV::s("short"), RV::d(false, 15, -1)].iter().map(build).collect();
    let exp: Vec<_> = vals.iter().map(|v| (v.dump(), v.pretty(2), v.pretty(7))).collect();
    let hl = r.by(4, 5);
    r.dfs("histories", 0, "every history of up to 4 (5) serializations of 4 values by 6 ways, some of which fail midway", |c| {
        let n = c.choose(hl) + 1;
        c.nontrivial();
        for _ in 0..n {
            let k = c.choose(24);
            c.step();
            c.log(|| format!("value {} by way {}", k / 6, k % 6));
            act(k, &vals, &exp)?;
        }
        Ok(())
    });
    r.sweep("repetitions", 24, "each of the 24 serializations 300 times in a row", |c, i| {
        c.nontrivial();
        for _ in 0..300 { c.step(); act(i as usize, &vals, &exp)? }
        Ok(())
    });
    r.finish()
}
