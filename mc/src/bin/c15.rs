//! C15: pretty printing has an exact layout and only adds whitespace.
use json::JsonValue;
use mc::gen::*;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

/// The layout, with the literals as `dump` writes them.
fn layout(v: &JsonValue, n: usize, level: usize, s: &mut String) {
    fn nl(k: usize, s: &mut String) { s.push('\n'); for _ in 0..k { s.push(' ') } }
    match v {
        JsonValue::Array(a) => {
            if a.is_empty() { s.push_str("[]"); return }
            for (i, x) in a.iter().enumerate() {
                s.push(if i == 0 { '[' } else { ',' });
                nl((level + 1) * n, s);
                layout(x, n, level + 1, s);
            }
            nl(level * n, s);
            s.push(']');
        }
        JsonValue::Object(o) => {
            if o.is_empty() { s.push_str("{}"); return }
            for (i, (k, x)) in o.iter().enumerate() {
                s.push(if i == 0 { '{' } else { ',' });
                nl((level + 1) * n, s);
                s.push_str(&JsonValue::from(k).dump());
                s.push_str(": ");
                layout(x, n, level + 1, s);
            }
            nl(level * n, s);
            s.push('}');
        }
        v => s.push_str(&v.dump()),
    }
}

/// Remove whitespace outside of strings.
fn strip(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let (mut instr, mut esc) = (false, false);
    for c in s.chars() {
        if instr {
            o.push(c);
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { instr = false }
        } else if c == '"' { instr = true; o.push(c) } else if !matches!(c, ' ' | '\n') { o.push(c) }
    }
    o
}

fn check(c: &mut Ctl, v: &JsonValue, n: u16, all: bool) -> Res {
    c.step();
    let got = v.pretty(n);
    let mut want = String::new();
    layout(v, n as usize, 0, &mut want);
    let bad = |how: &str, got: &str| Err(format!("{} with {} spaces {} gives {}, expected {}", q(&clip(&v.dump(), 120)), n, how, q(&diff(got, &want)), q(&diff(&want, got))));
    if got != want { return bad("pretty", &got) }
    let dump = v.dump();
    if strip(&got) != dump { return Err(format!("{} pretty-printed with {} spaces and stripped differs from the dump: {}", q(&clip(&dump, 120)), n, q(&clip(&strip(&got), 200)))) }
    if all {
        c.steps(3);
        let mut w = Vec::new();
        v.write_pretty(&mut w, n).map_err(|e| e.to_string())?;
        if w != want.as_bytes() { return bad("write_pretty", &String::from_utf8_lossy(&w)) }
        let s = json::stringify_pretty(v.clone(), n);
        if s != want { return bad("stringify_pretty", &s) }
        if let JsonValue::Object(o) = v { let s = o.pretty(n); if s != want { return bad("Object::pretty", &s) } }
        let s = format!("{:#}", v);
        let mut four = String::new();
        layout(v, 4, 0, &mut four);
        if !v.is_string() && !v.is_number() && !v.is_boolean() && !v.is_null() && s != four { return Err(format!("{} formatted with {{:#}} gives {}", q(&clip(&dump, 120)), q(&clip(&s, 200)))) }
    }
    Ok(())
}

fn diff(a: &str, b: &str) -> String {
    let mut k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(20);
    while !a.is_char_boundary(k) { k -= 1 }
    format!("@{}: {}", k, clip(&a[k..], 80))
}

fn main() {
    let mut r = Runner::new("C15");
    let few = vec![RV::Null, RV::s("a b\n,: [{"), RV::i(-1)];
    let nodes = r.by(5, 6);
    r.dfs("trees", 0, "every tree of at most 1+5 (1+6) nodes over 3 leaves and 2 keys, 2 indentations", |c| {
        let mut b = nodes;
        let v = tree(c, &mut b, 5, &few, &["k", "\" :,"]);
        let j = build(&v);
        if v.depth() > 1 { c.nontrivial() }
        c.log(|| q(&j.pretty(1)));
        check(c, &j, 2, false)?;
        check(c, &j, 1, true)
    });
    let all = leaves();
    r.dfs("leaves", 0, "every tree of at most 3 nodes over all leaf kinds, 5 ways of building it, 6 indentations", |c| {
        let mut b = 2;
        let v = tree(c, &mut b, 2, &all, &["k", ""]);
        let j = build_as(&v, *c.pick(&STYLES));
        c.nontrivial();
        for n in [0, 1, 2, 3, 4, 9] { check(c, &j, n, true)? }
        Ok(())
    });
    let shapes: Vec<JsonValue> = ["[]", "{}", "1", "\"s\"", "[1]", "[[]]", "[{}]", "{\"a\":[]}", "{\"a\":{}}", "[1,2,[3,[4,[5,{\"a\":{\"b\":[{\"c\":1}]}}]]],6]", "{\"a\":1,\"b\":{\"c\":[1,2,{}],\"d\":{}},\"e\":[[],[[]],{\"f\":[{}]}]}"].iter().map(|t| json::parse(t).unwrap()).collect();
    r.sweep("indentation", 3000 * 11, "every indentation from 0 to 2999 x 11 shapes", |c, i| {
        c.nontrivial();
        check(c, &shapes[(i % 11) as usize], (i / 11) as u16, i / 11 % 16 == 0 || i < 500)
    });
    r.sweep("wide indentation", 11 * 12, "indentations around 2^12..2^16", |c, i| {
        c.nontrivial();
        check(c, &shapes[(i / 12) as usize], [4095u16, 4096, 8191, 8192, 16383, 16384, 32766, 32767, 32768, 65533, 65534, 65535][(i % 12) as usize], true)
    });
    r.sweep("depth", r.by(400, 512), "every depth up to 400 (512), arrays, objects, mixed, with siblings before and after on every level, 4 indentations", |c, i| {
        c.nontrivial();
        for kind in 0..3 {
            let mut v = match i % 3 { 0 => RV::Arr(vec![]), 1 => RV::i(7), _ => RV::Obj(vec![]) };
            for l in 0..i {
                let obj = match kind { 0 => false, 1 => true, _ => l % 3 != 0 };
                v = if obj { RV::Obj(vec![("b".into(), RV::Obj(vec![])), ("in".into(), v), ("z".into(), RV::i(l as i64))]) } else { RV::Arr(vec![RV::Arr(vec![]), v, RV::i(l as i64)]) };
            }
            let j = build(&v);
            for n in [1u16, 0, 3] { check(c, &j, n, n == 1)? }
            if i < 40 || i % 50 == 0 { check(c, &j, 17, true)?; check(c, &j, if i < 40 { 300 } else { 64 }, true)? }
        }
        Ok(())
    });
    r.sweep("sizes", r.by(600, 3000), "arrays and objects of every size up to 600 (3000), flat and with nested and empty containers at every place", |c, i| {
        let n = i as usize;
        c.nontrivial();
        let el = |k: usize| match (k + n) % 5 { 0 => RV::Arr(vec![]), 1 => RV::Obj(vec![("x".into(), RV::Arr(vec![RV::i(1)]))]), 2 => RV::s("v\t"), 3 => RV::Obj(vec![]), _ => RV::i(k as i64) };
        let a = build(&RV::Arr((0..n).map(el).collect()));
        let o = build(&RV::Obj((0..n).map(|k| (format!("key {}", k), el(k + 1))).collect()));
        for w in [0, 2, 5] { check(c, &a, w, w == 2)?; check(c, &o, w, w == 2)? }
        Ok(())
    });
    let vals = lits();
    let nv = vals.len();
    r.sweep("three after one another", (nv * nv) as u64, "every three of 41 values of every kind as elements and as members, one below another, and as key and value", |c, i| {
        let (a, b) = (&vals[i as usize % nv].1, &vals[i as usize / nv].1);
        c.nontrivial();
        for (_, x) in &vals {
            let k = match x { RV::Str(k) if k != "a" => k.clone(), _ => "b".into() };
            let v = RV::Arr(vec![a.clone(), b.clone(), x.clone(), RV::Obj(vec![("a".into(), x.clone()), (k, RV::Arr(vec![b.clone()])), ("c".into(), a.clone())])]);
            check(c, &build(&v), 1, false)?;
        }
        Ok(())
    });
    let tiny = tiny();
    let runs = run_lengths(r.by(72, 300));
    r.sweep("alike and another", (tiny.len() * tiny.len() * runs.len()) as u64, "1 to 72 (300) and up to 1025 times each of 25 tiny values with another one of them in front, in the middle or behind, in arrays and objects, alone and within others", |c, i| {
        let i = i as usize;
        let (x, y, n) = (&tiny[i % tiny.len()], &tiny[i / tiny.len() % tiny.len()], runs[i / tiny.len() / tiny.len()]);
        c.nontrivial();
        let place = if n < 40 { 0..3 } else { i % 3..i % 3 + 1 };
        for p in place {
            let a = alike(x, y, n, p);
            let o = named(&a);
            let a = RV::Arr(a);
            check(c, &build(&a), 2, false)?;
            if n > 72 && n % 64 != 0 { continue }
            check(c, &build(&o), 1, false)?;
            if p == n % 3 { check(c, &build(&RV::Arr(vec![y.clone(), o, x.clone(), RV::Obj(vec![("in".into(), a), ("z".into(), y.clone())])])), (n % 4) as u16, n % 8 == 0)? }
        }
        Ok(())
    });
    let big = large();
    r.sweep("large", big.len() as u64, "arrays and objects of sizes next to powers of two to 131072 and 200000, with nested and empty containers at every place", |c, i| {
        let n = big[i as usize];
        c.nontrivial();
        let el = |k: usize| match (k + n) % 5 { 0 => RV::Arr(vec![]), 1 => RV::Obj(vec![("x".into(), RV::Arr(vec![RV::i(1)]))]), 2 => RV::s("v\t"), 3 => RV::Obj(vec![]), _ => RV::i(k as i64) };
        check(c, &build(&RV::Arr((0..n).map(el).collect())), 3, false)?;
        check(c, &build(&RV::Obj((0..n).map(|k| (format!("key {}", k), el(k + 1))).collect())), 1, false)
    });
    // sequences of siblings: indentation has to return to its level after each
    let sib: [&str; 8] = ["1", "[]", "{}", "[1]", "{\"k\":1}", "[[2]]", "{\"k\":{\"l\":[]}}", "[{\"k\":[3]}]"];
    let sl = r.by(5, 6);
    r.dfs("siblings", 0, "every sequence of up to 5 (6) siblings of 8 shapes in an array and as members, on level 1 and 3", |c| {
        let n = c.choose(sl) + 1;
        let xs: Vec<&str> = (0..n).map(|_| *c.pick(&sib)).collect();
        c.nontrivial();
        let arr = format!("[{}]", xs.join(","));
        let obj = format!("{{{}}}", xs.iter().enumerate().map(|(i, x)| format!("\"k{}\":{}", i, x)).collect::<Vec<_>>().join(","));
        for t in [format!("[{}]", arr), format!("{{\"a\":[{},{}]}}", obj, arr), obj, arr] { check(c, &json::parse(&t).unwrap(), 3, false)? }
        Ok(())
    });
    r.sweep("characters", 0x110000, "every character in keys and values: text is never re-laid-out", |c, i| {
        let ch = match char::from_u32(i as u32) { Some(x) => x, None => return Ok(()) };
        c.nontrivial();
        let mut o = json::object::Object::new();
        o.insert(&format!(" {}  ", ch), JsonValue::from(format!("{} :\n", ch)));
        check(c, &JsonValue::Array(vec![JsonValue::Object(o), ch.to_string().into()]), 2, i < 300)
    });
    r.finish()
}
