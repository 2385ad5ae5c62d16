//! C24: how a string is stored is never observable.
use json::short::Short;
use json::JsonValue;
use mc::gen::*;
use mc::model::api::*;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

const WAYS: usize = 13;
const WAY: [&str; WAYS] = ["from(&str)", "String variant", "from(String)", "parsed", "parsed from escapes", "parsed as member", "from(Some(&str))", "String with spare room", "clone of from(&str)", "clone of String", "Short", "taken out of an array", "String with much spare room"];

/// The text in one of the storages; None if it cannot be stored so.
fn store(s: &str, way: usize) -> Option<JsonValue> {
    Some(match way {
        0 => JsonValue::from(s),
        1 => JsonValue::String(s.to_string()),
        2 => JsonValue::from(s.to_string()),
        3 => json::parse(&ser::str_text(s)).expect("own literal"),
        4 => { let mut t = String::from("\""); for u in s.encode_utf16() { t.push_str(&format!("\\u{:04x}", u)) } t.push('"'); json::parse(&t).expect("escaped literal") }
        5 => json::parse(&format!("{{\"k\":{}}}", ser::str_text(s))).expect("object").remove("k"),
        6 => JsonValue::from(Some(s)),
        7 => { let mut t = String::with_capacity(s.len() + 100); t.push_str(s); t.push_str("more"); t.truncate(s.len()); JsonValue::String(t) }
        8 => JsonValue::from(s).clone(),
        9 => JsonValue::String(s.to_string()).clone(),
        10 => { if s.len() > json::short::MAX_LEN { return None } JsonValue::Short(unsafe { Short::from_slice(s) }) }
        11 => { let mut a = JsonValue::from(vec!["x", s, "y"]); a[1].take() }
        _ => { let mut t = String::with_capacity(s.len() * 2 + 70_000); t.push_str(s); JsonValue::String(t) }
    })
}

/// Everything printed.
fn prints(v: &JsonValue) -> Vec<String> {
    let mut w = Vec::new();
    v.write(&mut w).expect("write");
    let mut p = Vec::new();
    v.write_pretty(&mut p, 3).expect("write_pretty");
    vec![v.dump(), v.pretty(0), v.pretty(4), format!("{:#}", v), json::stringify(v.clone()), json::stringify_pretty(v.clone(), 2), String::from_utf8_lossy(&w).into_owned(), String::from_utf8_lossy(&p).into_owned(),
        json::array![v.clone(), 1].dump(), json::object!{ "k" => v.clone() }.dump()]
}

fn shows(v: &JsonValue, s: &str) -> Res {
    let got = [format!("{}", v), v.to_string(), format!("{:>40}", v), format!("{:<40}|", v), format!("{:^33}", v), format!("{:*^36.7}", v), format!("{:.0}", v), format!("{:.31}", v), format!("{:1$}", v, 31)];
    let want = [s.to_string(), s.to_string(), format!("{:>40}", s), format!("{:<40}|", s), format!("{:^33}", s), format!("{:*^36.7}", s), format!("{:.0}", s), format!("{:.31}", s), format!("{:1$}", s, 31)];
    for (i, (a, b)) in got.iter().zip(&want).enumerate() { if a != b { return Err(format!("Display #{} gives {} instead of {}", i, q(&clip(a, 150)), q(&clip(b, 150)))) } }
    Ok(())
}

/// One value against the text it has to hold.
fn holds(v: &JsonValue, s: &str) -> Res {
    let m = RV::s(s);
    observe(&m, v)?;
    if !v.is_string() || v.as_str() != Some(s) || v.is_empty() != s.is_empty() || v.len() != 0 || v.is_null() || v.is_number() || v.is_boolean() || v.is_array() || v.is_object() || v.as_f64().is_some() || v.as_bool().is_some() || v.as_number().is_some() { return Err("a query is wrong".into()) }
    let t = s.to_string();
    let eq = [*v == *s, *s == *v, *v == s, s == *v, *v == t, t == *v, v == t, *v == *v, *v == v.clone()];
    if eq != [true; 9] { return Err(format!("equality with itself: {:?}", eq)) }
    shows(v, s)
}

fn ops(s: &str) -> Vec<Op> {
    vec![Op::Clear, Op::Take, Op::TakeString, Op::Push(RV::i(1)), Op::Pop, Op::Insert("k".into(), RV::s(s)), Op::Remove("k".into()), Op::ArrayRemove(0), Op::SetKey("k".into(), RV::s(s), 0), Op::SetIdx(0, RV::s(s)), Op::Replace(RV::Null)]
}

/// All storages of one text, alone, against each other and under every call.
fn text(c: &mut Ctl, s: &str, deep: bool) -> Res {
    let vs: Vec<(usize, JsonValue)> = (0..WAYS).filter_map(|w| store(s, w).map(|v| (w, v))).collect();
    let first = prints(&vs[0].1);
    let lit = &first[0];
    let back = json::parse(lit).map_err(|e| format!("{} dumps {}: {}", q(&clip(s, 100)), q(&clip(lit, 100)), e))?;
    if back.as_str() != Some(s) { return Err(format!("{} dumps {}", q(&clip(s, 100)), q(&clip(lit, 100)))) }
    for (w, v) in &vs {
        let who = |e: String| format!("{} ({}): {}", q(&clip(s, 120)), WAY[*w], e);
        c.step();
        holds(v, s).map_err(who)?;
        let p = prints(v);
        for (a, b) in first.iter().zip(&p) { if a != b { return Err(who(format!("prints {} and from(&str) prints {}", q(&clip(b, 150)), q(&clip(a, 150))))) } }
        for (w2, v2) in &vs {
            if v != v2 || !(v == v2) { return Err(who(format!("differs from the same text ({})", WAY[*w2]))) }
        }
        // and not equal to the nearest other texts
        let end = s.char_indices().last().map(|x| x.0);
        for o in [format!("{}\0", s), format!("{}a", s), format!("a{}", s), end.map(|e| s[..e].to_string()).unwrap_or("x".into()), end.map(|e| format!("{}{}", &s[..e], if &s[e..] == "!" { '?' } else { '!' })).unwrap_or("yy".into())] {
            c.step();
            for w2 in [0, 1] {
                let x = store(&o, w2).unwrap();
                if *v == x || x == *v || *v == o.as_str() || o.as_str() == *v || *v == o || o == *v { return Err(who(format!("equals {}", q(&o)))) }
            }
        }
        if !deep { continue }
        for op in ops(s) {
            c.step();
            let (mut m, mut x) = (RV::s(s), v.clone());
            apply(&op, &mut m, &mut x).map_err(who)?;
            observe(&m, &x).map_err(|e| who(format!("after {}: {}", short(&op), e)))?;
            queries(&m, &x, &["k"], &[RV::s(s), RV::s("")]).map_err(|e| who(format!("after {}: {}", short(&op), e)))?;
            if v.as_str() != Some(s) { return Err(who(format!("{} on a clone changed it", short(&op)))) }
            // twice: what clear and take leave is usable
            let mut y = x.clone();
            apply(&op, &mut m, &mut y).map_err(|e| who(format!("{} twice: {}", short(&op), e)))?;
            observe(&m, &y).map_err(|e| who(format!("after {} twice: {}", short(&op), e)))?;
        }
        // the original, not a clone, is moved into a container and out again
        let mut o = json::object::Object::new();
        o.insert("before", 1.into());
        o.insert(s, store(s, *w).unwrap());
        if o.get(s).and_then(|x| x.as_str()) != Some(s) || o.remove(s).map(|x| x == *s) != Some(true) { return Err(who("as key and member".into())) }
        let mut a = json::array![1, store(s, *w).unwrap()];
        if !a.contains(s) || !a.contains(s.to_string()) || !a.contains(v.clone()) || !a.contains(store(s, (*w + 1) % 4).unwrap()) { return Err(who("contains misses it".into())) }
        if a.pop().take_string().as_deref() != Some(s) { return Err(who("popped and taken".into())) }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C24");
    let top = r.by(300u64, 1200);
    r.sweep("lengths", top * 7, "texts of every length to 300 (1200), of 7 kinds (letters, characters of mixed widths, of two, three, four bytes, escapes, NUL and DEL) in 13 storages: all queries, all printing, equality with each other, str, String, nearest other texts; every call on each", |c, i| {
        let (n, k) = (i as usize / 7, i % 7);
        let s = match k { 0 => ascii_of_len(n), 1 => text_of_len(n), 4 | 5 | 6 => wide_of_len(k as usize - 2, n), 2 => "\"\\\n\u{8}/\u{1f}".chars().cycle().take(n).collect(), _ => "\0\u{7f}a\0".chars().cycle().take(n).collect() };
        c.nontrivial();
        c.visit_bytes(s.as_bytes());
        c.log(|| q(&clip(&s, 100)));
        text(c, &s, true)
    });
    let cs = probe_chars();
    r.sweep("positions", 34 * cs.len() as u64, "151 characters at every place of texts of 0 to 33 letters, and filling texts to every length up to 33 bytes, in 13 storages", |c, i| {
        let (n, ch) = (i as usize / cs.len(), cs[i as usize % cs.len()]);
        c.nontrivial();
        c.visit(i);
        for k in 0..=n {
            let mut s = ascii_of_len(n);
            s.insert(k, ch);
            text(c, &s, false)?;
        }
        let w = ch.len_utf8();
        if n >= w {
            let mut s: String = std::iter::repeat(ch).take(n / w).collect();
            while s.len() < n { s.push('z') }
            text(c, &s, false)?;
            let mut s: String = "z".repeat(n % w);
            s.extend(std::iter::repeat(ch).take(n / w));
            text(c, &s, true)?;
        }
        Ok(())
    });
    // short texts completely
    let al: Vec<char> = "ab\"\\\0\u{1}\u{e9}\u{20ac}\u{1F600}".chars().collect();
    let sl = r.by(4, 5);
    r.dfs("short texts", 0, "all texts of up to 4 (5) characters out of 9, in 13 storages, every call on each", |c| {
        let n = c.choose(sl + 1);
        let s: String = (0..n).map(|_| *c.pick(&al)).collect();
        c.nontrivial();
        c.visit_bytes(s.as_bytes());
        c.log(|| q(&s));
        text(c, &s, n < 4)
    });
    // pairs of texts around the boundary: comparison decides by text only
    let pair: Vec<String> = (27..36).flat_map(|n| { let a = ascii_of_len(n); let mut v = vec![a.clone(), text_of_len(n)]; for k in [0, n / 2, n - 1] { let mut b = a.clone().into_bytes(); b[k] = b'!'; v.push(String::from_utf8(b).unwrap()) } v.push("\0".repeat(n)); v }).chain(["".to_string(), "\0".into(), "a".into()]).collect();
    r.dfs("pairs", 0, "all pairs of 57 texts around the boundary in all storages: equal exactly if the text is; the same inside containers; assigned over each other", |c| {
        let (a, b) = (c.pick(&pair), c.pick(&pair));
        let (w1, w2) = (c.choose(WAYS), c.choose(WAYS));
        let (Some(x), Some(y)) = (store(a, w1), store(b, w2)) else { return Ok(()) };
        c.nontrivial();
        c.step();
        c.log(|| format!("{} ({}) and {} ({})", q(a), WAY[w1], q(b), WAY[w2]));
        let want = a == b;
        let who = |h: &str| Err(format!("{} ({}) and {} ({}): {} is {}", q(a), WAY[w1], q(b), WAY[w2], h, !want));
        if (x == y) != want || (y == x) != want || (x != y) == want { return who("==") }
        if (x == b.as_str()) != want || (a.as_str() == y) != want || (x == *b) != want || (*a == y) != want { return who("== with bare text") }
        if let (JsonValue::Short(p), JsonValue::Short(o)) = (&x, &y) { if (p == o) != want || (*p == *b.as_str()) != want || (*b == *p) != want || (p.as_str() == o.as_str()) != want { return who("Short ==") } }
        // what clear leaves of them is the empty text, whatever they held
        let (mut p, mut o) = (x.clone(), y.clone());
        p.clear();
        let z = store("", w1).unwrap_or("".into());
        if p != z || z != p || p != "" || (p == y) != b.is_empty() || (y == p) != b.is_empty() || (p == x) != a.is_empty() { return Err(format!("{} ({}) after clear, against {} ({}): equality", q(a), WAY[w1], q(b), WAY[w2])) }
        o.clear();
        if p != o || o != p || p != p.clone() || p != o.clone() || JsonValue::Array(vec![p.clone()]) != JsonValue::Array(vec![o.clone()]) || p.dump() != "\"\"" || o.to_string() != "" { return Err(format!("{} ({}) and {} ({}): unequal after clear", q(a), WAY[w1], q(b), WAY[w2])) }
        let (p, o) = (JsonValue::Array(vec![x.clone()]), JsonValue::Array(vec![y.clone()]));
        if (p == o) != want || p.contains(y.clone()) != want || o.contains(a.as_str()) != want { return who("== inside arrays") }
        let (mut p, o) = (json::object!{ "k" => x }, json::object!{ "k" => y.clone() });
        if (p == o) != want { return who("== inside objects") }
        p["k"] = y;
        if p != o || p["k"].as_str() != Some(b) { return Err(format!("{} ({}) assigned over {} ({})", q(b), WAY[w2], q(a), WAY[w1])) }
        Ok(())
    });
    // the Short type itself
    r.sweep("Short", 31 * 3, "Short of every length and 3 contents: text, Display, copies, conversion to String, equality", |c, i| {
        let n = i as usize / 3;
        let s: String = match i % 3 { 0 => ascii_of_len(n), 1 => text_of_len(n), _ => "\0".repeat(n) };
        let x = unsafe { Short::from_slice(&s) };
        let y = x;
        c.nontrivial();
        c.step();
        let len: &str = &x;
        if len != s || x.as_str() != s || y.as_str() != s || String::from(x) != s || x.to_string() != s || format!("{:>35}|{:.3}", x, x) != format!("{:>35}|{:.3}", s, s) || x != y || x != *s || *s != x || x != s || s != x || format!("{:?}", x) != format!("{:?}", s) || x.len() != n || x.chars().count() != s.chars().count() { return Err(format!("Short of {}", q(&s))) }
        for o in [format!("{}\0", s), format!("{}a", s)] { if x == *o || *o == x || x == o || o == x { return Err(format!("Short of {} equals {}", q(&s), q(&o))) } }
        let v = JsonValue::Short(x);
        if v != s.as_str() || v.dump() != JsonValue::String(s.clone()).dump() { return Err(format!("value of Short of {}", q(&s))) }
        Ok(())
    });
    // long
    let long = r.by(1 << 14, 1 << 18);
    r.sweep("long texts", 60, "texts around powers of two to 2^20 bytes; to 2^14 (2^18) in all storages and under every call", |c, i| {
        let n = (1usize << (i / 3)) + (i as usize % 3) - if i < 3 { 0 } else { 1 };
        let s = text_of_len(n);
        c.nontrivial();
        c.steps(5);
        if n <= long { text(c, &s, true)? }
        for w in [0, 1, 3, 7, 12] {
            let v = store(&s, w).unwrap();
            if v.as_str() != Some(&s) || v != s || v != store(&s, 1).unwrap() || v.to_string() != s || v.clone().take_string() != Some(s.clone()) || v.dump() != store(&s, 1).unwrap().dump() || json::parse(&v.dump()).ok().as_ref() != Some(&v) { return Err(format!("text of {} bytes ({})", n, WAY[w])) }
        }
        Ok(())
    });
    r.finish()
}
