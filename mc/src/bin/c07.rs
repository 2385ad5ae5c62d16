//! C07: every number prints as an exact valid JSON literal.
use json::number::Number;
use json::JsonValue;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

fn raw(neg: bool, m: u64, e: i16) -> Number { unsafe { Number::from_parts_unchecked(!neg, m, e) } }

/// The text must be a JSON number literal that denotes (neg, m, e) exactly.
fn judge(text: &str, neg: bool, m: u64, e: i64, how: &str) -> Res {
    let bad = |why: &str| Err(format!("number {}{}e{} {} as {}: {}", if neg { "-" } else { "" }, m, e, how, q(&clip(text, 80)), why));
    if !literal(text.as_bytes()) { return bad("not a JSON number literal") }
    let d = Dec::read(text);
    if !d.same(&Dec::of(&Num::new(neg, m, e))) { return bad("denotes another value") }
    if e == 0 || e > 0 && e < 20 && (m as u128) * 10u128.pow(e as u32) < 1 << 64 {
        let want = format!("{}{}", if neg { "-" } else { "" }, m as u128 * 10u128.pow(e as u32));
        if text != want { return bad("integer not printed as plain digits") }
    }
    Ok(())
}

fn literal(b: &[u8]) -> bool {
    let mut i = 0;
    let digits = |i: &mut usize| { let s = *i; while *i < b.len() && b[*i].is_ascii_digit() { *i += 1 } *i > s };
    if b.first() == Some(&b'-') { i += 1 }
    if b.get(i) == Some(&b'0') { i += 1 } else if !digits(&mut i) { return false }
    if b.get(i) == Some(&b'.') { i += 1; if !digits(&mut i) { return false } }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) { i += 1 }
        if !digits(&mut i) { return false }
    }
    i == b.len()
}

fn quick(c: &mut Ctl, neg: bool, m: u64, e: i16) -> Res {
    c.step();
    let n = raw(neg, m, e);
    judge(&JsonValue::Number(n).dump(), neg, m, e as i64, "dumped")
}

fn full(c: &mut Ctl, neg: bool, m: u64, e: i16) -> Res {
    c.steps(9);
    let n = raw(neg, m, e);
    let v = JsonValue::Number(n);
    let t = v.dump();
    c.log(|| format!("{}{}e{} -> {}", if neg { "-" } else { "" }, m, e, t));
    judge(&t, neg, m, e as i64, "dumped")?;
    judge(&v.pretty(3), neg, m, e as i64, "pretty-printed")?;
    judge(&v.to_string(), neg, m, e as i64, "displayed (value)")?;
    judge(&n.to_string(), neg, m, e as i64, "displayed (number)")?;
    judge(&json::stringify(n), neg, m, e as i64, "stringified")?;
    let mut w = Vec::new();
    v.write(&mut w).map_err(|e| e.to_string())?;
    judge(std::str::from_utf8(&w).map_err(|e| e.to_string())?, neg, m, e as i64, "written")?;
    let mut w = Vec::new();
    v.write_pretty(&mut w, 2).map_err(|e| e.to_string())?;
    judge(std::str::from_utf8(&w).map_err(|e| e.to_string())?, neg, m, e as i64, "written pretty")?;
    let a = JsonValue::Array(vec![v.clone(), v.clone()]).dump();
    match a.strip_prefix('[').and_then(|x| x.strip_suffix(']')).and_then(|x| x.split_once(',')) {
        Some((x, y)) => { judge(x, neg, m, e as i64, "dumped in an array")?; judge(y, neg, m, e as i64, "dumped in an array")? }
        None => return Err(format!("array of number {}e{} dumped as {}", m, e, a)),
    }
    // the public constructor denotes the same number
    let p = Number::from_parts(!neg, m, e);
    judge(&p.to_string(), neg, m, e as i64, "displayed (from_parts)")
}

fn main() {
    let mut r = Runner::new("C07");
    let mut ms: Vec<u64> = vec![0, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 53, 576460752303423500];
    for k in 0..20u32 {
        let p = 10u64.pow(k);
        ms.extend([p, p + 1, p - 1, p.saturating_mul(9), 9 * p.min(10u64.pow(18)) + p / 2]);
        // 1234567.. of every length, and with zeros inside
        ms.push("12345678901234567890"[..=k as usize].parse().unwrap());
        ms.push("90010020003000405000"[..=k as usize].parse().unwrap_or(9001));
    }
    for k in (0..64).step_by(7) { ms.push(1 << k) }
    ms.sort();
    ms.dedup();
    let thorough = r.thorough();
    r.sweep("all exponents", 65536, "every 16-bit exponent x ~140 mantissas (powers of ten, their neighbours, all lengths, 0, 2^64-1) x sign; all 9 routes for a part of them", |c, i| {
        let e = i as u16 as i16;
        c.nontrivial();
        for (k, m) in ms.iter().enumerate() {
            for neg in [false, true] {
                if thorough || (e as i32).abs() < 45 || e > 32700 || e < -32700 || (k + i as usize) % 16 == 0 { full(c, neg, *m, e)? } else { quick(c, neg, *m, e)? }
            }
        }
        Ok(())
    });

    let small = r.by(300000u64, 3000000);
    r.sweep("small mantissas", small, "every mantissa below 300000 (3000000) x exponents -25..25, both signs", |c, i| {
        c.nontrivial();
        for e in -25..=25i16 { for neg in [false, true] { if i % 64 == 0 { full(c, neg, i, e)? } else { quick(c, neg, i, e)? } } }
        Ok(())
    });

    r.sweep("chunks", 10000 * 6, "every 4-digit group at every place of a 16..20 digit mantissa", |c, i| {
        let g = i % 10000;
        let p = [1u64, 10_000, 100_000_000, 1_000_000_000_000, 10_000_000_000_000_000 / 100, 100][(i / 10000) as usize];
        c.nontrivial();
        for base in [0u64, 1_000_000_000_000_000_000, 9_876_543_219_876_543_210, 11_111_111_111] {
            if let Some(m) = g.checked_mul(p).and_then(|x| x.checked_add(base)) {
                for e in [0i16, -1, -5, -17, -18, -19, -20, -21, 1, 4, 21, 300, -300] { quick(c, i % 2 == 0, m, e)? }
            }
        }
        Ok(())
    });

    let band = r.by(5000u64, 100000);
    r.sweep("neighbours", 64 * (2 * band + 1), "every mantissa within 5000 (100000) of every power of two x 7 exponents", |c, i| {
        let b = 1u64 << (i / (2 * band + 1));
        let d = (i % (2 * band + 1)) as i64 - band as i64;
        let m = b.wrapping_add(d as u64);
        c.nontrivial();
        for e in [0i16, -3, -19, 2, 25, -400, 32767] { quick(c, false, m, e)? ; quick(c, true, m, e)? }
        Ok(())
    });

    // integer types, and NaN
    r.sweep("nan and friends", 1, "NaN by every route", |c, _| {
        c.nontrivial();
        for v in [JsonValue::Number(json::number::NAN), JsonValue::from(f64::NAN), JsonValue::from(f32::INFINITY), JsonValue::from(f64::NEG_INFINITY)] {
            c.step();
            let mut w = Vec::new();
            v.write(&mut w).unwrap();
            let mut w2 = Vec::new();
            v.write_pretty(&mut w2, 2).unwrap();
            for (how, t) in [("dumped", v.dump()), ("pretty", v.pretty(2)), ("written", String::from_utf8(w).unwrap()), ("written pretty", String::from_utf8(w2).unwrap()), ("stringify", json::stringify(v.clone()))] {
                if t != "null" { return Err(format!("NaN {} as {}", how, t)) }
            }
            let a = JsonValue::Array(vec![v.clone(), 1.into()]);
            if a.dump() != "[null,1]" || a.to_string() != "[null,1]" { return Err(format!("array with NaN: {}", a.dump())) }
            let mut o = json::object::Object::new();
            o.insert("k", v.clone());
            if o.dump() != "{\"k\":null}" || o.pretty(1) != "{\n \"k\": null\n}" { return Err(format!("object with NaN: {}", o.dump())) }
        }
        Ok(())
    });

    // sequences of numbers into one output: buffers of one number do not leak into the next
    let seq: [(bool, u64, i16); 9] = [(false, 0, 0), (true, 0, 0), (false, u64::MAX, 0), (true, 12345, -3), (false, 1, -300), (true, 7, 30), (false, 10, 5), (false, 5, -17), (true, 18446744073709551615, -25)];
    r.dfs("sequences", 0, "every sequence of up to 4 numbers of 9 kinds in one array", |c| {
        let n = c.choose(4) + 1;
        let xs: Vec<_> = (0..n).map(|_| *c.pick(&seq)).collect();
        c.nontrivial();
        let t = JsonValue::Array(xs.iter().map(|x| JsonValue::Number(raw(x.0, x.1, x.2))).collect()).dump();
        c.log(|| t.clone());
        let inner = t.strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or_else(|| t.clone())?;
        let parts: Vec<&str> = inner.split(',').collect();
        if parts.len() != n { return Err(format!("{} numbers dumped as {}", n, t)) }
        for (p, x) in parts.iter().zip(&xs) { judge(p, x.0, x.1, x.2 as i64, "dumped in a sequence")? }
        Ok(())
    });
    r.finish()
}
