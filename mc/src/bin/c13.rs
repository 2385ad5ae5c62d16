//! C13: serializing and parsing back gives the same value.
use json::number::Number;
use json::JsonValue;
use mc::gen::*;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

/// What parsing has to give: NaN became null.
fn back(v: &RV) -> RV {
    match v {
        RV::Nan => RV::Null,
        RV::Arr(a) => RV::Arr(a.iter().map(back).collect()),
        RV::Obj(o) => RV::Obj(o.iter().map(|(k, v)| (k.clone(), back(v))).collect()),
        v => v.clone(),
    }
}

const WIDTHS: [u16; 8] = [2, 0, 1, 4, 3, 8, 7, 33];

fn trip(c: &mut Ctl, j: &JsonValue, want: &RV, widths: &[u16]) -> Res {
    c.step();
    let text = j.dump();
    c.log(|| q(&clip(&text, 200)));
    let has_nan = back(want) != *want;
    one(&text, j, want, has_nan, "dump")?;
    for w in widths {
        c.step();
        let p = j.pretty(*w);
        let v = one(&p, j, want, has_nan, "pretty")?;
        if v.dump() != text { return Err(format!("{} dumps {} after pretty printing and parsing", q(&clip(&text, 200)), q(&clip(&v.dump(), 200)))) }
        if v.pretty(*w) != p { return Err(format!("{} pretty prints differently after parsing", q(&clip(&text, 200)))) }
    }
    Ok(())
}

fn one(text: &str, j: &JsonValue, want: &RV, has_nan: bool, how: &str) -> Result<JsonValue, String> {
    let v = json::parse(text).map_err(|e| format!("{} of {} does not parse: {} in {}", how, show(want), e, q(&clip(text, 200))))?;
    observe(&back(want), &v).map_err(|e| format!("{} {} comes back changed{}", how, q(&clip(text, 200)), e))?;
    if !has_nan && (v != *j || *j != v) { return Err(format!("{} {} comes back unequal", how, q(&clip(text, 200)))) }
    let again = v.dump();
    if how == "dump" && again != text { return Err(format!("{} dumps {} after parsing", q(&clip(text, 200)), q(&clip(&again, 200)))) }
    Ok(v)
}

fn main() {
    let mut r = Runner::new("C13");
    let keys: Vec<String> = vec!["a".into(), "".into(), "\"\\\n\u{1}".into(), text_of_len(33), COLLIDE[0].into(), COLLIDE[1].into()];
    let keys: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
    let few = vec![RV::Null, RV::d(true, 125, -2), RV::s("x\u{1f}\"\u{e9}"), RV::Nan];
    let nodes = r.by(4, 5);
    r.dfs("trees", 0, "every tree of at most 1+4 (1+5) nodes over 4 leaves and 6 keys, dumped and pretty-printed", |c| {
        let mut b = nodes;
        let v = tree(c, &mut b, 4, &few, &keys);
        if v.nodes() > 2 { c.nontrivial() }
        trip(c, &build(&v), &v, &WIDTHS[..2])
    });
    let mut all = leaves();
    all.push(RV::Nan);
    r.dfs("built differently", 0, "every tree of at most 3 nodes over all leaf kinds x 5 ways of building it x 8 indentations", |c| {
        let mut b = 2;
        let v = tree(c, &mut b, 2, &all, &["k", "\u{e9}\t"]);
        let st = *c.pick(&STYLES);
        c.nontrivial();
        trip(c, &build_as(&v, st), &v, &WIDTHS)
    });

    // numbers
    let mut ms: Vec<u64> = vec![0, 1, 7, 10, 12, 120, 1000, u64::MAX, u64::MAX - 5, u64::MAX / 10, 1 << 63, (1 << 53) + 1, 576460752303423500, 576460752303423501, 576460752303423499, 10u64.pow(18), 10u64.pow(19)];
    for k in 1..=20 { ms.push("12345678901234567890"[..k].parse().unwrap()); ms.push("99999999999999999999"[..k.min(19)].parse().unwrap()); ms.push("10203000000000000000"[..k].parse().unwrap()) }
    r.sweep("numbers", 65536, "every 16-bit exponent x ~70 mantissas x sign: exactly the same number comes back, in an array and as a member", |c, i| {
        let e = i as u16 as i16;
        c.nontrivial();
        let per = 6;
        // small arrays, so that failures are readable; all mantissas
        for chunk in ms.chunks(per) {
            let xs: Vec<(bool, u64, i16)> = chunk.iter().flat_map(|m| [(false, *m, e), (true, *m, e)]).collect();
            let j = JsonValue::Array(xs.iter().map(|x| JsonValue::Number(unsafe { Number::from_parts_unchecked(!x.0, x.1, x.2) })).collect());
            let v = RV::Arr(xs.iter().map(|x| RV::d(x.0, x.1, x.2 as i64)).collect());
            trip(c, &j, &v, if i % 16 == 0 { &WIDTHS[..1] } else { &[] })?;
        }
        Ok(())
    });
    r.sweep("mantissas", r.by(100_000, 3_000_000), "every mantissa below the bound and next to 2^64 and 2^63, with 9 exponents", |c, i| {
        c.nontrivial();
        for m in [i, u64::MAX - i, (1 << 63) + i, (1 << 63) - i, u64::MAX / 10 + i, 576460752303423500 - i, 576460752303423500 + i] {
            for e in [0i16, -1, -3, -17, -18, -20, 1, 5, 40] {
                let n = JsonValue::Number(unsafe { Number::from_parts_unchecked(i % 2 == 0, m, e) });
                trip(c, &n, &RV::d(i % 2 != 0, m, e as i64), &[])?;
            }
        }
        Ok(())
    });
    r.sweep("floats", 2047 * 128, "floats of every exponent x 128 mantissas", |c, i| {
        let f = f64::from_bits((i / 128) << 52 | (i % 128).wrapping_mul(0x9e3779b97f4a7) & ((1 << 52) - 1));
        c.nontrivial();
        let n = Number::from(f);
        trip(c, &JsonValue::from(f), &RV::Num(Num::of(&n).unwrap()), &[])?;
        match json::parse(&JsonValue::from(-f).dump()) { Ok(v) if v.as_f64() == Some(-f) => Ok(()), x => Err(format!("{:e} comes back as {:?}", -f, x.map(|v| v.dump()))) }
    });

    // strings
    r.sweep("characters", 0x110000, "every Unicode character as value, key and inside text", |c, i| {
        let ch = match char::from_u32(i as u32) { Some(x) => x, None => return Ok(()) };
        c.nontrivial();
        let v = RV::Arr(vec![RV::Str(ch.to_string()), RV::Obj(vec![(ch.to_string(), RV::Str(format!("a{}b{}", ch, ch)))])]);
        trip(c, &build(&v), &v, if i % 8 == 0 { &WIDTHS[..1] } else { &[] })
    });
    let frag = ["a", "\"", "\\", "\n", "\u{0}", "\u{1f}", "/", "\u{7f}", "\u{e9}", "\u{1F600}", "u0041", "\u{2028}"];
    let fl = r.by(5, 6);
    r.dfs("strings", 0, "every string of up to 5 (6) fragments of 12 kinds, as value and key", |c| {
        let n = c.choose(fl + 1);
        let s: String = (0..n).map(|_| *c.pick(&frag)).collect();
        c.nontrivial();
        let v = RV::Obj(vec![(s.clone(), RV::Str(s))]);
        trip(c, &build(&v), &v, &[1])
    });
    let most = r.by(140u64, 420);
    r.sweep("one among many", most * 7, "every length up to 140 (420) x every position x 7 characters among letters, spaces, long characters: as value and key", |c, i| {
        let n = (i / 7) as usize;
        let ch = ['"', '\\', '\n', '\u{1f}', '\u{7f}', '\u{e9}', '\0'][(i % 7) as usize];
        c.nontrivial();
        for fill in ['a', ' ', '~', '\u{e9}', '\u{ffff}', '@'] {
            for at in 0..=n {
                let s: String = (0..=n).map(|k| if k == at { ch } else { fill }).collect();
                let v = RV::Obj(vec![(s.clone(), RV::Str(s))]);
                trip(c, &build(&v), &v, &[])?;
            }
        }
        Ok(())
    });
    let mut sizes: Vec<usize> = vec![(1 << 22) + 1, (1 << 20) + 1, 1_000_000, 70000, 65537, 65536, 65535, 32768, 16384, 8193, 8192, 8191];
    sizes.extend(0..r.by(4200, 20000));
    r.sweep("string sizes", sizes.len() as u64, "strings and keys of every length up to 4200 (20000) and up to 2^22, plain, with an escape in the middle, at both ends, and all escapes", |c, i| {
        let n = sizes[i as usize];
        c.nontrivial();
        let t = text_of_len(n);
        let a = ascii_of_len(n);
        let v = RV::Arr(vec![RV::Obj(vec![(t.clone(), RV::Str(a.clone()))]), RV::Str(format!("{}\n{}", &a[..n / 2], &a[n / 2..])), RV::Str(format!("\"{}\\", t)), RV::Str("\u{1}".repeat(n.min(5000)))]);
        trip(c, &build(&v), &v, if n % 16 == 0 { &[2] } else { &[] })
    });

    // containers
    let mut sizes: Vec<usize> = vec![20000, 5000, 2000];
    sizes.extend(0..r.by(300, 1100));
    r.sweep("container sizes", sizes.len() as u64, "arrays and objects (7 key families) of every size up to 300 (1100) and up to 20000", |c, i| {
        let n = sizes[i as usize];
        c.nontrivial();
        let a = RV::Arr((0..n).map(|k| match k % 4 { 0 => RV::i(k as i64), 1 => RV::Str(ascii_of_len(k % 70)), 2 => RV::Arr(vec![RV::i(1), RV::Null]), _ => RV::Obj(vec![("k\n".into(), RV::i(k as i64))]) }).collect());
        trip(c, &build(&a), &a, &WIDTHS[..2])?;
        for f in 0..KEY_FAMILIES {
            if n > match f { 1 | 2 => 5000, 5 | 6 => 1100, 4 => 3000, _ => 20000 } { continue }
            let o = RV::Obj(key_family(f, n).into_iter().enumerate().map(|(i, k)| (k, RV::i(i as i64))).collect());
            trip(c, &build(&o), &o, if n % 8 == 0 { &[3] } else { &[] })?;
        }
        Ok(())
    });
    let vals = lits();
    let nv = vals.len();
    r.sweep("three after one another", (nv * nv) as u64, "every three of 41 values of every kind as elements and as members, one below another, and as key and value", |c, i| {
        let (a, b) = (&vals[i as usize % nv].1, &vals[i as usize / nv].1);
        c.nontrivial();
        for (_, x) in &vals {
            let k = match x { RV::Str(k) if k != "a" => k.clone(), _ => "b".into() };
            let v = RV::Arr(vec![a.clone(), b.clone(), x.clone(), RV::Obj(vec![("a".into(), x.clone()), (k, RV::Arr(vec![b.clone()])), ("c".into(), a.clone())])]);
            trip(c, &build(&v), &v, &[3])?;
        }
        Ok(())
    });
    let tiny = tiny();
    let runs = run_lengths(r.by(40, 200));
    r.sweep("alike and another", (tiny.len() * tiny.len() * runs.len()) as u64, "1 to 40 (200) and up to 1025 times each of 25 tiny values with another one of them in front, in the middle or behind, in arrays and objects", |c, i| {
        let i = i as usize;
        let (x, y, n) = (&tiny[i % tiny.len()], &tiny[i / tiny.len() % tiny.len()], runs[i / tiny.len() / tiny.len()]);
        c.nontrivial();
        let a = alike(x, y, n, i % 3);
        let o = named(&a);
        let a = RV::Arr(a);
        trip(c, &build(&a), &a, &[1])?;
        if n > 40 && n % 64 != 0 { return Ok(()) }
        trip(c, &build(&o), &o, &[0])
    });
    r.sweep("after removals", 400, "objects with members removed and added again, and arrays with elements removed", |c, i| {
        let n = 1 + (i % 40) as usize;
        let f = (i / 40) as usize % KEY_FAMILIES;
        c.nontrivial();
        let ks = key_family(f, n);
        let mut j = build(&RV::Obj(ks.iter().map(|k| (k.clone(), RV::s(k))).collect()));
        let mut m: Vec<(String, RV)> = ks.iter().map(|k| (k.clone(), RV::s(k))).collect();
        for (x, k) in ks.iter().enumerate() {
            if x % 3 == 0 { j.remove(k); m.retain(|e| e.0 != *k); }
            if x % 6 == 0 { j[k.as_str()] = (x as i32).into(); m.push((k.clone(), RV::i(x as i64))) }
        }
        trip(c, &j, &RV::Obj(m), &[0, 2])
    });
    r.sweep("depth", 513, "every nesting depth up to the limit, arrays, objects and mixed, with siblings and empty containers, 3 indentations", |c, i| {
        c.nontrivial();
        for kind in 0..3 {
            let mut v = if i % 2 == 0 { RV::Arr(vec![]) } else { RV::s("c\n") };
            for l in 0..i {
                let obj = match kind { 0 => false, 1 => true, _ => l % 3 == 0 };
                v = if obj { RV::Obj(vec![("b".into(), RV::Obj(vec![])), ("in".into(), v)]) } else { RV::Arr(vec![RV::i(l as i64), v, RV::Arr(vec![])]) };
            }
            trip(c, &build(&v), &v, &[1, 0])?;
        }
        Ok(())
    });
    r.sweep("indentation", 600, "every indentation from 0 to 599, and 1000, 65535", |c, i| {
        c.nontrivial();
        let v = RV::Obj(vec![("a".into(), RV::Arr(vec![RV::i(1), RV::Obj(vec![("b".into(), RV::Null), ("c".into(), RV::Arr(vec![RV::Arr(vec![]), RV::Obj(vec![])]))])])), ("d".into(), RV::s("  \n"))]);
        trip(c, &build(&v), &v, &[i as u16, if i == 0 { 65535 } else { 1000 }])
    });
    r.finish()
}
