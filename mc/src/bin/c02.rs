//! C02: a parsed document holds exactly the value the text denotes.
use mc::gen::*;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

fn check(c: &mut Ctl, text: &str, want: &RV) -> Res {
    c.step();
    match json::parse(text) {
        Ok(v) => observe(want, &v).map_err(|e| format!("{} parsed to another value{}", q(&clip(text, 200)), e)),
        // refusing it is the business of C01, but then there is no value either
        Err(e) => Err(format!("{} not parsed: {}", q(&clip(text, 200)), e)),
    }
}

/// A reference text for a value, with whitespace between all tokens.
fn spaced(v: &RV, ws: &dyn Fn(usize) -> String) -> String {
    fn go(v: &RV, s: &mut String, n: &mut usize, ws: &dyn Fn(usize) -> String) {
        let mut gap = |s: &mut String, n: &mut usize| { s.push_str(&ws(*n)); *n += 1 };
        match v {
            RV::Arr(a) => {
                s.push('[');
                gap(s, n);
                for (i, x) in a.iter().enumerate() { if i > 0 { s.push(','); gap(s, n) } go(x, s, n, ws); gap(s, n) }
                s.push(']');
            }
            RV::Obj(o) => {
                s.push('{');
                gap(s, n);
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 { s.push(','); gap(s, n) }
                    s.push_str(&ser::str_text(k));
                    gap(s, n);
                    s.push(':');
                    gap(s, n);
                    go(x, s, n, ws);
                    gap(s, n)
                }
                s.push('}');
            }
            v => s.push_str(&ser::dump(v)),
        }
    }
    let mut s = ws(0);
    let mut n = 1;
    go(v, &mut s, &mut n, ws);
    s.push_str(&ws(n));
    s
}

const WS: [&str; 8] = ["", " ", "\t", "\n", "\u{b}", "\u{c}", "\r", " \n\t "];

fn main() {
    let mut r = Runner::new("C02");
    let all_leaves = leaves();
    let few: Vec<RV> = vec![RV::Null, RV::Bool(true), RV::i(-7), RV::s("a\n")];
    let longkey = ascii_of_len(33);
    let keys: Vec<&str> = vec!["a", "", COLLIDE[0], COLLIDE[1], &longkey, "\"\u{e9}"];

    let nodes = r.by(4, 5);
    r.dfs("trees", 0, "every tree of at most 1+4 (thorough 1+5) nodes over 4 leaves and 6 keys, compact and spaced", |c| {
        let mut b = nodes;
        let v = tree(c, &mut b, 4, &few, &keys);
        let t = ser::dump(&v);
        c.log(|| q(&t));
        if v.nodes() > 2 { c.nontrivial() }
        check(c, &t, &v)?;
        check(c, &spaced(&v, &|i| WS[(i + 1) % 8].to_string()), &v)
    });

    r.dfs("leaves", 0, "every leaf value in every place of small containers", |c| {
        let mut b = 2;
        let v = tree(c, &mut b, 3, &all_leaves, &["k", "\u{e9}\\"]);
        c.nontrivial();
        let t = ser::dump(&v);
        check(c, &t, &v)?;
        let wrapped = RV::Arr(vec![v.clone(), RV::i(1), RV::Obj(vec![("x".into(), v.clone())]), v.clone()]);
        check(c, &ser::dump(&wrapped), &wrapped)
    });

    // member sequences with repeated keys
    let dl = r.by(5, 6);
    r.dfs("duplicates", 0, "every sequence of up to 5 (6) members over 6 keys (colliding, empty, long) where the value of each is a number, a nested object using the same keys, an array or a string with escapes", |c| {
        let mut members: Vec<(String, RV)> = Vec::new();
        let mut text = String::from("{");
        let n = c.choose(dl) + 1;
        for i in 0..n {
            let k = *c.pick(&keys);
            let v = match c.choose(if n > 4 { 2 } else { 4 }) {
                0 => RV::i(i as i64 + 1),
                1 => RV::Obj(vec![(keys[(i + 1) % 6].to_string(), RV::i(10 + i as i64)), (k.to_string(), RV::Arr(vec![RV::i(20 + i as i64)]))].into_iter().fold(vec![], |mut o, (k, v)| { RV::set(&mut o, &k, v); o })),
                2 => RV::Arr(vec![RV::Obj(vec![(k.into(), RV::Null)]), RV::i(30 + i as i64)]),
                _ => RV::Str(format!("v\n{}", i)),
            };
            if i > 0 { text.push(',') }
            text.push_str(&ser::str_text(k));
            text.push(':');
            text.push_str(&ser::dump(&v));
            RV::set(&mut members, k, v);
        }
        text.push('}');
        if members.len() < n { c.nontrivial() }
        c.visit_bytes(format!("{:?}", members).as_bytes());
        c.log(|| q(&text));
        check(c, &text, &RV::Obj(members))
    });

    // strings share one buffer in the parser
    let pieces: Vec<(String, String)> = vec![("x".into(), "x".into()), ("\\n".into(), "\n".into()), ("".into(), "".into()), (format!("{}\\t{}", ascii_of_len(40), ascii_of_len(3)), format!("{}\t{}", ascii_of_len(40), ascii_of_len(3))),
        (format!("\\u0041{}", ascii_of_len(29)), format!("A{}", ascii_of_len(29))), ("\u{e9}\\\\".into(), "\u{e9}\\".into())];
    let sl = r.by(5, 6);
    r.dfs("string sequences", 0, "every sequence of up to 5 (6) strings (plain, escaped, long, empty) as elements, and as alternating keys and values", |c| {
        let n = c.choose(sl) + 1;
        let ps: Vec<&(String, String)> = (0..n).map(|_| c.pick(&pieces)).collect();
        c.nontrivial();
        let t = format!("[{}]", ps.iter().map(|p| format!("\"{}\"", p.0)).collect::<Vec<_>>().join(","));
        c.log(|| q(&clip(&t, 150)));
        check(c, &t, &RV::Arr(ps.iter().map(|p| RV::Str(p.1.clone())).collect()))?;
        if n % 2 == 0 {
            let t = format!("{{{}}}", ps.chunks(2).map(|p| format!("\"{}\":\"{}\"", p[0].0, p[1].0)).collect::<Vec<_>>().join(","));
            let mut o = vec![];
            for p in ps.chunks(2) { RV::set(&mut o, &p[0].1, RV::Str(p[1].1.clone())) }
            check(c, &t, &RV::Obj(o))?;
            let t = format!("[{}]", ps.chunks(2).map(|p| format!("{{\"{}\":[\"{}\"]}}", p[0].0, p[1].0)).collect::<Vec<_>>().join(","));
            check(c, &t, &RV::Arr(ps.chunks(2).map(|p| RV::Obj(vec![(p[0].1.clone(), RV::Arr(vec![RV::Str(p[1].1.clone())]))])).collect()))?;
        }
        Ok(())
    });

    // whitespace: every gap of every corpus document x every kind and length
    let docs: Vec<RV> = DOCS.iter().filter_map(|d| ref_parse(d).ok()).filter(|v| !format!("{:?}", v).contains("e: 4") && !format!("{:?}", v).contains("Big")).collect();
    r.sweep("whitespace", docs.len() as u64 * 40 * 8, "every gap (first 40) of every corpus document x 8 kinds of whitespace, single and in runs of 1, 2, 3, 7, 8, 9, 300", |c, i| {
        let d = &docs[(i / 320) as usize];
        let gap = (i / 8 % 40) as usize;
        let w = WS[(i % 8) as usize];
        if ser_ok(d).is_none() { return Ok(()) }
        let plain = spaced(d, &|_| String::new());
        for n in [1, 2, 3, 7, 8, 9, 15, 16, 17, 300] {
            let t = spaced(d, &|g| if g == gap { w.repeat(n) } else { String::new() });
            if t != plain { c.nontrivial() }
            check(c, &t, d)?;
            let t = spaced(d, &|g| if g != gap { w.repeat(n) } else { String::new() });
            check(c, &t, d)?;
        }
        Ok(())
    });

    // corpus as written
    r.sweep("corpus", DOCS.len() as u64, "the corpus documents", |c, i| {
        let v = ref_parse(DOCS[i as usize]).map_err(|e| format!("harness: {:?}", e))?;
        c.nontrivial();
        check(c, DOCS[i as usize], &v)
    });

    // sizes
    let mut sizes: Vec<usize> = vec![131073, 65537, 65536, 65535, 32769, 20000, 5000, 4097, 4096, 4095, 1025, 1024, 1023];
    sizes.extend(0..r.by(320, 1100));
    r.sweep("sizes", sizes.len() as u64 * 2, "arrays and objects (7 key orders: plain, ascending and descending hash, mixed inline and heap keys, hash collisions in pairs and chains, every length) of every size up to 320 (1100) and up to 131073, with unique and with repeated keys", |c, i| {
        let n = sizes[i as usize / 2];
        c.nontrivial();
        if i % 2 == 0 {
            let a = RV::Arr((0..n).map(|k| match k % 5 { 0 => RV::i(k as i64), 1 => RV::Str(ascii_of_len(k % 70)), 2 => RV::Null, 3 => RV::Arr(vec![RV::i(k as i64)]), _ => RV::Obj(vec![("k".into(), RV::i(k as i64))]) }).collect());
            return check(c, &ser::dump(&a), &a);
        }
        for f in 0..KEY_FAMILIES {
            let big = match f { 1 | 2 => 5000, 5 => 1100, 6 => 1100, 4 => 3000, 0 => 200_000, _ => 20000 };
            if n > big { continue }
            let ks = key_family(f, n);
            let o: Vec<(String, RV)> = ks.iter().enumerate().map(|(i, k)| (k.clone(), RV::i(i as i64))).collect();
            let t = ser::dump(&RV::Obj(o.clone()));
            check(c, &t, &RV::Obj(o.clone())).map_err(|e| format!("family {}, {} members: {}", f, n, e))?;
            // every key again, in reverse, with other values
            if n <= 400 {
                let mut t2 = t[..t.len() - 1].to_string();
                let mut o2 = o.clone();
                for (j, k) in ks.iter().enumerate().rev() {
                    t2.push_str(&format!(",{}:[{}]", ser::str_text(k), j));
                    o2[j].1 = RV::Arr(vec![RV::i(j as i64)]);
                }
                t2.push('}');
                if n > 0 { check(c, &t2, &RV::Obj(o2)).map_err(|e| format!("family {}, {} members twice: {}", f, n, e))? }
            }
        }
        Ok(())
    });

    r.sweep("text sizes", r.by(600, 5000), "strings, keys and numbers of every length in the middle of a document", |c, i| {
        let n = i as usize;
        c.nontrivial();
        let v = RV::Arr(vec![RV::i(1), RV::Str(text_of_len(n)), RV::Obj(vec![(text_of_len(n), RV::Str(ascii_of_len(n))), ("z".into(), RV::i(2))]), RV::Str(format!("\n{}", ascii_of_len(n))), RV::Str(format!("{}\n", text_of_len(n))), RV::i(3)]);
        check(c, &ser::dump(&v), &v)
    });

    let most = r.by(100u64, 300);
    r.sweep("one among many", most * RUNS.len() as u64, "every length up to 100 (300) of 18 kinds of runs with each of 26 pieces (up to 64 also every ASCII character) at every place: the value of what is well-formed", |c, i| {
        c.nontrivial();
        one_stranger(i as usize % RUNS.len(), i as usize / RUNS.len(), |t| match ref_parse(t) { Ok(v) => check(c, t, &v), Err(_) => Ok(()) })
    });

    // three parts of one document
    let vals = lits();
    let nv = vals.len();
    r.sweep("three after one another", (nv * nv) as u64, "every three of 41 literals of every kind as elements and as members, every two as key and value", |c, i| {
        let (a, b) = (&vals[i as usize % nv], &vals[i as usize / nv]);
        c.nontrivial();
        for x in &vals {
            let v = RV::Arr(vec![a.1.clone(), b.1.clone(), x.1.clone()]);
            check(c, &format!("[{},{},{}]", a.0, b.0, x.0), &v)?;
            let v = RV::Obj(vec![("a".into(), a.1.clone()), ("b".into(), RV::Arr(vec![b.1.clone()])), ("c".into(), x.1.clone())]);
            check(c, &format!("{{\"a\":{},\n\"b\":[{}],\"c\":{}}}", a.0, b.0, x.0), &v)?;
            if let RV::Str(k) = &x.1 { check(c, &format!("[{},{{{}:{}}}]", a.0, x.0, b.0), &RV::Arr(vec![a.1.clone(), RV::Obj(vec![(k.clone(), b.1.clone())])]))? }
        }
        Ok(())
    });
    r.sweep("at every address", (nv * nv) as u64, "every two of 41 literals in one text, which is a slice of a longer one at 16 addresses, with digits, quotes, brackets or exponents around it", |c, i| {
        let (a, b) = (&vals[i as usize % nv], &vals[i as usize / nv]);
        c.nontrivial();
        at_addresses(a.0, |t| check(c, t, &a.1))?;
        at_addresses(&format!("[{},{}]", a.0, b.0), |t| check(c, t, &RV::Arr(vec![a.1.clone(), b.1.clone()])))?;
        at_addresses(&format!("{{\"k\":{},\n\"l\":{}}}", a.0, b.0), |t| check(c, t, &RV::Obj(vec![("k".into(), a.1.clone()), ("l".into(), b.1.clone())])))
    });
    // what one text leaves behind for the next
    let firsts: Vec<String> = LITS.iter().flat_map(|l| one_edit(l)).collect();
    let firsts = &firsts;
    r.sweep("after another text", firsts.len() as u64, "every text one edit away from one of 44 literals, alone and deep inside an open document, and then each of 41 good texts: their values", |c, i| {
        let a = &firsts[i as usize];
        let b = format!("{{\"k\":[1,\"\\n\",{{\"k\":{}", a);
        c.nontrivial();
        for (k, (t, v)) in vals.iter().enumerate() {
            let kept = json::parse(if k % 2 == 0 { a } else { &b });
            check(c, t, v)?;
            drop(kept);
        }
        Ok(())
    });
    // a run of one kind of element, something else behind it, and the run's kind again
    let tiny = tiny();
    let runs = run_lengths(r.by(72, 300));
    r.sweep("alike, then another", (tiny.len() * tiny.len() * runs.len()) as u64, "1 to 72 (300) and up to 1025 times each of 25 tiny values, then each of the 25, then the first again, in arrays and objects, at the top and within both", |c, i| {
        let i = i as usize;
        let (x, y, n) = (&tiny[i % tiny.len()], &tiny[i / tiny.len() % tiny.len()], runs[i / tiny.len() / tiny.len()]);
        c.nontrivial();
        let a = alike(x, y, n, 0);
        let o = named(&a);
        let a = RV::Arr(a);
        check(c, &ser::dump(&a), &a)?;
        if n <= 72 || n % 64 == 0 {
            check(c, &ser::dump(&o), &o)?;
            let both = RV::Arr(vec![y.clone(), a, RV::Obj(vec![("in".into(), o)]), y.clone()]);
            check(c, &ser::dump(&both), &both)?;
        }
        Ok(())
    });

    r.sweep("depth", 513, "every nesting depth up to the limit, arrays and objects mixed, with siblings before and after on every level", |c, i| {
        c.nontrivial();
        for kind in 0..3 {
            let mut v = RV::Str("core".into());
            for l in 0..i {
                let obj = match kind { 0 => false, 1 => true, _ => l % 3 == 0 };
                v = if obj { RV::Obj(vec![("before".into(), RV::i(l as i64)), ("in".into(), v), ("after".into(), RV::Arr(vec![]))]) }
                    else { RV::Arr(vec![RV::i(l as i64), v, RV::Obj(vec![])]) };
            }
            check(c, &ser::dump(&v), &v)?;
            check(c, &ser::pretty(&v, 1), &v)?;
        }
        Ok(())
    });
    r.finish()
}

/// Is every number of the value in the range the reference serializer prints?
fn ser_ok(v: &RV) -> Option<()> { std::panic::catch_unwind(|| { ser::dump(v); }).ok() }
