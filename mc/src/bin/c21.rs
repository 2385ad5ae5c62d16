//! C21: values are independent: clones, moves and failed calls change nothing else.
use json::object::Object;
use json::JsonValue;
use mc::gen::*;
use mc::model::api::*;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

fn kids(m: &RV) -> usize { match m { RV::Arr(a) => a.len(), RV::Obj(o) => o.len(), _ => 0 } }
fn at<'a>(m: &'a mut RV, p: &[usize]) -> &'a mut RV {
    match p.split_first() { None => m, Some((i, r)) => match m { RV::Arr(a) => at(&mut a[*i], r), RV::Obj(o) => at(&mut o[*i].1, r), _ => unreachable!() } }
}
/// The real node, reached by iteration, index, key or pattern.
fn node<'a>(v: &'a mut JsonValue, p: &[usize], how: usize) -> &'a mut JsonValue {
    let (i, r) = match p.split_first() { None => return v, Some((i, r)) => (*i, r) };
    let next = if v.is_array() {
        match how { 0 => &mut v[i], 1 => v.members_mut().nth(i).unwrap(), _ => match v { JsonValue::Array(a) => &mut a[i], _ => unreachable!() } }
    } else {
        let k = v.entries().nth(i).unwrap().0.to_string();
        match how { 0 => &mut v[k], 1 => v.entries_mut().nth(i).unwrap().1, _ => match v { JsonValue::Object(o) => o.get_mut(&k).unwrap(), _ => unreachable!() } }
    };
    node(next, r, how)
}
fn paths(m: &RV) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let sub: Vec<&RV> = match m { RV::Arr(a) => a.iter().collect(), RV::Obj(o) => o.iter().map(|e| &e.1).collect(), _ => vec![] };
    for (i, s) in sub.iter().enumerate() { for p in paths(s) { let mut q = vec![i]; q.extend(p); out.push(q) } }
    out
}

/// Ways to copy.
fn copy(v: &JsonValue, how: usize) -> JsonValue {
    match how {
        0 => v.clone(),
        1 => { let mut w = JsonValue::from("something else, longer than thirty bytes"); w.clone_from(v); w }
        2 => vec![v.clone(), JsonValue::Null].clone().swap_remove(0),
        3 => { let mut w = JsonValue::from(vec![1, 2]); w.clone_from(v); w }
        4 => { let mut o = Object::new(); o.insert("k", v.clone()); let mut p = o.clone(); drop(o); p.remove("k").unwrap() }
        5 => match v {
            JsonValue::Object(o) => { let mut p = Object::with_capacity(o.len() + 2); for (k, _) in o.iter().rev() { p.insert(k, JsonValue::Null) } p.insert("another", JsonValue::from(text_of_len(35))); p.clone_from(o); JsonValue::Object(p) }
            JsonValue::Array(a) => { let mut p = vec![JsonValue::from(text_of_len(35)), JsonValue::new_object(), JsonValue::Null, JsonValue::from(1), JsonValue::from(vec![1])]; p.clone_from(a); JsonValue::Array(p) }
            v => { let mut w = vec![JsonValue::new_object()]; w.clone_from(&vec![v.clone()]); w.pop().unwrap() }
        },
        _ => match v { JsonValue::Object(o) => JsonValue::Object(o.clone()), JsonValue::Array(a) => JsonValue::Array(a.clone()), JsonValue::Short(s) => JsonValue::Short(s.clone()), v => v.to_owned() },
    }
}

fn main() {
    let mut r = Runner::new("C21");
    let lv = [RV::Null, RV::d(false, 15, -1), RV::s("s"), RV::Str(text_of_len(35))];
    let k40 = ascii_of_len(40);
    let keys = ["a", k40.as_str(), COLLIDE[0], COLLIDE[1]];
    let ops = vec![Op::Push(RV::s("new")), Op::Pop, Op::Insert("n".into(), RV::Str(text_of_len(33))), Op::Insert("a".into(), RV::Bool(true)), Op::Remove("a".into()), Op::Remove(k40.clone()), Op::ArrayRemove(0), Op::Clear, Op::Take, Op::TakeString,
        Op::SetKey("n".into(), RV::i(7), 0), Op::SetKey("a".into(), RV::Arr(vec![]), 2), Op::SetIdx(0, RV::s("x")), Op::SetIdx(9, RV::i(3)), Op::Replace(RV::Obj(vec![("q".into(), RV::s("z"))]))];
    let b = r.by(4, 5);
    r.dfs("clone and change", 0, "all trees of up to 4 (5) further nodes x 7 ways of copying x every node x 15 changes x either of the two: the other one and the rest stay, also after dropping", |c| {
        let mut b = b;
        let t = tree(c, &mut b, 3, &lv[1..], &keys[..2]);
        let how = c.choose(7);
        let ps = paths(&t);
        let p = c.pick(&ps).clone();
        let op = c.pick(&ops).clone();
        let first = c.flag();
        c.nontrivial();
        c.steps(2);
        c.log(|| format!("{} copied by way {}, at {:?} {} on the {}", show(&t), how, p, short(&op), if first { "original" } else { "copy" }));
        let mut v = build(&t);
        let mut w = copy(&v, how);
        if v != w || w != v { return Err(format!("the copy {} is not equal to {}", w.dump(), v.dump())) }
        observe(&t, &w).map_err(|e| format!("the copy: {}", e))?;
        let mut m = t.clone();
        let (x, y) = if first { (&mut v, &mut w) } else { (&mut w, &mut v) };
        apply(&op, at(&mut m, &p), node(x, &p, p.len() % 3))?;
        observe(&m, x).map_err(|e| format!("the changed one: {}", e))?;
        observe(&t, y).map_err(|e| format!("the other one: {}", e))?;
        c.visit_bytes(x.dump().as_bytes());
        *x = JsonValue::Null;
        // something else may now use the memory
        let filler = build(&RV::Obj(vec![("filler filler filler filler filler filler".into(), RV::Str(text_of_len(35))), ("f".into(), RV::Arr(vec![RV::Null]))]));
        observe(&t, y).map_err(|e| format!("after dropping the other: {}", e))?;
        drop(filler);
        Ok(())
    });
    let b2 = r.by(3, 4);
    r.dfs("two changes", 0, "all trees of up to 3 (4) further nodes: every two changes, each at any node of either of original and clone", |c| {
        let mut b = b2;
        let t = tree(c, &mut b, 3, &lv[2..], &[keys[0], keys[1]]);
        let mut v = [build(&t), JsonValue::Null];
        v[1] = v[0].clone();
        let mut m = [t.clone(), t.clone()];
        c.nontrivial();
        for k in 0..2 {
            let which = if k == 0 { 0 } else { c.choose(2) };
            let ps = paths(&m[which]);
            let p = c.pick(&ps).clone();
            let op = c.pick(&ops).clone();
            c.step();
            c.log(|| format!("{} at {:?} of {}", short(&op), p, which));
            apply(&op, at(&mut m[which], &p), node(&mut v[which], &p, k))?;
        }
        observe(&m[0], &v[0]).map_err(|e| format!("the original: {}", e))?;
        observe(&m[1], &v[1]).map_err(|e| format!("the clone: {}", e))
    });
    let b3 = r.by(4, 5);
    r.dfs("parts moved", 0, "all trees of up to 4 (5) further nodes: every node taken, or removed from its container, or replaced, and put at every other node, or swapped with it", |c| {
        let mut b = b3;
        let t = tree(c, &mut b, 3, &lv[1..3], &keys[2..]);
        let ps = paths(&t);
        let p = c.pick(&ps).clone();
        let q2 = c.pick(&ps).clone();
        let kind = c.choose(5);
        c.nontrivial();
        c.step();
        c.log(|| format!("{}: {:?} and {:?}, kind {}", show(&t), p, q2, kind));
        let (mut v, mut m) = (build(&t), t.clone());
        let dis = !p.starts_with(&q2) && !q2.starts_with(&p);
        let want = at(&mut m, &p).clone();
        match kind {
            0 => {
                let x = node(&mut v, &p, 0).take();
                observe(&want, &x).map_err(|e| format!("what was taken: {}", e))?;
                *at(&mut m, &p) = RV::Null;
                observe(&m, &v).map_err(|e| format!("the rest: {}", e))?;
                drop(v);
                return observe(&want, &x).map_err(|e| format!("what was taken, after dropping the rest: {}", e));
            }
            1 => {
                let x = std::mem::replace(node(&mut v, &p, 1), JsonValue::from("replaced"));
                observe(&want, &x)?;
                *at(&mut m, &p) = RV::s("replaced");
            }
            2 => if dis {
                let x = node(&mut v, &p, 2).take();
                *node(&mut v, &q2, 0) = x;
                *at(&mut m, &p) = RV::Null;
                *at(&mut m, &q2) = want;
            },
            3 => if dis {
                let x = node(&mut v, &p, 0).take();
                let y = std::mem::replace(node(&mut v, &q2, 1), x);
                *node(&mut v, &p, 2) = y;
                let o = std::mem::replace(at(&mut m, &q2), want);
                *at(&mut m, &p) = o;
            },
            _ => if let Some((i, up)) = p.split_last() {
                let par = node(&mut v, up, 0);
                let x = if par.is_array() { par.array_remove(*i) } else { let k = par.entries().nth(*i).unwrap().0.to_string(); par.remove(&k) };
                match at(&mut m, up) { RV::Arr(a) => { a.remove(*i); } RV::Obj(o) => { o.remove(*i); } _ => {} }
                observe(&want, &x).map_err(|e| format!("what was removed: {}", e))?;
                observe(&m, &v)?;
                // and put back at the end
                let par = node(&mut v, up, 0);
                if par.is_array() { par.push(x).map_err(|e| e.to_string())?; if let RV::Arr(a) = at(&mut m, up) { a.push(want) } }
                else { par.insert("back", x).map_err(|e| e.to_string())?; if let RV::Obj(o) = at(&mut m, up) { RV::set(o, "back", want) } }
            },
        }
        observe(&m, &v)
    });
    // failing and reading calls
    let vals = {
        let mut v = leaves();
        v.extend([RV::Nan, RV::Arr(vec![]), RV::Obj(vec![]), RV::Arr(vec![RV::i(1), RV::Arr(vec![RV::s("a")])]), RV::Obj(vec![("a".into(), RV::Obj(vec![("b".into(), RV::Null)])), (k40.clone(), RV::s("x"))])]);
        v
    };
    r.dfs("reading and failing calls", 0, "17 values x 2 storages x sequences of 2 out of 30 calls that read, fail or do not apply: nothing changes", |c| {
        let t = c.pick(&vals).clone();
        let st = *c.pick(&[Style::Plain, Style::Heap]);
        let mut v = build_as(&t, st);
        c.nontrivial();
        for _ in 0..2 {
            let k = c.choose(30);
            c.step();
            c.log(|| format!("call {}", k));
            reading(k, &mut v)?;
        }
        observe(&t, &v)?;
        let f = build_as(&t, st);
        if f.dump() != v.dump() || (f != v && t != RV::Nan) { return Err("the value differs from a fresh one".into()) }
        Ok(())
    });
    // sizes
    let halves = |c: &mut Ctl, n: usize, f: usize| {
        let val = |k: usize| match k % 3 { 0 => RV::i(k as i64), 1 => RV::Str(text_of_len(k % 500)), _ => RV::Arr(vec![RV::Str(text_of_len(k % 40))]) };
        let t = if f == 2 { RV::Arr((0..n).map(val).collect()) } else { let ks = key_family([0, 6][f], n); RV::Obj((0..n).map(|k| (ks[k].clone(), val(k))).collect()) };
        let mut v = build(&t);
        let w = v.clone();
        let x = w.clone();
        c.nontrivial();
        c.steps(n as u64);
        let some = |from: usize, by: usize| -> Vec<usize> { if n > 500 { places(n) } else { (from..n).step_by(by).collect() } };
        for k in some(0, 2) { *node(&mut v, &[k], k % 3) = JsonValue::from("changed text that is longer than thirty bytes") }
        observe(&t, &w)?;
        for k in some(1, 4) { node(&mut v, &[k], k % 3).take(); }
        if n > 0 { if f == 2 { v.array_remove(n / 2); v.push(1).unwrap(); } else { let k = v.entries().nth(n / 2).unwrap().0.to_string(); v.remove(&k); v.insert(&k, 1).unwrap(); v.insert("another", 2).unwrap(); } }
        observe(&t, &w)?;
        v.clear();
        drop(v);
        observe(&t, &w)?;
        drop(w);
        observe(&t, &x)
    };
    let sz = r.by(150u64, 500);
    r.sweep("sizes", sz * 3, "objects (2 key families) and arrays of every size to 150 (500): cloned, every second part changed, removed and taken in one; the other is as before; clones of clones", |c, i| halves(c, i as usize / 3, i as usize % 3));
    let big = large();
    r.sweep("large", big.len() as u64 * 2, "objects and arrays of sizes next to powers of two to 131072 and 200000: the same", |c, i| halves(c, big[i as usize / 2], i as usize % 2 * 2));
    // clone_from over something that is there: objects with any of 4 keys in any order, arrays, texts
    let k32 = ascii_of_len(32);
    let names = ["a", "b", k32.as_str(), k40.as_str()];
    let mut all: Vec<RV> = vec![RV::Null, RV::i(1), RV::s("s"), RV::Str(text_of_len(35)), RV::Arr(vec![]), RV::Arr(vec![RV::i(1)]), RV::Arr(vec![RV::s("x"), RV::Obj(vec![("a".into(), RV::i(1))])]), RV::Arr(vec![RV::Obj(vec![("b".into(), RV::i(1))]), RV::Arr(vec![RV::Null])])];
    for order in orders(4) {
        for kind in 0..3 {
            all.push(RV::Obj(order.iter().enumerate().map(|(i, k)| (names[*k].to_string(), match kind { 0 => RV::i(i as i64), 1 => RV::Obj(order.iter().rev().map(|k| (names[*k].to_string(), RV::Str(text_of_len(30 + k)))).collect()), _ => RV::Arr(vec![RV::Str(text_of_len(31)); i]) })).collect()));
        }
    }
    for f in [1, 5, 6] {
        // three members of a family: every order
        let ks = key_family(f, 3);
        for order in orders(3) { all.push(RV::Obj(order.iter().enumerate().map(|(i, k)| (ks[*k].clone(), RV::i(i as i64))).collect())) }
    }
    let n = all.len() as u64;
    r.sweep("clone_from", n * n, "clone_from of every of 251 values (objects of every choice and order of 4 keys, with 3 kinds of values, and of colliding keys) over every other: as value, as object, array, text, in vectors; looked up, then changed", |c, i| {
        let (src, dst) = (&all[(i / n) as usize], &all[(i % n) as usize]);
        c.nontrivial();
        c.log(|| format!("{} over {}", show(src), show(dst)));
        let v = build(src);
        let check = |mut w: JsonValue, how: &str| -> Res {
            let who = |e: String| format!("clone_from of {} over {} ({}): {}", show(src), show(dst), how, e);
            observe(src, &w).map_err(who)?;
            if w != v || v != w || w.dump() != v.dump() { return Err(who("differs".into())) }
            if let RV::Obj(o) = src {
                for k in names { if w.has_key(k) != o.iter().any(|x| x.0 == k) { return Err(who(format!("has_key {}", q(k)))) } }
                let mut m = src.clone();
                for op in [Op::Insert("b".into(), RV::Bool(true)), Op::Insert("new".into(), RV::Null), Op::Remove("a".into()), Op::SetKey(k40.clone(), RV::s("c"), 0)] { apply(&op, &mut m, &mut w).map_err(who)? }
                observe(&m, &w).map_err(who)?;
            } else { w.take(); }
            observe(src, &v).map_err(who)
        };
        c.steps(3);
        let mut w = build(dst);
        w.clone_from(&v);
        check(w, "values")?;
        let mut w = vec![build(dst), JsonValue::Null];
        w.clone_from(&vec![v.clone(), v.clone(), v.clone()]);
        let last = w.pop().unwrap();
        check(last, "pushed")?;
        check(w.swap_remove(0), "in a vector")?;
        match (build(dst), &v) {
            (JsonValue::Object(mut p), JsonValue::Object(o)) => { p.clone_from(o); check(JsonValue::Object(p), "objects") }
            (JsonValue::Array(mut p), JsonValue::Array(o)) => { p.clone_from(o); check(JsonValue::Array(p), "arrays") }
            (JsonValue::String(mut p), JsonValue::String(o)) => { p.clone_from(o); check(JsonValue::String(p), "texts") }
            (JsonValue::Short(mut p), JsonValue::Short(o)) => { p.clone_from(o); check(JsonValue::Short(p), "texts") }
            _ => Ok(()),
        }
    });
    // as many copies at a time as a counter of 8 or 16 bits can hold, and more
    let shapes: Vec<RV> = vec![
        RV::Obj(vec![(text_of_len(40), RV::i(1)), ("k".into(), RV::Str(text_of_len(35)))]),
        RV::Str(text_of_len(50)),
        RV::Arr(vec![RV::Str(text_of_len(33)), RV::s("short"), RV::Obj(vec![(ascii_of_len(33), RV::Arr(vec![]))])]),
        RV::Arr(vec![RV::i(1)]),
        RV::Obj(vec![("a".into(), RV::Obj(vec![(text_of_len(70), RV::s("x"))]))]),
    ];
    let mut counts: Vec<usize> = vec![65537, 65536, 65535, 70000, 32768, 32769, 4097, 1025, 513];
    counts.extend((1..=r.by(300usize, 1100)).rev());
    let (shapes, counts) = (&shapes, &counts);
    r.sweep("many copies", (counts.len() * shapes.len() * 6) as u64, "1 to 300 (1100) copies at a time, and up to 70000, of 5 values, made from the original or each from the one before, dropped or changed first to last, last to first, or every second one: the rest stays", |c, i| {
        let i = i as usize;
        let (t, how, n) = (&shapes[i % 5], i / 5 % 6, counts[i / 30]);
        c.nontrivial();
        c.steps(n as u64);
        let v = build(t);
        let mut all = vec![v];
        for k in 0..n { let w = all[if how < 3 { 0 } else { k }].clone(); all.push(w) }
        let look = |w: &JsonValue| observe(t, w).map_err(|e| format!("{} copies of {} at a time ({}): {}", n, show(t), how, e));
        let filler: Vec<String> = (0..8).map(|k| "f".repeat(30 + 6 * k)).collect();
        match how % 3 {
            // the original goes first, then half of the copies from the front
            0 => { let rest = all.split_off(1 + n / 2); all.clear(); drop(all); let more = filler.clone(); for (k, w) in rest.iter().enumerate() { if n < 2000 || k % 199 == 0 { look(w)? } } drop(more) }
            // all copies but one from the back, then the original
            1 => { while all.len() > 2 { all.pop(); } look(&all[0])?; look(&all[1])?; all.remove(0); let more = filler.clone(); look(&all[0])?; drop(more) }
            // every second one is changed and dropped
            _ => {
                for w in all.iter_mut().step_by(2) { w.clear(); if w.is_object() { w.insert("new", 1).map_err(|e| e.to_string())?; w.remove("new"); } *w = JsonValue::Null }
                let more = filler.clone();
                for (k, w) in all.iter().enumerate() { if k % 2 == 1 && (n < 2000 || k % 199 == 0 || k + 2 > n) { look(w)? } }
                drop(more)
            }
        }
        Ok(())
    });
    let kl = r.by(120u64, 400);
    r.sweep("keys and texts", kl, "keys and texts of every length to 120 (400): cloned, the original changed and dropped", |c, i| {
        let n = i as usize;
        c.nontrivial();
        let t = RV::Obj(vec![(text_of_len(n), RV::Str(ascii_of_len(n))), (format!("{}x", ascii_of_len(n)), RV::Arr(vec![RV::Str(text_of_len(n))]))]);
        for how in 0..7 {
            let mut v = build_as(&t, STYLES[how % 5]);
            let w = copy(&v, how);
            c.step();
            v[text_of_len(n)] = JsonValue::Null;
            for (_, x) in v.entries_mut() { x.clear() }
            observe(&t, &w)?;
            v.clear();
            v.insert(&text_of_len(n + 1), "y").map_err(|e| e.to_string())?;
            drop(v);
            observe(&t, &w)?;
        }
        Ok(())
    });
    r.finish()
}

/// Every choice and order of some of n things.
fn orders(n: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut k = 0;
    while k < all.len() {
        let o: Vec<usize> = all[k].clone();
        for x in 0..n { if !o.contains(&x) { let mut p = o.clone(); p.push(x); all.push(p) } }
        k += 1;
    }
    all
}

fn reading(k: usize, v: &mut JsonValue) -> Res {
    match k {
        0 => { v.dump(); }
        1 => { v.pretty(3); }
        2 => { v.write(&mut Vec::new()).map_err(|e| e.to_string())?; }
        3 => { let mut s = [0u8; 3]; let _ = v.write(&mut &mut s[..]); }
        4 => { let _ = &v["missing"]["deeper"][3]; }
        5 => { let _ = &v[100]; }
        6 => { v.has_key("missing"); v.contains("missing"); v.contains(1); v.contains(JsonValue::Null); }
        7 => { v.len(); v.is_empty(); v.is_null(); v.is_string(); }
        8 => { v.as_str(); v.as_bool(); v.as_number(); v.as_f64(); v.as_i8(); v.as_u64(); }
        9 => { v.as_fixed_point_i64(2); v.as_fixed_point_u64(40000); }
        10 => for x in v.members() { x.dump(); },
        11 => for (_, x) in v.entries() { x.dump(); },
        12 => for x in v.members_mut() { x.len(); },
        13 => for (_, x) in v.entries_mut() { x.len(); },
        14 => { v.to_string(); format!("{:#} {:?}", v, v); }
        15 => { let w = v.clone(); if w == *v { drop(w) } }
        16 => { let _ = *v == "a" || *v == 1 || *v == 0.5 || *v == true || JsonValue::Null == *v; }
        17 => if !v.is_array() { if v.push(1).is_ok() { return Err("push succeeded on no array".into()) } },
        18 => if !v.is_object() { if v.insert("k", 1).is_ok() { return Err("insert succeeded on no object".into()) } },
        19 => if !v.is_object() { v.remove("a"); } else { v.remove("missing"); },
        20 => { v.array_remove(50); }
        21 => if !v.is_array() { v.pop(); },
        22 => if !v.is_string() { if v.take_string().is_some() { return Err("take_string gave something".into()) } },
        23 => { let _ = json::stringify(v.clone()); let _ = json::stringify_pretty(v.clone(), 4); }
        24 => if let JsonValue::Object(o) = v { o.remove("missing"); o.get_mut("missing"); o.get("a"); },
        25 => if let JsonValue::Object(o) = v { let p = o.clone(); if p != *o { return Err("a clone differs".into()) } o.dump(); o.pretty(1); },
        26 => { let s = v.as_str().map(|s| s.to_string()); drop(s) }
        27 => { let mut it = v.entries_mut(); it.next(); it.next_back(); }
        28 => { let _ = json::from(v.clone()); let _: JsonValue = Some(v.clone()).into(); }
        _ => { let _ = v[String::from("zz")].is_null(); let _ = v[&String::from("zz")].is_null(); }
    }
    Ok(())
}
