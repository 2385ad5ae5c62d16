//! C23: equality of values is structural and an equivalence.
use json::number::Number;
use json::object::Object;
use json::JsonValue;
use mc::gen::*;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

/// Like build_as, and numbers are written with zeros behind the mantissa.
fn made(v: &RV, st: Style, zeros: u32) -> JsonValue {
    match v {
        RV::Num(n) if zeros > 0 => {
            let (mut m, mut e) = (n.m, n.e);
            for _ in 0..zeros { if let Some(x) = m.checked_mul(10).filter(|_| e > i16::MIN as i64) { m = x; e -= 1 } }
            JsonValue::Number(unsafe { Number::from_parts_unchecked(!n.neg, m, e as i16) })
        }
        RV::Arr(a) if zeros > 0 => JsonValue::Array(a.iter().map(|x| made(x, st, zeros)).collect()),
        RV::Obj(o) if zeros > 0 => JsonValue::Object(o.iter().map(|(k, x)| (k, made(x, st, zeros))).collect()),
        v => build_as(v, st),
    }
}

fn same(a: &JsonValue, b: &JsonValue, want: bool, who: &dyn Fn() -> String) -> Res {
    let got = [a == b, b == a, !(a != b), !(b != a), Some(a) == Some(b), a.eq(b)];
    if got != [want; 6] { return Err(format!("a == b, b == a, !(a != b), !(b != a), .. are {:?}, expected {}: {}", got, want, who())) }
    Ok(())
}

/// Every tree of at most `budget` nodes below the root.
fn all_trees(budget: usize, depth: usize, leaves: &[RV], keys: &[&str]) -> Vec<RV> {
    fn kids(n: usize, budget: usize, depth: usize, leaves: &[RV], keys: &[&str]) -> Vec<(Vec<RV>, usize)> {
        // sequences of up to n children using at most budget nodes; with the number used
        let mut out = vec![(vec![], 0)];
        let mut last = out.clone();
        for _ in 0..n {
            let mut next = Vec::new();
            for (seq, used) in &last {
                if *used >= budget { continue }
                for t in trees(budget - used - 1, depth, leaves, keys) {
                    let mut s: Vec<RV> = seq.clone();
                    let u = used + t.nodes();
                    s.push(t);
                    next.push((s, u));
                }
            }
            out.extend(next.iter().cloned());
            last = next;
        }
        out
    }
    fn trees(budget: usize, depth: usize, leaves: &[RV], keys: &[&str]) -> Vec<RV> {
        let mut v = leaves.to_vec();
        if depth == 0 { return v }
        for (s, _) in kids(budget, budget, depth - 1, leaves, keys) { v.push(RV::Arr(s)) }
        for (s, _) in kids(budget.min(keys.len()), budget, depth - 1, leaves, keys) {
            // every way of giving the children distinct keys
            let mut partial: Vec<Vec<(String, RV)>> = vec![vec![]];
            for x in &s {
                let mut next = Vec::new();
                for p in &partial { for k in keys { if !p.iter().any(|e: &(String, RV)| e.0 == *k) { let mut q = p.clone(); q.push((k.to_string(), x.clone())); next.push(q) } } }
                partial = next;
            }
            v.extend(partial.into_iter().map(RV::Obj));
        }
        v
    }
    let mut v = trees(budget, depth, leaves, keys);
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

/// The value changed in one place; None if there are fewer ways.
fn changes(v: &RV, out: &mut Vec<RV>) {
    for w in [RV::Null, RV::Bool(true), RV::Bool(false), RV::i(0), RV::i(1), RV::d(true, 1, 0), RV::d(false, 1, 1), RV::d(false, 1, -1), RV::Nan, RV::s(""), RV::s("a"), RV::s("b"), RV::s("null"), RV::s("1"), RV::Str(text_of_len(31)), RV::Arr(vec![]), RV::Obj(vec![]), RV::Arr(vec![v.clone()]), RV::Obj(vec![("a".into(), v.clone())])] { if w != *v { out.push(w) } }
    match v {
        RV::Arr(a) => {
            for i in 0..a.len() {
                let mut sub = Vec::new();
                changes(&a[i], &mut sub);
                for s in sub { let mut b = a.clone(); b[i] = s; out.push(RV::Arr(b)) }
                let mut b = a.clone(); b.remove(i); out.push(RV::Arr(b));
                let mut b = a.clone(); b.insert(i, a[i].clone()); out.push(RV::Arr(b));
                if i > 0 { let mut b = a.clone(); b.swap(i, i - 1); out.push(RV::Arr(b)) }
            }
            let mut b = a.clone(); b.push(RV::Null); out.push(RV::Arr(b));
            out.push(RV::Obj(a.iter().enumerate().map(|(i, x)| (i.to_string(), x.clone())).collect()));
        }
        RV::Obj(a) => {
            for i in 0..a.len() {
                let mut sub = Vec::new();
                changes(&a[i].1, &mut sub);
                for s in sub { let mut b = a.clone(); b[i].1 = s; out.push(RV::Obj(b)) }
                let mut b = a.clone(); b.remove(i); out.push(RV::Obj(b));
                for k in ["zz", "", "A", COLLIDE[1]] { if !a.iter().any(|e| e.0 == k) { let mut b = a.clone(); b[i].0 = k.into(); out.push(RV::Obj(b)) } }
                // values exchanged between keys, and the order of members changed
                if i > 0 {
                    let mut b = a.clone(); let t = b[i].1.clone(); b[i].1 = b[i - 1].1.clone(); b[i - 1].1 = t; out.push(RV::Obj(b));
                    let mut b = a.clone(); b.swap(i, i - 1); out.push(RV::Obj(b));
                }
            }
            for k in ["yy", COLLIDE[0]] { if !a.iter().any(|e| e.0 == k) { let mut b = a.clone(); b.push((k.into(), RV::Null)); out.push(RV::Obj(b)) } }
            out.push(RV::Arr(a.iter().map(|e| e.1.clone()).collect()));
        }
        _ => {}
    }
}

fn depth_tower(n: usize, kinds: usize, leaf: JsonValue) -> JsonValue {
    let mut v = leaf;
    for i in 0..n { v = if kinds >> (i % 3) & 1 == 0 { JsonValue::Array(vec![v]) } else { let mut o = Object::new(); o.insert("k", v); JsonValue::Object(o) } }
    v
}

fn main() {
    let mut r = Runner::new("C23");
    let lv = [RV::Null, RV::Bool(true), RV::Bool(false), RV::i(0), RV::d(true, 0, 0), RV::i(1), RV::d(false, 1, 1), RV::s(""), RV::s("a"), RV::Nan];
    let flat = all_trees(r.by(2, 3), 2, &lv, &["a", "b", COLLIDE[0]]);
    let deep = all_trees(r.by(4, 5), 3, &lv[..1], &["a", "b"]);
    let mut fam = flat;
    fam.extend(deep);
    fam.extend(all_trees(3, r.by(2, 3), &[RV::Null, RV::i(1), RV::s("a")], &[COLLIDE[0], COLLIDE[1]]));
    let built: Vec<[JsonValue; 3]> = fam.iter().map(|v| [build(v), build_as(v, Style::Heap), made(v, Style::Plain, 2)]).collect();
    let n = fam.len() as u64;
    r.sweep("all pairs", n * n, "all pairs of all trees of up to 2 (3) nodes over 10 leaves and 3 keys of up to 4 (5) nodes over null and 2 keys, and of up to 3 nodes over 3 leaves and 2 colliding keys, each stored in 3 ways (inline, heap, numbers with trailing zeros): ==, != both ways", |c, i| {
        let (x, y) = ((i / n) as usize, (i % n) as usize);
        let want = fam[x].equals(&fam[y]);
        if x != y { c.nontrivial() }
        if y == 0 { c.visit_bytes(show(&fam[x]).as_bytes()); c.log(|| show(&fam[x])) }
        let (p, q) = ((x + y) % 3, (x + 2 * y) % 3);
        c.step();
        same(&built[x][p], &built[y][q], want, &|| format!("{} and {} (stored {} {})", show(&fam[x]), show(&fam[y]), p, q))?;
        if want || x % 7 == y % 7 { for p in 0..3 { for q in 0..3 { c.step(); same(&built[x][p], &built[y][q], want, &|| format!("{} and {} (stored {} {})", show(&fam[x]), show(&fam[y]), p, q))? } } }
        Ok(())
    });
    // transitivity and reflexivity on values that are neighbours
    let small: Vec<RV> = { let mut v = lv.to_vec(); for s in ["aa", "0", "1", "null", "true"] { v.push(RV::s(s)) } v.push(RV::Str(text_of_len(30))); v.push(RV::Str(text_of_len(31))); v.extend([RV::d(false, 1, -32768), RV::d(false, 1, 32767), RV::d(false, u64::MAX, 0), RV::d(true, u64::MAX, 0), RV::Arr(vec![]), RV::Obj(vec![]), RV::Arr(vec![RV::i(0)]), RV::Arr(vec![RV::d(true, 0, 0)]), RV::Obj(vec![("a".into(), RV::i(0)), ("b".into(), RV::i(1))]), RV::Obj(vec![("b".into(), RV::d(false, 1, 0)), ("a".into(), RV::d(true, 0, 0))])]); v };
    r.dfs("triples", 0, "all triples of 31 values, each in 3 of the storages: reflexive, symmetric, transitive", |c| {
        let x: Vec<JsonValue> = (0..3).map(|_| { let i = c.choose(small.len()); let s = c.choose(3); match s { 0 => build(&small[i]), 1 => build_as(&small[i], Style::Heap), _ => made(&small[i], Style::Plain, 1) } }).collect();
        c.step();
        c.nontrivial();
        c.log(|| format!("{} {} {}", x[0], x[1], x[2]));
        let e = |i: usize, j: usize| x[i] == x[j];
        for i in 0..3 {
            if !e(i, i) { return Err(format!("{} differs from itself", x[i].dump())) }
            if x[i] != x[i].clone() { return Err(format!("{} differs from its clone", x[i].dump())) }
            for j in 0..3 {
                if e(i, j) != e(j, i) { return Err(format!("{} and {}: not symmetric", x[i].dump(), x[j].dump())) }
                for k in 0..3 { if e(i, j) && e(j, k) && !e(i, k) { return Err(format!("{} {} {}: not transitive", x[i].dump(), x[j].dump(), x[k].dump())) } }
            }
        }
        Ok(())
    });
    // bigger values, changed in one place
    let bud = r.by(4, 5);
    let lv2 = [RV::i(1), RV::s("a"), RV::Str(text_of_len(31))];
    r.dfs("one change", 0, "all trees of up to 4 (5) nodes over 3 leaves and 3 keys, in 5 styles, against themselves in the other styles and with one change anywhere (another leaf, key, element more, less, twice, exchanged, other container)", |c| {
        let mut b = bud;
        let t = tree(c, &mut b, 3, &lv2, &["a", "b", COLLIDE[0]]);
        let all: Vec<JsonValue> = STYLES.iter().map(|s| build_as(&t, *s)).collect();
        c.nontrivial();
        c.visit_bytes(show(&t).as_bytes());
        c.log(|| show(&t));
        for (i, x) in all.iter().enumerate() { for y in &all[i..] { c.step(); same(x, y, true, &|| format!("{} in two styles", show(&t)))? } }
        let mut ch = Vec::new();
        changes(&t, &mut ch);
        for (i, w) in ch.iter().enumerate() {
            c.step();
            let want = t.equals(w);
            let y = build_as(w, STYLES[i % 5]);
            same(&all[(i / 5) % 5], &y, want, &|| format!("{} and {}", show(&t), show(w)))?;
        }
        Ok(())
    });
    // member order
    let ml = r.by(6, 7);
    r.dfs("member orders", 0, "objects of up to 6 (7) members in 4 key families: every order of insertion, with and without removed members, against the first order; one member changed, renamed or missing", |c| {
        let n = c.choose(ml) + 1;
        let f = *c.pick(&[0usize, 5, 7, 6]);
        let keys = key_family(f, n + 1);
        let mut left: Vec<usize> = (0..n).collect();
        let mut order = Vec::new();
        while !left.is_empty() { let i = c.choose(left.len()); order.push(left.remove(i)) }
        let val = |k: usize| match k % 3 { 0 => RV::i(k as i64), 1 => RV::Str(text_of_len(k)), _ => RV::Arr(vec![RV::i(k as i64)]) };
        let obj = |ord: &[usize], ch: Option<(usize, RV)>| { let mut o = Object::new(); for k in ord { o.insert(&keys[*k], build(&match &ch { Some((i, v)) if i == k => v.clone(), _ => val(*k) })) } o };
        let id: Vec<usize> = (0..n).collect();
        c.nontrivial();
        c.steps(3 + 4 * n as u64);
        c.log(|| format!("order {:?} family {}", order, f));
        c.visit_bytes(format!("{:?} {}", order, f).as_bytes());
        let (a, b) = (obj(&id, None), obj(&order, None));
        if a != b || b != a || !(a == b) { return Err(format!("objects of family {} inserted in orders {:?} and {:?} differ", f, id, order)) }
        let va = JsonValue::Object(a.clone());
        if va != b || b != va || &va != b { return Err(format!("value and object differ, order {:?}", order)) }
        // with junk removed
        let mut d = Object::new();
        d.insert("junk", 1.into());
        for (i, k) in order.iter().enumerate() { d.insert(&keys[*k], build(&val(*k))); if i == n / 2 { d.insert("more", 2.into()); } }
        d.remove("junk");
        d.remove("more");
        if a != d || d != a { return Err(format!("objects with and without removed members differ, order {:?}, family {}", order, f)) }
        for k in 0..n {
            let e = obj(&order, Some((k, RV::s("other"))));
            if a == e || e == a || va == e || e == va { return Err(format!("member {} of order {:?}, family {} changed, still equal", k, order, f)) }
            let mut e = b.clone();
            e.remove(&keys[k]);
            if a == e || e == a { return Err(format!("member {} of order {:?}, family {} missing, still equal", k, order, f)) }
            e.insert(&keys[n], build(&val(k)));
            if a == e || e == a { return Err(format!("member {} of order {:?}, family {} renamed, still equal", k, order, f)) }
            e.remove(&keys[n]);
            e.insert(&keys[n], JsonValue::Null);
            if a == e || e == a { return Err(format!("member {} of order {:?}, family {} replaced by a null, still equal", k, order, f)) }
        }
        Ok(())
    });
    // sizes
    let sz = r.by(300u64, 1000);
    r.sweep("sizes", sz * 4, "arrays and objects (3 key families) of every size to 300 (1000): equal to a copy built backwards, unequal if any one part is changed, missing or added", |c, i| {
        let (n, f) = (i as usize / 4, i as usize % 4);
        c.nontrivial();
        c.step();
        let other = JsonValue::from("other");
        if f == 0 {
            let a: Vec<JsonValue> = (0..n).map(|k| JsonValue::from(k % 5)).collect();
            let (x, mut y) = (JsonValue::Array(a.clone()), JsonValue::Array(a));
            same(&x, &y, true, &|| format!("arrays of {}", n))?;
            for k in 0..n {
                c.step();
                let t = std::mem::replace(&mut y[k], other.clone());
                same(&x, &y, false, &|| format!("arrays of {}, {} changed", n, k))?;
                y[k] = t;
            }
            same(&x, &y, true, &|| format!("arrays of {} again", n))?;
            y.push(JsonValue::Null).unwrap();
            same(&x, &y, false, &|| format!("arrays of {} and one more", n))?;
            if n > 0 { y.pop(); y.pop(); same(&x, &y, false, &|| format!("arrays of {} and one less", n))? }
            return Ok(());
        }
        let keys = key_family([0, 0, 5, 6][f], n + 1);
        let mut x = Object::new();
        for k in 0..n { x.insert(&keys[k], JsonValue::from(k % 5)) }
        let mut y = Object::with_capacity(n);
        for k in (0..n).rev() { y.insert(&keys[k], JsonValue::from(k % 5)) }
        let (x, mut y) = (JsonValue::Object(x), JsonValue::Object(y));
        same(&x, &y, true, &|| format!("objects of {}, family {}", n, f))?;
        for k in (0..n).step_by(if n > 80 { 5 } else { 1 }) {
            c.step();
            let t = std::mem::replace(&mut y[&keys[k]], other.clone());
            same(&x, &y, false, &|| format!("objects of {}, family {}, {} changed", n, f, k))?;
            y[&keys[k]] = t;
        }
        same(&x, &y, true, &|| format!("objects of {} again, family {}", n, f))?;
        y[&keys[n]] = JsonValue::Null;
        same(&x, &y, false, &|| format!("objects of {} and one more, family {}", n, f))?;
        if n > 0 {
            y.remove(&keys[n / 2]);
            same(&x, &y, false, &|| format!("objects of {} with one member under another key, family {}", n, f))?;
        }
        Ok(())
    });
    // many elements of one kind, all different: the order and the count of each matter
    let on = r.by(70u64, 300);
    r.sweep("orders of alike elements", on * 12, "arrays of 1 to 70 (300) different elements of one of 12 kinds, against the same in 6 other orders, and with one of them twice instead of another; alone, within arrays and as members", |c, i| {
        let (n, kind) = (i as usize / 12 + 1, i as usize % 12);
        c.nontrivial();
        let el = |k: usize| match kind {
            0 => RV::i(k as i64), 1 => RV::s(&format!("t{}", k)), 2 => RV::Str(ascii_of_len(40 + k)), 3 => RV::Arr(vec![RV::i(k as i64)]), 4 => RV::Obj(vec![("k".into(), RV::i(k as i64))]),
            5 => RV::Obj(vec![(format!("k{}", k), RV::Null)]), 6 => RV::Arr(vec![RV::Null; k]), 7 => RV::Obj((0..k % 40 + 1).map(|j| (format!("{}.{}", k / 40, j), RV::Arr(vec![]))).collect()), 8 => RV::Num(Num::new(k % 2 == 1, k as u64 + 1, -3)),
            9 => RV::Arr(vec![RV::Obj(vec![("id".into(), RV::i(k as i64)), ("in".into(), RV::Arr(vec![]))])]), 10 => [RV::Bool(true), RV::Null, RV::Bool(false)][k % 3].clone(), _ => [RV::Obj(vec![]), RV::Arr(vec![])][k / 2 % 2].clone(),
        };
        let a: Vec<RV> = (0..n).map(el).collect();
        let mut others = vec![("reversed", a.iter().rev().cloned().collect::<Vec<_>>()), ("rotated", a[1..].iter().chain(&a[..1]).cloned().collect())];
        for (name, p, q) in [("first and last exchanged", 0, n - 1), ("last two exchanged", n.saturating_sub(2), n - 1), ("first two exchanged", 0, 1 % n), ("two in the middle exchanged", n / 2, (n / 2 + 1) % n)] {
            let mut b = a.clone();
            b.swap(p, q);
            others.push((name, b));
        }
        for (name, from, to) in [("the first also as last", 0, n - 1), ("the last also as first", n - 1, 0), ("one twice", n / 2, n / 3)] {
            let mut b = a.clone();
            b[to] = b[from].clone();
            others.push((name, b));
        }
        let wrap = |a: &[RV], w: usize| build(&match w { 0 => RV::Arr(a.to_vec()), 1 => RV::Arr(vec![RV::Null, RV::Arr(a.to_vec())]), _ => RV::Obj(vec![("x".into(), RV::Arr(a.to_vec())), ("y".into(), RV::Null)]) });
        for w in 0..3 {
            let x = wrap(&a, w);
            same(&x, &wrap(&a, w), true, &|| format!("{} elements of kind {}", n, kind))?;
            for (name, b) in &others {
                c.step();
                let y = wrap(b, w);
                same(&x, &y, a == *b, &|| format!("{} elements of kind {}, {}, wrapped {}", n, kind, name, w))?;
            }
        }
        // members: here the order does not matter, but who has which
        let x = build(&named(&a));
        for (name, b) in &others {
            c.step();
            let y = build(&named(b));
            same(&x, &y, a == *b, &|| format!("{} members of kind {}, {}", n, kind, name))?;
            let RV::Obj(mut o) = named(b) else { unreachable!() };
            o.reverse();
            same(&y, &build(&RV::Obj(o)), true, &|| format!("{} members of kind {}, {}, written backwards", n, kind, name))?;
        }
        Ok(())
    });
    let big = large();
    r.sweep("large", big.len() as u64 * 2, "arrays and objects of sizes next to powers of two to 131072 and 200000: equal to a copy built backwards, unequal if any part next to a power of two is changed, missing or added", |c, i| {
        let (n, obj) = (big[i as usize / 2], i % 2 == 1);
        c.nontrivial();
        c.steps(n as u64);
        let name = |k: usize| format!("k{}", k);
        let (x, mut y) = if obj {
            let mut o = Object::new();
            for k in (0..n).rev() { o.insert(&name(k), (k % 7).into()) }
            ((0..n).map(|k| (name(k), k % 7)).collect::<Object>().into(), JsonValue::Object(o))
        } else {
            let mut a = JsonValue::new_array();
            for k in 0..n { a.push(k % 7).unwrap() }
            (JsonValue::from((0..n).map(|k| k % 7).collect::<Vec<_>>()), a)
        };
        same(&x, &y, true, &|| format!("{} parts", n))?;
        for k in places(n) {
            c.step();
            let at: &mut JsonValue = if obj { &mut y[&name(k)] } else { &mut y[k] };
            let t = std::mem::replace(at, "other".into());
            same(&x, &y, false, &|| format!("{} parts, {} changed", n, k))?;
            *(if obj { &mut y[&name(k)] } else { &mut y[k] }) = t;
        }
        same(&x, &y, true, &|| format!("{} parts again", n))?;
        if obj { y["one more"] = JsonValue::Null } else { y.push(JsonValue::Null).unwrap() }
        same(&x, &y, false, &|| format!("{} parts and one more", n))?;
        if obj { y.remove(&name(n / 2)); } else { y.pop(); y.pop(); }
        same(&x, &y, false, &|| format!("{} parts and other ones", n))
    });
    // depth
    r.sweep("depth", r.by(700, 3000) * 8, "towers of every height to 700 (3000) of arrays and objects in 8 patterns: equal, different leaf, different height", |c, i| {
        let (n, k) = (i as usize / 8, i as usize % 8);
        c.step();
        c.nontrivial();
        let a = depth_tower(n, k, JsonValue::from("x"));
        same(&a, &depth_tower(n, k, JsonValue::String("x".into())), true, &|| format!("towers of {} pattern {}", n, k))?;
        same(&a, &depth_tower(n, k, JsonValue::from("y")), false, &|| format!("towers of {} pattern {} with different leaves", n, k))?;
        same(&a, &depth_tower(n + 1, k, JsonValue::from("x")), false, &|| format!("towers of {} and one more, pattern {}", n, k))
    });
    // strings
    let tl = r.by(150u64, 700);
    r.sweep("texts", tl, "texts of every length to 150 (700): against themselves and with any one byte changed, cut or added, inline and heap, against str, &str, String both ways", |c, i| {
        let n = i as usize;
        let s = ascii_of_len(n);
        c.nontrivial();
        let mut others = vec![(s.clone(), true), (format!("{}\0", s), false), (format!("\0{}", s), false), (format!("{}a", s), false)];
        for k in 0..n {
            let mut b = s.clone().into_bytes();
            for x in [b[k] ^ 1, b[k] ^ 0x20, 0] { let mut d = b.clone(); d[k] = x; let d = String::from_utf8(d).unwrap(); others.push((d.clone(), d == s)) }
            others.push((s[..k].to_string(), false));
            others.push((s[k + 1..].to_string(), false));
            if k > 0 && b[k] != b[k - 1] { b.swap(k, k - 1); others.push((String::from_utf8(b).unwrap(), false)) }
        }
        let vs = [JsonValue::from(s.as_str()), JsonValue::String(s.clone())];
        for (o, want) in &others {
            c.step();
            let want = *want;
            let ws = [JsonValue::from(o.as_str()), JsonValue::String(o.clone())];
            for v in &vs {
                for w in &ws { same(v, w, want, &|| format!("{} and {}", q(&s), q(o)))? }
                let st: &str = o;
                let got = [*v == *st, *st == *v, *v == st, st == *v, *v == *o, *o == *v, v == o, !(*v != *st), !(*st != *v), !(*v != st), !(st != *v), !(*v != *o), !(*o != *v)];
                if got != [want; 13] { return Err(format!("{} against bare {}: {:?}, expected {}", q(&s), q(o), got, want)) }
                if let JsonValue::Short(x) = v {
                    let got = [*x == *st, *st == *x, *x == *o, *o == *x, !(*x != *st)];
                    if got != [want; 5] { return Err(format!("Short {} against bare {}: {:?}, expected {}", q(&s), q(o), got, want)) }
                    if let JsonValue::Short(y) = &ws[0] { if (x == y) != want || (y == x) != want { return Err(format!("Short {} and {}: not {}", q(&s), q(o), want)) } }
                }
            }
        }
        Ok(())
    });
    let chars = probe_chars();
    r.sweep("characters", (chars.len() * chars.len()) as u64, "all pairs of 151 characters, alone and inside 35 bytes: equal only if the same", |c, i| {
        let (x, y) = (chars[i as usize / chars.len()], chars[i as usize % chars.len()]);
        let want = x == y;
        c.step();
        if !want { c.nontrivial() }
        for (p, s) in [("", ""), ("ab", "cd"), ("abcdefghijklmnopqrstuvwxyz012345", "z")] {
            let (a, b) = (format!("{}{}{}", p, x, s), format!("{}{}{}", p, y, s));
            let (v, w) = (JsonValue::from(a.as_str()), JsonValue::String(b.clone()));
            same(&v, &w, want, &|| format!("{} and {}", q(&a), q(&b)))?;
            if (v == b.as_str()) != want || (a.as_str() == w) != want || (v == b) != want || (a == w) != want { return Err(format!("{} against bare {}: not {}", q(&a), q(&b), want)) }
            let (m, n) = (json::object!{ a.as_str() => 1 }, json::object!{ b.as_str() => 1 });
            same(&m, &n, want, &|| format!("members {} and {}", q(&a), q(&b)))?;
        }
        Ok(())
    });
    // raw data against every value
    let mut vals: Vec<RV> = small.clone();
    vals.extend((0..12).map(|i| RV::i([2, 3, 127, 128, -128, 255, 256, 32767, 65535, 4294967295, -1, 1 << 53][i])));
    vals.extend([RV::d(false, 15, -1), RV::d(false, 25, -2), RV::d(true, 15, -1), RV::d(false, 1, -1), RV::d(false, 1, 3), RV::Obj(vec![("a".into(), RV::i(1))]), RV::Arr(vec![RV::Bool(true)])]);
    r.sweep("raw data", vals.len() as u64 * 5, "49 values in 5 styles against booleans, every integer type, floats, numbers, objects and texts, both ways", |c, i| {
        let (m, st) = (&vals[i as usize / 5], STYLES[i as usize % 5]);
        let v = if st == Style::Churn { made(m, st, 3) } else { build_as(m, st) };
        c.nontrivial();
        c.log(|| show(m));
        macro_rules! raw { ($x:expr, $rv:expr, $ty:expr) => {{
            c.step();
            let x = $x;
            let want = m.equals(&$rv);
            let got = [v == x, x == v, &v == x, !(v != x), !(x != v), v == JsonValue::from(x.clone()), v.contains(JsonValue::Null) && false];
            if got[..6] != [want; 6] { return Err(format!("{} ({:?}) against {:?} {}: {:?}, expected {}", show(m), st, x, $ty, &got[..6], want)) }
        }} }
        for b in [true, false] { raw!(b, RV::Bool(b), "bool") }
        macro_rules! ints { ($($t:ty),*) => { $( for k in [0i128, 1, 2, 3, 10, 100, 127, 128, 255, 256, 32767, 65535, 4294967295, 1000, -1, -128, 1 << 53, u64::MAX as i128, i64::MIN as i128] {
            if k >= <$t>::MIN as i128 && k <= <$t>::MAX as i128 { raw!(k as $t, RV::Num(Num::int(k)), stringify!($t)) }
        } )* } }
        ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
        // short decimals whose binary neighbours are exact or far enough apart
        for (f, n) in [(0.0f64, Num::int(0)), (1.0, Num::int(1)), (1.5, Num::new(false, 15, -1)), (-1.5, Num::new(true, 15, -1)), (2.5, Num::new(false, 25, -1)), (0.25, Num::new(false, 25, -2)), (1000.0, Num::new(false, 1, 3)), (-1.0, Num::int(-1))] {
            // -0.0 and huge values are the subject of C09 and C11
            if matches!(m, RV::Num(x) if x.e.abs() > 15) { continue }
            raw!(f, RV::Num(n), "f64");
            raw!(f as f32, RV::Num(n), "f32");
        }
        for n in [Num::int(0), Num::new(true, 0, 0), Num::int(1), Num::new(false, 15, -1), Num::new(false, u64::MAX, 0), Num::new(false, 1, -32768), Num::new(false, 1, 1)] { raw!(n.number(), RV::Num(n), "Number") }
        for o in [vec![], vec![("a".to_string(), RV::i(1))], vec![("b".to_string(), RV::i(1)), ("a".to_string(), RV::i(0))]] {
            let want = RV::Obj(o.clone());
            let JsonValue::Object(x) = build(&want) else { unreachable!() };
            let want = m.equals(&want);
            let got = [v == x, x == v, &v == x, !(v != x), !(x != v)];
            if got != [want; 5] { return Err(format!("{} against Object {}: {:?}", show(m), x.dump(), got)) }
        }
        for t in ["", "a", "0", "1", "null", "true", "aa"].iter().map(|s| s.to_string()).chain([text_of_len(30), text_of_len(31)]) {
            c.step();
            let want = m.equals(&RV::s(&t));
            let s: &str = &t;
            let got = [v == s, s == v, v == *s, *s == v, v == t, t == v, &v == t, !(v != s), !(s != v), !(v != t)];
            if got != [want; 10] { return Err(format!("{} ({:?}) against text {}: {:?}, expected {}", show(m), st, q(&t), got, want)) }
        }
        // NaN
        let nan = matches!(m, RV::Nan);
        if (v == JsonValue::from(f64::NAN)) != nan || (v == JsonValue::from(json::number::NAN)) != nan || (v == json::number::NAN) != nan { return Err(format!("{} against NaN", show(m))) }
        Ok(())
    });
    // equal values stay equal through the same changes, and changing there and back restores equality
    r.dfs("there and back", 0, "trees of up to 3 nodes: every node changed in one of two equal values (unequal) and changed back (equal), by index or mutable iteration", |c| {
        let mut b = 3;
        let t = tree(c, &mut b, 3, &lv2, &["a", COLLIDE[0]]);
        let (x, mut y) = (build(&t), build_as(&t, STYLES[c.choose(5)]));
        c.nontrivial();
        fn at<'a>(v: &'a mut JsonValue, path: &[usize]) -> &'a mut JsonValue {
            let mut cur = v;
            for k in path { cur = match cur { JsonValue::Array(a) => &mut a[*k], JsonValue::Object(o) => o.iter_mut().nth(*k).unwrap().1, _ => unreachable!() } }
            cur
        }
        let mut path = Vec::new();
        loop {
            let n = at(&mut y, &path).len();
            let k = c.choose(n + 1);
            if k == n { break }
            path.push(k);
        }
        c.step();
        c.log(|| format!("{} at {:?}", show(&t), path));
        let old = at(&mut y, &path).take();
        if x == y { return Err(format!("a part of {} was taken, still equal", show(&t))) }
        *at(&mut y, &path) = old;
        same(&x, &y, true, &|| format!("{} changed and restored", show(&t)))
    });
    r.finish()
}
