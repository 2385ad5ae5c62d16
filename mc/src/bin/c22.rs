//! C22: the dynamic value API follows one model on every variant.
use json::JsonValue;
use mc::gen::*;
use mc::model::api::*;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

const K33: &str = "a key of exactly thirty-three byt";

/// Values of every variant, and how they are stored.
fn values() -> Vec<(RV, Style)> {
    let mut v: Vec<(RV, Style)> = Vec::new();
    let p = Style::Plain;
    for x in [RV::Null, RV::Bool(true), RV::Bool(false), RV::i(0), RV::d(true, 0, 0), RV::d(false, 0, -5), RV::i(1), RV::i(-7), RV::i(200), RV::i(65536), RV::d(false, 15, -1), RV::d(false, u64::MAX, 0), RV::d(true, 1 << 63, 0), RV::d(false, 12, 300), RV::Nan] { v.push((x, p)) }
    for s in ["", "a", "exactly thirty bytes of text..", "text of more than thirty bytes, on the heap", "\u{e9}\u{1F600}"] { v.push((RV::s(s), p)); v.push((RV::s(s), Style::Heap)) }
    let arrs = vec![vec![], vec![RV::Null], vec![RV::i(1), RV::s("a"), RV::Arr(vec![RV::i(2)])], vec![RV::Obj(vec![("k".into(), RV::i(1))]), RV::Null, RV::Bool(true), RV::s("text of more than thirty bytes, on the heap"), RV::i(5)]];
    for a in arrs { v.push((RV::Arr(a.clone()), p)); v.push((RV::Arr(a), Style::Churn)) }
    let objs = vec![vec![], vec![("k".to_string(), RV::Null)], vec![("k".to_string(), RV::i(1)), ("".to_string(), RV::s("a")), (K33.to_string(), RV::Arr(vec![]))],
        vec![(COLLIDE[0].to_string(), RV::i(1)), ("k".to_string(), RV::Obj(vec![("k".into(), RV::i(2))])), (COLLIDE[1].to_string(), RV::i(3)), ("z".to_string(), RV::Bool(false)), ("0".to_string(), RV::Null)]];
    for o in objs { v.push((RV::Obj(o.clone()), p)); v.push((RV::Obj(o), Style::Churn)) }
    v
}

fn args() -> Vec<RV> { vec![RV::Null, RV::i(1), RV::s("a"), RV::s("text of more than thirty bytes, on the heap"), RV::Arr(vec![RV::i(2)]), RV::Obj(vec![("k".into(), RV::i(1))])] }
const KEYS: [&str; 7] = ["k", "", K33, COLLIDE[0], COLLIDE[1], "0", "absent"];

fn ops(all: bool) -> Vec<Op> {
    let mut v = vec![Op::Pop, Op::Clear, Op::Take, Op::TakeString];
    let a = args();
    for x in &a { v.push(Op::Push(x.clone())) }
    for (i, k) in KEYS.iter().enumerate() {
        v.push(Op::Remove(k.to_string()));
        v.push(Op::Insert(k.to_string(), a[i % a.len()].clone()));
        v.push(Op::SetKey(k.to_string(), a[(i + 2) % a.len()].clone(), (i % 3) as u8));
    }
    for i in [0, 1, 2, 4, 5, usize::MAX] { v.push(Op::ArrayRemove(i)); v.push(Op::SetIdx(i, a[i % 5].clone())) }
    if all { for x in &a { for i in 0..3 { v.push(Op::SetIdx(i, x.clone())); v.push(Op::SetKey("k".into(), x.clone(), i as u8)); v.push(Op::Insert("k".into(), x.clone())) } v.push(Op::Replace(x.clone())) } }
    v
}

fn items() -> Vec<RV> { let mut v = args(); v.extend([RV::Bool(true), RV::Bool(false), RV::i(5), RV::i(0), RV::s(""), RV::Nan, RV::d(false, 15, -1), RV::Arr(vec![]), RV::Obj(vec![])]); v }

fn main() {
    let mut r = Runner::new("C22");
    let (vs, its) = (values(), items());
    let all = ops(true);
    r.dfs("every call on every variant", 0, "40 values of every variant and storage x every call with every kind of argument: result, contents and every query before and after", |c| {
        let (m, st) = c.pick(&vs).clone();
        let op = c.pick(&all).clone();
        c.nontrivial();
        c.step();
        c.log(|| format!("{} on {} ({:?})", short(&op), show(&m), st));
        let (mut m, mut v) = (m.clone(), build_as(&m, st));
        observe(&m, &v)?;
        queries(&m, &v, &KEYS, &its)?;
        apply(&op, &mut m, &mut v)?;
        observe(&m, &v).map_err(|e| format!("after {}: {}", short(&op), e))?;
        queries(&m, &v, &KEYS, &its).map_err(|e| format!("after {}: {}", short(&op), e))?;
        c.visit_bytes(v.dump().as_bytes());
        Ok(())
    });
    let few = ops(false);
    let hl = r.by(3, 4);
    r.dfs("histories", 0, "the same values: every history of 3 (4) calls out of 37, queries at the end", |c| {
        let (m, st) = c.pick(&vs).clone();
        let (mut m, mut v) = (m.clone(), build_as(&m, st));
        c.nontrivial();
        for _ in 0..hl {
            let op = c.pick(&few);
            c.step();
            c.log(|| short(op));
            apply(op, &mut m, &mut v)?;
        }
        observe(&m, &v)?;
        queries(&m, &v, &KEYS[..4], &its[..3])?;
        c.visit_bytes(v.dump().as_bytes());
        Ok(())
    });
    let long = [Op::Push(RV::i(1)), Op::Pop, Op::SetIdx(0, RV::s("a")), Op::SetIdx(1, RV::Null), Op::ArrayRemove(0), Op::Insert("k".into(), RV::i(1)), Op::Remove("k".into()), Op::SetKey("j".into(), RV::s("x"), 0), Op::Clear, Op::Take];
    let ll = r.by(6, 8);
    r.dfs("long histories", 0, "every history of 6 (8) calls out of 10 that switch between array, object and scalar, starting from null, queries at the end", |c| {
        let (mut m, mut v) = (RV::Null, JsonValue::Null);
        c.nontrivial();
        for _ in 0..ll {
            let op = c.pick(&long);
            c.step();
            c.log(|| short(op));
            apply(op, &mut m, &mut v)?;
        }
        observe(&m, &v)?;
        queries(&m, &v, &["k", "j"], &its[..2])?;
        c.visit_bytes(v.dump().as_bytes());
        Ok(())
    });
    // chains of indices
    r.dfs("chains", 0, "assignment through chains of up to 4 keys and indices into every value, reading the same chain before and after", |c| {
        let (m, st) = c.pick(&vs).clone();
        let n = c.choose(4) + 1;
        let path: Vec<usize> = (0..n).map(|_| c.choose(5)).collect();
        let mut v = build_as(&m, st);
        let mut m = m.clone();
        c.nontrivial();
        c.steps(n as u64);
        c.log(|| format!("chain {:?} on {}", path, show(&m)));
        let key = |p: usize| ["k", K33, ""][p];
        // reading never creates
        {
            let mut x = &v;
            let mut y = Some(&m);
            for p in &path {
                if *p < 3 { x = &x[key(*p)]; y = match y { Some(RV::Obj(o)) => o.iter().find(|e| e.0 == key(*p)).map(|e| &e.1), _ => None } } else { x = &x[p - 3]; y = match y { Some(RV::Arr(a)) => a.get(p - 3), _ => None } }
            }
            if view(x) != y.cloned().unwrap_or(RV::Null) { return Err(format!("chain {:?} reads {} on {}", path, x.dump(), show(&m))) }
        }
        observe(&m, &v)?;
        {
            let mut x = &mut v;
            let mut y = &mut m;
            for p in &path {
                if *p < 3 {
                    x = &mut x[key(*p)];
                    if !matches!(y, RV::Obj(_)) { *y = RV::Obj(vec![]) }
                    if let RV::Obj(o) = y { if !o.iter().any(|e| e.0 == key(*p)) { o.push((key(*p).into(), RV::Null)) } }
                    y = match y { RV::Obj(o) => &mut o.iter_mut().find(|e| e.0 == key(*p)).unwrap().1, _ => unreachable!() };
                } else {
                    let i = p - 3;
                    // a non-array becomes [null]; an index behind the end appends
                    if !matches!(y, RV::Arr(_)) {
                        *y = RV::Arr(vec![]);
                        x = &mut x[i];
                        if i > 0 { if let RV::Arr(a) = y { a.push(RV::Null) } }
                    } else { x = &mut x[i] }
                    if let RV::Arr(a) = y { if i >= a.len() { a.push(RV::Null) } let l = a.len() - 1; y = &mut a[i.min(l)] } else { unreachable!() }
                }
            }
            *x = JsonValue::from("set");
            *y = RV::s("set");
        }
        // where a non-array was indexed beyond 0, a leading null is optional
        let got = view(&v);
        if got != m && !loose(&m, &got) { return Err(format!("assignment through {:?} gives {}, expected {}", path, v.dump(), show(&m))) }
        Ok(())
    });
    // sizes
    let sz = r.by(130u64, 400);
    r.sweep("arrays", sz, "arrays of every size to 130 (400): every index read, replaced, removed; pushed and popped to the ends and beyond", |c, i| {
        let n = i as usize;
        let val = |k: usize| match k % 3 { 0 => RV::i(k as i64), 1 => RV::Str(text_of_len(k)), _ => RV::Arr(vec![RV::i(k as i64)]) };
        let full = RV::Arr((0..n).map(val).collect());
        c.nontrivial();
        let base = build(&full);
        ask(&full, &base)?;
        for k in 0..n + 2 {
            for op in [Op::ArrayRemove(k), Op::SetIdx(k, RV::s("new"))] {
                let (mut m, mut v) = (full.clone(), base.clone());
                apply(&op, &mut m, &mut v)?;
                c.step();
                if n < 70 || k % 8 == 0 { observe(&m, &v)? } else if v.len() != match &m { RV::Arr(a) => a.len(), _ => 0 } { return Err(format!("{} on {} elements leaves {}", short(&op), n, v.len())) }
            }
        }
        let (mut m, mut v) = (RV::Arr(vec![]), JsonValue::new_array());
        for k in 0..n { apply(&Op::Push(val(k)), &mut m, &mut v)? }
        observe(&m, &v)?;
        if n > 0 && !v.contains(build(&val(n - 1))) { return Err("contains misses the last element".into()) }
        for _ in 0..n + 1 { apply(&Op::Pop, &mut m, &mut v)?; c.step() }
        observe(&m, &v)
    });
    r.sweep("objects", sz * 2, "objects of every size to 130 (400) in 2 key families: every member read, replaced, removed, missing keys", |c, i| {
        let (n, f) = (i as usize / 2, [0, 6][i as usize % 2]);
        let keys = key_family(f, n + 1);
        let val = |k: usize| match k % 3 { 0 => RV::i(k as i64), 1 => RV::Str(text_of_len(k)), _ => RV::Arr(vec![RV::i(k as i64)]) };
        let full = RV::Obj((0..n).map(|k| (keys[k].clone(), val(k))).collect());
        let base = build(&full);
        c.nontrivial();
        ask(&full, &base)?;
        for k in (0..n + 1).step_by(if n > 60 { 7 } else { 1 }) {
            for op in [Op::Remove(keys[k].clone()), Op::Insert(keys[k].clone(), RV::s("new")), Op::SetKey(keys[k].clone(), RV::Null, k as u8 % 3)] {
                let (mut m, mut v) = (full.clone(), base.clone());
                apply(&op, &mut m, &mut v)?;
                c.step();
                observe(&m, &v)?;
                if v.has_key(&keys[k]) != !matches!(op, Op::Remove(_)) { return Err(format!("has_key after {}", short(&op))) }
            }
        }
        Ok(())
    });
    // any value over any other, behind any number of others
    let tiny = tiny();
    let counts = [1usize, 2, 3, 10, 16, 17, 33, 64, 65, 66, 70, 101, 128, 129, 200, 257];
    r.sweep("any value over any", (tiny.len() * tiny.len() * counts.len() * 2) as u64, "arrays and objects of 1 to 257 times one of 25 tiny values: each of the 25 put in place of the first, middle, last, last but one, added, inserted, and the others removed", |c, i| {
        let i = i as usize;
        let (x, y, n, obj) = (&tiny[i / 2 % tiny.len()], &tiny[i / 2 / tiny.len() % tiny.len()], counts[i / 2 / tiny.len() / tiny.len()], i % 2 == 1);
        c.nontrivial();
        let full = if obj { named(&vec![x.clone(); n]) } else { RV::Arr(vec![x.clone(); n]) };
        let base = build(&full);
        let mut at = vec![0, n / 2, n - 1, n.saturating_sub(2), n];
        at.dedup();
        let (mut mm, mut vv) = (full.clone(), base.clone());
        for p in at {
            let k = format!("k{}", p);
            let ops = if obj { vec![Op::Insert(k.clone(), y.clone()), Op::SetKey(k.clone(), y.clone(), 1), Op::Remove(k)] } else { vec![Op::SetIdx(p, y.clone()), Op::ArrayRemove(p), Op::Push(y.clone()), Op::Pop] };
            for op in ops {
                c.step();
                // on a fresh one, and behind all the changes before
                let (mut m, mut v) = (full.clone(), base.clone());
                apply(&op, &mut m, &mut v)?;
                if n < 70 { observe(&m, &v).map_err(|e| format!("{} of {}, after {}: {}", n, show(x), short(&op), e))? }
                apply(&op, &mut mm, &mut vv)?;
                if v.len() != match &m { RV::Arr(a) => a.len(), RV::Obj(o) => o.len(), _ => 0 } { return Err(format!("{} of {}, after {}: {} elements", n, show(x), short(&op), v.len())) }
            }
            observe(&mm, &vv).map_err(|e| format!("{} of {}, changed up to place {} with {}: {}", n, show(x), p, show(y), e))?;
        }
        if obj { queries(&mm, &vv, &["k0", "k1", "k"], &[]) } else { queries(&mm, &vv, &["k0"], &[x.clone(), y.clone()]) }
    });
    let big = large();
    r.sweep("large", big.len() as u64 * 2, "arrays and objects of sizes next to powers of two to 131072 and 200000: members read, replaced, removed, added and missing at places next to powers of two", |c, i| {
        let (n, obj) = (big[i as usize / 2], i % 2 == 1);
        let val = |k: usize| if k % 3 == 0 { RV::i(k as i64) } else { RV::Str(text_of_len(k % 50)) };
        let mut m = if obj { RV::Obj((0..n).map(|k| (format!("k{}", k), val(k))).collect()) } else { RV::Arr((0..n).map(val).collect()) };
        let mut v = build(&m);
        ask(&m, &v)?;
        c.nontrivial();
        c.steps(n as u64);
        for (round, k) in places(n).into_iter().rev().enumerate() {
            c.step();
            if obj {
                let key = format!("k{}", k);
                if view(&v[&key]) != val(k) { return Err(format!("member {} of {} reads {}", k, n, v[&key])) }
                apply(&Op::SetKey(key.clone(), RV::s("new"), round as u8 % 3), &mut m, &mut v)?;
                if round % 4 == 0 && round < 20 { apply(&Op::Remove(key), &mut m, &mut v)? }
            } else {
                if view(&v[k]) != val(k) { return Err(format!("element {} of {} reads {}", k, n, v[k])) }
                apply(&Op::SetIdx(k, RV::s("new")), &mut m, &mut v)?;
                if round % 4 == 0 { apply(&Op::ArrayRemove(k), &mut m, &mut v)? }
            }
        }
        observe(&m, &v)?;
        ask(&m, &v)?;
        let last = if obj { RV::Null } else { RV::s("not there before") };
        let beyond = v.len();
        if obj { apply(&Op::Insert("a new one".into(), RV::i(7)), &mut m, &mut v)? } else { apply(&Op::Push(last.clone()), &mut m, &mut v)?; if !v.contains("not there before") || v.contains("nowhere") || !v[beyond + 1].is_null() { return Err("contains".into()) } apply(&Op::Pop, &mut m, &mut v)?; apply(&Op::SetIdx(v.len(), RV::i(9)), &mut m, &mut v)?; apply(&Op::SetIdx(v.len() + 5, RV::i(9)), &mut m, &mut v)?; }
        observe(&m, &v)
    });
    let t = TIDES.len();
    r.sweep("tides", (t * t * t * 2) as u64, "arrays and objects that grow and shrink to every three of the sizes 0, 1, 20, 70, 300, 1100 in turn, then are emptied: every result, and the contents at each of them", |c, i| {
        let (obj, i) = (i % 2 == 1, i as usize / 2);
        let val = |k: usize| if k % 3 == 0 { RV::i(k as i64) } else { RV::Str(text_of_len(k % 50)) };
        let (mut m, mut v) = if obj { (RV::Obj(vec![]), JsonValue::new_object()) } else { (RV::Arr(vec![]), JsonValue::new_array()) };
        let mut k = 0;
        c.nontrivial();
        for (round, t) in [TIDES[i / 36], TIDES[i / 6 % 6], TIDES[i % 6], 0].into_iter().enumerate() {
            while v.len() < t { k += 1; c.step(); let op = if obj { Op::Insert(format!("k{}", k), val(k)) } else if k % 5 == 0 { Op::SetIdx(v.len(), val(k)) } else { Op::Push(val(k)) }; apply(&op, &mut m, &mut v)? }
            while v.len() > t {
                c.step();
                let n = v.len();
                let op = match &m { RV::Obj(o) => Op::Remove(o[if n % 2 == 0 { 0 } else { n - 1 }].0.clone()), _ => if round % 2 == 1 && n % 3 != 0 { Op::ArrayRemove(n % 3 * (n - 1) / 3) } else { Op::Pop } };
                apply(&op, &mut m, &mut v)?;
                if v.len() >= n { return Err(format!("{} on {} elements leaves {}", short(&op), n, v.len())) }
            }
            observe(&m, &v)?;
            ask(&m, &v)?;
        }
        for op in [Op::Pop, Op::Push(RV::i(1)), Op::Insert("k".into(), RV::i(2))] { apply(&op, &mut m, &mut v)?; }
        observe(&m, &v)
    });
    r.sweep("pops", big.len() as u64, "arrays of sizes next to powers of two to 131072 and 200000 popped until they are empty: every value", |c, i| {
        let n = big[i as usize];
        let mut v = JsonValue::new_array();
        for k in 0..n { v.push(k).map_err(|e| e.to_string())? }
        c.nontrivial();
        c.steps(n as u64);
        for k in (0..n).rev() { if v.pop().as_u64() != Some(k as u64) || v.len() != k { return Err(format!("pop at {} of {} elements is wrong", k, n)) } }
        if !v.pop().is_null() || !v.is_empty() || !v.is_array() { return Err("pop on an empty array".into()) }
        Ok(())
    });
    let ns = r.by(70u64, 300);
    r.sweep("strings", ns, "strings of every length to 70 (300) in both storages: every query and call that is for other types, take_string and clear", |c, i| {
        c.nontrivial();
        for st in [Style::Plain, Style::Heap] {
            let s = RV::Str(text_of_len(i as usize));
            for op in &few {
                let (mut m, mut v) = (s.clone(), build_as(&s, st));
                apply(op, &mut m, &mut v)?;
                observe(&m, &v)?;
                c.step();
            }
            queries(&s, &build_as(&s, st), &["", "len", "0"], &[s.clone(), RV::s("")])?;
        }
        Ok(())
    });
    r.sweep("numbers", 65536, "is_empty, type tests and container queries of numbers with every exponent", |c, i| {
        c.nontrivial();
        for m in [0u64, 1, 10, 255, 256, 65535, 1 << 31, 1 << 32, 1 << 63, u64::MAX] {
            for neg in [false, true] {
                let n = unsafe { json::number::Number::from_parts_unchecked(!neg, m, (i as i64 - 32768) as i16) };
                let v = JsonValue::Number(n);
                c.step();
                if v.is_empty() != (m == 0) || !v.is_number() || v.len() != 0 || v.as_bool().is_some() || v.as_str().is_some() || !v[0].is_null() || !v["0"].is_null() || v.has_key("") || v.contains(1) {
                    return Err(format!("a query on {} is wrong (is_empty {})", v.dump(), v.is_empty()));
                }
            }
        }
        Ok(())
    });
    r.finish()
}

/// Every query with keys and items that are there, nearly there, and not.
fn ask(m: &RV, v: &JsonValue) -> Res {
    let (mut keys, mut items) = (vec![String::new(), "k".into(), "zz".into()], vec![RV::s("not there"), RV::Null]);
    match m {
        RV::Obj(o) => for i in [0, o.len() / 2, o.len().saturating_sub(1)] { if let Some((k, _)) = o.get(i) { keys.push(k.clone()); keys.push(format!("{}x", k)); if let Some((p, _)) = k.char_indices().nth(1) { keys.push(k[p..].into()); keys.push(k[..p].into()) } } },
        RV::Arr(a) => for i in [0, a.len() / 2, a.len().saturating_sub(1)] { if let Some(x) = a.get(i) { items.push(x.clone()) } },
        _ => {}
    }
    let keys: Vec<&str> = keys.iter().map(|k| k.as_str()).collect();
    queries(m, v, &keys, &items).map_err(|e| clip(&e, 600).to_string())
}

/// Equal up to one leading null in an array of the expected value.
fn loose(want: &RV, got: &RV) -> bool {
    match (want, got) {
        (RV::Arr(a), RV::Arr(b)) => {
            let z = |a: &[RV], b: &[RV]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| loose(x, y));
            z(a, b) || (a.len() == 2 && a[0] == RV::Null && z(&a[1..], b))
        }
        (RV::Obj(a), RV::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && loose(&x.1, &y.1)),
        (a, b) => a == b,
    }
}
