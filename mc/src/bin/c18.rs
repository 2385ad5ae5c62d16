//! C18: objects behave as insertion-ordered maps under every history.
use json::object::Object;
use json::JsonValue;
use mc::gen::*;
use mc::model::{build, observe, show, RV};
use mc::*;

mc::fast_alloc!();

type M = Vec<(String, u64)>;

fn val(n: u64) -> JsonValue {
    // every storage of a value
    match n % 8 {
        0 => JsonValue::from(n),
        1 => JsonValue::from(format!("v{}", n).as_str()),
        2 => JsonValue::from(format!("a value on the heap, number {}", n)),
        3 => JsonValue::from(vec![n]),
        4 => JsonValue::Null,
        5 => { let mut o = Object::new(); o.insert("n", n.into()); JsonValue::Object(o) }
        6 => JsonValue::Boolean(n & 8 == 0),
        _ => JsonValue::new_array(),
    }
}
fn is(v: &JsonValue, n: u64) -> bool {
    match v {
        JsonValue::Number(_) => n % 8 == 0 && v.as_u64() == Some(n),
        JsonValue::Short(s) => n % 8 == 1 && s.as_str() == format!("v{}", n),
        JsonValue::String(s) => n % 8 == 2 && *s == format!("a value on the heap, number {}", n),
        JsonValue::Array(a) => n % 8 == 3 && a.len() == 1 && a[0].as_u64() == Some(n) || n % 8 == 7 && a.is_empty(),
        JsonValue::Null => n % 8 == 4,
        JsonValue::Object(o) => n % 8 == 5 && o.len() == 1 && o["n"].as_u64() == Some(n),
        JsonValue::Boolean(b) => n % 8 == 6 && *b == (n & 8 == 0),
    }
}

fn set(m: &mut M, k: &str, v: u64) { if let Some(e) = m.iter_mut().find(|e| e.0 == k) { e.1 = v } else { m.push((k.into(), v)) } }

fn name(k: &str) -> String { if k.len() > 60 { format!("{} ({} bytes)", q(&clip(k, 40)), k.len()) } else { q(k) } }

/// Contents, order and lookups.
fn check(o: &Object, m: &M, absent: &[&str]) -> Res {
    if o.len() != m.len() || o.is_empty() != m.is_empty() { return Err(format!("len() {}, is_empty() {} with {} entries", o.len(), o.is_empty(), m.len())) }
    let mut it = o.iter();
    for (i, (k, v)) in m.iter().enumerate() {
        match it.next() {
            Some((l, w)) => {
                if l != k { return Err(format!("entry {} of {} has key {}, expected {}", i, m.len(), name(&String::from_utf8_lossy(l.as_bytes())), name(k))) }
                if !is(w, *v) { return Err(format!("entry {} of {} (key {}) has value {}, expected {}", i, m.len(), name(k), w.dump(), val(*v).dump())) }
            }
            None => return Err(format!("iteration ends after {} of {} entries", i, m.len())),
        }
    }
    if it.next().is_some() { return Err(format!("iteration yields more than {} entries", m.len())) }
    for (k, v) in m {
        match o.get(k) {
            Some(w) if is(w, *v) => {}
            Some(w) => return Err(format!("get({}) gives {}, expected {}", name(k), w.dump(), val(*v).dump())),
            None => return Err(format!("get({}) does not find a present key ({} entries)", name(k), m.len())),
        }
    }
    for k in absent {
        if m.iter().any(|e| e.0 == *k) { continue }
        if let Some(w) = o.get(k) { return Err(format!("get({}) finds {} under an absent key", name(k), w.dump())) }
        if !o[*k].is_null() { return Err(format!("index {} gives {} for an absent key", name(k), o[*k].dump())) }
    }
    Ok(())
}

/// Beginnings and ends of the first and the last key, and one more character.
fn near(m: &M) -> Vec<String> {
    let mut v = vec![String::new()];
    for k in [m.first(), m.last()].into_iter().flatten() {
        let k = &k.0;
        v.push(format!("{}x", k));
        v.push(format!("x{}", k));
        let at: Vec<usize> = k.char_indices().map(|x| x.0).collect();
        for p in [1, at.len() / 2, at.len().saturating_sub(1)] { if let Some(p) = at.get(p) { v.push(k[*p..].into()); v.push(k[..*p].into()) } }
    }
    v.retain(|k| !m.iter().any(|e| e.0 == *k));
    v
}

/// The same, through everything else that looks things up.
fn full(o: &mut Object, m: &M, absent: &[&str]) -> Res {
    let near = near(m);
    let absent: Vec<&str> = absent.iter().copied().chain(near.iter().map(|k| k.as_str())).collect();
    let absent = &absent[..];
    check(o, m, absent)?;
    for (k, v) in m {
        if !is(&o[k.as_str()], *v) || !is(&o[k], *v) { return Err(format!("index {} gives {}", name(k), o[k.as_str()].dump())) }
        match o.get_mut(k) { Some(w) if is(w, *v) => {} w => return Err(format!("get_mut({}) gives {:?}", name(k), w.map(|w| w.dump()))) }
        let t: &mut JsonValue = &mut o[k.as_str()];
        if !is(t, *v) { return Err(format!("mutable index {} gives {}", name(k), t.dump())) }
        let t: &mut JsonValue = &mut o[k];
        if !is(t, *v) { return Err(format!("mutable index &String {} gives {}", name(k), t.dump())) }
        let t: &mut JsonValue = &mut o[k.clone()];
        if !is(t, *v) { return Err(format!("mutable index String {} gives {}", name(k), t.dump())) }
        if !is(&o[k.clone()], *v) { return Err(format!("index String {} gives {}", name(k), o[k.clone()].dump())) }
    }
    for k in absent { if !m.iter().any(|e| e.0 == *k) && o.get_mut(k).is_some() { return Err(format!("get_mut({}) finds an absent key", name(k))) } }
    check(o, m, absent)
}

const OPS: usize = 5;
/// One operation: 0..5 per key, then the ones without a key.
fn step(c: &mut Ctl, o: &mut Object, m: &mut M, keys: &[&str], n: &mut u64, spare: &mut Vec<(Object, M)>) -> Res {
    let k = c.choose(keys.len() * OPS + 9);
    *n += 1;
    let v = *n;
    c.step();
    if k < keys.len() * OPS {
        let key = keys[k / OPS];
        let here = m.iter().position(|e| e.0 == key);
        match k % OPS {
            0 => { c.log(|| format!("insert {}", name(key))); o.insert(key, val(v)); set(m, key, v) }
            1 => { c.log(|| format!("index-assign {}", name(key))); o[key] = val(v); set(m, key, v) }
            2 => {
                c.log(|| format!("change through get_mut {}", name(key)));
                match (o.get_mut(key), here) {
                    (Some(w), Some(i)) => { if !is(w, m[i].1) { return Err(format!("get_mut gives {}", w.dump())) } *w = val(v); m[i].1 = v }
                    (None, None) => {}
                    (w, h) => return Err(format!("get_mut({}) gives {:?}, entry is {:?}", name(key), w.map(|w| w.dump()), h)),
                }
            }
            3 => {
                c.log(|| format!("remove {}", name(key)));
                match (o.remove(key), here) {
                    (Some(w), Some(i)) => { if !is(&w, m[i].1) { return Err(format!("remove({}) gives {}, expected {}", name(key), w.dump(), val(m[i].1).dump())) } m.remove(i); }
                    (None, None) => {}
                    (w, h) => return Err(format!("remove({}) gives {:?}, entry is {:?}", name(key), w.map(|w| w.dump()), h)),
                }
            }
            _ => {
                c.log(|| format!("take out and put back {}", name(key)));
                if let (Some(w), Some(i)) = (o.remove(key), here) { o.insert(key, w); let e = m.remove(i); m.push(e) }
            }
        }
    } else {
        match k - keys.len() * OPS {
            0 => { c.log(|| "clear".into()); o.clear(); m.clear() }
            1 => { c.log(|| "go on with a clone".into()); let d = o.clone(); spare.push((std::mem::replace(o, d), m.clone())) }
            2 => { c.log(|| "clone and go on with the original".into()); spare.push((o.clone(), m.clone())) }
            3 => { c.log(|| "change all by iter_mut".into()); for (i, (_, w)) in o.iter_mut().enumerate() { *w = val(v + 4 * i as u64) } for (i, e) in m.iter_mut().enumerate() { e.1 = v + 4 * i as u64 } *n += 4 * m.len() as u64 }
            #[allow(deprecated)]
            4 => { c.log(|| "override_last".into()); o.override_last(val(v)); if let Some(e) = m.last_mut() { e.1 = v } }
            5 => { c.log(|| "collect again".into()); let d: Object = o.iter().map(|(k, v)| (k, v.clone())).collect(); *o = d }
            6 => { c.log(|| "go on with a clone_from into a larger object".into()); let mut d = Object::with_capacity(9); for k in ["z", keys[0], "y", "x", "w", "v"] { d.insert(k, val(1)) } d.clone_from(o); spare.push((std::mem::replace(o, d), m.clone())) }
            7 => { c.log(|| "go on with a clone_from into a smaller object".into()); let mut d = Object::new(); d.insert(keys[0], val(1)); d.clone_from(o); spare.push((std::mem::replace(o, d), m.clone())) }
            _ => { c.log(|| "collect in reverse".into()); let d: Object = o.iter().rev().map(|(k, v)| (k.to_string(), v.clone())).collect(); *o = d; m.reverse() }
        }
    }
    Ok(())
}

fn start(kind: usize, keys: &[&str]) -> (Object, M) {
    match kind {
        0 => (Object::new(), vec![]),
        1 => (Object::with_capacity(1), vec![]),
        2 => (Object::with_capacity(3), vec![]),
        3 => { let mut o = Object::new(); let mut m = vec![]; for (i, k) in keys.iter().rev().enumerate() { o.insert(k, val(900 + i as u64)); m.push((k.to_string(), 900 + i as u64)) } (o, m) }
        4 => {
            let t = format!("{{{}:1000,\"other\":1008,{}:1016}}", JsonValue::from(keys[0]).dump(), JsonValue::from(keys[keys.len() - 1]).dump());
            match json::parse(&t).unwrap() { JsonValue::Object(o) => (o, vec![(keys[0].into(), 1000), ("other".into(), 1008), (keys[keys.len() - 1].into(), 1016)]), _ => unreachable!() }
        }
        _ => {
            // four other entries, so that the store grows soon
            let mut o = Object::new(); let mut m = vec![];
            for (i, k) in ["p", "q", "r", "other"].iter().enumerate() { o.insert(k, val(800 + i as u64)); m.push((k.to_string(), 800 + i as u64)) }
            (o, m)
        }
    }
}

fn hist(c: &mut Ctl, keys: &[&str], starts: usize, len: usize) -> Res {
    let s = c.choose(starts);
    let (mut o, mut m) = start(s, keys);
    c.log(|| format!("start {}", s));
    // other kinds of values at the same steps
    let mut n = [0, 3, 2, 3, 2, 0][s];
    let mut spare = Vec::new();
    c.nontrivial();
    for _ in 0..len { step(c, &mut o, &mut m, keys, &mut n, &mut spare)? }
    full(&mut o, &m, &["absent", "!0IC=VloaY!", ""])?;
    c.visit(m.iter().fold(s as u64, |h, e| hash_bytes(e.0.as_bytes()) ^ h.wrapping_mul(31).wrapping_add(e.1)));
    for k in keys { check(&o, &m, &[k])? }
    for (d, dm) in &spare { check(d, dm, keys).map_err(|e| format!("a copy made earlier: {}", e))? }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C18");
    let k40 = [format!("{}{}", COLLIDE[0], ascii_of_len(30)), format!("{}{}", COLLIDE[1], ascii_of_len(30))];
    let (k31, k32, k33) = (ascii_of_len(31), ascii_of_len(32), ascii_of_len(33));
    let (four, late): (Vec<String>, Vec<String>) = ((0..4).map(quad).collect(), (0..4).map(|i| late([21, 64][i / 2], i)).collect());
    let sets: Vec<Vec<&str>> = vec![
        vec!["a", COLLIDE[0], COLLIDE[1]],
        vec!["", k32.as_str(), k33.as_str()],
        vec![k40[0].as_str(), k40[1].as_str(), "b"],
        vec!["\u{e9}\u{1F600}", "\0", k31.as_str()],
        vec![four[0].as_str(), four[3].as_str(), four[1].as_str()],
        vec![late[0].as_str(), late[1].as_str(), "a"],
        vec![late[2].as_str(), late[3].as_str(), "b"],
    ];
    let len = r.by(4, 5);
    r.dfs("histories", 0, "7 sets of 3 keys (colliding in several ways, inline, heap, non-ASCII, empty) x 6 starting objects: every history of 4 (5) operations among insert, index, change, remove, move, clear, clone, clone_from, iter_mut, collect", |c| {
        let k = c.choose(sets.len());
        hist(c, &sets[k], 6, len)
    });
    let five: Vec<&str> = vec!["k", COLLIDE[0], COLLIDE[1], k32.as_str(), k40[0].as_str()];
    let l5 = r.by(4, 5);
    r.dfs("histories of five keys", 0, "5 keys of all kinds x 3 starts: every history of 4 (5) operations", |c| hist(c, &five, 3, l5));
    // long histories of the plain operations
    let l2 = r.by(8, 9);
    r.dfs("long histories", 0, "insert and remove of 4 keys: every history of 8 (9) operations, contents checked after each", |c| {
        let keys = [four[2].as_str(), COLLIDE[0], COLLIDE[1], four[1].as_str()];
        let (mut o, mut m): (Object, M) = (Object::new(), vec![]);
        c.nontrivial();
        for i in 0..l2 {
            let k = c.choose(8);
            let key = keys[k / 2];
            c.step();
            c.log(|| format!("{} {}", if k % 2 == 0 { "insert" } else { "remove" }, name(key)));
            if k % 2 == 0 { o.insert(key, val(i as u64)); set(&mut m, key, i as u64) } else {
                let (w, h) = (o.remove(key), m.iter().position(|e| e.0 == key));
                match (w, h) { (Some(w), Some(h)) if is(&w, m[h].1) => { m.remove(h); } (None, None) => {} (w, h) => return Err(format!("remove gives {:?}, entry is {:?}", w, h)) }
            }
            check(&o, &m, &keys)?;
        }
        Ok(())
    });
    // all ways to name a member by index, for members that are null as well
    let li = r.by(5, 6);
    r.dfs("index forms", 0, "2 keys: every history of 5 (6) operations out of insert, insert of null, assignment by &str, String and &String, of null by String, removal and taking through an index; contents checked after each", |c| {
        let keys = ["a", COLLIDE[1]];
        let (mut o, mut m): (Object, Vec<(String, Option<u64>)>) = (Object::new(), vec![]);
        c.nontrivial();
        for i in 1..=li as u64 {
            let k = c.choose(16);
            let (key, k) = (keys[k / 8], k % 8);
            c.step();
            c.log(|| format!("{} {}", ["insert", "insert null", "[&str] =", "[String] =", "[&String] =", "[String] = null", "remove", "[String].take()"][k], name(key)));
            match k {
                0 => o.insert(key, i.into()),
                1 => o.insert(key, JsonValue::Null),
                2 => o[key] = i.into(),
                3 => o[key.to_string()] = i.into(),
                4 => o[&key.to_string()] = i.into(),
                5 => o[key.to_string()] = JsonValue::Null,
                6 => { o.remove(key); }
                _ => {
                    let (t, w) = (o[key.to_string()].take(), m.iter().find(|e| e.0 == key).and_then(|e| e.1));
                    if t.as_u64() != w || t.is_null() != w.is_none() { return Err(format!("take through index {} gives {}, expected {:?}", name(key), t.dump(), w)) }
                }
            }
            let v = if matches!(k, 1 | 5 | 7) { None } else { Some(i) };
            match m.iter().position(|e| e.0 == key) {
                Some(p) if k == 6 => { m.remove(p); }
                None if k == 6 => {}
                Some(p) => m[p].1 = v,
                None => m.push((key.into(), v)),
            }
            let got: Vec<(String, Option<u64>)> = o.iter().map(|(k, v)| (k.to_string(), v.as_u64())).collect();
            if got != m { return Err(format!("the entries are {:?}, expected {:?}", got, m)) }
            for k in keys {
                let w = m.iter().find(|e| e.0 == k).map(|e| e.1);
                let seen = [o.get(k).map(|v| v.as_u64()), w.map(|_| o[k].as_u64()), w.map(|_| o[k.to_string()].as_u64()), w.map(|_| o[&k.to_string()].as_u64())];
                if seen.iter().any(|x| *x != w) { return Err(format!("looking up {} gives {:?}, expected {:?}", name(k), seen, w)) }
            }
        }
        Ok(())
    });
    // every shape of the search tree
    let pool: Vec<String> = (0..7).map(|i| format!("{}{}", ["n", "m", "an inline key of more than 20 b", "a key that has more than thirty-two bytes "][i % 4], i)).collect();
    let coll: Vec<String> = (0..7).map(|i| format!("{}{}", COLLIDE[i % 2], "\0".repeat(i / 2))).collect();
    let mix: Vec<String> = (0..7).map(|i| if i % 2 == 0 { format!("{}{}", COLLIDE[i / 2 % 2], "\0".repeat(i / 4)) } else { format!("q{}", i * 31) }).collect();
    let fams = [pool, coll, mix];
    let pn = 7usize;
    let total = (3 * (1..=pn).product::<usize>() * (1 << pn)) as u64;
    r.sweep("shapes", total, "every order of inserting 7 keys of 3 families x removing every subset of them in order of the mask, then re-inserting: contents, order and lookups after every step", |c, i| {
        let i = i as usize;
        let (f, mut p, mask) = (i % 3, i / 3 >> pn, i / 3 & ((1 << pn) - 1));
        let mut left: Vec<usize> = (0..pn).collect();
        let mut ord = Vec::new();
        for k in (1..=pn).rev() { ord.push(left.remove(p % k)); p /= k }
        let keys: Vec<&str> = (0..pn).map(|k| fams[f][k].as_str()).collect();
        let (mut o, mut m): (Object, M) = (if mask % 2 == 0 { Object::new() } else { Object::with_capacity(mask % 9) }, vec![]);
        c.nontrivial();
        for (n, k) in ord.iter().enumerate() { o.insert(keys[*k], val(n as u64)); m.push((keys[*k].into(), n as u64)); if mask == 0 { check(&o, &m, &keys)? } }
        c.steps(2 * pn as u64);
        check(&o, &m, &["absent"])?;
        for k in 0..pn {
            if mask >> k & 1 == 0 { continue }
            let h = m.iter().position(|e| e.0 == keys[k]).unwrap();
            match o.remove(keys[k]) { Some(w) if is(&w, m[h].1) => {} w => return Err(format!("remove({}) gives {:?}", name(keys[k]), w)) }
            m.remove(h);
            check(&o, &m, &keys)?;
        }
        for k in 0..pn {
            if mask >> k & 1 == 0 { o[keys[k]] = val(50 + k as u64) } else { o.insert(keys[k], val(50 + k as u64)) }
            set(&mut m, keys[k], 50 + k as u64);
        }
        full(&mut o, &m, &["absent"])
    });
    // sizes
    let sz = r.by(260u64, 700);
    r.sweep("sizes", KEY_FAMILIES as u64 * sz, "every size to 260 (700) x 8 key families: filled (from capacities 0, exact, more), overwritten, each entry found, one removed, cleared and refilled, cloned", |c, i| {
        let (f, n) = ((i / sz) as usize, (i % sz) as usize);
        let keys = key_family(f, n + 1);
        let (extra, keys) = keys.split_last().unwrap();
        let extra = extra.as_str();
        c.nontrivial();
        for cap in [0, n, n / 2, n + 7] {
            let mut o = if cap == 0 { Object::new() } else { Object::with_capacity(cap) };
            let mut m: M = Vec::new();
            for (k, key) in keys.iter().enumerate() { o.insert(key, val(k as u64)); m.push((key.clone(), k as u64)) }
            c.steps(n as u64);
            quick(&mut o, &m, &[extra, "zz"])?;
            if cap == n + 7 { continue }
            for k in (0..n).step_by(3) { o.insert(&keys[k], val(k as u64 + 5000)); m[k].1 = k as u64 + 5000 }
            for k in (1..n).step_by(3) { o[keys[k].as_str()] = val(k as u64 + 6000); m[k].1 = k as u64 + 6000 }
            quick(&mut o, &m, &[extra])?;
            let mut d = Object::with_capacity(cap);
            for k in keys.iter().rev().take(cap) { d.insert(k, val(0)) }
            d.clone_from(&o);
            quick(&mut d, &m, &[extra])?;
            for at in [0, n / 2, n.saturating_sub(1)] {
                if at >= m.len() { continue }
                let (k, v) = m.remove(at);
                match o.remove(&k) { Some(w) if is(&w, v) => {} w => return Err(format!("remove({}) gives {:?}", name(&k), w)) }
                quick(&mut o, &m, &[&k, extra])?;
                o.insert(&k, val(1));
                m.push((k, 1));
                quick(&mut o, &m, &[extra])?;
            }
            o.clear();
            if o.len() != 0 || o.iter().next().is_some() || keys.iter().any(|k| o.get(k).is_some()) { return Err("clear leaves something".into()) }
            m.clear();
            for (k, key) in keys.iter().rev().enumerate() { o.insert(key, val(k as u64)); m.push((key.clone(), k as u64)) }
            quick(&mut o, &m, &[extra])?;
            for key in keys { if d.get(key).is_none() { return Err(format!("{} is lost from the clone", name(key))) } }
            d.insert(extra, val(3));
            if o.get(extra).is_some() { return Err("an entry of the clone shows in the original".into()) }
        }
        Ok(())
    });
    // any value over any other in objects of any size
    let tiny = tiny();
    let vz = r.by(140usize, 400);
    r.sweep("any value over any", (tiny.len() * tiny.len() * vz) as u64, "objects of 1 to 140 (400) members in the 8 key families, all one of 25 tiny values: each of the 25 over the first, the last and one between, by insert, index and get_mut; all others stay", |c, i| {
        let i = i as usize;
        let (x, y, n) = (&tiny[i % tiny.len()], &tiny[i / tiny.len() % tiny.len()], i / tiny.len() / tiny.len() + 1);
        let keys = key_family((i % tiny.len() + n) % KEY_FAMILIES, n);
        c.nontrivial();
        let mut o = Object::new();
        for k in &keys { o.insert(k, build(x)) }
        let mut m: Vec<(String, RV)> = keys.iter().map(|k| (k.clone(), x.clone())).collect();
        for (step, p) in [n - 1, 0, n / 2, n / 3].into_iter().enumerate() {
            c.step();
            match (step + i + n) % 3 { 0 => o.insert(&keys[p], build(y)), 1 => o[keys[p].as_str()] = build(y), _ => *o.get_mut(&keys[p]).ok_or("get_mut finds nothing")? = build(y) }
            m[p].1 = y.clone();
            if o.len() != n || o.get(&keys[p]) != Some(&build(y)) { return Err(format!("{} members of {}: {} put over number {} gives {:?}", n, show(x), show(y), p, o.get(&keys[p]).map(|v| clip(&v.dump(), 80)))) }
        }
        // and back again, by insert
        for p in [0, n - 1] { o.insert(&keys[p], build(y)); o.insert(&keys[p], build(x)); m[p].1 = x.clone() }
        observe(&RV::Obj(m), &JsonValue::Object(o)).map_err(|e| format!("{} members of {}, {} over some: {}", n, show(x), show(y), e))
    });
    // any number of changes between two questions
    let mut between: Vec<usize> = vec![131072, 65537, 65536, 65535, 32769, 32768, 32767, 4096, 1024];
    between.extend((0..=r.by(520usize, 2100)).rev());
    let sets: [[&str; 4]; 3] = [["a", "b", "c", "z"], ["first key that is long enough for the heap", "b", "second key that is long enough for the heap", "no"], ["", "x", COLLIDE[0], COLLIDE[1]]];
    let (between, sets) = (&between, &sets);
    r.sweep("asked, changed, asked", (between.len() * 3 * 8 * 9) as u64, "0 to 520 (2100) and up to 131072 changes of each of 8 kinds without any question, between two questions of each of 9 kinds", |c, i| {
        let i = i as usize;
        let (set, ask, kind, n) = (&sets[i % 3], i / 3 % 9, i / 27 % 8, between[i / 216]);
        if n > 5000 && i % 3 == 1 { return Ok(()) }
        c.nontrivial();
        c.steps(n as u64);
        let mut o = Object::new();
        let mut m: Vec<(&str, usize)> = vec![];
        fn put<'a>(m: &mut Vec<(&'a str, usize)>, k: &'a str, v: usize) { match m.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = v, None => m.push((k, v)) } }
        for (v, k) in set[..3].iter().enumerate() { o.insert(k, (v + 1000).into()); put(&mut m, k, v + 1000) }
        let question = |o: &Object, m: &[(&str, usize)], ask: usize, when: &str| -> Res {
            let fresh = || { let mut f = Object::new(); for (k, v) in m.iter().rev() { f.insert(k, (*v).into()) } f };
            let ok = match ask {
                0..=3 => { let w = m.iter().find(|e| e.0 == set[ask]); o.get(set[ask]).map(|v| v.as_usize()) == w.map(|e| Some(e.1)) && o[set[ask]].as_usize() == w.map(|e| e.1) }
                4 => o.iter().map(|(k, v)| (k, v.as_usize().unwrap_or(7))).eq(m.iter().cloned()),
                5 => *o == fresh() && fresh() == *o,
                6 => o.dump() == format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", json::stringify(*k), v)).collect::<Vec<_>>().join(",")),
                7 => o.clone().iter().map(|(k, v)| (k, v.as_usize().unwrap_or(7))).eq(m.iter().cloned()),
                _ => o.len() == m.len() && o.is_empty() == m.is_empty(),
            };
            if ok { Ok(()) } else { Err(format!("{} (question {}, {} changes of kind {}): {} for {:?}", when, ask, n, kind, clip(&o.dump(), 200), m)) }
        };
        question(&o, &m, ask, "before")?;
        for s in 0..n {
            match kind {
                0 => { o.insert(set[0], s.into()); put(&mut m, set[0], s) }
                1 => if s % 2 == 0 { o.remove(set[1]); m.retain(|e| e.0 != set[1]) } else { o.insert(set[1], s.into()); put(&mut m, set[1], s) },
                2 => { let k = m[0].0; o.remove(k); m.remove(0); o.insert(k, s.into()); m.push((k, s)) }
                3 => match s % 4 { 0 => { o.clear(); m.clear() } t => { let k = set[[0, 2, 0, 1][t]]; o.insert(k, s.into()); put(&mut m, k, s) } },
                4 => { for (_, v) in o.iter_mut() { *v = s.into() } for e in m.iter_mut() { e.1 = s } }
                5 => { let k = set[s % 3]; *o.get_mut(k).ok_or("get_mut finds nothing")? = s.into(); put(&mut m, k, s) }
                6 => { let k = set[s % 3]; o[k] = s.into(); put(&mut m, k, s) }
                _ => { let k = m[0].0; o.remove(k); m.remove(0); let k = set[s % 4]; o.insert(k, s.into()); put(&mut m, k, s); if m.is_empty() { o.insert("w", s.into()); put(&mut m, "w", s) } }
            }
        }
        question(&o, &m, ask, "first")?;
        for a in 0..9 { question(&o, &m, a, "then")? }
        Ok(())
    });
    r.sweep("emptying", 8 * 93, "objects of every size to 90 and of 257, 513, 1025 entries x 8 key families emptied from the front, the back, the middle out and by key order", |c, i| {
        let (f, n) = (i as usize % 8, i as usize / 8);
        let n = if n < 90 { n } else { [257, 513, 1025][n - 90] };
        if n > 90 && f > 3 { return Ok(()) }
        let keys = key_family(f, n);
        c.nontrivial();
        for way in 0..4 {
            let mut o = Object::new();
            let mut m: M = Vec::new();
            for (k, key) in keys.iter().enumerate() { o.insert(key, val(k as u64)); m.push((key.clone(), k as u64)) }
            while !m.is_empty() {
                let at = match way { 0 => 0, 1 => m.len() - 1, 2 => m.len() / 2, _ => (0..m.len()).min_by_key(|i| &m[*i].0).unwrap() };
                let (k, v) = m.remove(at);
                match o.remove(&k) { Some(w) if is(&w, v) => {} w => return Err(format!("remove({}) gives {:?}", name(&k), w)) }
                c.step();
                if n <= 90 || m.len() % 64 < 3 { check(&o, &m, &[&k])? }
            }
        }
        Ok(())
    });
    let mut lens: Vec<usize> = (0..r.by(700, 3000)).collect();
    lens.extend([4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]);
    r.sweep("key lengths", lens.len() as u64, "keys of every length to 700 (3000) and to 2^20, with neighbours that differ in one byte, in length, or are prefixes: each found, none confused, through growth, clone and removal", |c, i| {
        let n = lens[i as usize];
        let a = ascii_of_len(n);
        c.nontrivial();
        let mut ks: Vec<String> = vec![a.clone(), format!("{}x", a), text_of_len(n + 2)];
        let places: Vec<usize> = if n <= 80 { (0..n).collect() } else { vec![0, 1, 7, 15, 16, 29, 30, 31, 32, 33, n / 2, n - 2, n - 1] };
        for p in places { let mut b = a.clone().into_bytes(); b[p] = b'#'; ks.push(String::from_utf8(b).unwrap()) }
        let (mut o, mut m): (Object, M) = (Object::new(), vec![]);
        for (k, key) in ks.iter().enumerate() {
            for other in &ks[k..] { if o.get(other).is_some() { return Err(format!("{} found before it was inserted", name(other))) } }
            o.insert(key, val(k as u64));
            set(&mut m, key, k as u64);
            c.step();
        }
        full(&mut o, &m, &["#"])?;
        let d = o.clone();
        check(&d, &m, &["#"])?;
        let mut md = m.clone();
        for key in &ks[..ks.len().min(4)] {
            let h = match md.iter().position(|e| e.0 == *key) { Some(h) => h, None => continue };
            md.remove(h);
            if o.remove(key).is_none() { return Err(format!("{} is not removed", name(key))) }
            check(&o, &md, &[key])?;
        }
        check(&d, &m, &["#"])
    });
    let big = [500usize, 1000, 1023, 1024, 1025, 3000, 10_000, 65_535, 65_536, 65_537, 100_000, 300_000];
    let nb = r.by(11, 12);
    r.sweep("large", 4 * nb, "objects of 500 to 100000 (300000) entries of 4 key families: contents, lookups, one removal, a clone", |c, i| {
        let (f, n) = ([0, 3, 4, 6][i as usize % 4], big[i as usize / 4]);
        if f == 6 && n > 3000 { return Ok(()) }
        if f == 4 && n > 10_000 { return Ok(()) }
        c.nontrivial();
        let keys = key_family(f, n);
        let mut o = Object::new();
        let mut m: M = Vec::new();
        for (k, key) in keys.iter().enumerate() { o.insert(key, val(k as u64)); m.push((key.clone(), k as u64)) }
        c.steps(n as u64);
        full(&mut o, &m, &["none"])?;
        let (k, v) = m.remove(n / 3);
        match o.remove(&k) { Some(w) if is(&w, v) => {} w => return Err(format!("remove({}) gives {:?}", name(&k), w)) }
        full(&mut o, &m, &[&k])?;
        let mut d = o.clone();
        drop(o);
        full(&mut d, &m, &[&k])
    });
    let t3 = TIDES.len() * TIDES.len() * TIDES.len();
    r.sweep("tides", (t3 * 2) as u64, "objects of 2 key families that grow and shrink to every three of the sizes 0, 1, 20, 70, 300, 1100 in turn, by removal from the front, the back and the middle: contents at each of them", |c, i| {
        let (f, i) = ([1, 3][i as usize % 2], i as usize / 2);
        let keys = key_family(f, 5000);
        let (mut o, mut m): (Object, M) = (Object::new(), vec![]);
        let mut at = 0;
        c.nontrivial();
        for t in [TIDES[i / 36], TIDES[i / 6 % 6], TIDES[i % 6], 3] {
            c.step();
            while m.len() < t { let k = &keys[at % 5000]; o.insert(k, val(at as u64)); m.push((k.clone(), at as u64)); at += 1 }
            while m.len() > t {
                let h = match m.len() % 3 { 0 => 0, 1 => m.len() - 1, _ => m.len() / 2 };
                let (k, v) = m.remove(h);
                match o.remove(&k) { Some(w) if is(&w, v) => {} w => return Err(format!("remove({}) gives {:?} with {} entries left", name(&k), w, m.len())) }
                if o.get(&k).is_some() { return Err(format!("{} is still there", name(&k))) }
            }
            full(&mut o, &m, &["none"])?;
        }
        let mut d = Object::with_capacity(i % 40);
        d.clone_from(&o);
        o.clear();
        full(&mut d, &m, &["none"])
    });
    // sorted by hash: the tree is a list
    r.sweep("lists", 3 * 8, "objects whose keys come in ascending, descending or equal order of hashes, to 4000 entries", |c, i| {
        let (f, n) = ([1, 2, 5][i as usize % 3], [100usize, 256, 500, 511, 512, 513, 1200, 4000][i as usize / 3]);
        let n = if f == 5 { n.min(1200) } else { n };
        c.nontrivial();
        let keys = key_family(f, n);
        let mut o = Object::new();
        let mut m: M = Vec::new();
        for (k, key) in keys.iter().enumerate() { o.insert(key, val(k as u64)); m.push((key.clone(), k as u64)) }
        c.steps(n as u64);
        full(&mut o, &m, &["none"])?;
        let (k, _) = m.remove(n / 2);
        o.remove(&k);
        check(&o, &m, &[&k])
    });
    r.finish()
}

fn quick(o: &mut Object, m: &M, absent: &[&str]) -> Res {
    check(o, m, absent)?;
    for k in near(m) { if o.get(&k).is_some() || o.get_mut(&k).is_some() { return Err(format!("{} is found but absent", name(&k))) } }
    Ok(())
}
