//! C19: iteration visits every element once, in order, from both ends.
use json::object::{Iter, IterMut, Object};
use json::JsonValue;
use mc::gen::*;
use mc::model::value::*;
use mc::model::*;
use mc::*;
use std::collections::VecDeque;

mc::fast_alloc!();

/// What an iterator yields, in comparable form.
trait Item { fn id(&self) -> (Option<String>, RV); fn set(self, n: u64); }
impl<'a> Item for (&'a str, &'a JsonValue) { fn id(&self) -> (Option<String>, RV) { (Some(self.0.to_string()), view(self.1)) } fn set(self, _: u64) {} }
impl<'a> Item for (&'a str, &'a mut JsonValue) { fn id(&self) -> (Option<String>, RV) { (Some(self.0.to_string()), view(self.1)) } fn set(self, n: u64) { *self.1 = JsonValue::from(n) } }
impl<'a> Item for &'a JsonValue { fn id(&self) -> (Option<String>, RV) { (None, view(self)) } fn set(self, _: u64) {} }
impl<'a> Item for &'a mut JsonValue { fn id(&self) -> (Option<String>, RV) { (None, view(self)) } fn set(self, n: u64) { *self = JsonValue::from(n) } }

type Id = (Option<String>, RV);

fn eq(what: &str, got: Option<Id>, want: Option<Id>) -> Res {
    if got == want { Ok(()) } else { Err(format!("{} gives {:?}, expected {:?}", what, got, want)) }
}

/// Drive the iterator by the choices; `m` is what it has left. Returns which
/// elements were changed to what.
fn drive<T: Item, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(c: &mut Ctl, mut it: I, all: &[Id], ops: usize, keep: bool) -> Result<Vec<(usize, u64)>, String> {
    let mut m: VecDeque<usize> = (0..all.len()).collect();
    let mut changed = Vec::new();
    let mut held = Vec::new();
    let steps = all.len() + 2;
    let at = |i: Option<usize>| i.map(|i| all[i].clone());
    for s in 0..steps {
        if it.len() != m.len() || it.size_hint() != (m.len(), Some(m.len())) { return Err(format!("len() {}, size_hint() {:?} with {} left", it.len(), it.size_hint(), m.len())) }
        let k = c.choose(ops);
        c.step();
        let (what, got, want) = match k {
            0 => ("next", it.next(), m.pop_front()),
            1 => ("next_back", it.next_back(), m.pop_back()),
            2 => ("nth(1)", it.nth(1), { m.pop_front(); m.pop_front() }),
            3 => ("nth_back(1)", it.nth_back(1), { m.pop_back(); m.pop_back() }),
            4 => ("nth(2)", it.nth(2), { m.pop_front(); m.pop_front(); m.pop_front() }),
            5 => ("by_ref().last", { let n = it.len(); if n == 0 { it.next() } else { it.nth(n - 1) } }, { let l = m.pop_back(); m.clear(); l }),
            _ => {
                // everything at once
                let ids: Vec<Id> = match k {
                    6 => it.map(|x| x.id()).collect(),
                    7 => { let mut v: Vec<Id> = it.rev().map(|x| x.id()).collect(); v.reverse(); v }
                    8 => it.fold(vec![], |mut a, x| { a.push(x.id()); a }),
                    9 => { let mut v = it.rfold(vec![], |mut a, x| { a.push(x.id()); a }); v.reverse(); v }
                    10 => { let n = it.count(); if n != m.len() { return Err(format!("count() {} with {} left", n, m.len())) } break }
                    11 => { eq("last", it.last().map(|x| x.id()), at(m.back().copied()))?; break }
                    12 => { let mut v = vec![]; for x in it { v.push(x.id()) } v }
                    13 => {
                        // two steps at a time
                        let want: Vec<Id> = m.iter().step_by(2).map(|i| all[*i].clone()).collect();
                        let got: Vec<Id> = it.step_by(2).map(|x| x.id()).collect();
                        if got != want { return Err(format!("step_by(2) gives {:?}, expected {:?}", got, want)) }
                        break;
                    }
                    14 => {
                        let want: Vec<Id> = m.iter().skip(1).map(|i| all[*i].clone()).collect();
                        let got: Vec<Id> = it.skip(1).map(|x| x.id()).collect();
                        if got != want { return Err(format!("skip(1) gives {:?}, expected {:?}", got, want)) }
                        break;
                    }
                    _ => {
                        let want: Vec<(usize, Id)> = m.iter().enumerate().map(|(p, i)| (p, all[*i].clone())).rev().collect();
                        let got: Vec<(usize, Id)> = it.enumerate().rev().map(|(p, x)| (p, x.id())).collect();
                        if got != want { return Err(format!("enumerate().rev() gives {:?}, expected {:?}", got, want)) }
                        break;
                    }
                };
                let want: Vec<Id> = m.iter().map(|i| all[*i].clone()).collect();
                if ids != want { return Err(format!("the rest is {:?}, expected {:?}", ids, want)) }
                break;
            }
        };
        c.log(|| what.to_string());
        eq(what, got.as_ref().map(|x| x.id()), at(want))?;
        if let (Some(x), Some(i)) = (got, want) {
            let n = 1000 + s as u64;
            changed.push((i, n));
            if keep { held.push((x, n)) } else { x.set(n) }
        }
    }
    // items stay usable while others are fetched
    for (x, n) in held { x.set(n) }
    Ok(changed)
}

fn value(i: usize) -> RV {
    match i % 5 { 0 => RV::i(i as i64), 1 => RV::s(&format!("s{}", i)), 2 => RV::Str(text_of_len(31 + i % 1000)), 3 => RV::Arr(vec![RV::i(i as i64)]), _ => RV::Null }
}
fn key(i: usize) -> String { match i % 4 { _ if i > 1000 => format!("{}k{}", ["", "a"][i % 2], i), 0 => format!("k{}", i), 1 => format!("{}{}", COLLIDE[i / 4 % 2], "\0".repeat(i / 8)), 2 => ascii_of_len(30 + i), _ => format!("\u{e9}{}", i) } }

/// Containers of `n` entries that came about in different ways.
fn container(obj: bool, n: usize, how: usize) -> (JsonValue, RV) {
    if obj {
        let m: Vec<(String, RV)> = (0..n).map(|i| (key(i), value(i))).collect();
        let v = match how {
            0..=4 => build_as(&RV::Obj(m.clone()), STYLES[how]),
            5 => build(&RV::Obj(m.clone())).clone(),
            6 => json::parse(&build(&RV::Obj(m.clone())).dump()).unwrap(),
            _ => {
                let mut o = Object::with_capacity(2 * n);
                for i in 0..n { o.insert(&format!("junk{}", i), JsonValue::Null); o.insert(&key(i), build(&value(i))) }
                for i in (0..n).rev() { o.remove(&format!("junk{}", i)); }
                JsonValue::Object(o)
            }
        };
        (v, RV::Obj(m))
    } else {
        let m: Vec<RV> = (0..n).map(value).collect();
        let v = match how {
            0..=4 => build_as(&RV::Arr(m.clone()), STYLES[how]),
            5 => build(&RV::Arr(m.clone())).clone(),
            6 => json::parse(&build(&RV::Arr(m.clone())).dump()).unwrap(),
            _ => {
                let mut a = JsonValue::new_array();
                for x in &m { a.push("junk").unwrap(); a.push(build(x)).unwrap() }
                for i in 0..n { a.array_remove(i); }
                a.push(1).unwrap();
                a.pop();
                a
            }
        };
        (v, RV::Arr(m))
    }
}

fn ids(m: &RV) -> Vec<Id> {
    match m {
        RV::Obj(o) => o.iter().map(|(k, v)| (Some(k.clone()), v.clone())).collect(),
        RV::Arr(a) => a.iter().map(|v| (None, v.clone())).collect(),
        _ => vec![],
    }
}

/// route 0: shared, 1: mutable, 2: mutable with the items kept; objects also
/// 3, 4, 5: the same on the object itself.
fn one(c: &mut Ctl, v: &mut JsonValue, m: &mut RV, route: usize, ops: usize) -> Res {
    let all = ids(m);
    let obj = matches!(m, RV::Obj(_));
    let keep = route % 3 == 2;
    let changed = if obj {
        match route {
            0 => drive(c, v.entries(), &all, ops, keep)?,
            1 | 2 => drive(c, v.entries_mut(), &all, ops, keep)?,
            _ => match v {
                JsonValue::Object(o) => if route == 3 { drive(c, o.iter(), &all, ops, keep)? } else { drive(c, o.iter_mut(), &all, ops, keep)? },
                _ => return Err("no object".into()),
            },
        }
    } else {
        match route { 0 => drive(c, v.members(), &all, ops, keep)?, _ => drive(c, v.members_mut(), &all, ops, keep)? }
    };
    if route % 3 != 0 {
        for (i, n) in changed {
            match m { RV::Obj(o) => o[i].1 = RV::i(n as i64), RV::Arr(a) => a[i] = RV::i(n as i64), _ => {} }
        }
    }
    observe(m, v)
}

/// Step through, each time at the end `pick` says, and number what is visited.
fn go<T: Item, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, all: &[Id], pick: &dyn Fn(usize) -> bool) -> Res {
    let (mut a, mut b, mut s) = (0, all.len(), 0);
    loop {
        if it.len() != b - a || it.size_hint() != (b - a, Some(b - a)) { return Err(format!("len() {} with {} left", it.len(), b - a)) }
        let f = pick(s);
        let got = if f { it.next() } else { it.next_back() };
        let want = if a == b { None } else if f { a += 1; Some(a - 1) } else { b -= 1; Some(b) };
        match (got, want) {
            (None, None) => break,
            (Some(x), Some(w)) if x.id() == all[w] => x.set(s as u64),
            (x, w) => return Err(format!("step {} of {}: {:?} instead of {:?}", s, all.len(), x.map(|x| x.id()), w.map(|w| &all[w]))),
        }
        s += 1;
    }
    if it.next().is_some() || it.next_back().is_some() || it.len() != 0 { return Err("more after the end".into()) }
    Ok(())
}

/// A few steps from either end, then what is left consumed in one of the ways
/// an iterator may do specially.
const WAYS: usize = 24;
fn consume<T: Item, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(mut it: I, all: &[Id], a: usize, b: usize, way: usize) -> Res {
    for _ in 0..a { it.next(); }
    for _ in 0..b { it.next_back(); }
    let lo = a.min(all.len());
    let left = &all[lo..all.len().saturating_sub(b).max(lo)];
    let n = left.len();
    let mut got: Vec<Id> = vec![];
    let mut rev = false;
    let bad = |what: &str, g: String| Err(format!("after {} and {} of {} entries, {} gives {}", a, b, all.len(), what, clip(&g, 200)));
    match way {
        0 => it.for_each(|x| got.push(x.id())),
        1 => { got = it.fold(vec![], |mut v, x| { v.push(x.id()); v }) }
        2 => { rev = true; got = it.rfold(vec![], |mut v, x| { v.push(x.id()); v }) }
        3 => got = it.map(|x| x.id()).collect(),
        4 => { rev = true; it.rev().for_each(|x| got.push(x.id())) }
        5 => { let c = it.count(); return if c == n { Ok(()) } else { bad("count()", c.to_string()) } }
        6 => { let l = it.last().map(|x| x.id()); return if l.as_ref() == left.last() { Ok(()) } else { bad("last()", format!("{:?}", l)) } }
        7 | 8 | 9 => {
            let k = [n / 2, n.saturating_sub(1), n][way - 7];
            let l = it.nth(k).map(|x| x.id());
            if l.as_ref() != left.get(k) { return bad("nth()", format!("{:?} for {}", l, k)) }
            let rest = n.saturating_sub(k + 1);
            if it.len() != rest { return bad("nth()", format!("{} left of {}", it.len(), rest)) }
            let l = it.next().map(|x| x.id());
            return if l.as_ref() == left.get(k + 1) { Ok(()) } else { bad("next() after nth()", format!("{:?} for {}", l, k)) };
        }
        10 | 11 | 12 => {
            let k = [n / 2, n.saturating_sub(1), n][way - 10];
            let l = it.nth_back(k).map(|x| x.id());
            if l.as_ref() != left.iter().rev().nth(k) { return bad("nth_back()", format!("{:?} for {}", l, k)) }
            let rest = n.saturating_sub(k + 1);
            if it.len() != rest { return bad("nth_back()", format!("{} left of {}", it.len(), rest)) }
            let l = it.next_back().map(|x| x.id());
            return if l.as_ref() == left.iter().rev().nth(k + 1) { Ok(()) } else { bad("next_back() after nth_back()", format!("{:?} for {}", l, k)) };
        }
        13 => { let mut k = 0; let l = it.find(|_| { k += 1; k == n }).map(|x| x.id()); return if l.as_ref() == left.last() && k == n && it.len() == 0 { Ok(()) } else { bad("find()", format!("{:?}", l)) } }
        14 => { let mut k = 0; let l = it.position(|_| { k += 1; k == n }); return if l == n.checked_sub(1) { Ok(()) } else { bad("position()", format!("{:?}", l)) } }
        15 => { let mut k = 0; let l = it.rposition(|_| { k += 1; k == n }); return if l == (if n > 0 { Some(0) } else { None }) { Ok(()) } else { bad("rposition()", format!("{:?}", l)) } }
        16 => { if !it.all(|x| { got.push(x.id()); true }) { return bad("all()", "false".into()) } }
        17 => { if it.any(|x| { got.push(x.id()); false }) { return bad("any()", "true".into()) } }
        18 => { let mut k = 0; let (x, y): (Vec<Id>, Vec<Id>) = it.map(|x| x.id()).partition(|_| { k += 1; k <= n / 2 }); got = x; got.extend(y) }
        19 => { rev = true; let l = it.rfind(|x| { got.push(x.id()); false }); if l.is_some() { return bad("rfind()", "something".into()) } }
        20 => { let mut p = it.peekable(); if p.peek().map(|x| x.id()).as_ref() != left.first() { return bad("peek()", "another".into()) } got = p.map(|x| x.id()).collect() }
        21 => { got = it.zip(0..).map(|(x, _)| x.id()).collect() }
        22 => { let r = it.try_fold(0, |k, x| { got.push(x.id()); if k + 1 < n { Some(k + 1) } else { None } }); if r.is_some() != (n == 0) || it.len() != 0 { return bad("try_fold()", format!("{:?}", r)) } }
        _ => { let mut t: Vec<Id> = it.by_ref().take(n / 2).map(|x| x.id()).collect(); got.append(&mut t); got.extend(it.chain(None).map(|x| x.id())) }
    }
    if rev { got.reverse() }
    if got.len() != n || got != left { return bad(["for_each", "fold", "rfold", "collect", "rev", "", "", "", "", "", "", "", "", "", "", "", "all", "any", "partition", "rfind", "peekable", "zip", "try_fold", "take and chain"][way], format!("{} entries for {}", got.len(), n)) }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C19");
    let n1 = r.by(12, 15);
    r.dfs("both ends", 0, "objects and arrays of up to 11 (14) entries x 9 iterators: every interleaving of steps from both ends, 2 steps beyond the end", |c| {
        let n = c.choose(n1);
        let obj = c.flag();
        let route = c.choose(if obj { 6 } else { 3 });
        let (mut v, mut m) = container(obj, n, 0);
        c.nontrivial();
        c.log(|| format!("{} of {} entries, route {}", if obj { "object" } else { "array" }, n, route));
        one(c, &mut v, &mut m, route, 2)?;
        c.visit_bytes(v.dump().as_bytes());
        Ok(())
    });
    let n2 = r.by(5, 6);
    r.dfs("all steps", 0, "up to 4 (5) entries x 9 iterators: every sequence of next, next_back, nth, nth_back, jumping to the end, and 10 ways to consume the rest", |c| {
        let n = c.choose(n2);
        let obj = c.flag();
        let route = c.choose(if obj { 6 } else { 3 });
        let (mut v, mut m) = container(obj, n, 5);
        c.nontrivial();
        c.log(|| format!("{} of {} entries, route {}", if obj { "object" } else { "array" }, n, route));
        one(c, &mut v, &mut m, route, 16)
    });
    let n3 = r.by(5, 7);
    r.dfs("origins", 0, "up to 4 (6) entries x 8 ways to come about x 9 iterators: every interleaving, then a second pass over the changed values", |c| {
        let n = c.choose(n3);
        let obj = c.flag();
        let route = c.choose(if obj { 6 } else { 3 });
        let how = c.choose(8);
        let (mut v, mut m) = container(obj, n, how);
        c.nontrivial();
        one(c, &mut v, &mut m, route, 2)?;
        let all = ids(&m);
        let got: Vec<Id> = if obj { v.entries().map(|x| x.id()).collect() } else { v.members().map(|x| x.id()).collect() };
        if got != all { return Err(format!("second pass gives {:?}, expected {:?}", got, all)) }
        Ok(())
    });
    // sizes, with fixed patterns of ends
    let patterns = |c: &mut Ctl, n: usize, obj: bool, how: usize| {
        let (mut v, mut m) = container(obj, n, how);
        c.nontrivial();
        for pat in 0..8usize {
            let all = ids(&m);
            let pick = |s: usize| match pat { 0 => true, 1 => false, 2 => s % 2 == 0, 3 => s % 3 == 0, 4 => s < n / 2, 5 => s >= n / 2, 6 => s % 7 < 3, _ => s * s % 5 < 2 };
            c.steps(n as u64);
            if obj { go(v.entries(), &all, &pick)? } else { go(v.members(), &all, &pick)? }
            if obj { go(v.entries_mut(), &all, &pick)? } else { go(v.members_mut(), &all, &pick)? }
            // what the mutable pass wrote
            let (mut a, mut b) = (0, n);
            for s in 0..n {
                let w = if pick(s) { a += 1; a - 1 } else { b -= 1; b };
                match &mut m { RV::Obj(o) => o[w].1 = RV::i(s as i64), RV::Arr(x) => x[w] = RV::i(s as i64), _ => {} }
            }
            observe(&m, &v)?;
        }
        Ok(())
    };
    let sz = r.by(300u64, 900);
    r.sweep("sizes", sz * 2 * 8, "every size to 300 (900) x 8 ways to come about x patterns of front and back steps", |c, i| {
        let (n, obj, how) = ((i / 16) as usize, i % 2 == 1, (i / 2 % 8) as usize);
        if n > 150 && how > 0 && n % 16 > 1 { return Ok(()) }
        patterns(c, n, obj, how)
    });
    let consumed = |c: &mut Ctl, n: usize, obj: bool, how: usize, pres: &[(usize, usize)]| -> Res {
        let (mut v, m) = container(obj, n, how);
        let all = ids(&m);
        c.nontrivial();
        for (a, b) in pres {
            for way in 0..WAYS {
                c.step();
                let (a, b) = (*a, *b);
                if !obj { consume(v.members(), &all, a, b, way)?; consume(v.members_mut(), &all, a, b, way)?; continue }
                consume(v.entries(), &all, a, b, way)?;
                consume(v.entries_mut(), &all, a, b, way)?;
                if let JsonValue::Object(o) = &mut v { consume(o.iter(), &all, a, b, way)?; consume(o.iter_mut(), &all, a, b, way)? }
            }
        }
        Ok(())
    };
    let sc = r.by(270u64, 1100);
    r.sweep("consumed", sc * 2, "every size below 270 (1100) x 0 to 3 steps from either end x 24 ways to consume the rest (for_each, fold, rfold, nth, nth_back, last, count, find, ...) x every iterator", |c, i| {
        let pres: Vec<(usize, usize)> = (0..16).map(|p| (p / 4, p % 4)).filter(|p| i / 2 < 20 || p.0 * p.1 == 0 && p.0 + p.1 < 2 || *p == (2, 3)).collect();
        consumed(c, i as usize / 2, i % 2 == 1, 5, &pres)
    });
    let big = mc::gen::large();
    r.sweep("large, consumed", big.len() as u64 * 2, "sizes next to powers of two to 131072 and 200000, 0 or 1 steps from either end, 24 ways to consume the rest", |c, i| {
        let n = big[i as usize / 2];
        consumed(c, n, i % 2 == 1, 0, if n > 5000 { &[(0, 0)] } else { &[(0, 0), (1, 0), (0, 1)] })
    });
    r.sweep("large", big.len() as u64 * 6, "sizes next to powers of two to 131072 and 200000 x 3 ways to come about x patterns of front and back steps", |c, i| {
        patterns(c, big[i as usize / 6], i % 2 == 1, [0, 5, 6][i as usize / 2 % 3])
    });
    // nothing else yields anything
    let lv = leaves();
    r.dfs("non-containers", 0, "every leaf variant, entries of arrays, members of objects and the empty iterators: nothing, from either end, and nothing changes", |c| {
        let k = c.choose(lv.len() + 5);
        let (v, m) = if k < lv.len() { (build(&lv[k]), lv[k].clone()) } else { match k - lv.len() {
            0 => container(true, 3, 0), 1 => container(false, 3, 0), 2 => container(true, 0, 0), 3 => container(false, 0, 0), _ => (JsonValue::Number(json::number::NAN), RV::Nan) } };
        let mut v = v;
        c.nontrivial();
        fn none<T, I: DoubleEndedIterator<Item = T> + ExactSizeIterator>(what: &str, mut it: I) -> Res {
            for _ in 0..2 {
                if it.len() != 0 || it.size_hint() != (0, Some(0)) || it.next().is_some() || it.next_back().is_some() { return Err(format!("{} yields something", what)) }
            }
            if it.count() != 0 { return Err(format!("{} counts something", what)) }
            Ok(())
        }
        if !matches!(&v, JsonValue::Array(a) if !a.is_empty()) { none("members", v.members())?; none("members_mut", v.members_mut())? }
        if !matches!(&v, JsonValue::Object(a) if !a.is_empty()) { none("entries", v.entries())?; none("entries_mut", v.entries_mut())? }
        none("Iter::empty", Iter::empty())?;
        none("IterMut::empty", IterMut::empty())?;
        c.steps(6);
        observe(&m, &v)
    });
    // swapping and taking through the iterator
    r.dfs("moves", 0, "objects and arrays of 4 entries: every pair swapped, and every subset taken, through mutable iteration", |c| {
        let obj = c.flag();
        let (mut v, mut m) = container(obj, 4, 7);
        let (a, b, mask) = (c.choose(4), c.choose(4), c.choose(16));
        c.nontrivial();
        {
            let mut refs: Vec<&mut JsonValue> = if obj { v.entries_mut().map(|e| e.1).collect() } else { v.members_mut().collect() };
            if refs.len() != 4 { return Err(format!("{} items", refs.len())) }
            if a < b { let (x, y) = refs.split_at_mut(b); std::mem::swap(&mut *x[a], &mut *y[0]) }
            for (i, x) in refs.iter_mut().enumerate() { if mask >> i & 1 == 1 { x.take(); } }
        }
        match &mut m {
            RV::Obj(o) => { if a < b { let t = o[a].1.clone(); o[a].1 = o[b].1.clone(); o[b].1 = t } for i in 0..4 { if mask >> i & 1 == 1 { o[i].1 = RV::Null } } }
            RV::Arr(x) => { if a < b { x.swap(a, b) } for i in 0..4 { if mask >> i & 1 == 1 { x[i] = RV::Null } } }
            _ => {}
        }
        observe(&m, &v)
    });
    r.finish()
}
