//! The documented behaviour of the dynamic value API, on the reference value.
use super::*;
use json::JsonValue;

#[derive(Clone, Debug)]
pub enum Op {
    Push(RV), Pop, Insert(String, RV), Remove(String), ArrayRemove(usize), Clear, Take, TakeString,
    /// assignment through an index; the number says how the key is spelled
    SetKey(String, RV, u8), SetIdx(usize, RV),
    Replace(RV),
}

/// What a call gives back.
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Unit, Val(RV), Ok, WrongType, OtherErr(String), Text(Option<String>) }

pub fn model(op: &Op, v: &mut RV) -> Out {
    match op {
        Op::Push(x) => match v { RV::Arr(a) => { a.push(x.clone()); Out::Ok } _ => Out::WrongType },
        Op::Pop => match v { RV::Arr(a) => Out::Val(a.pop().unwrap_or(RV::Null)), _ => Out::Val(RV::Null) },
        Op::Insert(k, x) => match v { RV::Obj(o) => { RV::set(o, k, x.clone()); Out::Ok } _ => Out::WrongType },
        Op::Remove(k) => match v {
            RV::Obj(o) => match o.iter().position(|e| e.0 == *k) { Some(i) => Out::Val(o.remove(i).1), None => Out::Val(RV::Null) },
            _ => Out::Val(RV::Null),
        },
        Op::ArrayRemove(i) => match v { RV::Arr(a) if *i < a.len() => Out::Val(a.remove(*i)), _ => Out::Val(RV::Null) },
        Op::Clear => { *v = match v { RV::Str(_) => RV::s(""), RV::Arr(_) => RV::Arr(vec![]), RV::Obj(_) => RV::Obj(vec![]), _ => RV::Null }; Out::Unit }
        Op::Take => Out::Val(std::mem::replace(v, RV::Null)),
        Op::TakeString => match v { RV::Str(s) => { let s = std::mem::take(s); *v = RV::Null; Out::Text(Some(s)) } _ => Out::Text(None) },
        Op::SetKey(k, x, _) => { if !matches!(v, RV::Obj(_)) { *v = RV::Obj(vec![]) } if let RV::Obj(o) = v { RV::set(o, k, x.clone()) } Out::Unit }
        Op::SetIdx(i, x) => {
            match v {
                RV::Arr(a) => if *i < a.len() { a[*i] = x.clone() } else { a.push(x.clone()) },
                _ => *v = RV::Arr(vec![x.clone()]),
            }
            Out::Unit
        }
        Op::Replace(x) => { *v = x.clone(); Out::Unit }
    }
}

fn res(r: json::Result<()>) -> Out {
    match r { Ok(()) => Out::Ok, Err(json::Error::WrongType(_)) => Out::WrongType, Err(e) => Out::OtherErr(format!("{:?}", e)) }
}

pub fn real(op: &Op, v: &mut JsonValue) -> Out {
    match op {
        Op::Push(x) => res(v.push(build(x))),
        Op::Pop => Out::Val(view(&v.pop())),
        Op::Insert(k, x) => res(v.insert(k, build(x))),
        Op::Remove(k) => Out::Val(view(&v.remove(k))),
        Op::ArrayRemove(i) => Out::Val(view(&v.array_remove(*i))),
        Op::Clear => { v.clear(); Out::Unit }
        Op::Take => Out::Val(view(&v.take())),
        Op::TakeString => Out::Text(v.take_string()),
        Op::SetKey(k, x, w) => { match w { 0 => v[k.as_str()] = build(x), 1 => v[k] = build(x), _ => v[k.clone()] = build(x) } Out::Unit }
        Op::SetIdx(i, x) => { v[*i] = build(x); Out::Unit }
        Op::Replace(x) => { *v = build(x); Out::Unit }
    }
}

/// Apply to both and compare the results; the contents are compared by the
/// caller. Turning a non-array into an array through an index beyond 0 may
/// leave a Null in front (the documentation says nothing about it).
pub fn apply(op: &Op, m: &mut RV, v: &mut JsonValue) -> Result<(), String> {
    let was_arr = matches!(m, RV::Arr(_));
    let before = show(m);
    let want = model(op, m);
    let got = real(op, v);
    if got != want { return Err(format!("{} on {} gives {}, expected {}", short(op), before, crate::engine::clip(&format!("{:?}", got), 200), crate::engine::clip(&format!("{:?}", want), 200))) }
    if let Op::SetIdx(i, x) = op {
        if !was_arr && *i > 0 {
            let got = view(v);
            let alt = RV::Arr(vec![RV::Null, x.clone()]);
            if got == alt { *m = alt }
        }
    }
    Ok(())
}

pub fn short(op: &Op) -> String { crate::engine::clip(&format!("{:?}", op), 120) }

/// Every query, judged by the model.
pub fn queries(m: &RV, v: &JsonValue, keys: &[&str], items: &[RV]) -> Result<(), String> {
    let bad = |what: &str, got: String| Err(format!("{} gives {} on {}", what, got, show(m)));
    let is = [matches!(m, RV::Null), matches!(m, RV::Bool(_)), matches!(m, RV::Num(_) | RV::Nan), matches!(m, RV::Str(_)), matches!(m, RV::Arr(_)), matches!(m, RV::Obj(_))];
    let got = [v.is_null(), v.is_boolean(), v.is_number(), v.is_string(), v.is_array(), v.is_object()];
    if is != got { return bad("is_null, is_boolean, is_number, is_string, is_array, is_object", format!("{:?}", got)) }
    let len = match m { RV::Arr(a) => a.len(), RV::Obj(o) => o.len(), _ => 0 };
    if v.len() != len { return bad("len", v.len().to_string()) }
    if v.members().count() != if is[4] { len } else { 0 } { return bad("members", v.members().count().to_string()) }
    if v.entries().count() != if is[5] { len } else { 0 } { return bad("entries", v.entries().count().to_string()) }
    let empty = match m { RV::Null => true, RV::Bool(b) => !b, RV::Num(n) => n.m == 0, RV::Str(s) => s.is_empty(), _ => len == 0 };
    if !matches!(m, RV::Nan) && v.is_empty() != empty { return bad("is_empty", v.is_empty().to_string()) }
    let s = match m { RV::Str(s) => Some(s.as_str()), _ => None };
    if v.as_str() != s { return bad("as_str", format!("{:?}", v.as_str())) }
    let b = match m { RV::Bool(b) => Some(*b), _ => None };
    if v.as_bool() != b { return bad("as_bool", format!("{:?}", v.as_bool())) }
    let n = match m { RV::Num(n) => Some(Some(*n)), RV::Nan => Some(None), _ => None };
    if v.as_number().map(|n| Num::of(&n)) != n { return bad("as_number", format!("{:?}", v.as_number())) }
    let num = n.is_some();
    if v.as_f64().is_some() != num || v.as_f32().is_some() != num { return bad("as_f64, as_f32", format!("{:?}, {:?}", v.as_f64(), v.as_f32())) }
    if !num {
        let ints = [v.as_u8().is_some(), v.as_u16().is_some(), v.as_u32().is_some(), v.as_u64().is_some(), v.as_usize().is_some(), v.as_i8().is_some(), v.as_i16().is_some(), v.as_i32().is_some(), v.as_i64().is_some(), v.as_isize().is_some(), v.as_fixed_point_u64(2).is_some(), v.as_fixed_point_i64(2).is_some()];
        if ints.iter().any(|x| *x) { return bad("an integer accessor", format!("something: {:?}", ints)) }
    }
    if let RV::Num(n) = m {
        let i = n.as_int();
        let want = |lo: i128, hi: i128| i.filter(|i| *i >= lo && *i <= hi && !(n.neg && lo == 0));
        // the exact decimal has an integer value but may be written with an exponent
        if n.e == 0 || i.is_none() {
            let got = [v.as_u8().map(|x| x as i128), v.as_u16().map(|x| x as i128), v.as_u32().map(|x| x as i128), v.as_u64().map(|x| x as i128), v.as_i8().map(|x| x as i128), v.as_i16().map(|x| x as i128), v.as_i32().map(|x| x as i128), v.as_i64().map(|x| x as i128)];
            let exp = [want(0, 255), want(0, 65535), want(0, u32::MAX as i128), want(0, u64::MAX as i128), want(-128, 127), want(-32768, 32767), want(i32::MIN as i128, i32::MAX as i128), want(i64::MIN as i128, i64::MAX as i128)];
            if n.m != 0 && got != exp { return bad("integer accessors", format!("{:?}, expected {:?},", got, exp)) }
        }
    }
    // keys and indices
    for k in keys {
        let want = match m { RV::Obj(o) => o.iter().find(|e| e.0 == *k).map(|e| &e.1), _ => None };
        if v.has_key(k) != want.is_some() { return bad(&format!("has_key({:?})", k), v.has_key(k).to_string()) }
        for (how, got) in [("&str", &v[*k]), ("&String", &v[&k.to_string()]), ("String", &v[k.to_string()])] {
            match want {
                Some(w) => agrees(w, &view(got)).map_err(|e| format!("[{:?}] ({}) of {}{}", k, how, show(m), e))?,
                None => if !got.is_null() { return bad(&format!("[{:?}] ({})", k, how), got.dump()) },
            }
        }
    }
    for i in (0..len.min(4) + 2).chain([len.saturating_sub(1), len, len + 1, usize::MAX]) {
        match m {
            RV::Arr(a) if i < a.len() => agrees(&a[i], &view(&v[i])).map_err(|e| format!("[{}] of {}{}", i, show(m), e))?,
            _ => if !v[i].is_null() { return bad(&format!("[{}]", i), v[i].dump()) },
        }
    }
    for x in items {
        let want = matches!(m, RV::Arr(a) if a.iter().any(|y| y.equals(x)));
        if v.contains(build(x)) != want { return bad(&format!("contains({})", show(x)), (!want).to_string()) }
        let typed = match x {
            RV::Str(s) => { let s = s.as_str(); v.contains(s) == want && v.contains(s.to_string()) == want }
            RV::Bool(b) => v.contains(*b) == want,
            RV::Num(n) => v.contains(n.number()) == want && match n.as_int() { Some(i) if n.e == 0 && i >= 0 && i < 100 && !n.neg => v.contains(i as u8) == want && v.contains(i as i64) == want && v.contains(i as f64) == want, _ => true },
            _ => true,
        };
        if !typed { return bad(&format!("contains of a bare {}", show(x)), (!want).to_string()) }
    }
    Ok(())
}
