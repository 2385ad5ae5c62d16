use super::dec::{Dec, Num};
use json::object::Object;
use json::JsonValue;

/// Reference value: JSON data, nothing else.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum RV {
    Null,
    Bool(bool),
    Nan,
    Num(Num),
    /// literal that is not exactly representable
    Big(Dec),
    Str(String),
    Arr(Vec<RV>),
    Obj(Vec<(String, RV)>),
}

impl RV {
    pub fn s(x: &str) -> RV { RV::Str(x.to_string()) }
    pub fn i(x: i64) -> RV { RV::Num(Num::int(x as i128)) }
    pub fn d(neg: bool, m: u64, e: i64) -> RV { RV::Num(Num::new(neg, m, e)) }
    pub fn set(o: &mut Vec<(String, RV)>, k: &str, v: RV) {
        if let Some(e) = o.iter_mut().find(|e| e.0 == k) { e.1 = v } else { o.push((k.to_string(), v)) }
    }
    pub fn depth(&self) -> usize {
        match self {
            RV::Arr(a) if !a.is_empty() => 1 + a.iter().map(|x| x.depth()).max().unwrap(),
            RV::Obj(a) if !a.is_empty() => 1 + a.iter().map(|x| x.1.depth()).max().unwrap(),
            _ => 0,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            RV::Arr(a) => 1 + a.iter().map(|x| x.nodes()).sum::<usize>(),
            RV::Obj(a) => 1 + a.iter().map(|x| x.1.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    /// Structural equality as the documentation of equality has it: order of
    /// members is irrelevant, -0 equals 0.
    pub fn equals(&self, o: &RV) -> bool {
        match (self, o) {
            (RV::Num(a), RV::Num(b)) => a.same_value(b),
            (RV::Arr(a), RV::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.equals(y)),
            (RV::Obj(a), RV::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(k2, v2)| k == k2 && v.equals(v2))),
            (a, b) => a == b,
        }
    }
}

/// Observe a value completely, through iteration and accessors.
pub fn view(v: &JsonValue) -> RV {
    match v {
        JsonValue::Null => RV::Null,
        JsonValue::Boolean(b) => RV::Bool(*b),
        JsonValue::Number(n) => Num::of(n).map(RV::Num).unwrap_or(RV::Nan),
        JsonValue::Short(s) => RV::Str(s.as_str().to_string()),
        JsonValue::String(s) => RV::Str(s.clone()),
        JsonValue::Array(a) => RV::Arr(a.iter().map(view).collect()),
        JsonValue::Object(o) => RV::Obj(o.iter().map(|(k, v)| (k.to_string(), view(v))).collect()),
    }
}

/// Ways of building the same data.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    /// from(&str), insert into a new object
    Plain,
    /// every string on the heap, objects with capacity
    Heap,
    /// FromIterator and From<Vec>
    Collect,
    /// IndexMut and push
    Index,
    /// junk inserted first and removed again, overwritten members
    Churn,
}
pub const STYLES: [Style; 5] = [Style::Plain, Style::Heap, Style::Collect, Style::Index, Style::Churn];

pub fn build(v: &RV) -> JsonValue { build_as(v, Style::Plain) }

pub fn build_as(v: &RV, st: Style) -> JsonValue {
    match v {
        RV::Null => JsonValue::Null,
        RV::Bool(b) => JsonValue::Boolean(*b),
        RV::Nan => JsonValue::Number(json::number::NAN),
        RV::Num(n) => JsonValue::Number(n.number()),
        RV::Big(_) => panic!("harness: cannot build a literal"),
        RV::Str(s) => match st {
            Style::Plain | Style::Index => JsonValue::from(s.as_str()),
            Style::Heap | Style::Churn => JsonValue::String(s.clone()),
            Style::Collect => JsonValue::from(Some(s.as_str())),
        },
        RV::Arr(a) => match st {
            Style::Plain | Style::Heap => JsonValue::Array(a.iter().map(|x| build_as(x, st)).collect()),
            Style::Collect => JsonValue::from(a.iter().map(|x| build_as(x, st)).collect::<Vec<JsonValue>>()),
            Style::Index => {
                let mut j = JsonValue::new_array();
                for (i, x) in a.iter().enumerate() { j[i] = build_as(x, st) }
                j
            }
            Style::Churn => {
                let mut j = JsonValue::new_array();
                j.push("junk").unwrap();
                for x in a { j.push(build_as(x, st)).unwrap() }
                j.array_remove(0);
                j
            }
        },
        RV::Obj(o) => match st {
            Style::Plain => {
                let mut x = Object::new();
                for (k, v) in o { x.insert(k, build_as(v, st)) }
                JsonValue::Object(x)
            }
            Style::Heap => {
                let mut x = Object::with_capacity(o.len() + 2);
                for (k, v) in o { x.insert(k, build_as(v, st)) }
                JsonValue::Object(x)
            }
            Style::Collect => JsonValue::Object(o.iter().map(|(k, v)| (k.as_str(), build_as(v, st))).collect()),
            Style::Index => {
                let mut j = JsonValue::new_object();
                for (k, v) in o { j[k.as_str()] = build_as(v, st) }
                j
            }
            Style::Churn => {
                let mut j = JsonValue::new_object();
                j.insert("junk junk junk", 1).unwrap();
                for (k, v) in o { j.insert(k, 0).unwrap(); j.insert(k, build_as(v, st)).unwrap() }
                if !o.iter().any(|(k, _)| k == "junk junk junk") { j.remove("junk junk junk"); }
                // if the key is wanted it is now first; put it in its place
                else {
                    let mut x = Object::new();
                    for (k, v) in o { x.insert(k, build_as(v, st)) }
                    return JsonValue::Object(x);
                }
                j
            }
        },
    }
}

/// Does the observed value agree with the expected one (literals within the
/// tolerance of C06)?
pub fn agrees(want: &RV, got: &RV) -> Result<(), String> {
    match (want, got) {
        (RV::Big(d), RV::Num(n)) => d.read_as(n),
        (RV::Arr(a), RV::Arr(b)) if a.len() == b.len() => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() { agrees(x, y).map_err(|e| format!("[{}]{}", i, e))? }
            Ok(())
        }
        (RV::Obj(a), RV::Obj(b)) if a.len() == b.len() => {
            for ((k, x), (l, y)) in a.iter().zip(b) {
                if k != l { return Err(format!(": key {:?}, expected {:?}", crate::engine::clip(l, 80), crate::engine::clip(k, 80))) }
                agrees(x, y).map_err(|e| format!(".{}{}", crate::engine::clip(k, 40), e))?
            }
            Ok(())
        }
        (a, b) if a == b => Ok(()),
        (a, b) => Err(format!(": got {}, expected {}", show(b), show(a))),
    }
}

pub fn show(v: &RV) -> String { crate::engine::clip(&format!("{:?}", v), 300) }

/// Compare a real value with the reference through every observation: by
/// iteration, by index and by lookup.
pub fn observe(want: &RV, v: &JsonValue) -> Result<(), String> {
    let got = view(v);
    agrees(want, &got)?;
    lookups(want, v)
}

/// Every member is found under its key and index (shared access only).
pub fn lookups(want: &RV, v: &JsonValue) -> Result<(), String> {
    match (want, v) {
        (RV::Obj(o), JsonValue::Object(x)) => {
            if v.len() != o.len() { return Err(format!("len() {} of {} members", v.len(), o.len())) }
            for (k, w) in o {
                match x.get(k) {
                    None => return Err(format!("lookup of present key {:?} failed ({} members)", crate::engine::clip(k, 60), o.len())),
                    Some(f) => {
                        agrees(w, &view(f)).map_err(|e| format!("lookup of {:?}{}", crate::engine::clip(k, 60), e))?;
                        lookups(w, f)?;
                        if !std::ptr::eq(f, &v[k.as_str()]) { return Err(format!("index and get differ for {:?}", k)) }
                    }
                }
            }
            Ok(())
        }
        (RV::Arr(a), JsonValue::Array(x)) => {
            if v.len() != a.len() { return Err(format!("len() {} of {} elements", v.len(), a.len())) }
            for (i, w) in a.iter().enumerate() {
                if !std::ptr::eq(&v[i], &x[i]) { return Err(format!("index {} gives another element", i)) }
                lookups(w, &x[i])?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
