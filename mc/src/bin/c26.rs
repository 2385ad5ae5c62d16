//! C26: conversions from standard types keep all data.
use json::number::Number;
use json::object::Object;
use json::JsonValue;
use mc::gen::*;
use mc::model::*;
use mc::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

mc::fast_alloc!();

/// Types whose values can be enumerated together with what they mean.
trait Gen: Sized + Into<JsonValue> + Clone {
    fn gen(c: &mut Ctl, b: &mut usize) -> (Self, RV);
}
macro_rules! leaf { ($t:ty, $c:ident, $($v:expr => $m:expr),*) => { impl Gen for $t { fn gen($c: &mut Ctl, _: &mut usize) -> ($t, RV) { let n = [$({ let _ = stringify!($v); }),*].len(); let mut k = $c.choose(n) as isize; $( if k == 0 { return ($v, $m) } k -= 1; )* let _ = k; unreachable!() } } } }
leaf!(i32, c, 0 => RV::i(0), -7 => RV::i(-7), i32::MIN => RV::i(i32::MIN as i64));
leaf!(u64, c, 5 => RV::i(5), u64::MAX => RV::d(false, u64::MAX, 0));
leaf!(bool, c, true => RV::Bool(true), false => RV::Bool(false));
leaf!(f64, c, 1.5 => RV::d(false, 15, -1), -2.0 => RV::i(-2));
leaf!(&'static str, c, "" => RV::s(""), "thirty-one bytes of plain text." => RV::s("thirty-one bytes of plain text."));
leaf!(String, c, "a\"".to_string() => RV::s("a\""), text_of_len(40) => RV::Str(text_of_len(40)));
leaf!(JsonValue, c, JsonValue::Null => RV::Null, json::array![1, null] => RV::Arr(vec![RV::i(1), RV::Null]), json::object!{ k: "v" } => RV::Obj(vec![("k".into(), RV::s("v"))]));
leaf!(Number, c, Number::from(3) => RV::i(3), Number::from_parts(false, 12, -3) => RV::d(true, 12, -3));
leaf!(Object, c, Object::new() => RV::Obj(vec![]), { let mut o = Object::new(); o.insert("x", 1.into()); o } => RV::Obj(vec![("x".into(), RV::i(1))]));

impl<T: Gen> Gen for Option<T> {
    fn gen(c: &mut Ctl, b: &mut usize) -> (Self, RV) {
        if c.flag() { let (v, m) = T::gen(c, b); (Some(v), m) } else { (None, RV::Null) }
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(c: &mut Ctl, b: &mut usize) -> (Self, RV) {
        let (mut v, mut m) = (Vec::new(), Vec::new());
        while *b > 0 && c.flag() { *b -= 1; let (x, y) = T::gen(c, b); v.push(x); m.push(y) }
        (v, RV::Arr(m))
    }
}
const KEYS: [&str; 3] = ["b", COLLIDE[0], COLLIDE[1]];
impl<T: Gen> Gen for HashMap<String, T> {
    fn gen(c: &mut Ctl, b: &mut usize) -> (Self, RV) {
        let (mut v, mut m) = (HashMap::new(), Vec::new());
        for k in KEYS { if *b > 0 && c.flag() { *b -= 1; let (x, y) = T::gen(c, b); v.insert(k.to_string(), x); m.push((k.to_string(), y)) } }
        (v, RV::Obj(m))
    }
}
impl<T: Gen> Gen for BTreeMap<&'static str, T> {
    fn gen(c: &mut Ctl, b: &mut usize) -> (Self, RV) {
        let (mut v, mut m) = (BTreeMap::new(), Vec::new());
        for k in KEYS { if *b > 0 && c.flag() { *b -= 1; let (x, y) = T::gen(c, b); v.insert(k, x); m.push((k.to_string(), y)) } }
        (v, RV::Obj(m))
    }
}

/// Same data; the order of members is not judged (maps have none).
fn equal(m: &RV, v: &JsonValue) -> Res {
    let got = view(v);
    fn shape(a: &RV, b: &RV) -> bool {
        match (a, b) {
            (RV::Arr(a), RV::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| shape(x, y)),
            (RV::Obj(a), RV::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.iter().filter(|e| e.0 == *k).count() == 1 && b.iter().any(|(l, y)| k == l && shape(x, y))),
            (RV::Num(a), RV::Num(b)) => a == b || a.same_value(b) && a.m != 0,
            (a, b) => a == b,
        }
    }
    if !shape(m, &got) { return Err(format!("gives {}, expected {}", show(&got), show(m))) }
    lookups(&got, v)
}

/// Everything a conversion gives; what is to be compared is not generic, to keep
/// the program small.
#[inline(never)]
fn routes<T: Into<JsonValue> + Clone>(c: &mut Ctl, x: &T, m: &RV) -> Res {
    let v: JsonValue = x.clone().into();
    let mut a = JsonValue::new_array();
    let mut o = JsonValue::new_object();
    let pushed = a.push(x.clone()).and(o.insert("k", x.clone()));
    let coll: Object = Some(("k", x.clone())).into_iter().collect();
    judge(c, m, pushed, [v, JsonValue::from(Some(x.clone())), json::from(x.clone()), a, o, JsonValue::Object(coll), json::array![x.clone()], JsonValue::from(vec![x.clone(), x.clone()]), JsonValue::from(std::slice::from_ref(x))],
        json::stringify(x.clone()), json::stringify_pretty(x.clone(), 2))
}

#[inline(never)]
fn judge(c: &mut Ctl, m: &RV, pushed: json::Result<()>, v: [JsonValue; 9], t: String, p: String) -> Res {
    c.steps(11);
    pushed.map_err(|e| e.to_string())?;
    let one = RV::Arr(vec![m.clone()]);
    let key = RV::Obj(vec![("k".into(), m.clone())]);
    let two = RV::Arr(vec![m.clone(), m.clone()]);
    for (i, (how, m)) in [("into", m), ("Some", m), ("json::from", m), ("push", &one), ("insert", &key), ("collect", &key), ("array!", &one), ("Vec", &two), ("slice", &one)].iter().enumerate() { equal(m, &v[i]).map_err(|e| format!("{} {}", how, e))? }
    for t in [t, p] {
        let back = json::parse(&t).map_err(|e| format!("stringify gives {}: {}", t, e))?;
        equal(m, &back).map_err(|e| format!("stringify {}", e))?;
    }
    Ok(())
}

fn typed<T: Gen>(c: &mut Ctl, budget: usize) -> Res {
    let mut b = budget;
    let (x, m) = T::gen(c, &mut b);
    note(c, std::any::type_name::<T>(), &m);
    routes(c, &x, &m).map_err(|e| format!("{} of {}: {}", std::any::type_name::<T>(), show(&m), e))
}
#[inline(never)]
fn note(c: &mut Ctl, t: &str, m: &RV) {
    c.nontrivial();
    c.log(|| format!("{}: {}", t, show(m)));
    c.visit_bytes(format!("{} {}", t, show(m)).as_bytes());
}

macro_rules! types {
    ($v:ident; ; $t:ty) => { $v.push((std::any::type_name::<$t>(), typed::<$t> as fn(&mut Ctl, usize) -> Res)); };
    ($v:ident; + $($d:tt)*) => { compile_error!("unused") };
}
fn table() -> Vec<(&'static str, fn(&mut Ctl, usize) -> Res)> {
    let mut v: Vec<(&'static str, fn(&mut Ctl, usize) -> Res)> = Vec::new();
    macro_rules! one { ($t:ty) => { types!(v; ; $t) } }
    macro_rules! wrap { ($m:ident, $t:ty) => { one!($t); $m!(Option<$t>); $m!(Vec<$t>); $m!(HashMap<String, $t>); $m!(BTreeMap<&'static str, $t>); } }
    macro_rules! w1 { ($t:ty) => { wrap!(one, $t) } }
    macro_rules! w2 { ($t:ty) => { wrap!(w1, $t) } }
    macro_rules! w3 { ($t:ty) => { wrap!(w2, $t) } }
    w3!(i32);
    w3!(String);
    w2!(&'static str);
    w2!(JsonValue);
    w2!(bool);
    w2!(u64);
    w2!(f64);
    w2!(Number);
    w2!(Object);
    v
}

/// An iterator that announces whatever it is told to.
struct Lies<I> { it: I, hint: (usize, Option<usize>), over: bool, done: bool }
impl<I: Iterator<Item = (String, JsonValue)>> Iterator for Lies<I> {
    type Item = (String, JsonValue);
    fn next(&mut self) -> Option<Self::Item> {
        // what comes behind the end is not part of the sequence
        if self.done { return if self.over { Some(("behind the end".into(), JsonValue::Null)) } else { None } }
        let x = self.it.next();
        self.done = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

fn main() {
    let mut r = Runner::new("C26");
    let tab = table();
    let bud = r.by(5, 6);
    r.dfs("types", 0, "317 types: 9 element types under all nestings of up to 2 (3 for two of them) of Option, Vec, HashMap, BTreeMap; all values of up to 5 (6) elements; by every route", |c| {
        let (_, f) = *c.pick(&tab);
        f(c, bud)
    });
    // sequences of pairs
    let keys = ["a", "", COLLIDE[0], COLLIDE[1]];
    let pl = r.by(7, 8);
    r.dfs("pairs", 0, "all sequences of up to 7 (8) pairs over 4 keys x 7 announcements of the length (exact, none, zero, too low, too high by one and by a thousand, and more behind the end): collected into an object", |c| {
        let n = c.choose(pl + 1);
        let ks: Vec<usize> = (0..n).map(|_| c.choose(4)).collect();
        let hint = c.choose(7);
        let mut m = Vec::new();
        for (i, k) in ks.iter().enumerate() { RV::set(&mut m, keys[*k], RV::i(i as i64)) }
        c.nontrivial();
        c.step();
        c.visit_bytes(format!("{:?}", ks).as_bytes());
        c.log(|| format!("{:?} announced {}", ks, hint));
        let it = ks.iter().enumerate().map(|(i, k)| (keys[*k].to_string(), JsonValue::from(i)));
        let h = [(n, Some(n)), (0, None), (0, Some(0)), (n / 2, Some(n / 2)), (n + 1, Some(n + 1)), (n + 1000, None), (n, Some(n))][hint];
        let o: Object = Lies { it, hint: h, over: hint == 6, done: false }.collect();
        observe(&RV::Obj(m.clone()), &JsonValue::Object(o)).map_err(|e| format!("keys {:?} announced as {:?}: {}", ks, h, e))?;
        if hint == 0 {
            // other kinds of pairs and sources
            let v: Vec<(&str, usize)> = ks.iter().enumerate().map(|(i, k)| (keys[*k], i)).collect();
            let want = RV::Obj(m);
            for (how, o) in [("Vec", v.clone().into_iter().collect::<Object>()), ("filter", v.iter().cloned().filter(|_| true).collect()), ("chain", v[..n / 2].iter().cloned().chain(v[n / 2..].iter().cloned()).collect()),
                ("Box<str>", v.iter().map(|(k, x)| (Box::<str>::from(*k), *x)).collect()), ("Cow", v.iter().map(|(k, x)| (Cow::Borrowed(*k), Some(*x))).collect()), ("Rc<str>", v.iter().map(|(k, x)| (Rc::<str>::from(*k), JsonValue::from(*x))).collect()),
                ("&String", { let s: Vec<(String, usize)> = v.iter().map(|(k, x)| (k.to_string(), *x)).collect(); s.iter().map(|(k, x)| (k, *x)).collect() })] {
                c.step();
                observe(&want, &JsonValue::Object(o)).map_err(|e| format!("keys {:?} from {}: {}", ks, how, e))?;
            }
        }
        Ok(())
    });
    // sizes
    let sz = r.by(400u64, 1500);
    r.sweep("sizes", sz, "vectors, slices, maps and collected pairs of every size to 400 (1500) in 7 key families, with spare room or none", |c, i| {
        let n = i as usize;
        c.nontrivial();
        c.visit(i);
        let val = |k: usize| match k % 4 { 0 => RV::i(k as i64), 1 => RV::Str(text_of_len(k % 70)), 2 => RV::Null, _ => RV::Bool(k % 8 == 3) };
        let elems: Vec<Option<i64>> = (0..n).map(|k| if k % 3 == 2 { None } else { Some(k as i64 - 5) }).collect();
        let want = RV::Arr(elems.iter().map(|x| x.map(RV::i).unwrap_or(RV::Null)).collect());
        let mut spare = Vec::with_capacity(n * 2 + 3);
        spare.extend(elems.iter().cloned());
        for (how, v) in [("Vec", JsonValue::from(elems.clone())), ("Vec with room", JsonValue::from(spare)), ("slice", JsonValue::from(&elems[..])), ("Some(Vec)", JsonValue::from(Some(elems.clone()))), ("Vec of values", JsonValue::from(elems.iter().map(|x| JsonValue::from(*x)).collect::<Vec<_>>()))] {
            c.step();
            observe(&want, &v).map_err(|e| format!("{} of {}: {}", how, n, e))?;
        }
        // parts of slices, nested
        let words: Vec<String> = (0..n).map(|k| ascii_of_len(k % 50)).collect();
        let parts: Vec<&[String]> = vec![&words[..n / 2], &words[n / 2..], &[]];
        let want = RV::Arr(parts.iter().map(|p| RV::Arr(p.iter().map(|s| RV::s(s)).collect())).collect());
        observe(&want, &JsonValue::from(parts.clone())).map_err(|e| format!("Vec of slices of {}: {}", n, e))?;
        observe(&want, &JsonValue::from(&parts[..])).map_err(|e| format!("slice of slices of {}: {}", n, e))?;
        let strs: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
        observe(&RV::Arr(words.iter().map(|s| RV::s(s)).collect()), &JsonValue::from(strs)).map_err(|e| format!("Vec<&str> of {}: {}", n, e))?;
        for f in 0..KEY_FAMILIES {
            c.step();
            let keys = key_family(f, n);
            let pairs: Vec<(String, JsonValue)> = (0..n).map(|k| (keys[k].clone(), build(&val(k)))).collect();
            let want = RV::Obj((0..n).map(|k| (keys[k].clone(), val(k))).collect());
            let o: Object = pairs.clone().into_iter().collect();
            observe(&want, &JsonValue::Object(o)).map_err(|e| format!("{} collected pairs, family {}: {}", n, f, e))?;
            let o: Object = Lies { it: pairs.clone().into_iter(), hint: (n / 2, None), over: false, done: false }.collect();
            observe(&want, &JsonValue::Object(o)).map_err(|e| format!("{} collected pairs, announced half, family {}: {}", n, f, e))?;
            if n > 0 {
                // every pair twice, the other way round: the last value at the first place
                let o: Object = pairs.iter().map(|(k, _)| (k.clone(), JsonValue::Null)).chain(pairs.iter().rev().cloned()).collect();
                observe(&want, &JsonValue::Object(o)).map_err(|e| format!("{} collected pairs twice, family {}: {}", n, f, e))?;
            }
            let hm: HashMap<String, JsonValue> = pairs.iter().cloned().collect();
            let hv = JsonValue::from(hm.clone());
            if hv.len() != n { return Err(format!("HashMap of {} gives {} members, family {}", n, hv.len(), f)) }
            for (k, v) in &pairs { if hv[k.as_str()] != *v || !hv.has_key(k) { return Err(format!("HashMap of {}, family {}: member {} is lost", n, f, q(k))) } }
            if hv != JsonValue::from(pairs.iter().cloned().collect::<BTreeMap<_, _>>()) { return Err(format!("HashMap and BTreeMap of {} differ, family {}", n, f)) }
            let bm: BTreeMap<&str, Option<JsonValue>> = pairs.iter().map(|(k, v)| (k.as_str(), Some(v.clone()))).collect();
            let bv = JsonValue::from(bm);
            if bv.len() != n || bv.entries().count() != n { return Err(format!("BTreeMap of {} gives {} members, family {}", n, bv.len(), f)) }
            for (k, v) in &pairs { if bv[k.as_str()] != *v { return Err(format!("BTreeMap of {}, family {}: member {} is lost", n, f, q(k))) } }
        }
        Ok(())
    });
    let big = large();
    r.sweep("large", big.len() as u64, "vectors, slices, maps and collected pairs of sizes next to powers of two to 131072 and 200000", |c, i| {
        let n = big[i as usize];
        c.nontrivial();
        c.steps(n as u64);
        let nums: Vec<u32> = (0..n as u32).collect();
        let want = RV::Arr(nums.iter().map(|x| RV::i(*x as i64)).collect());
        observe(&want, &JsonValue::from(&nums[..]))?;
        observe(&want, &JsonValue::from(nums.clone()))?;
        observe(&want, &JsonValue::from(nums.iter().map(|x| Some(*x)).collect::<Vec<_>>()))?;
        let keys: Vec<String> = (0..n).map(|k| format!("k{:06}", k)).collect();
        let want = RV::Obj((0..n).map(|k| (keys[k].clone(), RV::i(k as i64))).collect());
        observe(&want, &JsonValue::from(keys.iter().cloned().zip(nums.iter().cloned()).collect::<BTreeMap<_, _>>()))?;
        observe(&want, &JsonValue::Object(keys.iter().zip(&nums).map(|(k, x)| (k.as_str(), *x)).collect()))?;
        observe(&want, &JsonValue::Object(keys.iter().zip(&nums).chain(keys.iter().zip(&nums)).filter(|_| true).map(|(k, x)| (k.as_str(), *x)).collect()))?;
        let hm = JsonValue::from(keys.iter().map(|k| k.as_str()).zip(nums.iter().cloned()).collect::<HashMap<_, _>>());
        if hm.len() != n { return Err(format!("HashMap of {} gives {} members", n, hm.len())) }
        for (k, x) in keys.iter().zip(&nums) { if hm[k] != *x { return Err(format!("HashMap of {}: member {} is lost", n, k)) } }
        Ok(())
    });
    // announcements alone
    r.sweep("announcements", 70 * 40, "0 to 69 pairs announced as 0 to 39 x 100", |c, i| {
        let (n, h) = (i as usize % 70, i as usize / 70 * 100);
        c.step();
        c.nontrivial();
        let want = RV::Obj((0..n).map(|k| (format!("k{}", k), RV::i(k as i64))).collect());
        for hint in [(h, None), (h, Some(h)), (h / 100, Some(n)), (0, Some(h / 100))] {
            let it = (0..n).map(|k| (format!("k{}", k), JsonValue::from(k)));
            let o: Object = Lies { it, hint, over: h % 200 == 0, done: false }.collect();
            observe(&want, &JsonValue::Object(o)).map_err(|e| format!("{} pairs announced as {:?}: {}", n, hint, e))?;
        }
        Ok(())
    });
    // texts and characters
    let tl = r.by(300u64, 2000);
    r.sweep("texts", tl * 2, "texts of every length to 300 (2000) and 2 kinds, from &str, String, Option, as keys and elements", |c, i| {
        let s = if i % 2 == 0 { text_of_len(i as usize / 2) } else { ascii_of_len(i as usize / 2) };
        let m = RV::s(&s);
        c.nontrivial();
        routes(c, &s.as_str(), &m)?;
        routes(c, &s, &m)?;
        let mut roomy = String::with_capacity(s.len() + 64);
        roomy.push_str(&s);
        routes(c, &roomy, &m)?;
        let want = RV::Obj(vec![(s.clone(), m.clone())]);
        for v in [JsonValue::from(HashMap::from([(s.as_str(), s.as_str())])), JsonValue::from(BTreeMap::from([(s.clone(), Some(s.clone()))])), JsonValue::Object(std::iter::once((&s, s.as_str())).collect())] { observe(&want, &v)? }
        Ok(())
    });
    let cs = probe_chars();
    r.sweep("characters", cs.len() as u64 * 36, "151 characters in texts of 0 to 35 other bytes", |c, i| {
        let (n, ch) = (i as usize / cs.len(), cs[i as usize % cs.len()]);
        let mut s = ascii_of_len(n);
        s.push(ch);
        c.step();
        c.nontrivial();
        for v in [JsonValue::from(s.as_str()), JsonValue::from(s.clone()), json::from(&s[..]), JsonValue::from(Some(s.clone())), JsonValue::from(vec![s.as_str()]).pop()] { observe(&RV::s(&s), &v)? }
        observe(&RV::Obj(vec![(s.clone(), RV::Null)]), &JsonValue::from(HashMap::from([(s.clone(), None::<bool>)])))
    });
    // primitives
    r.sweep("small integers", 65536, "every 8- and 16-bit integer as every type that holds it, in Option, Vec, slice and map", |c, i| {
        let x = i as u16 as i16;
        macro_rules! go { ($($t:ty),*) => { $( for k in [x as i128, i as i128] { if k >= <$t>::MIN as i128 && k <= <$t>::MAX as i128 {
            c.step();
            let p = k as $t;
            let m = RV::Num(Num::int(k));
            if view(&JsonValue::from(p)) != m { return Err(format!("{} as {} becomes {}", p, stringify!($t), JsonValue::from(p))) }
            if i % 64 == 0 || i < 300 { routes(c, &p, &m).map_err(|e| format!("{} as {}: {}", p, stringify!($t), e))? }
        } } )* } }
        c.nontrivial();
        go!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
        Ok(())
    });
    r.sweep("wide integers", 129 * 7, "integers around every power of two as every type that holds them", |c, i| {
        let k = (1i128 << (i / 7 % 65)) * if i / 7 >= 65 { -1 } else { 1 } + (i % 7) as i128 - 3;
        c.nontrivial();
        macro_rules! go { ($($t:ty),*) => { $( if k >= <$t>::MIN as i128 && k <= <$t>::MAX as i128 {
            let p = k as $t;
            routes(c, &p, &RV::Num(Num::int(k))).map_err(|e| format!("{} as {}: {}", p, stringify!($t), e))?;
            if JsonValue::from(p).as_number().map(|n| n == p) != Some(true) { return Err(format!("{} as {} differs", p, stringify!($t))) }
        } )* } }
        go!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
        Ok(())
    });
    r.sweep("floats", 2048 * 6, "floats of every exponent and 6 mantissas, both signs, f64 and f32: the value reads back", |c, i| {
        let (ex, k) = (i / 6, i % 6);
        let man = [0u64, 1, 0x8_0000_0000_0000, 0xf_ffff_ffff_ffff, 0x5_5555_5555_5555, 0x1_2345_6789_abcd][k as usize];
        c.nontrivial();
        for sign in [0u64, 1] {
            c.step();
            let f = f64::from_bits(sign << 63 | ex << 52 | man);
            let v = JsonValue::from(f);
            // infinities and NaN become NaN; everything else is that number
            let ok = if f.is_finite() { v.as_f64() == Some(f) && v == f && f == v } else { matches!(view(&v), RV::Nan) };
            if !ok || !v.is_number() { return Err(format!("{:e} becomes {}", f, v)) }
            for w in [JsonValue::from(Some(f)), JsonValue::from(vec![f]).pop(), JsonValue::from(&[f][..]).pop(), json::from(f)] { if view(&w) != view(&v) { return Err(format!("{:e} in a container becomes {}", f, w)) } }
            if ex < 256 {
                let g = f32::from_bits((sign << 31 | ex << 23 | man >> 29) as u32);
                let v = JsonValue::from(g);
                let ok = if g.is_finite() { v.as_f32() == Some(g) && v == g } else { matches!(view(&v), RV::Nan) };
                if !ok { return Err(format!("f32 {:e} becomes {}", g, v)) }
            }
        }
        Ok(())
    });
    r.finish()
}
