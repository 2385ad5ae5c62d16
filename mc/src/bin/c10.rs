//! C10: integers go in and out without loss and never come out wrong.
use json::number::Number;
use json::JsonValue;
use mc::model::*;
use mc::*;

mc::fast_alloc!();
use std::convert::TryFrom;

fn raw(neg: bool, m: u64, e: i16) -> Number { unsafe { Number::from_parts_unchecked(!neg, m, e) } }

macro_rules! types { ($m:ident) => { $m!(i8, as_i8); $m!(i16, as_i16); $m!(i32, as_i32); $m!(i64, as_i64); $m!(isize, as_isize); $m!(u8, as_u8); $m!(u16, as_u16); $m!(u32, as_u32); $m!(u64, as_u64); $m!(usize, as_usize); } }

/// What every integer accessor says about a value that is exactly `want`
/// (None: no integer). `complete`: an integer that fits has to come out.
fn out(v: &JsonValue, n: Option<Number>, want: Option<i128>, neg_zero: bool, complete: bool, what: &dyn Fn() -> String) -> Res {
    macro_rules! t { ($t:ty, $as:ident) => {{
        let fits = want.filter(|w| *w >= <$t>::MIN as i128 && *w <= <$t>::MAX as i128);
        let first = v.$as();
        let second = match n { Some(n) => <$t>::try_from(n).ok(), None => first };
        for (how, got) in [("value", first), ("number", second)] {
            match (got, fits) {
                (Some(g), Some(f)) if g as i128 == f => {}
                (Some(g), _) => return Err(format!("{}: {} asked for {} gives {}", what(), how, stringify!($t), g)),
                // the negative zero is a zero; unsigned types may refuse it
                (None, Some(_)) if complete && !(neg_zero && <$t>::MIN == 0) => return Err(format!("{}: {} asked for {} gives nothing", what(), how, stringify!($t))),
                _ => {}
            }
        }
    }} }
    types!(t);
    Ok(())
}

fn number(c: &mut Ctl, neg: bool, m: u64, e: i16) -> Res {
    c.step();
    let n = raw(neg, m, e);
    let x = Num::new(neg, m, e as i64);
    // `complete` only for integers as they are written, without exponent
    out(&JsonValue::Number(n), Some(n), x.as_int(), neg && m == 0, e == 0, &|| format!("number {}{}e{}", if neg { "-" } else { "" }, m, e))
}

/// An integer of every type that holds it, in and out again.
fn integer(c: &mut Ctl, w: i128) -> Res {
    macro_rules! t { ($t:ty, $as:ident) => {
        if let Ok(x) = <$t>::try_from(w) {
            c.step();
            let what = |how: &str| format!("{} as {} {}", w, stringify!($t), how);
            let n = Number::from(x);
            if Num::of(&n) != Some(Num::int(w)) || n.as_parts() != (w >= 0, w.unsigned_abs() as u64, 0) { return Err(format!("{}: became {:?}", what("to number"), n.as_parts())) }
            let v = JsonValue::from(x);
            let d = v.dump();
            if d != w.to_string() { return Err(format!("{}: dumps {}", what(""), d)) }
            out(&v, Some(n), Some(w), false, true, &|| what("kept"))?;
            let p = json::parse(&d).map_err(|e| format!("{}: {}", what("parsed"), e))?;
            out(&p, p.as_number(), Some(w), false, true, &|| what("parsed"))?;
            for v in [JsonValue::from(Some(x)), json::from(x), JsonValue::from(vec![x])[0].clone(), JsonValue::from(n)] {
                if v.$as() != Some(x) { return Err(format!("{}: comes out as {:?}", what("by another route"), v.$as())) }
            }
            if json::stringify(x) != d { return Err(what("stringified")) }
        }
    } }
    types!(t);
    Ok(())
}

fn main() {
    let mut r = Runner::new("C10");
    r.sweep("small integers", 4 * 65536, "every integer from -131072 to 131071, from every type that holds it, to every type, directly and through text", |c, i| {
        c.nontrivial();
        c.log(|| format!("{}", i as i64 - 131072));
        integer(c, i as i128 - 131072)
    });
    let band = r.by(2000u64, 100000);
    let mut anchors: Vec<i128> = (0..65).flat_map(|k| [1i128 << k, -(1i128 << k)]).chain((0..20).flat_map(|k| [10i128.pow(k), -(10i128.pow(k))])).collect();
    anchors.push(0);
    anchors.push(9007199254740993);
    r.sweep("around powers", anchors.len() as u64 * (2 * band + 1), "every integer within 2000 (100000) of every power of two and ten, both signs, limits of all types included", |c, i| {
        let w = anchors[(i / (2 * band + 1)) as usize] + (i % (2 * band + 1)) as i128 - band as i128;
        if w < i64::MIN as i128 || w > u64::MAX as i128 { return Ok(()) }
        c.nontrivial();
        integer(c, w)
    });

    let mut ms: Vec<u64> = vec![0, u64::MAX];
    for k in 0..64 { for d in -3i64..=3 { ms.push((1u64 << k).wrapping_add(d as u64)) } }
    for k in 0..20u32 { let p = 10u64.pow(k); for d in -1i64..=1 { ms.push(p.wrapping_add(d as u64)) } ms.extend([p.saturating_mul(5), p.saturating_mul(128), p.saturating_mul(255), p.saturating_mul(256)]) }
    for t in [127u64, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807, 9223372036854775808, 1844674407370955161, 922337203685477580] { for z in 0..12 { if let Some(x) = t.checked_mul(10u64.pow(z)) { ms.push(x); ms.push(x + 1); ms.push(x - 1) } } }
    ms.sort();
    ms.dedup();
    r.sweep("numbers", 65536, "every 16-bit exponent x ~900 mantissas (a tenth of them for exponents beyond 30) x sign: whatever comes out is exact, integers without exponent come out of every type they fit", |c, i| {
        let e = i as u16 as i16;
        c.nontrivial();
        for (k, m) in ms.iter().enumerate() {
            if (e as i32).abs() > 30 && (k + i as usize) % 10 != 0 { continue }
            number(c, false, *m, e)?;
            number(c, true, *m, e)?;
        }
        Ok(())
    });
    r.sweep("small numbers", r.by(70000, 2_000_000), "every mantissa below 70000 (2000000) x exponents -6..6 x sign", |c, i| {
        c.nontrivial();
        for e in -6..=6 { number(c, false, i, e)?; number(c, true, i, e)? }
        Ok(())
    });

    r.sweep("texts", ms.len() as u64, "literals: integers, integers too large by one digit, fractions, exponents: exact or nothing", |c, i| {
        let m = ms[i as usize];
        c.nontrivial();
        for s in ["", "-"] {
            for t in [format!("{}", m), format!("{}0", m), format!("{}7", m), format!("{}.0", m), format!("{}.5", m), format!("{}e1", m), format!("{}e-1", m), format!("{}.00e2", m), format!("0.{}", m), format!("{}e-40000", m), format!("{}00000000000000000000000", m), format!("{}e19", m), format!("{}e65536", m), format!("{}e65537", m), format!("{}.99999999999999999999999", m)] {
                if t.len() > 1 && t.starts_with('0') && !t.starts_with("0.") && !t.starts_with("0e") { continue }
                let t = format!("{}{}", s, t);
                let d = Dec::read(&t);
                // value of the literal, if it is an integer of at most 128 bits
                let exact = if d.exp < 0 { None } else { d.digits.iter().try_fold(0i128, |a, x| a.checked_mul(10)?.checked_add(*x as i128)).and_then(|v| if d.exp > 38 { None } else { v.checked_mul(10i128.pow(d.exp as u32)) }).map(|v| if d.neg { -v } else { v }) };
                let plain = !t.contains(['.', 'e']);
                let v = json::parse(&t).map_err(|e| format!("{}: {}", t, e))?;
                c.step();
                // longer literals are not read exactly
                if d.mantissa().is_none() || d.exp.abs() > 32000 { continue }
                let exact = if d.is_zero() { Some(0) } else { exact };
                out(&v, v.as_number(), exact, d.neg && d.is_zero(), plain, &|| format!("literal {}", t))?;
            }
        }
        Ok(())
    });

    r.sweep("floats", 2048 * 64, "numbers from floats: every exponent, 64 mantissas", |c, i| {
        let k = i % 64;
        let f = f64::from_bits((i / 64) << 52 | if k < 52 { 1 << k } else { ((1 << 52) - 1) ^ ((1u64 << (k - 52) * 4) - 1) } & ((1 << 52) - 1));
        c.nontrivial();
        for f in [f, -f, f.trunc(), -f.trunc()] {
            c.step();
            let n = Number::from(f);
            let want = Num::of(&n).and_then(|x| x.as_int());
            out(&JsonValue::from(f), Some(n), want, false, false, &|| format!("float {:e}", f))?;
            // floats that are integers below 2^53 come out
            if f.trunc() == f && f.abs() < 9007199254740992.0 && f != 0.0 && n.as_parts().2 == 0 { out(&JsonValue::from(f), Some(n), Some(f as i128), false, true, &|| format!("float {:e}", f))? }
        }
        Ok(())
    });
    r.sweep("others", 1, "NaN of both signs and the values that are no numbers", |c, _| {
        c.nontrivial();
        c.step();
        for n in [json::number::NAN, -json::number::NAN] { out(&JsonValue::Number(n), Some(n), None, false, false, &|| "NaN".into())? }
        for v in [JsonValue::Null, true.into(), "12".into(), JsonValue::String("12".into()), json::array![1], json::object! {a: 1}] { out(&v, None, None, false, false, &|| v.dump())? }
        Ok(())
    });
    r.finish()
}
