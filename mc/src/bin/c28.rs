//! C28: numbers keep the parts they are built from.
use json::number::{Number, NAN};
use json::JsonValue;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

/// The decimal of that value that no digit can be spared from, if the exponent is below zero.
fn stripped(m: u64, e: i16) -> (u64, i16) {
    let (mut m, mut e) = (m, e);
    if m == 0 { return (0, e.max(0)) }
    while e < 0 && m % 10 == 0 { m /= 10; e += 1 }
    (m, e)
}
fn tests(n: &Number, pos: bool, m: u64, what: &dyn Fn() -> String) -> Res {
    if n.is_nan() { return Err(format!("{}: is_nan", what())) }
    if n.is_zero() != (m == 0) || n.is_empty() != (m == 0) { return Err(format!("{}: is_zero {}, is_empty {}", what(), n.is_zero(), n.is_empty())) }
    if n.is_sign_positive() != pos { return Err(format!("{}: is_sign_positive {}", what(), n.is_sign_positive())) }
    Ok(())
}
/// Everything that can be asked of, and done to, a number known by its parts.
fn number(c: &mut Ctl, pos: bool, m: u64, e: i16, values: bool) -> Res {
    c.step();
    let what = || format!("{}{}e{}", if pos { "" } else { "-" }, m, e);
    let n = unsafe { Number::from_parts_unchecked(pos, m, e) };
    let has = |n: &Number, p: (bool, u64, i16), how: &str| if n.as_parts() == p { Ok(()) } else { Err(format!("{}: {} has the parts {:?}", what(), how, n.as_parts())) };
    has(&n, (pos, m, e), "as built")?;
    tests(&n, pos, m, &what)?;
    let o = -n;
    has(&o, (!pos, m, e), "negated")?;
    tests(&o, !pos, m, &|| format!("negated {}", what()))?;
    has(&-o, (pos, m, e), "negated twice")?;
    has(&n, (pos, m, e), "after all that")?;
    if (o == n) != (m == 0) || n != n || o != -n { return Err(format!("{}: its negation is equal {}", what(), o == n)) }
    // trailing zeros behind the point go, the value stays
    let f = Number::from_parts(pos, m, e);
    let (sm, se) = stripped(m, e);
    has(&f, (pos, sm, se), "from_parts")?;
    tests(&f, pos, m, &|| format!("from_parts of {}", what()))?;
    if f != n { return Err(format!("{}: from_parts is another number", what())) }
    if values {
        let v = JsonValue::from(n);
        for (how, w) in [("value", v.clone()), ("value from a copy", JsonValue::Number(n)), ("element", JsonValue::from(vec![n])[0].clone()), ("option", JsonValue::from(Some(n)))] {
            let k = w.as_number().ok_or_else(|| format!("{}: {} is no number", what(), how))?;
            has(&k, (pos, m, e), how)?;
            if !w.is_number() || w.is_empty() != (m == 0) || w != n || n != w { return Err(format!("{}: {} does not equal the number", what(), how)) }
        }
        let p = json::parse(&v.dump()).map_err(|x| format!("{}: dumps {}: {}", what(), v.dump(), x))?;
        let p = p.as_number().ok_or("parsed is no number")?;
        if p.is_sign_positive() != pos || p.is_zero() != (m == 0) || p.is_nan() || Num::of(&p) != Num::of(&n) { return Err(format!("{}: dumped and parsed it is {:?}", what(), p.as_parts())) }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C28");
    let mut ms: Vec<u64> = vec![0, u64::MAX];
    for k in 0..64 { ms.push(1 << k) }
    for k in 0..20u32 { let p = 10u64.pow(k); ms.extend([p, p - 1, p + 1, p.saturating_mul(7)]) }
    ms.extend([12300, 1230000000000000000, 18446744073709551610, 4294967296 * 10, 256 * 100, 2560, 65536000]);
    ms.sort();
    ms.dedup();
    let ms = &ms;
    r.sweep("parts", 65536, "every 16-bit exponent x ~140 mantissas (powers of two and ten and next to them) x sign: parts, sign, zero and NaN tests, negation, from_parts, through values and text", |c, i| {
        let e = i as u16 as i16;
        c.nontrivial();
        for (k, m) in ms.iter().enumerate() {
            let v = k as u64 % 16 == i % 16;
            number(c, true, *m, e, v)?;
            number(c, false, *m, e, v)?;
        }
        Ok(())
    });
    let top = r.by(30_000u64, 1_000_000);
    r.sweep("small", top, "every mantissa below 30000 (1000000) x exponents -8..8 x sign", |c, i| {
        c.nontrivial();
        for e in -8..=8 { number(c, true, i, e, e == 0)?; number(c, false, i, e, e == -3)? }
        Ok(())
    });
    r.sweep("zeros", 65536, "every multiple of a power of ten by a 16-bit number, with exponents that make the digits whole, decimal, or run past the zeros", |c, i| {
        c.nontrivial();
        for z in 0..16u32 {
            let Some(m) = i.checked_mul(10u64.pow(z)) else { continue };
            for e in [0, 1, -1, -(z as i16), -(z as i16) - 1, 1 - z as i16, -(z as i16) - 30, i16::MIN, i16::MAX] { number(c, (i + z as u64) % 2 == 0, m, e, false)? }
        }
        Ok(())
    });
    r.sweep("converted", 2048 * 32, "floats of every exponent and 32 mantissas, both signs, f64 and f32, and integers: sign, zero and NaN tests agree with what was put in", |c, i| {
        c.step();
        c.nontrivial();
        let (x, k) = (i / 32, i % 32);
        let m = match k { 0 => 0, 1 => (1u64 << 52) - 1, _ => 0x9e3779b97f4a7c15u64.wrapping_mul(k) >> 12 };
        for neg in [false, true] {
            let f = f64::from_bits((neg as u64) << 63 | x << 52 | m);
            let n = Number::from(f);
            let ok = |n: &Number, zero: bool, nan: bool| n.is_nan() == nan && (nan || n.is_sign_positive() != neg && n.is_zero() == zero);
            if !ok(&n, f == 0.0, !f.is_finite()) { return Err(format!("{:e}: is_nan {}, is_sign_positive {}, is_zero {}", f, n.is_nan(), n.is_sign_positive(), n.is_zero())) }
            let o = -n;
            if o.is_nan() != n.is_nan() || !n.is_nan() && (o.is_sign_positive() == n.is_sign_positive() || f64::from(o) != -f64::from(n)) { return Err(format!("{:e} negated is {}", f, o)) }
            let g = f32::from_bits((neg as u32) << 31 | (x as u32 & 255) << 23 | (m as u32 & 0x7f_ffff));
            let h = Number::from(g);
            if !ok(&h, g == 0.0, !g.is_finite()) { return Err(format!("{:e}f32: is_nan {}, is_sign_positive {}, is_zero {}", g, h.is_nan(), h.is_sign_positive(), h.is_zero())) }
            let w = (x as i64) * 65537 * (k as i64 + 1) * if neg { -1 } else { 1 };
            let j = Number::from(w);
            if j.is_nan() || j.is_zero() != (w == 0) || j.is_sign_positive() != (w >= 0) || (-j).as_parts() != (w < 0, w.unsigned_abs(), 0) { return Err(format!("{}: parts {:?}, negated {:?}", w, j.as_parts(), (-j).as_parts())) }
        }
        Ok(())
    });
    r.fact("NaN", (|| {
        let mut all = vec![("NAN", NAN), ("-NAN", -NAN), ("--NAN", -(-NAN)), ("f64 NaN", f64::NAN.into()), ("f32 infinity", f32::INFINITY.into()), ("value", JsonValue::from(f64::NEG_INFINITY).as_number().ok_or("infinity is no number")?)];
        all.extend(all.clone().into_iter().map(|x| ("negated", -x.1)));
        for (a, n) in &all {
            if !n.is_nan() || n.is_zero() || *n == Number::from(0) || *n == 0 || JsonValue::Number(*n).dump() != "null" { return Err(format!("{}: is_nan {}, is_zero {}, dumps {}", a, n.is_nan(), n.is_zero(), JsonValue::Number(*n).dump())) }
            for (b, m) in &all { if n != m { return Err(format!("{} != {}", a, b)) } }
        }
        Ok(())
    })());
    r.finish()
}
