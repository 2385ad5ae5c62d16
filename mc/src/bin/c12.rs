//! C12: fixed point extraction is exact or refused.
use json::number::Number;
use json::JsonValue;
use mc::*;

mc::fast_alloc!();

fn raw(neg: bool, m: u64, e: i16) -> Number { unsafe { Number::from_parts_unchecked(!neg, m, e) } }

/// |value| * 10^point truncated towards zero, None beyond 128 bits.
fn scaled(m: u64, e: i64) -> Option<u128> {
    if m == 0 { return Some(0) }
    if e >= 0 { if e > 38 { return None } return (m as u128).checked_mul(10u128.pow(e as u32)) }
    if e < -38 { return Some(0) }
    Some(m as u128 / 10u128.pow(-e as u32))
}

fn one(c: &mut Ctl, neg: bool, m: u64, e: i16, point: u16, value: bool) -> Res {
    c.step();
    let n = raw(neg, m, e);
    let s = scaled(m, e as i64 + point as i64);
    let u = if neg { None } else { s.and_then(|x| u64::try_from(x).ok()) };
    let i = s.and_then(|x| i128::try_from(x).ok()).map(|x| if neg { -x } else { x }).and_then(|x| i64::try_from(x).ok());
    let what = || format!("{}{}e{} at {} places", if neg { "-" } else { "" }, m, e, point);
    let mut gu = vec2(n.as_fixed_point_u64(point));
    let mut gi = vec2(n.as_fixed_point_i64(point));
    if value { let v = JsonValue::Number(n); gu[1] = v.as_fixed_point_u64(point); gi[1] = v.as_fixed_point_i64(point) }
    for g in gu {
        // a negative zero is zero and negative, either answer will do
        if g != u && !(neg && m == 0 && g == Some(0)) { return Err(format!("{}: u64 gives {:?}, exact is {:?}", what(), g, u)) }
    }
    for g in gi { if g != i { return Err(format!("{}: i64 gives {:?}, exact is {:?}", what(), g, i)) } }
    Ok(())
}
fn vec2<T: Copy>(x: T) -> [T; 2] { [x, x] }

fn main() {
    let mut r = Runner::new("C12");
    let mut ms: Vec<u64> = vec![0, u64::MAX, u64::MAX / 2, u64::MAX / 2 + 2];
    for k in 0..64 { ms.extend([1u64 << k, (1 << k) - 1, (1 << k) + 1]) }
    for k in 0..20u32 { let p = 10u64.pow(k); ms.extend([p, p + 1, p - 1, p.saturating_mul(9), p.saturating_mul(5), u64::MAX / p, (u64::MAX / p).wrapping_add(1), i64::MAX as u64 / p, i64::MAX as u64 / p + 1, (1u64 << 63) / p]); ms.push("59901234567890123456"[..=k as usize].parse().unwrap_or(599)) }
    ms.sort();
    ms.dedup();
    let n = ms.len() as u64;
    r.sweep("decimal", n * 101 * 101, "~350 mantissas (all limits divided by powers of ten included) x exponents -50..50 x 0..100 places x sign, numbers and values", |c, i| {
        let m = ms[(i / 10201) as usize];
        let e = (i / 101 % 101) as i16 - 50;
        let p = (i % 101) as u16;
        if (e as i32 + p as i32).abs() < 20 { c.nontrivial() }
        one(c, false, m, e, p, i % 4 == 0)?;
        one(c, true, m, e, p, i % 4 == 1)
    });
    r.sweep("all exponents", 65536 * 66, "every 16-bit exponent x 6 mantissas x 22 places (including those that shift the value into range, and both extremes) x sign", |c, i| {
        let e = (i / 66) as u16 as i16;
        let m = [1u64, 599, u64::MAX, 10u64.pow(19), 1 << 63, 12345678901][(i % 66 / 11) as usize];
        let k = (i % 11) as i32;
        c.nontrivial();
        for p in [-(e as i32) + k - 5, -(e as i32) - 15 - k, -(e as i32) + 15 + k, k, 65535 - k, 32768 - k, 32767 + k] { if let Ok(p) = u16::try_from(p) { one(c, k % 2 == 0, m, e, p, k == 3)?; one(c, k % 2 == 1, m, e, p, false)? } }
        Ok(())
    });
    r.sweep("all places", 65536, "every number of places x 40 numbers with exponents that bring them near the limits, sign", |c, i| {
        let p = i as u16;
        c.nontrivial();
        for d in -22i32..=22 { for m in [1u64, 5, 184467440737095517, u64::MAX, 9223372036854775808, 9223372036854775807] { if let Ok(e) = i16::try_from(d - p as i32) { one(c, false, m, e, p, d == 0)?; one(c, true, m, e, p, d == 1)? } } }
        for e in [0i16, -1, 1, 32767, -32768] { one(c, false, 7, e, p, true)?; one(c, true, 0, e, p, false)? }
        Ok(())
    });
    let ml = r.by(20000, 300000);
    r.sweep("small", ml, "every mantissa below 20000 (300000) x exponents -8..8 x 0..12 places x sign", |c, i| {
        c.nontrivial();
        for e in -8..=8 { for p in 0..=12 { one(c, false, i, e, p, false)?; one(c, true, i, e, p, false)? } }
        Ok(())
    });
    let band = r.by(400u64, 5000);
    r.sweep("limits", 20 * (2 * band + 1) * 2, "mantissas within 400 (5000) of every limit divided by a power of ten", |c, i| {
        let k = (i / (2 * (2 * band + 1))) as u32;
        let lim = if i % 2 == 0 { u64::MAX } else { 1 << 63 };
        let m = (lim / 10u64.pow(k)).wrapping_add((i / 2 % (2 * band + 1)).wrapping_sub(band));
        c.nontrivial();
        for d in [-1i32, 0, 1] { for p in [0u16, k as u16, 3] { let e = k as i32 + d - p as i32; one(c, false, m, e as i16, p, p == 3)?; one(c, true, m, e as i16, p, p == 0)? } }
        Ok(())
    });
    r.sweep("read and built", 3000, "prices read from text and made from floats", |c, i| {
        c.nontrivial();
        c.step();
        let (a, b) = (i / 100, i % 100);
        let t = format!("{}.{:02}", a, b);
        for v in [json::parse(&t).unwrap(), JsonValue::from(t.parse::<f64>().unwrap())] {
            c.log(|| format!("{} at 2 places: {:?}", t, v.as_fixed_point_u64(2)));
            if v.as_fixed_point_u64(2) != Some(i) || v.as_fixed_point_i64(1) != Some(i as i64 / 10) || v.as_fixed_point_i64(0) != Some(a as i64) || v.as_fixed_point_u64(5) != Some(i * 1000) { return Err(format!("{}: {:?}", t, v.as_fixed_point_u64(2))) }
        }
        let v = json::parse(&format!("-{}", t)).unwrap();
        if i > 0 && (v.as_fixed_point_u64(2).is_some() || v.as_fixed_point_i64(2) != Some(-(i as i64)) || v.as_fixed_point_i64(1) != Some(-(i as i64 / 10))) { return Err(format!("-{}: {:?}", t, v.as_fixed_point_i64(2))) }
        Ok(())
    });
    r.sweep("nan", 65536, "NaN at every number of places", |c, i| {
        c.step();
        for n in [json::number::NAN, -json::number::NAN] { if n.as_fixed_point_u64(i as u16).is_some() || n.as_fixed_point_i64(i as u16).is_some() || JsonValue::Number(n).as_fixed_point_i64(i as u16).is_some() { return Err(format!("NaN at {} places is a number", i)) } }
        Ok(())
    });
    r.finish()
}
