//! C09: numbers convert to the nearest float.
use json::number::Number;
use json::JsonValue;
use mc::model::dec::nearest_f64;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

fn raw(neg: bool, m: u64, e: i16) -> Number { unsafe { Number::from_parts_unchecked(!neg, m, e) } }

fn one(c: &mut Ctl, neg: bool, m: u64, e: i16, full: bool) -> Res {
    c.step();
    let n = raw(neg, m, e);
    // the literal as it stands, not normalised
    let text = format!("{}{}e{}", if neg { "-" } else { "" }, m, e);
    let want: f64 = text.parse().unwrap();
    let got = f64::from(n);
    if full { c.outcome(want.to_bits()) }
    if got.to_bits() != want.to_bits() { return Err(format!("{} as f64 is {:e} ({:#018x}), nearest is {:e} ({:#018x})", text, got, got.to_bits(), want, want.to_bits())) }
    let g32 = f32::from(n);
    let w32: f32 = text.parse().unwrap();
    if g32.to_bits() != w32.to_bits() && g32.to_bits() != (want as f32).to_bits() { return Err(format!("{} as f32 is {:e}, nearest is {:e}", text, g32, w32)) }
    if full {
        c.log(|| format!("{} -> {:e}", text, got));
        let v = JsonValue::Number(n);
        if v.as_f64().map(f64::to_bits) != Some(want.to_bits()) || v.as_f32().map(f32::to_bits) != Some(g32.to_bits()) { return Err(format!("{} as value gives {:?} and {:?}, expected {:e} and {:e}", text, v.as_f64(), v.as_f32(), want, g32)) }
        let p = json::parse(&text).map_err(|e| e.to_string())?;
        if p.as_f64().map(f64::to_bits) != Some(want.to_bits()) { return Err(format!("{} parsed gives {:?}, expected {:e}", text, p.as_f64(), want)) }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C09");
    let hard: Vec<(u64, i16)> = include_str!("../../tables/hard.txt").lines().map(|l| { let mut p = l.split(' '); (p.next().unwrap().parse().unwrap(), p.next().unwrap().parse().unwrap()) }).collect();
    r.sweep("hard cases", hard.len() as u64, "decimals closest to the middle between two floats, for every exponent -345..309 and 8 mantissa lengths (from continued fractions), and the mantissas next to them", |c, i| {
        let (m, e) = hard[i as usize];
        c.nontrivial();
        for d in [-2i64, -1, 0, 1, 2] { one(c, d == 1, m.wrapping_add(d as u64), e, d == 0)? }
        Ok(())
    });

    let mut ms: Vec<u64> = vec![0, u64::MAX];
    for k in 0..64 { for d in [-2i64, -1, 0, 1, 2] { ms.push((1u64 << k).wrapping_add(d as u64)) } }
    for k in 50..64u32 { for j in 0..11u32 { if k > j { ms.push((1u64 << k) + (1 << j)); ms.push((1u64 << k) - (1 << j)); ms.push((1u64 << k) + 3 * (1 << j) + 1) } } }
    for k in 0..20u32 { let p = 10u64.pow(k); ms.extend([p, p + 1, p - 1, p.saturating_mul(9), p.saturating_mul(3)]); ms.push("12345678901234567890"[..=k as usize].parse().unwrap()); ms.push("17976931348623157081"[..=k as usize].parse().unwrap()); ms.push("22250738585072013831"[..=k as usize].parse().unwrap_or(7)); ms.push("49406564584124654417"[..=k as usize].parse().unwrap_or(7)) }
    ms.sort();
    ms.dedup();
    r.sweep("exponents", 65536, "every 16-bit exponent x ~700 mantissas (around powers of two and ten, halfway points of integers, prefixes of the largest and smallest floats); all of them for exponents -400..400, a twelfth elsewhere", |c, i| {
        let e = i as u16 as i16;
        let near = (e as i32).abs() <= 400;
        if near { c.nontrivial() }
        for (k, m) in ms.iter().enumerate() {
            if near || (k + i as usize) % 12 == 0 { one(c, (k + i as usize) % 2 == 0, *m, e, near && k % 8 == 0)? }
        }
        Ok(())
    });

    let band = r.by(4000u64, 60000);
    r.sweep("thresholds", 2 * band * 70, "mantissas within 4000 (60000) of 2^53 x exponents -35..35, and within 4000 of 0", |c, i| {
        let e = (i % 70) as i16 - 35;
        let d = (i / 70) as i64 - band as i64;
        c.nontrivial();
        one(c, d % 2 == 0, ((1i64 << 53) + d) as u64, e, false)?;
        one(c, d % 2 != 0, d.unsigned_abs(), e, i % 16 == 0)
    });

    r.sweep("halfway integers", 64 * 2048, "integers halfway between adjacent floats and one off, around every mantissa bit pattern class", |c, i| {
        let k = i / 2048;
        let base = 1u64.checked_shl(k as u32).unwrap_or(0) | (i % 2048) << 53 | (i % 2048) << 10;
        c.nontrivial();
        for d in [-1i64, 0, 1, 512, 1024, 1023, 1025] { one(c, false, base.wrapping_add(d as u64), 0, d == 0)?; one(c, true, base.wrapping_add(d as u64), -1, false)? ; one(c, true, base.wrapping_add(d as u64), 3, false)? }
        Ok(())
    });

    // the limits of the format
    let w = r.by(3000u64, 50000);
    r.sweep("edges", 8 * (2 * w + 1), "mantissas within 3000 (50000) of the 16..20 digit prefixes of the overflow threshold, the largest float, the smallest normal and the smallest subnormal (and half of it)", |c, i| {
        let d = (i % (2 * w + 1)) as i64 - w as i64;
        let edges: [(u64, i16); 8] = [(17976931348623157081, 289), (17976931348623158079, 289), (1797693134862315807, 290), (2225073858507201383, -326), (2225073858507201136, -326), (4940656458412465442, -342), (2470328229206232720, -342), (7410984687618698162, -342)];
        let (m, e) = edges[(i / (2 * w + 1)) as usize];
        c.nontrivial();
        one(c, false, m.wrapping_add(d as u64), e, d % 64 == 0)?;
        one(c, true, m / 10 + d.unsigned_abs(), e + 1, false)?;
        one(c, false, m / 1000 + d.unsigned_abs(), e + 3, false)
    });

    let shift = r.by(10u32, 0);
    r.sweep("f32 round trip", 256 * r.by(8192, 1 << 23), "every f32 exponent x mantissa patterns (thorough: every positive f32): put in as f32 and taken out unchanged", |c, i| {
        let bits = (i as u32) << shift;
        f32_rt(c, bits)?;
        f32_rt(c, bits | 1)?;
        f32_rt(c, bits | 0x80000000 | (bits >> 9 & 0x3ff))
    });
    r.sweep("floats", 0x800 * 200, "every f64 exponent x 200 mantissas: put in as f64 and taken out unchanged", |c, i| {
        let p = (i % 200).wrapping_mul(0x9e3779b97f4a7) & ((1 << 52) - 1);
        let f = f64::from_bits((i / 200) << 52 | p);
        if f.is_nan() { return if f64::from(Number::from(f)).is_nan() { Ok(()) } else { Err("NaN".into()) } }
        if f.is_infinite() { return Ok(()) }
        c.nontrivial();
        for f in [f, -f] {
            c.step();
            let n = Number::from(f);
            if f64::from(n).to_bits() != nearest_f64(&Num::of(&n).unwrap()).to_bits() { return Err(format!("{:e} via {} gives {:e}", f, n, f64::from(n))) }
        }
        Ok(())
    });
    r.sweep("nan", 1, "NaN of both signs", |c, _| {
        c.nontrivial();
        for n in [json::number::NAN, -json::number::NAN, Number::from(f64::NAN)] {
            c.step();
            if !f64::from(n).is_nan() || !f32::from(n).is_nan() { return Err("NaN converts to a number".into()) }
            if !JsonValue::Number(n).as_f64().map(f64::is_nan).unwrap_or(true) { return Err("NaN value converts to a number".into()) }
        }
        Ok(())
    });
    r.finish()
}

fn f32_rt(c: &mut Ctl, bits: u32) -> Res {
    let f = f32::from_bits(bits);
    if !f.is_finite() { return Ok(()) }
    c.step();
    c.nontrivial();
    let b = f32::from(Number::from(f));
    if b.to_bits() != f.to_bits() { return Err(format!("f32 {:e} ({:#010x}) comes back as {:e}", f, bits, b)) }
    Ok(())
}
