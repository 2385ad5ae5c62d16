//! C08: floats convert to decimals that read back as the same float.
use json::number::Number;
use json::JsonValue;
use mc::model::dec::nearest_f64;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

fn digits(n: &Number) -> usize { let (_, mut m, _) = n.as_parts(); if m == 0 { return 1 } while m % 10 == 0 { m /= 10 } m.to_string().len() }

fn f64_one(c: &mut Ctl, f: f64, full: bool) -> Res {
    c.step();
    let n = Number::from(f);
    let bad = |why: String| Err(format!("f64 {:e} (bits {:#018x}) {}", f, f.to_bits(), why));
    if !f.is_finite() { return if n.is_nan() && JsonValue::from(f) == JsonValue::Number(json::number::NAN) { Ok(()) } else { bad(format!("became {}, not NaN", n)) } }
    if n.is_nan() { return bad("became NaN".into()) }
    let x = Num::of(&n).unwrap();
    if x.neg != f.is_sign_negative() { return bad(format!("became {}: sign", n)) }
    if digits(&n) > 17 { return bad(format!("became {}: {} digits", n, digits(&n))) }
    let std = nearest_f64(&x);
    if std.to_bits() != f.to_bits() { return bad(format!("became {}, which is nearest to {:e}", x.text(), std)) }
    let back = f64::from(n);
    if back.to_bits() != f.to_bits() { return bad(format!("became {} and converts back to {:e}", n, back)) }
    let t = n.to_string();
    match t.parse::<f64>() { Ok(b) if b.to_bits() == f.to_bits() => {} b => return bad(format!("prints {}, which is {:?}", t, b)) }
    let v = JsonValue::from(f);
    let d = v.dump();
    if v.as_f64().map(|b| b.to_bits()) != Some(f.to_bits()) { return bad(format!("as a value converts back to {:?}", v.as_f64())) }
    match json::parse(&d) { Ok(p) if p.as_f64().map(|b| b.to_bits()) == Some(f.to_bits()) => {} p => return bad(format!("dumps {}, which parses to {:?}", d, p.map(|p| p.as_f64()))) }
    if full {
        c.log(|| format!("{:e} -> {}", f, d));
        let s = JsonValue::from(Some(f)).pretty(2);
        if s != d || json::stringify(f) != d || json::from(f).dump() != d { return bad(format!("prints {} or {} or {}", d, s, json::stringify(f))) }
        if v != f || f != v { return bad("as a value does not equal itself".into()) }
    }
    Ok(())
}

fn f32_one(c: &mut Ctl, f: f32, full: bool) -> Res {
    c.step();
    let n = Number::from(f);
    let bad = |why: String| Err(format!("f32 {:e} (bits {:#010x}) {}", f, f.to_bits(), why));
    if !f.is_finite() { return if n.is_nan() { Ok(()) } else { bad(format!("became {}, not NaN", n)) } }
    if n.is_nan() { return bad("became NaN".into()) }
    let x = Num::of(&n).unwrap();
    if x.neg != f.is_sign_negative() { return bad(format!("became {}: sign", n)) }
    if digits(&n) > 17 { return bad(format!("became {}: {} digits", n, digits(&n))) }
    let back = f32::from(n);
    if back.to_bits() != f.to_bits() { return bad(format!("became {} and converts back to {:e}", n, back)) }
    if full {
        let t = n.to_string();
        match t.parse::<f32>() { Ok(b) if b.to_bits() == f.to_bits() => {} b => return bad(format!("prints {}, which is {:?}", t, b)) }
        let v = JsonValue::from(f);
        if v.as_f32().map(|b| b.to_bits()) != Some(f.to_bits()) { return bad(format!("as a value converts back to {:?}", v.as_f32())) }
        match json::parse(&v.dump()) { Ok(p) if p.as_f32().map(|b| b.to_bits()) == Some(f.to_bits()) => {} p => return bad(format!("dumps {}, which parses to {:?}", v.dump(), p.map(|p| p.as_f32()))) }
        if v != f || f != v { return bad("as a value does not equal itself".into()) }
    }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C08");
    let mut pats: Vec<u64> = vec![0, 1, 2, 3, (1 << 52) - 1, (1 << 52) - 2, 0x5555555555555, 0xaaaaaaaaaaaaa, 0x8000000000001, 0x7ffffffffffff, 0x3333333333333, 0x9249249249249];
    for k in 0..52 { pats.push(1 << k); pats.push((1 << k) - 1); pats.push(((1u64 << 52) - 1) ^ ((1 << k) - 1)); pats.push(((1u64 << 52) - 1) ^ (1 << k)) }
    for a in (0..52).step_by(5) { for b in (0..52).step_by(7) { pats.push(1 << a | 1 << b) } }
    pats.sort();
    pats.dedup();
    r.sweep("f64 bit patterns", 2048 * pats.len() as u64, "every f64 exponent x ~280 mantissa patterns (all single bits, runs of ones, complements, pairs of bits) x sign", |c, i| {
        let e = i / pats.len() as u64;
        let p = pats[(i % pats.len() as u64) as usize];
        c.nontrivial();
        f64_one(c, f64::from_bits(e << 52 | p), true)?;
        f64_one(c, f64::from_bits(1 << 63 | e << 52 | p), false)
    });
    let band = r.by(15000u64, 200000);
    r.sweep("f64 neighbours", 2047 * 2 * (band / 50), "consecutive f64 next to every power of two (quick 300, thorough 4000 on either side)", |c, i| {
        let w = 2 * (band / 50);
        let base = (i / w) << 52;
        let b = base as i64 + (i % w) as i64 - (w / 2) as i64;
        c.nontrivial();
        f64_one(c, f64::from_bits(b as u64 & !(1 << 63)), false)
    });
    r.sweep("f64 first", r.by(400_000, 20_000_000), "the smallest subnormals, the largest floats, and the floats around 1 and 2^53", |c, i| {
        c.nontrivial();
        for b in [i, f64::MAX.to_bits() - i, 1f64.to_bits() + i, 1f64.to_bits() - i, 9007199254740992f64.to_bits() - i, f64::MIN_POSITIVE.to_bits() - i.min(1 << 51)] { f64_one(c, f64::from_bits(b), false)? }
        Ok(())
    });
    let ml = r.by(400u64, 4000);
    r.sweep("short decimals", ml * 660, "the floats nearest to every decimal with mantissa below 400 (4000) and exponent -343..316, and the floats next to them", |c, i| {
        let f: f64 = format!("{}e{}", i / 660, i as i64 % 660 - 343).parse().unwrap();
        c.nontrivial();
        for d in [-1i64, 0, 1] {
            let b = (f.to_bits() as i64 + d).max(0) as u64;
            f64_one(c, f64::from_bits(b), false)?;
        }
        f64_one(c, -f, d0(i))
    });
    r.sweep("everyday", r.by(1_000_000, 10_000_000), "every decimal of up to 6 (7) digits with up to 4 places or 6 zeros comes out as it is written", |c, i| {
        if i % 10 == 0 && i > 0 { return Ok(()) }
        c.nontrivial();
        for e in -4..=6 {
            let f: f64 = if e < 0 { i as f64 / 10f64.powi(-e) } else { i as f64 * 10f64.powi(e) };
            for f in [f, -f] {
                c.step();
                let (t, want) = (JsonValue::from(f).dump(), f.to_string());
                if t != want { return Err(format!("the float {} dumps as {}", want, t)) }
            }
        }
        Ok(())
    });
    r.sweep("integers", r.by(300_000, 3_000_000), "every integer up to the bound, its halves, thirds, tenths and multiples by powers of ten, as f64 and f32", |c, i| {
        c.nontrivial();
        let x = i as f64;
        for f in [x, -x, x / 2.0, x / 3.0, x / 10.0, x / 100.0, x * 1e10, x * 1e17, x * 1e19, x * 1e20, x * 1e21, x * 1e300, x * 1e-17, x * 1e-18, x * 1e-300, x * 1e-315, x.sqrt(), 9007199254740992.0 + x, 18446744073709551616.0 - x * 2048.0] { f64_one(c, f, false)? }
        for f in [x as f32, -x as f32, x as f32 / 3.0, x as f32 * 1e-7, x as f32 * 1e20] { f32_one(c, f, true)? }
        Ok(())
    });

    if r.thorough() {
        r.sweep("every f32", 1 << 32, "every f32", |c, i| { if i % 4096 == 0 { c.nontrivial() } f32_one(c, f32::from_bits(i as u32), i % 16 == 0) });
    } else {
        r.sweep("f32", 256 * 65536, "every f32 exponent x all patterns of the top 15 and of the low 15 mantissa bits", |c, i| {
            let e = (i / 65536) as u32;
            let p = (i % 65536) as u32;
            let m = if p < 32768 { p << 8 } else { (p & 0x7fff) | (p << 20 & 0x7f0000) };
            if i % 64 == 0 { c.nontrivial() }
            f32_one(c, f32::from_bits(e << 23 | (m & 0x7fffff)), i % 16 == 0)?;
            if i % 32 == 0 { f32_one(c, f32::from_bits(1 << 31 | e << 23 | (m & 0x7fffff)), true)? }
            Ok(())
        });
    }
    r.finish()
}
fn d0(i: u64) -> bool { i % 2 == 0 }
