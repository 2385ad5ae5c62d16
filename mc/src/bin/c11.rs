//! C11: number equality is equality of the decimal values.
use json::number::Number;
use json::JsonValue;
use mc::model::*;
use mc::*;

mc::fast_alloc!();

type Raw = (bool, u64, i16);
fn raw(x: Raw) -> Number { unsafe { Number::from_parts_unchecked(!x.0, x.1, x.2) } }
fn show(x: Raw) -> String { format!("{}{}e{}", if x.0 { "-" } else { "" }, x.1, x.2) }

fn pair(c: &mut Ctl, a: Raw, b: Raw, full: bool) -> Res {
    c.step();
    let want = Num::new(a.0, a.1, a.2 as i64).same_value(&Num::new(b.0, b.1, b.2 as i64));
    let (x, y) = (raw(a), raw(b));
    let fail = |how: &str, got: bool| Err(format!("{} == {} is {} ({})", show(a), show(b), got, how));
    if (x == y) != want { return fail("number, number", !want) }
    if (y == x) != want { return fail("swapped", !want) }
    if (x != y) == want { return fail("!=", !want) }
    if full {
        let (v, w) = (JsonValue::Number(x), JsonValue::Number(y));
        if (v == w) != want { return fail("values", !want) }
        if (w == v) != want { return fail("values swapped", !want) }
        if (v == y) != want { return fail("value, number", !want) }
        if (y == v) != want { return fail("number, value", !want) }
        if (&v == y) != want { return fail("&value, number", !want) }
        if (-x == -y) != want { return fail("both negated", !want) }
        if -(-x) != x { return Err(format!("-(-{}) differs", show(a))) }
        let zero = a.1 == 0;
        if (-x == x) != zero { return Err(format!("{} compared with its negation", show(a))) }
    }
    Ok(())
}

/// Against every primitive type, both ways.
fn prims(c: &mut Ctl, a: Raw, i: i128) -> Res {
    let x = raw(a);
    let v = JsonValue::Number(x);
    let n = Num::new(a.0, a.1, a.2 as i64);
    macro_rules! int { ($($t:ty),*) => { $( if i >= <$t>::MIN as i128 && i <= <$t>::MAX as i128 {
        c.step();
        let p = i as $t;
        let want = n.same_value(&Num::int(i));
        let got = [x == p, p == x, v == p, p == v, &v == p, !(x != p), !(p != x), !(v != p), !(p != v)];
        if got != [want; 9] { return Err(format!("{} == {} as {}: {:?}, expected {}", show(a), i, stringify!($t), got, want)) }
    } )* } }
    int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
    Ok(())
}

fn floats(c: &mut Ctl, x: Number, f: f64) -> Res {
    c.step();
    let v = JsonValue::Number(x);
    let want = f64::from(x) == f;
    let got = [x == f, f == x, v == f, f == v, &v == f];
    if got != [want; 5] { return Err(format!("{} == {:e}: {:?}, as f64 {:e}", x, f, got, f64::from(x))) }
    let g = f as f32;
    let want = f32::from(x) == g;
    let got = [x == g, g == x, v == g, g == v, &v == g];
    if got != [want; 5] { return Err(format!("{} == {:e} (f32): {:?}, as f32 {:e}", x, g, got, f32::from(x))) }
    Ok(())
}

fn main() {
    let mut r = Runner::new("C11");
    let mut ms: Vec<u64> = vec![0, 1, 2, 3, 5, 7, 9, 10, 11, 12, 20, 50, 99, 100, 101, 120, 200, 1000, 1200, 12000, 1024, 65536, 655360, u64::MAX, u64::MAX - 5, u64::MAX / 10, u64::MAX / 10 + 1, u64::MAX / 100, 1 << 63, 1 << 32, 10u64.pow(18), 10u64.pow(19), 10u64.pow(19) + 1, 10u64.pow(18) * 5, 9007199254740992, 9007199254740993, 1844674407370955161, 1844674407370955162, 184467440737095516, 18446744073709551610,
        // products that only agree modulo 2^64
        2305843009213693952, 4611686018427387904, 6917529027641081856, 9223372036854775817, 3689348814741910323, 7378697629483820646, 11068046444225730969];
    ms.sort();
    let es: [i16; 25] = [-32768, -32767, -32766, -32750, -16385, -300, -21, -20, -19, -18, -2, -1, 0, 1, 2, 3, 18, 19, 20, 21, 255, 16384, 32748, 32766, 32767];
    let mut all: Vec<Raw> = Vec::new();
    for m in &ms { for e in es { all.push((false, *m, e)); all.push((true, *m, e)) } }
    let n = all.len() as u64;
    r.sweep("pairs", n * n, "every pair of ~2350 representations (47 mantissas x 25 exponents x sign), all forms of comparison", |c, i| {
        let (a, b) = (all[(i / n) as usize], all[(i % n) as usize]);
        if i % n == 0 { c.visit_bytes(show(a).as_bytes()); }
        if a.1 == b.1 { c.nontrivial() }
        pair(c, a, b, i % 3 == 0 || a.1 % 10 == 0)
    });

    let ml = r.by(3000u64, 20000);
    r.sweep("small pairs", ml * ml, "every pair of mantissas below 3000 (20000) x exponent differences -4..4", |c, i| {
        let (a, b) = (i / ml, i % ml);
        for d in -4..=4i16 { pair(c, (false, a, 0), (i % 2 == 0 && d == 2, b, d), false)? }
        Ok(())
    });

    r.sweep("renormalised", 65536 * 48, "every 16-bit exponent x 48 mantissas: equal to itself with zeros shifted between mantissa and exponent, unequal to its neighbours, the negation, and to every other shift", |c, i| {
        let e = (i / 48) as u16 as i16;
        let m = ms[(i % 48) as usize % ms.len()];
        c.nontrivial();
        let neg = i % 2 == 1;
        let mut p = 1u64;
        for k in 0..20i32 {
            if let (Some(x), Ok(f)) = (m.checked_mul(p), i16::try_from(e as i32 - k)) {
                pair(c, (neg, m, e), (neg, x, f), k % 7 == 0)?;
                pair(c, (neg, x, f), (neg, m, e), false)?;
                pair(c, (neg, m, e), (!neg, x, f), false)?;
                pair(c, (neg, m, e), (neg, x.wrapping_add(1), f), false)?;
                pair(c, (neg, m, e), (neg, x.wrapping_sub(1), f), false)?;
                pair(c, (neg, m, e), (neg, x, f.wrapping_add(1)), false)?;
            }
            // the product without the overflow check
            if let Ok(f) = i16::try_from(e as i32 - k) { pair(c, (neg, m, e), (neg, m.wrapping_mul(p), f), false)? }
            // the shift without the exponent, and with the exponent wrapping around
            pair(c, (neg, m, e), (neg, m.wrapping_mul(p), e.wrapping_sub(k as i16)), false)?;
            pair(c, (neg, m, e), (neg, m.wrapping_mul(p), e), false)?;
            p = p.wrapping_mul(10);
        }
        for k in [20i32, 21, 63, 64, 65, 127, 128, 255, 256, 1000, 32767, 65535] { for f in [e as i32 - k, e as i32 + k] { if let Ok(f) = i16::try_from(f) { pair(c, (neg, m, e), (neg, m, f), k == 64)? } } }
        Ok(())
    });

    let ints: Vec<i128> = { let mut v: Vec<i128> = (-20..=20).collect(); for k in [7u32, 8, 15, 16, 31, 32, 53, 63, 64] { for d in -1..=1 { v.push((1i128 << k) + d); v.push(-(1i128 << k) + d) } } for k in 2..20 { v.push(10i128.pow(k)); v.push(-(10i128.pow(k))); v.push(12 * 10i128.pow(k - 1)) } v };
    r.sweep("integers", n, "every representation against ~120 integers of every type that holds them, numbers and values, both ways", |c, i| {
        c.nontrivial();
        for x in &ints { prims(c, all[i as usize], *x)? }
        // and against its own value
        let a = all[i as usize];
        if let Some(v) = Num::new(a.0, a.1, a.2 as i64).as_int() { for d in -1..=1 { prims(c, a, v + d)? } }
        Ok(())
    });

    let fl: Vec<f64> = { let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 0.2, 0.3, 1.5, 12.0, 1e21, 1e22, 1e23, 1e300, 1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740992.0, 9007199254740994.0, 18446744073709551616.0, 16777216.0, 16777217.0, 3.4028234663852886e38, 1e39, 1e-46, 0.1f32 as f64]; let w: Vec<f64> = v.iter().map(|x| -x).collect(); v.extend(w); v };
    r.sweep("floats", n, "every representation against 60 floats (f64 and f32), numbers and values, both ways, and against its own conversion and that one's neighbours", |c, i| {
        let x = raw(all[i as usize]);
        c.nontrivial();
        for f in &fl { floats(c, x, *f)? }
        let own = f64::from(x);
        if own.is_finite() { for d in [-1i64, 0, 1] { floats(c, x, f64::from_bits((own.to_bits() as i64).wrapping_add(d) as u64))? } }
        Ok(())
    });
    // next to the middle between two floats of 24 or 53 bits
    let near = r.by(40i128, 600);
    r.sweep("between floats", 40 * 64, "mantissas within 40 (600) of, and powers of two away from, the middles between neighbouring f32 and f64 of every size to 2^64, with 5 exponents, against the floats around them", |c, i| {
        let (p, k) = (25 + i / 64, i % 64);
        c.nontrivial();
        for bits in [24u64, 53] {
            if p < bits { continue }
            // the k-th middle of the binade, from either end
            let step = 1i128 << (p - bits + 1);
            let j = if k < 32 { k as i128 } else { (1i128 << (bits - 1)) - 1 - (k as i128 - 32) };
            let mid = (1i128 << p) + j * step + step / 2;
            let mut ms: Vec<i128> = (-near..=near).map(|d| mid + d).collect();
            for q in 0..p { ms.push(mid + (1i128 << q)); ms.push(mid - (1i128 << q)) }
            for m in ms {
                if m < 1 || m > u64::MAX as i128 { continue }
                for e in [0i64, 1, -1, 22, -22] {
                    if e != 0 && (m - mid).abs() > 3 { continue }
                    let x = unsafe { Number::from_parts_unchecked(m % 2 == 0, m as u64, e as i16) };
                    let (f, g) = (f64::from(x), f32::from(x));
                    for f in [f, g as f64, (m as f32) as f64, f64::from_bits(f.to_bits() + 1), f64::from_bits(f.to_bits() - 1), f32::from_bits(g.to_bits() + 1) as f64, f32::from_bits(g.to_bits() - 1) as f64] { floats(c, x, f)? }
                }
            }
        }
        Ok(())
    });
    r.sweep("nan", n, "NaN equals NaN and nothing else", |c, i| {
        let x = raw(all[i as usize]);
        c.nontrivial();
        let odd = Number::from(f64::NAN);
        for y in [json::number::NAN, -json::number::NAN, odd] {
            c.step();
            if x == y || y == x || JsonValue::Number(x) == JsonValue::Number(y) || JsonValue::Number(y) == x || x == JsonValue::Number(y) { return Err(format!("{} == NaN", x)) }
            for z in [json::number::NAN, -json::number::NAN, odd] { if y != z || JsonValue::Number(y) != JsonValue::Number(z) || JsonValue::Number(y) != z { return Err("NaN != NaN".into()) } }
            if y == 0 || 0u8 == y || y == 0.0 || y == f64::NAN || JsonValue::Number(y) == 1 || JsonValue::Number(y) == f32::NAN { return Err("NaN equals a primitive".into()) }
        }
        Ok(())
    });
    // triples: transitivity on the representations of a few values
    let reps: Vec<Raw> = [(1u64, 0i16), (10, -1), (100, -2), (10u64.pow(19), -19), (1, 1), (10, 0), (1, -1), (0, 0), (0, 5), (0, -32768), (u64::MAX, 0), (1844674407370955161, 1), (18446744073709551610, 0), (12, 3), (12000, 0), (120, 2), (1, 32767), (10, 32766), (1, -32768), (10, -32768)].iter().flat_map(|x| [(false, x.0, x.1), (true, x.0, x.1)]).collect();
    r.dfs("triples", 0, "every triple of 40 representations: equality is reflexive, symmetric and transitive", |c| {
        let (x, y, z) = (raw(*c.pick(&reps)), raw(*c.pick(&reps)), raw(*c.pick(&reps)));
        c.step();
        if x == y && y == z { c.nontrivial(); if x != z { return Err(format!("{:?} {:?} {:?} not transitive", x.as_parts(), y.as_parts(), z.as_parts())) } }
        if x != x { return Err("not reflexive".into()) }
        Ok(())
    });
    r.finish()
}
