//! C06: number literals are read as the decimal they write.
use mc::model::*;
use mc::*;

mc::fast_alloc!();

fn read(c: &mut Ctl, text: &str, get: impl Fn(&json::JsonValue) -> Option<json::number::Number>, lit: &str) -> Res {
    c.step();
    let v = json::parse(text).map_err(|e| format!("{}: refused: {}", clip(lit, 120), e))?;
    let n = get(&v).ok_or_else(|| format!("{}: not a number: {}", clip(lit, 120), clip(&v.dump(), 100)))?;
    if n.is_nan() { return Err(format!("{}: read as NaN", clip(lit, 120))) }
    let got = Num::of(&n).unwrap();
    c.outcome(got.m.wrapping_mul(31) ^ got.e as u64);
    Dec::read(lit).read_as(&got).map_err(|e| format!("{}: {}", clip(lit, 120), e))
}
fn num(v: &json::JsonValue) -> Option<json::number::Number> { if let json::JsonValue::Number(n) = v { Some(*n) } else { None } }

/// At the end of the text, before `,`, `]`, whitespace and `}`.
fn check(c: &mut Ctl, lit: &str) -> Res {
    read(c, lit, num, lit)?;
    read(c, &format!("[{}]", lit), |v| num(&v[0]), lit)?;
    read(c, &format!("{{\"a\":{},\"b\":0}}", lit), |v| num(&v["a"]), lit)?;
    read(c, &format!("{{\"b\":1 ,\"a\": {}}}", lit), |v| num(&v["a"]), lit)?;
    read(c, &format!(" {}\n", lit), num, lit)
}
fn one(c: &mut Ctl, lit: &str) -> Res { read(c, lit, num, lit) }

fn main() {
    let mut r = Runner::new("C06");
    let al: Vec<char> = "0159-+.eE".chars().collect();
    let len = r.by(10, 11);
    r.dfs("literals", 0, "every number literal of up to 10 (11) characters over 0 1 5 9 - + . e E, in 5 contexts", |c| {
        let mut s = String::new();
        let mut m = Machine::new();
        for i in 0..len {
            let next: Vec<char> = al.iter().filter(|x| { let mut k = m.clone(); k.step(**x).is_ok() }).copied().collect();
            let fin = i > 0 && m.accepting();
            if next.is_empty() { break }
            let k = c.choose(next.len() + fin as usize);
            if k == next.len() { break }
            m.step(next[k]).unwrap();
            s.push(next[k]);
        }
        if !m.accepting() { return Ok(()) }
        c.nontrivial();
        c.log(|| s.clone());
        if s.len() < len { check(c, &s) } else { one(c, &s) }
    });

    // mantissas around every threshold a reader can have
    let mut anchors: Vec<u128> = vec![576460752303423500, 1 << 59, 1 << 60, 1 << 61, 1 << 62, 1 << 63, 1 << 64, 1 << 32, 1 << 53, (u64::MAX / 10) as u128, (u64::MAX / 100) as u128, (i64::MAX / 10) as u128, u64::MAX as u128, 1 << 65, 1 << 67, 10 * (1u128 << 64), 1 << 127];
    for k in 0..28 { anchors.push(10u128.pow(k)); anchors.push(10u128.pow(k) * 9 + 5) }
    for k in 1..64 { anchors.push(1 << k) }
    anchors.sort();
    anchors.dedup();
    let around: i64 = r.by(100, 300);
    let width = (2 * around + 1) as u64;
    let exps = ["", "e0", "e1", "E-1", "e+20", "e-20", "e32767", "e-32768", "e300", "e-00012", "e99999", "e-99999"];
    r.sweep("anchors", anchors.len() as u64 * width, "integers within 100 (300) of all powers of two and ten and of the 64-bit thresholds, signed, with 12 exponents, a dot at every position, and every single digit appended", |c, i| {
        let a = anchors[(i / width) as usize];
        let d = (i % width) as i64 - around;
        let v = if d < 0 { match a.checked_sub((-d) as u128) { Some(v) => v, None => return Ok(()) } } else { a + d as u128 };
        if v == 0 { return Ok(()) }
        let s = v.to_string();
        c.nontrivial();
        c.log(|| s.clone());
        for sign in ["", "-"] {
            for e in exps { one(c, &format!("{}{}{}", sign, s, e))? }
            for p in 1..s.len() {
                let t = format!("{}{}.{}", sign, &s[..p], &s[p..]);
                one(c, &t)?;
                if d.abs() < 3 { check(c, &t)?; for e in exps { one(c, &format!("{}{}", t, e))? } }
            }
            one(c, &format!("{}0.{}", sign, s))?;
            one(c, &format!("{}0.000{}", sign, s))?;
            for x in 0..10 {
                one(c, &format!("{}{}{}", sign, s, x))?;
                one(c, &format!("{}{}.{}", sign, s, x))?;
                one(c, &format!("{}{}{}e-3", sign, s, x))?;
                one(c, &format!("{}0.{}{}", sign, s, x))?;
                if d.abs() < 6 { for y in ["0", "5", "99", "00001"] {
                    one(c, &format!("{}{}{}{}", sign, s, x, y))?;
                    one(c, &format!("{}{}.{}{}", sign, s, x, y))?;
                    one(c, &format!("{}{}{}.{}e7", sign, s, x, y))?;
                } }
            }
        }
        check(c, &s)?;
        check(c, &format!("-{}", s))
    });

    // digit patterns of every length, split everywhere
    let maxd = r.by(70, 160);
    let pats = ["1", "9", "5", "10", "123456789", "18446744073709551615", "0000000001", "90", "57646075230342348"];
    r.sweep("digit strings", maxd as u64 * pats.len() as u64, "9 digit patterns of every length up to 70 (160), the dot at every position and leading zeros, 6 exponents, both signs", |c, i| {
        let n = (i / pats.len() as u64) as usize + 1;
        let p = pats[(i % pats.len() as u64) as usize];
        let s: String = p.chars().cycle().take(n).collect();
        c.nontrivial();
        for dot in 0..=n {
            let body = match dot { 0 => format!("0.{}", s), d if d == n => s.clone(), d => format!("{}.{}", &s[..d], &s[d..]) };
            if body.starts_with("00") || body.len() > 1 && body.starts_with('0') && !body.starts_with("0.") { continue }
            for e in ["", "e1", "e-1", "E+25", "e-310", "e32760", "e-32750", "e32800", "e-32800"] {
                for sign in ["", "-"] { one(c, &format!("{}{}{}", sign, body, e))? }
            }
            check(c, &body)?;
        }
        Ok(())
    });

    // long runs
    let mut runs: Vec<usize> = vec![];
    for k in [32767usize, 32768, 65535, 65536] { for d in 0..50 { runs.push(k + d - 25) } }
    runs.extend([32767 - 19, 32767 + 19, 40000, 70000, 100000, 131072]);
    runs.extend(0..r.by(420, 2100));
    r.sweep("long runs", runs.len() as u64, "runs of zeros and nines of every length up to 420 (2100), around 32768 and 65536 and up to 131072, in front of and behind the dot, compensated by exponents", |c, i| {
        let n = runs[i as usize];
        c.nontrivial();
        let (z, nines) = ("0".repeat(n), "9".repeat(n));
        let mut all = vec![
            format!("0.{}1", z), format!("0.{}0", z), format!("0.{}12345678901234567890123", z), format!("0.{}1e{}", z, n), format!("0.{}1e{}", z, n + 1), format!("0.{}15e-{}", z, n),
            format!("-0.{}1e+{}", z, n + 400), format!("1.{}", z.clone() + "0"), format!("1.{}1", z), format!("-1.{}e-{}", nines.clone() + "1", n), format!("0.{}", nines.clone() + "9"),
            format!("0.{}e40000", z.clone() + "0"), format!("0.{}1e40000", z), format!("0.{}1e-40000", z), format!("0e{}", nines.clone() + "9"), format!("0.0e-{}", nines.clone() + "9"), format!("-0.{}e{}", z.clone() + "0", n + 1),
            format!("1e{}5", z), format!("1e-{}5", z), format!("1E+{}", z.clone() + "0"), format!("3e{}", nines.clone() + "9"), format!("-3e-{}", nines.clone() + "9"), format!("12.5e{}12", z),
        ];
        if n < 32700 {
            all.extend([format!("1{}", z), format!("1{}e-{}", z, n), format!("-1{}e-{}", z, n + 3), format!("{}5", nines), format!("1{}.5", z), format!("1{}.{}e-{}", z, nines.clone() + "7", n), format!("123{}e32767", z), format!("123{}e-32768", z)]);
        }
        for l in &all { one(c, l)? }
        if n < 100 { for l in &all { check(c, l)? } }
        Ok(())
    });

    // every exponent
    let lo = -70000i64;
    r.sweep("exponents", 140001, "every exponent from -70000 to 70000 with 14 mantissas, plain, with plus sign and leading zeros", |c, i| {
        let e = lo + i as i64;
        c.nontrivial();
        for m in ["0", "1", "-1", "10", "1.5", "0.001", "-0.0", "12345678901234567890", "18446744073709551615", "18446744073709551616", "99999999999999999999999.99", "-0.00000000000000000000000012345678901234567890123", "100000000000000000000000000000", "1.000000000000000000000000000"] {
            one(c, &format!("{}e{}", m, e))?;
        }
        let s = if e < 0 { format!("-{:09}", -e) } else { format!("+{:09}", e) };
        one(c, &format!("7E{}", s))?;
        one(c, &format!("[0.7e{}", s)[1..])
    });
    // digits before and behind the dot x exponents near every limit
    r.sweep("grid", 26 * 26 * 5 * 101, "0..25 digits before and behind the dot x exponents within 50 of 0, both ends of 16 bits and of 17 bits, 5 digit patterns, leading zeros", |c, i| {
        let (a, b) = ((i / (26 * 505)) as usize, (i / 505 % 26) as usize);
        let e = [0i64, 32767, -32768, 65536, -65536][(i / 101 % 5) as usize] + (i % 101) as i64 - 50;
        c.nontrivial();
        for p in ["1", "90", "0000000000000000000018", "1844674407370955161599", "5764607523034234880"] {
            let d: String = p.chars().cycle().take(a + b).collect();
            let int = if a == 0 { "0" } else { let t = &d[..a]; if t.starts_with('0') && t.len() > 1 { continue } t };
            let lit = if b == 0 { format!("{}e{}", int, e) } else { format!("{}.{}E{}", int, &d[a..], e) };
            one(c, &lit)?;
            if e % 5 == 0 { read(c, &format!("[-{}]", lit), |v| num(&v[0]), &format!("-{}", lit))? }
        }
        Ok(())
    });

    // exponents around every power of two and ten
    let mut big: Vec<String> = vec![];
    for k in 0..66u32 { for d in -6i128..=6 { big.push(((1i128 << k) + d).max(0).to_string()) } }
    for k in 0..40u32 { for d in -2i128..=2 { big.push((10u128.pow(k.min(38)) as i128 + d).max(0).to_string()) } }
    for p in ["9", "1", "0", "4294967296", "65536", "32768", "18446744073709551616"] { for n in 1..60 { big.push(p.chars().cycle().take(n).collect()) } }
    r.sweep("big exponents", big.len() as u64, "exponents around every power of two up to 2^65 and of ten, and of every digit pattern up to 60 digits", |c, i| {
        let e = &big[i as usize];
        c.nontrivial();
        for m in ["1", "-1", "0", "-0", "1.25", "0.0000125", "12345678901234567890.5", "0.00", "100000000000000000000000"] {
            for s in ["e", "e+", "e-", "E00", "e-00"] { one(c, &format!("{}{}{}", m, s, e))? }
        }
        Ok(())
    });

    // two literals that are nearly the same, in one document
    let forms = 6usize;
    let nl = r.by(26usize, 40);
    r.sweep("neighbours", (nl * 3 * forms) as u64, "literals of 1 to 26 (40) digits of 3 patterns in 6 forms, and every literal that differs from it by one character changed, added, cut or by a tail: behind it, with one between, in front of it, as elements and as members", |c, i| {
        let i = i as usize;
        let (n, pat, form) = (i / 3 / forms + 1, i / forms % 3, i % forms);
        c.nontrivial();
        let d: String = (0..n).map(|k| match pat { 0 => (b'1' + (k % 9) as u8) as char, 1 => '9', _ => if k == 0 { '1' } else { '0' } }).collect();
        let a = match form { 0 => d.clone(), 1 => format!("-{}", d), 2 => format!("{}.{}", &d[..1], &d[1..]), 3 => format!("{}.{}", &d[..(n + 1) / 2], &d[(n + 1) / 2..]), 4 => format!("{}e5", d), _ => format!("0.{}E-12", d) };
        let valid = |t: &str| matches!(mc::model::ref_parse(t), Ok(RV::Num(_))) && !t.starts_with(' ') && !t.ends_with(' ');
        if !valid(&a) { return Ok(()) }
        let mut bs: Vec<String> = ["", "0", "7", ".5", "e2", "E-3", ".0e1", ".00", "00000000", "12345678901234567890"].iter().map(|t| format!("{}{}", a, t)).collect();
        bs.push(if a.starts_with('-') { a[1..].into() } else { format!("-{}", a) });
        for k in 0..a.len() {
            bs.push(a[..k].into());
            bs.push(a[k..].into());
            for ch in "0159.eE-".chars() { bs.push(format!("{}{}{}", &a[..k], ch, &a[k + 1..])); bs.push(format!("{}{}{}", &a[..k], ch, &a[k..])) }
        }
        bs.retain(|b| valid(b));
        bs.sort();
        bs.dedup();
        let zero = "0".to_string();
        for b in &bs {
            for (text, at) in [(format!("[{},{}]", a, b), vec![&a, b]), (format!("[{},{},0,{},{}]", b, a, b, a), vec![b, &a, &zero, b, &a]), (format!("{{\"a\":{},\"b\":{}}}", a, b), vec![&a, b]), (format!("[\"{}\",{},[{}]]", a, b, a), vec![&a, b, &a])] {
                c.step();
                let v = json::parse(&text).map_err(|e| format!("{}: {}", text, e))?;
                for (k, l) in at.iter().enumerate() {
                    let x = if v.is_object() { &v[["a", "b"][k]] } else if v[k].is_array() { &v[k][0] } else { &v[k] };
                    if x.is_string() { continue }
                    let got = num(x).and_then(|n| Num::of(&n)).ok_or_else(|| format!("{}: number {} is {}", text, k, x.dump()))?;
                    Dec::read(l).read_as(&got).map_err(|e| format!("{}, number {}: {}", text, k, e))?;
                }
            }
        }
        Ok(())
    });
    // many numbers in one document
    r.sweep("sequences", 3000, "documents of 40 literals of different kinds: nothing carries over", |c, i| {
        let kinds = ["-1", "2", "-0", "0.5", "1e5", "-7.25E-3", "18446744073709551616", "0.1e-40000", "99999999999999999999", "1E400", "0", "-12345678901234567890123"];
        let (a, b) = ((i % 12) as usize, (i / 12 % 12) as usize);
        c.nontrivial();
        let lits: Vec<&str> = (0..40).map(|k| if k % 3 == 0 { kinds[a] } else if k % 3 == 1 { kinds[b] } else { kinds[(k + i as usize / 144) % 12] }).collect();
        let v = json::parse(&format!("[{}]", lits.join(","))).map_err(|e| e.to_string())?;
        for (k, l) in lits.iter().enumerate() {
            c.step();
            let n = num(&v[k]).and_then(|n| Num::of(&n)).ok_or(format!("{} not a number", l))?;
            Dec::read(l).read_as(&n).map_err(|e| format!("element {} of {:?}: {}", k, lits, e))?;
        }
        Ok(())
    });
    r.finish()
}
