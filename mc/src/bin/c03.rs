//! C03: string literals decode to the text they denote.
use mc::gen::*;
use mc::*;

mc::fast_alloc!();

/// None: has to be refused.
fn check(c: &mut Ctl, body: &str, want: Option<&str>) -> Res {
    one(c, body, want, 0)?;
    one(c, body, want, 1)?;
    one(c, body, want, 2)
}

fn one(c: &mut Ctl, body: &str, want: Option<&str>, place: usize) -> Res {
    c.step();
    let text = match place {
        0 => format!("\"{}\"", body),
        1 => format!("{{\"{}\":1}}", body),
        // after other escaped strings, followed by more
        _ => format!("[\"\\n1\",{{\"\\\\k\":\"\\t2\"}},\"{}\",\"\\n3\",\"q\"]", body),
    };
    let r = json::parse(&text);
    let lit = || q(&clip(&text, 160));
    match (r, want) {
        (Err(_), None) => Ok(()),
        (Ok(v), None) => Err(format!("{} decoded to {} although it denotes no text", lit(), q(&clip(&v.dump(), 100)))),
        (Err(e), Some(_)) => Err(format!("{} refused: {}", lit(), e)),
        (Ok(v), Some(w)) => {
            let bad = |got: Option<&str>| Err(format!("{} decoded to {}, expected {}", lit(), q(&clip(got.unwrap_or("<not a string>"), 120)), q(&clip(w, 120))));
            match place {
                0 => if v.as_str() == Some(w) { Ok(()) } else { bad(v.as_str()) },
                1 => { let k = v.entries().next().map(|e| e.0); if k == Some(w) && v.len() == 1 && v[w] == 1 { Ok(()) } else { bad(k) } }
                _ => {
                    if v[2].as_str() != Some(w) { return bad(v[2].as_str()) }
                    if v[0] != "\n1" || v[1]["\\k"] != "\t2" || v[3] != "\n3" || v[4] != "q" || v.len() != 5 { return Err(format!("{}: neighbouring strings changed: {}", lit(), q(&clip(&v.dump(), 200)))) }
                    Ok(())
                }
            }
        }
    }
}

const PIECES: &[(&str, &str)] = &[
    ("a", "a"), ("\u{e9}", "\u{e9}"), ("\u{20ac}", "\u{20ac}"), ("\u{10348}", "\u{10348}"), ("\u{7f}", "\u{7f}"), ("/", "/"), ("'", "'"), (" ", " "),
    ("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\b", "\u{8}"), ("\\f", "\u{c}"), ("\\/", "/"), ("\\\\", "\\"), ("\\\"", "\""),
    ("\\u0041", "A"), ("\\u00e9", "\u{e9}"), ("\\u0000", "\0"), ("\\uFfFf", "\u{ffff}"), ("\\ud83D\\uDe00", "\u{1F600}"), ("\\u0022", "\""), ("\\u005c", "\\"), ("\\uD7FF", "\u{d7ff}"), ("\\ue000", "\u{e000}"),
    ("n", "n"), ("u0041", "u0041"), ("\u{2028}", "\u{2028}"),
];
const BAD: &[&str] = &["\\x", "\\U0041", "\\u12", "\\u123", "\\u123g", "\\uD800", "\\uDC00", "\\uDC00\\uD800", "\\uD800\\uD800", "\\ud800\\u0041", "\\ud800\\n", "\\ud800a", "\\ud800\\", "\\udfff\\udfff", "\n", "\0", "\u{1f}", "\t", "\\\n", "\\0", "\\'", "\\ ", "\\u 041", "\\u+041", "\\u-041", "\\u004\u{e9}", "\\u\u{ff10}041"];

fn main() {
    let mut r = Runner::new("C03");
    let n = r.by(4, 5);
    r.dfs("pieces", 0, "every sequence of up to 4 (5) pieces: 28 valid raw characters and escapes, and at most one of 27 invalid ones; as value, key and between other escaped strings", |c| {
        let mut body = String::new();
        let mut want = Some(String::new());
        for _ in 0..n {
            let k = c.choose(1 + PIECES.len() + if want.is_some() { BAD.len() } else { 0 });
            if k == 0 { break }
            if k <= PIECES.len() {
                body.push_str(PIECES[k - 1].0);
                if let Some(w) = &mut want { w.push_str(PIECES[k - 1].1) }
            } else {
                // a bad piece: keep it short, followed by at most one more piece
                body.push_str(BAD[k - 1 - PIECES.len()]);
                want = None;
                let t = c.choose(5);
                body.push_str(["", "a", "\\n", "\\uDC00", "\\u0041"][t]);
                // a following escape may make the whole valid after all
                if let Some(s) = decode(&body) { want = Some(s) }
                break;
            }
        }
        // the reference decoder has the last word (pieces can combine: \ud800 + \uDC00)
        let d = decode(&body);
        if let (Some(a), Some(b)) = (&d, &want) { if a != b { eprintln!("HARNESS: decoder"); std::process::exit(97) } }
        c.visit(hash_bytes(d.as_deref().unwrap_or("\u{1}invalid").as_bytes()));
        c.log(|| q(&body));
        c.nontrivial();
        check(c, &body, d.as_deref())
    });

    r.sweep("units", 0x10000, "every code unit: both hex cases and mixed case, alone, surrounded, first, after a raw prefix of 29..33 bytes", |c, i| {
        c.nontrivial();
        let u = i as u32;
        let ch = char::from_u32(u).map(|x| x.to_string());
        for f in [format!("\\u{:04x}", u), format!("\\u{:04X}", u)] {
            check(c, &f, ch.as_deref())?;
            check(c, &format!("a{}\u{e9}", f), ch.as_ref().map(|x| format!("a{}\u{e9}", x)).as_deref())?;
            check(c, &format!("{}{}", f, f), ch.as_ref().map(|x| format!("{}{}", x, x)).as_deref())?;
        }
        if i % 16 < 5 { for n in [15, 29, 30, 31, 32, 33] {
            let p = ascii_of_len(n);
            one(c, &format!("{}\\u{:04x}", p, u), ch.as_ref().map(|x| format!("{}{}", p, x)).as_deref(), (i % 3) as usize)?;
        } }
        Ok(())
    });

    r.sweep("hex digits", 22u64.pow(4), "every spelling of four hex digits", |c, i| {
        const H: &[u8; 22] = b"0123456789abcdefABCDEF";
        let mut k = i;
        let mut s = String::from("\\u");
        for _ in 0..4 { s.push(H[(k % 22) as usize] as char); k /= 22 }
        c.nontrivial();
        let u = u32::from_str_radix(&s[2..], 16).unwrap();
        one(c, &s, char::from_u32(u).map(|x| x.to_string()).as_deref(), 0)
    });

    r.sweep("bad hex", 4 * 0x110000, "every Unicode character in place of each hex digit of an escape, in a first and in a second unit", |c, i| {
        let ch = match char::from_u32((i / 4) as u32) { Some(x) => x, None => return Ok(()) };
        c.nontrivial();
        for (first, rest) in [("", "0041"), ("\\ud83d", "de00"), ("", "ffff"), ("\\n", "00e9")] {
            let mut h: Vec<char> = rest.chars().collect();
            h[(i % 4) as usize] = ch;
            let s = format!("{}\\u{}", first, h.iter().collect::<String>());
            one(c, &s, decode(&s).as_deref(), (i % 3) as usize)?;
        }
        Ok(())
    });

    r.sweep("pairs", 1 << 20, "every valid surrogate pair, value; thorough: key and neighbours too", |c, i| {
        let (h, l) = (0xd800 + (i >> 10), 0xdc00 + (i & 0x3ff));
        c.nontrivial();
        let ch = char::from_u32(0x10000 + i as u32).unwrap().to_string();
        let s = format!("\\u{:04x}\\u{:04X}", h, l);
        one(c, &s, Some(&ch), 0)?;
        if i % 8 == 0 { one(c, &s, Some(&ch), 1 + (i / 8 % 2) as usize)?; }
        Ok(())
    });

    let step = r.by(16, 1);
    r.sweep("bad pairs", 2048 * 2048 / step, "every pair of surrogate units that is not high-low (quick: every 16th of the low bits), and every unit after a high one", |c, i| {
        let i = i * step + (i / 7) % step;
        let (a, b) = (0xd800 + (i >> 11), 0xd800 + (i & 0x7ff));
        let s = format!("\\u{:04x}\\u{:04x}", a, b);
        c.nontrivial();
        one(c, &s, decode(&s).as_deref(), (i % 3) as usize)
    });
    r.sweep("high then any", 0x10000, "every unit after a high surrogate, and every lone surrogate followed by each kind of thing", |c, i| {
        c.nontrivial();
        for s in [format!("\\ud800\\u{:04x}", i), format!("\\udbff\\u{:04x}", i), format!("\\uda55\\u{:04X}x", i), format!("\\u{:04x}\\udc00", i), format!("\\u{:04x}\\udfff", i)] { one(c, &s, decode(&s).as_deref(), (i % 3) as usize)? }
        Ok(())
    });

    r.sweep("raw", 0x110000, "every Unicode character raw, and raw before and after an escape", |c, i| {
        let ch = match char::from_u32(i as u32) { Some(x) => x, None => return Ok(()) };
        if ch == '"' || ch == '\\' { return Ok(()) }
        c.nontrivial();
        let ok = i >= 0x20;
        for (b, w) in [(format!("{}", ch), format!("{}", ch)), (format!("x{}\\n", ch), format!("x{}\n", ch)), (format!("\\t{}y", ch), format!("\t{}y", ch))] {
            one(c, &b, if ok { Some(&w) } else { None }, 0)?;
            if i < 0x1000 || i % 64 == 0 { check(c, &b, if ok { Some(&w) } else { None })? }
        }
        Ok(())
    });

    let max = r.by(90, 300);
    r.sweep("positions", max * max, "every length up to the bound x every position of one escape (9 kinds), ASCII and mixed-width text", |c, i| {
        let (n, p) = ((i / max) as usize, (i % max) as usize);
        if p > n { return Ok(()) }
        c.nontrivial();
        let kinds = [("\\n", "\n"), ("\\\\", "\\"), ("\\\"", "\""), ("\\u00e9", "\u{e9}"), ("\\ud83d\\ude00", "\u{1f600}"), ("\\u0000", "\0"), ("\\/", "/"), ("\\u20ac", "\u{20ac}"), ("\\b", "\u{8}")];
        for (k, (e, d)) in kinds.iter().enumerate() {
            let (a, b) = (if k % 2 == 0 { ascii_of_len(p) } else { text_of_len(p) }, if k % 3 == 0 { text_of_len(n - p) } else { ascii_of_len(n - p) });
            one(c, &format!("{}{}{}", a, e, b), Some(&format!("{}{}{}", a, d, b)), (n + p + k) % 3)?;
        }
        Ok(())
    });

    let mut sizes: Vec<usize> = vec![(1 << 22) + 1, (1 << 20) + 1, 1 << 20, (1 << 20) - 1, 1_000_000, 131073, 70000, 65537, 65536, 65535, 32769, 32768, 32767, 16385, 16384, 16383, 8193, 8192, 8191];
    sizes.extend(0..r.by(4200, 17000));
    r.sweep("lengths", sizes.len() as u64, "strings of every length up to 4200 (17000) and up to 2^22, plain, all escapes, and with the escape first, in the middle and last", |c, i| {
        let n = sizes[i as usize];
        c.nontrivial();
        let a = ascii_of_len(n);
        let t = text_of_len(n);
        check(c, &a, Some(&a))?;
        one(c, &t, Some(&t), n % 3)?;
        one(c, &format!("{}\\n", a), Some(&format!("{}\n", a)), (n + 1) % 3)?;
        one(c, &format!("\\n{}", t), Some(&format!("\n{}", t)), (n + 2) % 3)?;
        let m = n / 2;
        one(c, &format!("{}\\u00e9{}", &a[..m], &a[m..]), Some(&format!("{}\u{e9}{}", &a[..m], &a[m..])), n % 3)?;
        if n < 1100 || n > 8000 && n < 70000 {
            one(c, &"\\\\".repeat(n), Some(&"\\".repeat(n)), (n + 1) % 3)?;
            one(c, &"\\u20ac".repeat(n), Some(&"\u{20ac}".repeat(n)), (n + 2) % 3)?;
            one(c, &"\\ud83d\\uDE00x".repeat(n), Some(&"\u{1f600}x".repeat(n)), n % 3)?;
        }
        Ok(())
    });

    // two texts that are nearly the same, in one document
    let nl = r.by(44usize, 80);
    r.sweep("neighbours", (nl * 6) as u64, "literals of up to 43 (79) characters with an escape in front, in the middle, behind, two, none or of long characters, and every one that differs from it by a character changed, added, cut, or by a tail: as elements, as keys of one object and of two, as key and value", |c, i| {
        let (n, form) = (i as usize / 6, i as usize % 6);
        let d = ascii_of_len(n);
        c.nontrivial();
        let parts: Vec<(String, String)> = {
            let mut v: Vec<(String, String)> = if form == 5 { text_of_len(n).chars().map(|ch| (ch.to_string(), ch.to_string())).collect() } else { d.chars().map(|ch| (ch.to_string(), ch.to_string())).collect() };
            let e = || ("\\n".to_string(), "\n".to_string());
            let u = || ("\\u00e9".to_string(), "\u{e9}".to_string());
            let len = v.len();
            match form { 0 => {} 1 => v.insert(0, e()), 2 => v.insert(len / 2, u()), 3 => v.push(e()), 4 => { v.insert(0, e()); v.push(u()) } _ => v.insert(len / 2, e()) }
            v
        };
        let lit = |p: &[(String, String)]| p.iter().map(|x| x.0.as_str()).collect::<String>();
        let txt = |p: &[(String, String)]| p.iter().map(|x| x.1.as_str()).collect::<String>();
        let (al, at) = (lit(&parts), txt(&parts));
        let some: [(&str, &str); 5] = [("!", "!"), ("\\n", "\n"), ("\\u0041", "A"), ("\u{e9}", "\u{e9}"), ("\\\"", "\"")];
        let mut bs: Vec<(String, String)> = vec![(al.clone(), at.clone())];
        for k in 0..=parts.len() {
            bs.push((lit(&parts[..k]), txt(&parts[..k])));
            bs.push((lit(&parts[k..]), txt(&parts[k..])));
            for (l, t) in some {
                bs.push((format!("{}{}{}", lit(&parts[..k]), l, lit(&parts[k..])), format!("{}{}{}", txt(&parts[..k]), t, txt(&parts[k..]))));
                if k < parts.len() { bs.push((format!("{}{}{}", lit(&parts[..k]), l, lit(&parts[k + 1..])), format!("{}{}{}", txt(&parts[..k]), t, txt(&parts[k + 1..])))) }
            }
        }
        for (bl, bt) in &bs {
            c.steps(4);
            let bad = |text: &str, v: &json::JsonValue| Err(format!("{} read as {}", q(&clip(text, 300)), q(&clip(&v.dump(), 300))));
            let text = format!("[\"{}\",\"{}\",0,\"{}\",\"{}\"]", al, bl, al, bl);
            let v = json::parse(&text).map_err(|e| format!("{}: {}", q(&text), e))?;
            if v.len() != 5 || v[0] != at || v[1] != *bt || v[2] != 0 || v[3] != at || v[4] != *bt { return bad(&text, &v) }
            let text = format!("{{\"{}\":1,\"{}\":2,\"\":\"{}\"}}", al, bl, bl);
            let v = json::parse(&text).map_err(|e| format!("{}: {}", q(&text), e))?;
            let mut want: Vec<(&str, json::JsonValue)> = vec![(&at, 1.into())];
            for (k, x) in [(bt.as_str(), json::JsonValue::from(2)), ("", bt.as_str().into())] { match want.iter_mut().find(|w| w.0 == k) { Some(w) => w.1 = x, None => want.push((k, x)) } }
            if !v.entries().map(|(k, v)| (k, v.clone())).eq(want.iter().cloned()) || want.iter().any(|w| v[w.0] != w.1) { return bad(&text, &v) }
            let text = format!("[{{\"x\":0,\"{}\":1}},{{\"x\":0,\"{}\":\"{}\"}},{{\"{}\":3}}]", al, bl, al, bl);
            let v = json::parse(&text).map_err(|e| format!("{}: {}", q(&text), e))?;
            let has = |k: usize, n: usize, key: &str| v[k].entries().nth(n).map(|e| e.0) == Some(key) && v[k].has_key(key);
            if at != "x" && bt != "x" && (!has(0, 1, &at) || !has(1, 1, bt) || v[1][bt.as_str()] != at || !has(2, 0, bt) || v[0].len() + v[1].len() + v[2].len() != 5) { return bad(&text, &v) }
            let text = format!("{{\"{}\":\"{}\"}}", bl, al);
            let v = json::parse(&text).map_err(|e| format!("{}: {}", q(&text), e))?;
            if v.len() != 1 || v.entries().next().map(|e| e.0 == bt && *e.1 == at) != Some(true) { return bad(&text, &v) }
        }
        Ok(())
    });
    r.sweep("many strings", r.by(300, 1500), "documents with n escaped strings as keys and values, each of its own length", |c, i| {
        let n = i as usize;
        c.nontrivial();
        let t = format!("[{}]", (0..n).map(|k| format!("{{\"k\\n{}\":\"{}\\t{}\"}}", k, ascii_of_len(k % 61), k)).collect::<Vec<_>>().join(","));
        let v = json::parse(&t).map_err(|e| format!("{} strings: {}", n, e))?;
        for k in 0..n {
            let e = v[k].entries().next();
            let key = format!("k\n{}", k);
            let val = format!("{}\t{}", ascii_of_len(k % 61), k);
            match e { Some((a, b)) if a == key && b.as_str() == Some(&val) => {} x => return Err(format!("string {} of {}: got {:?}, expected {:?}: {:?}", k, n, x, key, val)) }
        }
        Ok(())
    });
    r.finish()
}

/// Independent decoder of a string body; None if it is not a valid literal.
fn decode(b: &str) -> Option<String> {
    let t: Vec<char> = b.chars().collect();
    let mut units: Vec<u16> = Vec::new();
    let mut i = 0;
    let mut o = String::new();
    let flush = |units: &mut Vec<u16>, o: &mut String| -> Option<()> { o.push_str(&String::from_utf16(units).ok()?); units.clear(); Some(()) };
    while i < t.len() {
        if t[i] == '\\' {
            let e = *t.get(i + 1)?;
            if e == 'u' {
                if i + 6 > t.len() { return None }
                let h: String = t[i + 2..i + 6].iter().collect();
                if !h.bytes().all(|x| x.is_ascii_hexdigit()) { return None }
                units.push(u16::from_str_radix(&h, 16).ok()?);
                i += 6;
                continue;
            }
            flush(&mut units, &mut o)?;
            o.push(match e { 'n' => '\n', 't' => '\t', 'r' => '\r', 'b' => '\u{8}', 'f' => '\u{c}', '/' => '/', '\\' => '\\', '"' => '"', _ => return None });
            i += 2;
        } else {
            flush(&mut units, &mut o)?;
            if (t[i] as u32) < 0x20 || t[i] == '"' { return None }
            o.push(t[i]);
            i += 1;
        }
    }
    flush(&mut units, &mut o)?;
    Some(o)
}
