//! C14: serialized strings are valid and denote exactly the original text.
use json::JsonValue;
use mc::gen::*;
use mc::*;

mc::fast_alloc!();

/// `lit` must be a literal in which exactly the quote, the backslash and the
/// control characters are escaped, and denote `s`.
fn judge(lit: &str, s: &str, how: &str) -> Res {
    let bad = |why: &str| Err(format!("text {} {} as {}: {}", q(&clip(s, 100)), how, q(&clip(lit, 140)), why));
    let b = match lit.strip_prefix('"').and_then(|x| x.strip_suffix('"')) { Some(b) if lit.len() >= 2 => b, _ => return bad("not quoted") };
    let mut want = s.chars();
    let mut it = b.chars();
    while let Some(c) = it.next() {
        let w = match want.next() { Some(w) => w, None => return bad("denotes more than the text") };
        match c {
            '"' => return bad("unescaped quote"),
            '\\' => {
                if !(w == '"' || w == '\\' || (w as u32) < 0x20) { return bad("a character that needs no escape is escaped") }
                let got = match it.next() {
                    Some('n') => '\n', Some('t') => '\t', Some('r') => '\r', Some('b') => '\u{8}', Some('f') => '\u{c}', Some('"') => '"', Some('\\') => '\\', Some('/') => '/',
                    Some('u') => {
                        let h: String = it.by_ref().take(4).collect();
                        if h.len() != 4 || !h.bytes().all(|x| x.is_ascii_hexdigit()) { return bad("bad hex digits") }
                        match char::from_u32(u32::from_str_radix(&h, 16).unwrap()) { Some(c) => c, None => return bad("lone surrogate") }
                    }
                    _ => return bad("unknown escape"),
                };
                if got != w { return bad("denotes another text") }
            }
            c if (c as u32) < 0x20 => return bad("raw control character"),
            c => if c != w { return bad("denotes another text") },
        }
    }
    if want.next().is_some() { return bad("denotes less than the text") }
    Ok(())
}

/// Both storages, as value and key, by every route.
fn check(c: &mut Ctl, s: &str) -> Res {
    one(c, s)?;
    let v = JsonValue::from(s);
    c.steps(6);
    judge(&v.pretty(2), s, "pretty-printed")?;
    let mut w = Vec::new();
    v.write(&mut w).map_err(|e| e.to_string())?;
    judge(std::str::from_utf8(&w).map_err(|_| "not UTF-8")?, s, "written")?;
    let mut w = Vec::new();
    v.write_pretty(&mut w, 2).map_err(|e| e.to_string())?;
    judge(std::str::from_utf8(&w).map_err(|_| "not UTF-8")?, s, "written pretty")?;
    judge(&json::stringify(s), s, "stringified")?;
    {
        use json::codegen::Generator;
        let mut g = json::codegen::DumpGenerator::new();
        g.write_string(s).map_err(|e| e.to_string())?;
        judge(&g.consume(), s, "given to a generator")?;
        let mut w = Vec::new();
        json::codegen::PrettyWriterGenerator::new(&mut w, 2).write_string(s).map_err(|e| e.to_string())?;
        judge(std::str::from_utf8(&w).map_err(|_| "not UTF-8")?, s, "given to a pretty writing generator")?;
    }
    let mut o = json::object::Object::new();
    o.insert(s, JsonValue::Null);
    let p = o.pretty(1);
    judge(p.strip_prefix("{\n ").and_then(|x| x.strip_suffix(": null\n}")).unwrap_or(&p), s, "pretty-printed as key")?;
    let mut w = Vec::new();
    JsonValue::Object(o).write(&mut w).map_err(|e| e.to_string())?;
    let t = String::from_utf8(w).map_err(|_| "not UTF-8")?;
    judge(t.strip_prefix('{').and_then(|x| x.strip_suffix(":null}")).unwrap_or(&t), s, "written as key")
}

fn one(c: &mut Ctl, s: &str) -> Res {
    c.steps(3);
    let d = JsonValue::from(s).dump();
    judge(&d, s, "dumped")?;
    let h = JsonValue::String(s.to_string()).dump();
    if h != d { judge(&h, s, "dumped from the heap")? }
    let mut o = json::object::Object::new();
    o.insert(s, JsonValue::Boolean(true));
    let t = o.dump();
    judge(t.strip_prefix('{').and_then(|x| x.strip_suffix(":true}")).unwrap_or(&t), s, "dumped as key")
}

fn main() {
    let mut r = Runner::new("C14");
    r.sweep("characters", 0x110000, "every Unicode character alone, doubled, surrounded by ASCII, by multi-byte text, before and after an escape", |c, i| {
        let ch = match char::from_u32(i as u32) { Some(x) => x, None => return Ok(()) };
        c.nontrivial();
        if i < 0x400 || i % 128 == 0 { check(c, &ch.to_string())? } else { one(c, &ch.to_string())? }
        for s in [format!("a{}b", ch), format!("\u{e9}{}\u{1F600}", ch), format!("\n{}", ch), format!("{}\"{}", ch, ch), format!("\\{}", ch)] { one(c, &s)? }
        Ok(())
    });
    r.sweep("pairs", 0x180 * 0x180, "every pair of characters up to U+017F", |c, i| {
        let (a, b) = (char::from_u32((i / 0x180) as u32).unwrap(), char::from_u32((i % 0x180) as u32).unwrap());
        c.nontrivial();
        one(c, &format!("{}{}", a, b))
    });
    let pre = r.by(2usize, 6);
    r.sweep("triples", 128 * 128, "every three ASCII characters in a row, at the start and behind an escape (and behind and before four other texts)", |c, i| {
        let (a, b) = ((i / 128) as u8 as char, (i % 128) as u8 as char);
        c.nontrivial();
        let mut s = String::new();
        for x in 0..128u8 {
            for (p, e) in &[("", ""), ("\"", ""), ("\n", "a"), ("\u{e9}", "\\"), ("abcdefgh", ""), ("", "12345678")][..pre] {
                s.clear();
                s.push_str(p);
                s.push(a);
                s.push(b);
                s.push(x as char);
                s.push_str(e);
                one(c, &s)?;
            }
        }
        Ok(())
    });
    let frag = ["a", "\"", "\\", "\n", "\u{0}", "\u{1f}", "/", "\u{7f}", "\u{e9}", "\u{20ac}", "\u{1F600}", "\u{80}", "u", "\u{8}"];
    let fl = r.by(5, 6);
    r.dfs("fragments", 0, "every string of up to 5 (6) fragments of 14 kinds", |c| {
        let n = c.choose(fl + 1);
        let s: String = (0..n).map(|_| *c.pick(&frag)).collect();
        c.nontrivial();
        c.log(|| q(&s));
        one(c, &s)
    });
    // two texts in one value
    let mut texts: Vec<String> = vec![];
    for n in [0usize, 1, 2, 7, 8, 9, 15, 16, 17, 29, 30, 31, 32, 33, 64, 65, 130] {
        let a = ascii_of_len(n);
        texts.push(a.clone());
        texts.push(wide_of_len(2 + n % 3, n.max(4)));
        for e in ["\"", "\n", "\u{1}", "\u{e9}", "\u{2028}", "\u{1F600}", "\\"] { texts.push(format!("{}{}", e, a)); texts.push(format!("{}{}", a, e)); texts.push(format!("{}{}{}", &a[..n / 2], e, &a[n / 2..])) }
    }
    texts.sort();
    texts.dedup();
    let (nt, texts) = (texts.len(), &texts);
    r.sweep("two texts", (nt * nt) as u64, "every pair of some 350 texts (17 lengths x escapes and wide characters first, in the middle and last) in one array and as key and value, by every route: the literals are those of the texts alone", |c, i| {
        let (s, t) = (&texts[i as usize % nt], &texts[i as usize / nt]);
        c.nontrivial();
        c.steps(6);
        let (ls, lt) = (JsonValue::from(s.as_str()).dump(), JsonValue::from(t.as_str()).dump());
        if i as usize / nt == 0 { judge(&ls, s, "dumped")? }
        let mut o = json::object::Object::new();
        o.insert(s, t.as_str().into());
        let v = JsonValue::Array(vec![s.as_str().into(), JsonValue::String(t.clone()), s.as_str().into(), JsonValue::Object(o)]);
        let want = format!("[{},{},{},{{{}:{}}}]", ls, lt, ls, ls, lt);
        let pretty = format!("[\n {},\n {},\n {},\n {{\n  {}: {}\n }}\n]", ls, lt, ls, ls, lt);
        let (mut w, mut wp) = (Vec::new(), Vec::new());
        v.write(&mut w).map_err(|e| e.to_string())?;
        v.write_pretty(&mut wp, 1).map_err(|e| e.to_string())?;
        for (got, want, how) in [(v.dump(), &want, "dumped"), (v.to_string(), &want, "displayed"), (String::from_utf8_lossy(&w).to_string(), &want, "written"), (v.pretty(1), &pretty, "pretty-printed"), (String::from_utf8_lossy(&wp).to_string(), &pretty, "written pretty")] {
            if got != *want { return Err(format!("{} and {} {} as {}", q(&clip(s, 100)), q(&clip(t, 100)), how, q(&clip(&got, 300)))) }
        }
        Ok(())
    });
    r.sweep("at every address", nt as u64 * 40, "the same texts, and every length up to 40 with one escape at every place, as slices of longer texts at 16 addresses", |c, i| {
        c.nontrivial();
        let (n, p) = (i as usize / nt, i as usize % nt);
        if n == 0 { return at_addresses(&texts[p], |t| check(c, t)) }
        if p > n { return Ok(()) }
        let a = ascii_of_len(n);
        at_addresses(&format!("{}{}{}", &a[..p], ["\"", "\u{7}", "\\"][p % 3], &a[p..]), |t| check(c, t))
    });
    // positions x lengths x special bytes
    let special: Vec<char> = (0..0x20u8).map(|b| b as char).chain(['"', '\\', '\u{7f}', '/', '\u{80}', '\u{e9}', '\u{2028}', '\u{10348}']).collect();
    let max = r.by(140u64, 300);
    r.sweep("positions", max * max, "every length up to 140 (300) x every position x 40 special characters in ASCII text, and in mixed-width text", |c, i| {
        let (n, p) = ((i / max) as usize, (i % max) as usize);
        if p >= n { return Ok(()) }
        c.nontrivial();
        let (a, b) = (ascii_of_len(p), ascii_of_len(n - 1 - p));
        for ch in &special { one(c, &format!("{}{}{}", a, ch, b))? }
        for ch in ['"', '\u{1}', '\\'] { one(c, &format!("{}{}{}", text_of_len(p), ch, text_of_len(n - 1 - p)))? }
        Ok(())
    });
    let m2 = r.by(40usize, 72);
    r.sweep("two specials", (m2 * m2 * m2) as u64, "every length up to 40 (72) x every pair of positions of two escaped characters", |c, i| {
        let (n, p, k) = (i as usize / (m2 * m2), i as usize / m2 % m2, i as usize % m2);
        if p >= k || k >= n { return Ok(()) }
        c.nontrivial();
        for (x, y) in [(b'"', b'\\'), (b'\n', 1), (0, b'"'), (0x1f, 0x1f)] {
            let mut s = ascii_of_len(n).into_bytes();
            s[p] = x;
            s[k] = y;
            one(c, std::str::from_utf8(&s).unwrap())?;
        }
        Ok(())
    });
    r.sweep("runs", 40 * 300, "runs of one special character of every length up to 300, alone, in front of, behind and between text", |c, i| {
        let ch = special[(i / 300) as usize];
        let run: String = std::iter::repeat(ch).take((i % 300) as usize).collect();
        c.nontrivial();
        for s in [run.clone(), format!("x{}", run), format!("{}y", run), format!("{}{}{}", text_of_len(31), run, text_of_len(31))] { one(c, &s)? }
        Ok(())
    });
    let mut sizes: Vec<usize> = vec![2_000_000, 131073, 70000, 65537, 65536, 65535, 32769, 32768, 32767, 16385, 16384, 16383];
    sizes.extend(0..r.by(9000, 20000));
    r.sweep("lengths", sizes.len() as u64, "every length up to 9000 (20000) and up to 2*10^6: plain, one escape first, last and in the middle, mixed widths", |c, i| {
        let n = sizes[i as usize];
        c.nontrivial();
        let a = ascii_of_len(n);
        if n % 64 == 0 || n < 200 { check(c, &a)?; check(c, &text_of_len(n))? } else { one(c, &a)? }
        one(c, &format!("\u{2}{}", a))?;
        one(c, &format!("{}\"", a))?;
        one(c, &format!("{}\n{}", &a[..n / 2], text_of_len(n - n / 2)))
    });
    // several strings in one document: every one stands on its own
    let some = ["", "a", "\"", "\\", "\n\u{0}", "\u{1F600}\t", "a\"b\\c", "\u{1f}x", "plain text that is longer than thirty bytes", "escaped text that is longer \u{1} than thirty bytes"];
    r.dfs("sequences", 0, "every sequence of up to 4 strings of 10 kinds as elements and as keys and values of one document", |c| {
        let n = c.choose(4) + 1;
        let xs: Vec<&str> = (0..n).map(|_| *c.pick(&some)).collect();
        c.nontrivial();
        c.step();
        let want = format!("[{}]", xs.iter().map(|x| JsonValue::from(*x).dump()).collect::<Vec<_>>().join(","));
        let got = JsonValue::from(xs.clone()).dump();
        if got != want { return Err(format!("{:?} dumps {}, expected {}", xs, got, want)) }
        let mut o = json::object::Object::new();
        for (i, x) in xs.iter().enumerate() { o.insert(&format!("{}{}", i, x), JsonValue::from(*x)) }
        let got = o.dump();
        let want = format!("{{{}}}", xs.iter().enumerate().map(|(i, x)| format!("{}:{}", JsonValue::from(format!("{}{}", i, x)).dump(), JsonValue::from(*x).dump())).collect::<Vec<_>>().join(","));
        if got != want { return Err(format!("{:?} dumps {}, expected {}", xs, got, want)) }
        Ok(())
    });
    r.finish()
}
