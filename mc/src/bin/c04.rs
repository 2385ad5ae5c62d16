//! C04: parse errors name the right kind and the exact position.
use mc::gen::*;
use mc::model::machine::{Machine, Reject};
use mc::model::parse::{position, RErr};
use mc::model::*;
use mc::*;

mc::fast_alloc!();

fn check(c: &mut Ctl, text: &str) -> Res {
    c.step();
    let want = ref_parse(text);
    match (Machine::run(text), &want) {
        (Ok(m), Ok(_)) if m.accepting() => {}
        (Ok(m), Err(f)) if !m.accepting() && f[0] == RErr::Eof => {}
        (Err((p, Reject::Char)), Err(f)) if f.contains(&RErr::Char(p)) => {}
        (Err((_, Reject::Depth)), Err(f)) if f.contains(&RErr::Depth) => {}
        (Err((_, Reject::Surrogate)), Err(f)) if f.contains(&RErr::Surrogate) => {}
        x => { eprintln!("HARNESS: references disagree on {}: {:?}", q(&clip(text, 300)), x); std::process::exit(97) }
    }
    let (got, want) = match (json::parse(text), want) {
        (Ok(_), Ok(_)) => return Ok(()),
        (Err(e), Ok(_)) => return Err(format!("{}: error {} for a valid text", q(&clip(text, 160)), e)),
        (Ok(_), Err(f)) => return Err(format!("{}: no error, expected {:?}", q(&clip(text, 160)), f)),
        (Err(e), Err(f)) => (e, f),
    };
    judge(c, text, &got, &want)
}

fn judge(c: &mut Ctl, text: &str, got: &json::Error, want: &[RErr]) -> Res {
    let shown = got.to_string();
    let ok = want.iter().any(|w| match (w, got) {
        (RErr::Eof, json::Error::UnexpectedEndOfJson) => true,
        (RErr::Depth, json::Error::ExceededDepthLimit) => true,
        (RErr::Surrogate, json::Error::FailedUtf8Parsing) => true,
        (RErr::Char(p), json::Error::UnexpectedCharacter { ch, line, column }) => {
            let (c, l, k) = position(text, *p);
            *ch == c && *line == l && *column == k
        }
        _ => false,
    });
    c.outcome(match got { json::Error::UnexpectedEndOfJson => 1, json::Error::ExceededDepthLimit => 2, json::Error::FailedUtf8Parsing => 3, json::Error::UnexpectedCharacter { line, column, .. } => hash_bytes(format!("{} {}", line, column).as_bytes()), _ => 4 });
    let expect: Vec<String> = want.iter().map(|w| match w { RErr::Char(p) => { let (c, l, k) = position(text, *p); format!("character {:?} at {}:{}", c, l, k) } x => format!("{:?}", x) }).collect();
    if !ok { return Err(format!("{}: reported {:?}, expected {}", q(&clip(text, 200)), got, expect.join(" or "))) }
    // the printed form says the same
    if let json::Error::UnexpectedCharacter { ch, line, column } = got {
        let pos = format!("{}:{}", line, column);
        if !shown.contains(*ch) { return Err(format!("{}: error text {:?} does not show the character {:?}", q(&clip(text, 100)), shown, ch)) }
        let rest = shown.replacen(*ch, "", 1);
        let i = shown.rfind(&pos);
        let alone = i.map(|i| !shown[..i].ends_with(|c: char| c.is_ascii_digit()) && !shown[i + pos.len()..].starts_with(|c: char| c.is_ascii_digit()));
        if alone != Some(true) || rest.is_empty() { return Err(format!("{}: error text {:?} does not show the position {}", q(&clip(text, 100)), shown, pos)) }
    }
    let again = json::parse(text);
    match again { Err(e) if e.to_string() == shown => Ok(()), x => Err(format!("{}: parsing again gives {:?}", q(&clip(text, 100)), x.map(|v| v.dump()))) }
}

/// The same error under many layouts: lines and columns.
const GAPS: [&str; 9] = ["", " ", "\n", "\r", "\r\n", "\n\n ", "\t", "\u{b}", "\u{c}"];

fn main() {
    let mut r = Runner::new("C04");
    let probes = probe_chars();

    // every pair of viable symbol string and next character
    const SYM: &[&str] = &["[", "]", "{", "}", ",", ":", "\"", "0", "1", "-", ".", "e", "tr", "ue", " ", "\\", "u", "\n", "n", "ull", "a", "D83D", "dE", "+", "\u{e9}", "\u{1}", "DC00", "\u{1F600}"];
    let len = r.by(6, 7);
    r.dfs("strings", 0, "every string of up to 6 (7) symbols (28 symbols, with newlines and multi-byte characters) whose proper prefixes are viable", |c| {
        let mut m = Machine::new();
        let mut s = String::new();
        for _ in 0..len {
            let k = c.choose(SYM.len() + 1);
            if k == 0 { break }
            s.push_str(SYM[k - 1]);
            if !SYM[k - 1].chars().all(|ch| m.step(ch).is_ok()) { c.nontrivial(); break }
        }
        c.log(|| q(&s));
        check(c, &s)?;
        s.push(']');
        check(c, &s)
    });

    let docs: Vec<String> = DOCS.iter().map(|s| s.to_string()).chain([
        "\n{\n  \"k\u{e9}y\": [\n    1, \"\u{1F600}\\n\",\r\n\ttrue ],\n \"b\" : {\"\u{20ac}\":null}\n}\n".to_string(),
        "[\"\u{e9}\u{1F600}\",\"\\u00e9\\ud83d\\ude00\u{e9}\",\n\"\u{20ac}\u{20ac}\\\\\", 12.5E-3 ,{}]".to_string(),
        "{\"a\":\"\u{1F600}\u{1F600}\",\"\u{e9}\\t\u{e9}\":{\"\u{7ff}\":[false,-0.0]}}".to_string(),
    ]).collect();
    let mut edits: Vec<(usize, usize)> = Vec::new();
    for (d, s) in docs.iter().enumerate() { for (p, _) in s.char_indices() { edits.push((d, p)) } edits.push((d, s.len())) }
    let per = probes.len() as u64 * 2 + 3;
    r.sweep("edits", edits.len() as u64 * per, "every single insertion, replacement, deletion, doubling (151 characters) and truncation at every place of a corpus with multi-line and multi-byte documents", |c, i| {
        let (d, p) = edits[(i / per) as usize];
        let k = (i % per) as usize;
        let s = &docs[d];
        let here = s[p..].chars().next();
        let after = p + here.map(|c| c.len_utf8()).unwrap_or(0);
        let n = probes.len();
        let t = if k < n { format!("{}{}{}", &s[..p], probes[k], &s[p..]) }
            else if k < 2 * n { format!("{}{}{}", &s[..p], probes[k - n], &s[after..]) }
            else if k == 2 * n { s[..p].to_string() }
            else if k == 2 * n + 1 { format!("{}{}", &s[..p], &s[after..]) }
            else { format!("{}{}", &s[..after], &s[p..]) };
        c.nontrivial();
        c.log(|| q(&t));
        check(c, &t)
    });

    // layouts: all sequences of gaps between tokens, then an error
    let toks = ["[", "\"\u{e9}\\n\u{1F600}\"", ",", "{", "\"k\"", ":", "1"];
    let errs = ["x", "\u{e9}", "\u{1F600}", "]", "\"\n", "\u{2028}", "\u{feff}", "\"\\q", "-x", "tru3", "1.\u{20ac}", "\u{0}", "\u{7f}", "\r\u{a0}"];
    let gl = r.by(4, 6);
    r.dfs("layouts", 0, "every assignment of 9 kinds of whitespace to the gaps of a token sequence, cut after any token, followed by each of 14 erroneous continuations", |c| {
        let cut = c.choose(toks.len() + 1);
        let mut t = String::new();
        for i in 0..cut {
            if i < gl { t.push_str(*c.pick(&GAPS)) } else { t.push_str(GAPS[i % 9]) }
            t.push_str(toks[i]);
        }
        let g = *c.pick(&GAPS);
        t.push_str(g);
        c.nontrivial();
        for e in errs { check(c, &format!("{}{}", t, e))?; check(c, &format!("{}{}\n,", t, e))? }
        check(c, &t)
    });

    // every character as the unexpected one
    r.sweep("all characters", 0x110000, "every Unicode character where a value, a member, a separator, an escape, a hex digit or a literal character is expected", |c, i| {
        let ch = match char::from_u32(i as u32) { Some(x) => x, None => return Ok(()) };
        c.nontrivial();
        for t in [format!("[1,{}", ch), format!("{{\n\"\u{e9}\":\u{b}{}}}", ch), format!("\"\\{}\"", ch), format!("[0{}", ch)] { check(c, &t)? }
        if i < 0x3000 || i % 17 == 0 { for t in [format!("{}", ch), format!(" {}1", ch), format!("{{{}", ch), format!("tr{}e", ch), format!("\"\\u00{}0\"", ch), format!("[\"\u{1F600}\\ud83d{}", ch), format!("1e{}", ch), format!("-{}", ch), format!("{{\"a\"{}", ch), format!("{{\"a\":1,{}", ch), format!("[]\n{}", ch), format!("[\"a\"{}]", ch)] { check(c, &t)? } }
        Ok(())
    });

    r.sweep("after another", (LITS.len() * LITS.len()) as u64, "every pair of 44 literals of every kind, the second with every edit of one character (21 pieces inserted or put in place, or cut) at every place: as elements, members, within arrays and objects, as key and value", |c, i| {
        let (a, b) = (LITS[i as usize % LITS.len()], LITS[i as usize / LITS.len()]);
        c.nontrivial();
        for b in one_edit(b) { after_one_another(a, &b, |t| check(c, t))? }
        Ok(())
    });

    let edited: Vec<String> = LITS.iter().chain(DOCS).flat_map(|l| one_edit(l)).collect();
    let edited = &edited;
    r.sweep("at every address", edited.len() as u64, "every text one edit away from 44 literals and the corpus, as a slice of a longer text at 16 addresses, with digits, quotes, brackets or exponents around it", |c, i| {
        c.nontrivial();
        at_addresses(&edited[i as usize], |t| check(c, t))
    });
    // far positions
    let mut far: Vec<usize> = vec![(1 << 20) + 1, 70000, 65537, 65536, 65535, 40000, 32769, 32768, 32767, 16385, 16384, 10000, 8192, 4097, 4096, 4095];
    far.extend(0..r.by(1100, 4200));
    r.sweep("far", far.len() as u64, "the error after every number of lines, columns (1 to 4 byte characters), string characters, elements up to 1100 (4200), up to 70000, and 2^20 + 1", |c, i| {
        let n = far[i as usize];
        c.nontrivial();
        check(c, &format!("{}x", "\n".repeat(n)))?;
        check(c, &format!("{}\u{1F600}", " ".repeat(n)))?;
        check(c, &format!("[{}\r\n x", "\r\n".repeat(n)))?;
        for ch in ["a", "\u{e9}", "\u{20ac}", "\u{1F600}"] {
            check(c, &format!("[\"{}\"x", ch.repeat(n)))?;
            check(c, &format!("[\"{}\n", ch.repeat(n)))?;
            check(c, &format!("\n[\"{}\\q\"]", ch.repeat(n)))?;
            check(c, &format!("\n[\"{}", ch.repeat(n)))?;
        }
        check(c, &format!("[{}]]", "1,\n".repeat(n) + "2"))?;
        check(c, &format!("{{{}\"z\":?", (0..n.min(1000)).map(|i| format!("\"k{}\":1,", i)).collect::<String>()))?;
        if n < 32000 { check(c, &format!("[{}x", "1".repeat(n + 1)))?; }
        check(c, &format!("[0.{}-", "1".repeat(n + 1)))?;
        check(c, &format!("[0.{}", "1".repeat(n + 1)))?;
        check(c, &format!("\n1e{}.", "1".repeat(n + 1)))?;
        Ok(())
    });
    r.sweep("mixed far", r.by(260, 520) * 64, "a lines of b characters each, then an error in column k", |c, i| {
        let (a, b) = (i / 64, (i % 64) as usize);
        c.nontrivial();
        let line = format!("{}\n", "\"\u{e9}\",".repeat(b / 4) + &" ".repeat(b % 4));
        check(c, &format!("[{}{}\u{e9}", line.repeat(a as usize % 260), " ".repeat(b)))
    });

    let most = r.by(70u64, 260);
    r.sweep("one among many", most * RUNS.len() as u64, "every length up to 70 (260) of 18 kinds of runs (letters, wide characters, digits, blanks, elements, members, escapes) with each of 26 pieces (up to 64 also every ASCII character) at every place", |c, i| {
        c.nontrivial();
        one_stranger(i as usize % RUNS.len(), i as usize / RUNS.len(), |t| check(c, t))
    });

    // surrogate and depth failures
    r.sweep("surrogates", 0x800, "every surrogate unit alone, before another, before each kind of continuation", |c, i| {
        let u = 0xd800 + i;
        c.nontrivial();
        for tail in ["\"", "x\"", "\\", "\\n\"", "\\u", "\\u0", "\\u004", "\\u0041\"", "\\ud800\"", "\\udbff", "\\udc00\"", "\\udfff", "\\uDC0G", "", "\u{e9}", "\\u\u{e9}"] {
            check(c, &format!("\"\\u{:04x}{}", u, tail))?;
            check(c, &format!("{{\n\"\u{1F600}\\u{:04X}{}", u, tail))?;
        }
        Ok(())
    });
    r.sweep("depth", 620, "truncated and erroneous documents of every depth up to 620 around the limit", |c, i| {
        c.nontrivial();
        for unit in ["[", "{\"a\":", "\n[ ", "[{\"\u{e9}\":"] {
            let s = unit.repeat(i as usize);
            for e in ["", "1", "x", "]", "}", "{", "[", "{x", "[x", "[}", "{]", "{\"a\"", "[ ", "{ ", "{ }", "[ ] ]", "\"", "-", "\n\u{e9}", "[]", "{}x", "[,", "{1", "[\u{e9}", "[\""] { check(c, &format!("{}{}", s, e))? }
        }
        Ok(())
    });
    r.finish()
}
