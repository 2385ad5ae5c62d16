//! C01: parse accepts exactly the JSON grammar.
use mc::gen::*;
use mc::model::machine::{Machine, M};
use mc::model::*;
use mc::*;

mc::fast_alloc!();
use std::collections::HashSet;

fn accepts(c: &mut Ctl, s: &str) -> bool { c.step(); json::parse(s).is_ok() }

fn verdict(c: &mut Ctl, s: &str, want: bool) -> Res {
    let got = accepts(c, s);
    if got != want {
        return Err(format!("{} {} the text {} ({} bytes)", if got { "accepted" } else { "refused" },
            if want { "valid" } else { "invalid" }, q(&clip(s, 200)), s.len()));
    }
    Ok(())
}

/// Machine and recursive-descent reference have to agree; they are independent.
fn expected(s: &str) -> bool {
    let a = Machine::accepts(s);
    let b = ref_parse(s).is_ok();
    if a != b { eprintln!("HARNESS: references disagree on {}", q(s)); std::process::exit(97) }
    a
}

const SYM: &[&str] = &["[", "]", "{", "}", ",", ":", "\"", "0", "1", "-", ".", "e", "t", " ", "\\", "u", "n", "r", "ul", "rue", "a", "D83D", "E", "+", "\n", "\u{e9}", "\u{1}", "DC00", "/", "ull", "alse", "f"];

const TOKENS: &[&str] = &["[", "]", "{", "}", ",", ":", "\"a\"", "1", "\"\\n\"", "null", " ", "-0.5e1", "true", "\"\"", "false", "\n", "\"b\":", "[]", "{}"];

/// Reachable abstract states of the grammar automaton with a witness text each.
fn states(max_stack: usize) -> Vec<(String, Machine)> {
    let chars: Vec<char> = "[]{},:\"01-.eE+trufalsn \\/bD8dC0".chars().chain(['\u{e9}', '\n']).collect();
    let mut seen: HashSet<Machine> = HashSet::new();
    let mut out = vec![(String::new(), Machine::new())];
    seen.insert(Machine::new());
    let mut i = 0;
    while i < out.len() {
        let (w, m) = out[i].clone();
        for c in &chars {
            let mut n = m.clone();
            if n.step(*c).is_ok() && n.stack.len() <= max_stack && seen.insert(n.canon()) {
                let mut w2 = w.clone();
                w2.push(*c);
                out.push((w2, n));
            }
        }
        i += 1;
    }
    out
}

fn main() {
    let mut r = Runner::new("C01");

    // 1. every state of the automaton x every probe character
    let st = states(r.by(3, 4));
    let probes = probe_chars();
    let n = st.len() as u64 * (probes.len() as u64 + 1);
    r.sweep("automaton", n, "every reachable state of the grammar automaton with at most 3 (thorough 4) open containers x every ASCII and 23 other characters: the text so far, the text plus the character, and its shortest completion are all judged as the automaton does", |c, i| {
        let (w, m) = &st[(i / (probes.len() as u64 + 1)) as usize];
        let k = (i % (probes.len() as u64 + 1)) as usize;
        c.visit_bytes(format!("{:?}", m).as_bytes());
        if k == probes.len() {
            c.log(|| format!("{:?} via {}", m.mode, q(w)));
            verdict(c, w, m.accepting())?;
            if let Some(t) = m.completion() { c.nontrivial(); verdict(c, &format!("{}{}", w, t), true)?; }
            return Ok(());
        }
        let mut t = w.clone();
        t.push(probes[k]);
        c.log(|| format!("{:?} + {:?}", m.mode, probes[k]));
        let mut x = m.clone();
        match x.step(probes[k]) {
            Err(_) => {
                c.tag("rejecting transition");
                verdict(c, &t, false)?;
                for tail in ["\"", "]", "}", "0", "null", "\"]", "\"}", "]}]}"] { verdict(c, &format!("{}{}", t, tail), false)? }
            }
            Ok(()) => {
                c.nontrivial();
                c.tag("accepting transition");
                verdict(c, &t, x.accepting())?;
                if let Some(e) = x.completion() { verdict(c, &format!("{}{}", t, e), true)?; }
            }
        }
        Ok(())
    });

    // 2. every string over the symbols all of whose proper prefixes are viable
    let len = r.by(6, 7);
    r.dfs("strings", 0, "every symbol string up to the length bound whose proper prefixes can all be continued to a document (other strings are refused at their first error)", |c| {
        let mut m = Machine::new();
        let mut s = String::new();
        for _ in 0..len {
            let k = c.choose(SYM.len() + 1);
            if k == 0 { break }
            let sym = SYM[k - 1];
            s.push_str(sym);
            let ok = sym.chars().all(|ch| m.step(ch).is_ok());
            if !ok { return verdict(c, &s, false) }
            if matches!(m.mode, M::Str(_, mc::model::machine::S::U2(..))) && m.completion().is_none() { return verdict(c, &s, false) }
        }
        c.log(|| q(&s));
        if m.accepting() { c.nontrivial() }
        verdict(c, &s, m.accepting())?;
        if let Some(t) = m.completion() { verdict(c, &format!("{}{}", s, t), true)? }
        Ok(())
    });

    // 3. every token string, viable or not
    let tl = r.by(5, 6);
    r.dfs("tokens", 0, "every string of tokens up to the bound, judged by both references", |c| {
        let mut s = String::new();
        for _ in 0..tl {
            let k = c.choose(TOKENS.len() + 1);
            if k == 0 { break }
            s.push_str(TOKENS[k - 1]);
        }
        let w = expected(&s);
        if w { c.nontrivial() }
        verdict(c, &s, w)
    });

    // 4. single edits of documents
    let docs: Vec<String> = DOCS.iter().map(|s| s.to_string()).collect();
    let mut edits: Vec<(usize, usize)> = Vec::new();
    for (d, s) in docs.iter().enumerate() { for (p, _) in s.char_indices() { edits.push((d, p)) } edits.push((d, s.len())) }
    r.sweep("edits", edits.len() as u64 * (probes.len() as u64 * 2 + 3), "every document of a corpus with one character inserted, replaced, deleted or doubled at every position, and truncated there, judged by both references", |c, i| {
        let per = probes.len() as u64 * 2 + 3;
        let (d, p) = edits[(i / per) as usize];
        let k = (i % per) as usize;
        let s = &docs[d];
        let next = s[p..].chars().next();
        let mut t = s[..p].to_string();
        let rest = |n: Option<char>| &s[p + n.map(|c| c.len_utf8()).unwrap_or(0)..];
        if k < probes.len() { t.push(probes[k]); t.push_str(&s[p..]) }
        else if k < 2 * probes.len() { if next.is_none() { return Ok(()) } t.push(probes[k - probes.len()]); t.push_str(rest(next)) }
        else if k == 2 * probes.len() { t.push_str(rest(next)) }
        else if k == 2 * probes.len() + 1 { if let Some(n) = next { t.push(n); t.push_str(&s[p..]) } }
        c.log(|| q(&t));
        let w = expected(&t);
        if !w { c.nontrivial() }
        verdict(c, &t, w)
    });

    // 5. every Unicode scalar value in each kind of place
    r.sweep("characters", 0x110000, "every Unicode scalar value inside a string, as a key, between tokens, inside a number, a word and an escape", |c, i| {
        let ch = match char::from_u32(i as u32) { Some(x) => x, None => return Ok(()) };
        c.nontrivial();
        for (a, b) in [("\"", "\""), ("[\"x", "y\"]"), ("{\"", "\":1}"), ("", ""), ("", "1"), ("1", ""), ("[1", ",2]"), ("{\"a\"", ":1}"), ("\"\\", "\""), ("t", "ue"), ("-", ""), ("1.", ""), ("1e", "5"), ("{", "\"a\":1}"), ("\"\\u004", "\""), ("\"\\ud83d", "udE00\""), ("\"\\n", "\"")] {
            let t = format!("{}{}{}", a, ch, b);
            let w = Machine::accepts(&t);
            verdict(c, &t, w)?;
        }
        Ok(())
    });

    // 6. every \uXXXX, alone, as key, and every second unit for some first units
    r.sweep("escapes", 0x10000, "every \\uXXXX in value and key, in both cases, paired with surrogates and with every other unit after D800, DBFF, DC00 and 0041", |c, i| {
        c.nontrivial();
        for t in [format!("\"\\u{:04x}\"", i), format!("\"\\u{:04X}\"", i), format!("[\"é\\u{:04x}z\",1]", i), format!("{{\"\\u{:04x}\":1}}", i),
                  format!("\"\\u{:04x}\\uDC00\"", i), format!("\"\\u{:04x}\\uDFFF\"", i), format!("\"\\u{:04x}\\uD800\"", i), format!("\"\\u{:04x}\\n\"", i),
                  format!("\"\\uD800\\u{:04x}\"", i), format!("\"\\uDBFF\\u{:04x}\"", i), format!("\"\\uDC00\\u{:04x}\"", i), format!("\"\\u0041\\u{:04x}\"", i),
                  format!("\"\\u{:04x}", i), format!("\"\\u{:03x}\"", i)] {
            let w = Machine::accepts(&t);
            verdict(c, &t, w)?;
        }
        Ok(())
    });

    let most = r.by(90u64, 300);
    r.sweep("one among many", most * RUNS.len() as u64, "every length up to 90 (300) of 18 kinds of runs (letters, wide characters, digits, blanks, elements, members, escapes) with each of 26 pieces (up to 64 also every ASCII character) at every place: judged by both references", |c, i| {
        c.nontrivial();
        one_stranger(i as usize % RUNS.len(), i as usize / RUNS.len(), |t| { let w = expected(t); verdict(c, t, w) })
    });

    // one part of a document, and an edit of another behind it
    r.sweep("after another", (LITS.len() * LITS.len()) as u64, "every pair of 44 literals of every kind, the second with every edit of one character (21 pieces inserted or put in place, or cut) at every place: as elements, members, within arrays and objects, as key and value", |c, i| {
        let (a, b) = (LITS[i as usize % LITS.len()], LITS[i as usize / LITS.len()]);
        c.nontrivial();
        for b in one_edit(b) { after_one_another(a, &b, |t| { let w = expected(t); verdict(c, t, w) })? }
        Ok(())
    });

    let edited: Vec<String> = LITS.iter().chain(DOCS).flat_map(|l| one_edit(l)).collect();
    let edited = &edited;
    r.sweep("at every address", edited.len() as u64, "every text one edit away from 44 literals and the corpus, as a slice of a longer text at 16 addresses, with digits, quotes, brackets or exponents around it", |c, i| {
        c.nontrivial();
        at_addresses(&edited[i as usize], |t| { let w = expected(t); verdict(c, t, w) })
    });
    // 7. size families
    let mut sizes: Vec<usize> = vec![(1 << 20) + 1, 300000, 131072, 65537, 65536, 65535, 65534, 32769, 32768, 32767, 16385, 16384, 16383, 8192, 4097, 4096, 4095, 1025, 1024, 1023];
    sizes.extend(0..r.by(600, 3000));
    r.sweep("sizes", sizes.len() as u64, "one-parameter families (string, key, whitespace, digits, elements, members, nesting, tokens) at every size up to the bound and 2^k-1..2^k+1 beyond, each valid and with its end broken", |c, i| {
        {
            let n = sizes[i as usize];
            c.nontrivial();
            let list = |item: &str| vec![item; n].join(",");
            let fam: Vec<String> = vec![
                format!("\"{}\"", ascii_of_len(n)), format!("\"{}\"", text_of_len(n)), format!("\"{}\\n\"", ascii_of_len(n)), format!("\"\\t{}\"", text_of_len(n)),
                format!("\"{}\"", rep("\\u00e9", n)), format!("\"{}\"", rep("\\\\", n)), format!("\"{}x\"", rep("\\\"", n)),
                format!("{{\"{}\":1}}", text_of_len(n)), format!("{{\"{}\\u0041\":1}}", ascii_of_len(n)),
                format!("{}1", rep(" ", n)), format!("1{}", rep("\n", n)), format!("[{}1{},{}2{}]", rep(" ", n), rep("\t", n), rep("\r\n", n), rep(" ", n)),
                format!("{{{}\"a\"{}:{}1{}}}", rep(" ", n), rep("\n", n), rep(" ", n), rep("\u{c}", n)),
                format!("[{}]", rep(" ", n)), format!("{{{}}}", rep(" ", n)),
                format!("1{}", rep("0", n)), format!("{}", rep("9", n + 1)), format!("0.{}1", rep("0", n)), format!("1.{}", rep("9", n + 1)), format!("-1e{}1", rep("0", n)), format!("1e-{}9", rep("9", n)),
                format!("[{}]", list("1")), format!("[{}]", list("\"\"")), format!("[{}]", list("[]")), format!("[{}]", list("{}")), format!("[{}]", list("[[1]]")), format!("[{}]", list("\"\\n\"")),
                format!("{{{}}}", (0..n).map(|k| format!("\"k{}\":{}", k, k)).collect::<Vec<_>>().join(",")),
                format!("{{{}}}", list("\"same\":null")),
            ];
            for t in fam {
                if t.len() > 1_200_000 { continue }
                // integers far beyond the range are refused by design
                let too_big = n > 32760 && t.len() == n + 1 && t.bytes().all(|b| b.is_ascii_digit());
                if too_big && n < 40000 { c.step(); let _ = json::parse(&t); }
                else { verdict(c, &t, !too_big)?; }
                for bad in [&t[..t.len() - 1], &format!("{}x", t), &format!("{},", t), &format!("{}]", t), &format!("{}}}", t), &format!("{}\"", t)] {
                    let b: &str = bad;
                    if b.is_empty() { continue }
                    let w = Machine::accepts(b);
                    if w && too_big { continue }
                    if w && n > 32760 && b.bytes().all(|b| b.is_ascii_digit()) { continue }
                    verdict(c, b, w)?;
                }
            }
            // nesting
            for (o, cl) in [("[", "]"), ("{\"a\":", "}"), ("[{\"a\":", "}]")] {
                let t = format!("{}1{}", rep(o, n), rep(cl, n));
                let levels = if o.len() > 5 { 2 * n } else { n };
                verdict(c, &t, levels <= 512)?;
                if n > 0 { verdict(c, &t[..t.len() - 1], false)?; }
                verdict(c, &format!("{}{}", t, cl), false)?;
                let e = format!("{}[]{}", rep(o, n), rep(cl, n));
                verdict(c, &e, levels <= 512)?;
            }
        }
        Ok(())
    });

    // 8. every truncation of big documents
    let big: Vec<String> = vec![
        format!("{{{}}}", (0..60).map(|k| format!("\"key{}\\u00{:02x}\": [{}, \"v\\n{}\", {{\"\u{e9}\": -{}.5e{}}}, null, true, false]", k, 0x41 + k % 20, k, k, k, k)).collect::<Vec<_>>().join(",\n  ")),
        format!("[{}]", (0..200).map(|k| format!("[\"{}\", {}]", text_of_len(k % 40), k * 1234567)).collect::<Vec<_>>().join(" , ")),
    ];
    let total: u64 = big.iter().map(|b| b.len() as u64 + 1).sum();
    r.sweep("truncations", total, "every prefix of two large documents, plain and with one more character", |c, i| {
        let (b, n) = if (i as usize) <= big[0].len() { (&big[0], i as usize) } else { (&big[1], i as usize - big[0].len() - 1) };
        if !b.is_char_boundary(n) { return Ok(()) }
        c.nontrivial();
        verdict(c, &b[..n], n == b.len())?;
        for x in ["\"", "}", "]", ",", "\u{0}", "x", ":", "1"] {
            let t = format!("{}{}", &b[..n], x);
            let w = Machine::accepts(&t);
            verdict(c, &t, w)?;
        }
        Ok(())
    });

    r.finish()
}
