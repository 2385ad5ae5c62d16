//! C05: the nesting limit is exact and counts only open containers.
use mc::model::machine::DEPTH;
use mc::*;

mc::fast_alloc!();

fn depth_of(v: &json::JsonValue) -> usize {
    // iterative: the value may be deep
    let mut best = 0;
    let mut todo = vec![(v, 0)];
    while let Some((v, d)) = todo.pop() {
        best = best.max(d);
        for x in v.members() { todo.push((x, d + 1)) }
        for x in v.entries() { todo.push((x.1, d + 1)) }
    }
    best
}

/// `depth`: how deep the non-empty containers of `text` nest.
fn check(c: &mut Ctl, text: &str, depth: usize) -> Res {
    c.step();
    c.visit(depth as u64);
    match json::parse(text) {
        Ok(v) if depth <= DEPTH => {
            let d = depth_of(&v);
            if d != depth { return Err(format!("document of depth {} parsed to a value of depth {}: {}", depth, d, q(&clip(text, 120)))) }
            Ok(())
        }
        Ok(_) => Err(format!("document of depth {} accepted: {}", depth, q(&clip(text, 200)))),
        Err(json::Error::ExceededDepthLimit) if depth > DEPTH => Ok(()),
        Err(e) => Err(format!("document of depth {} refused with {:?}: {}", depth, e, q(&clip(text, 200)))),
    }
}

/// A tower of open containers; bit of `pat` says object.
fn tower(heights: usize, period: usize, pat: usize, before: &str, after: &str, core: &str) -> String {
    let mut s = String::new();
    let obj = |l: usize| pat >> (l % period) & 1 == 1;
    for l in 0..heights {
        if obj(l) { s.push('{'); if !before.is_empty() { s.push_str(&format!("\"b\":{},", before)) } s.push_str("\"a\":") }
        else { s.push('['); if !before.is_empty() { s.push_str(before); s.push(',') } }
    }
    s.push_str(core);
    for l in (0..heights).rev() {
        if obj(l) { if !after.is_empty() { s.push_str(&format!(",\"z\":{}", after)) } s.push('}') }
        else { if !after.is_empty() { s.push(','); s.push_str(after) } s.push(']') }
    }
    s
}

fn main() {
    let mut r = Runner::new("C05");

    // (core, further non-empty levels)
    let cores: [(&str, usize); 10] = [("1", 0), ("null", 0), ("\"[[{{\"", 0), ("[]", 0), ("{}", 0), ("[ \n]", 0), ("{ }", 0), ("[[]]", 1), ("{\"k\":{}}", 1), ("[0,[]]", 1)];
    let max = r.by(560, 1100);
    r.sweep("towers", max * 30, "every depth up to 560 (1100) x all patterns of arrays and objects of period up to 4 x 10 innermost values", |c, i| {
        let h = (i / 30) as usize;
        let mut k = (i % 30) as usize;
        let mut period = 1;
        while k >= 1 << period { k -= 1 << period; period += 1 }
        let near = h > 500 && h < 520;
        if !near && h % 7 != 0 && period > 2 { return Ok(()) }
        if h >= 511 && h <= 513 { c.nontrivial() }
        for (core, more) in cores {
            // `h` containers around a value which may be empty
            check(c, &tower(h, period, k, "", "", core), h + more)?;
        }
        Ok(())
    });

    let sib: [(&str, usize); 8] = [("[]", 0), ("{}", 0), ("1", 0), ("[1]", 1), ("{\"q\":[[1]]}", 3), ("[[],[],[{}]]", 2), ("[[[[[[[[1]]]]]]]]", 8), ("\"{\\\"[\"", 0)];
    r.sweep("siblings", 620 * 4, "every depth with closed containers of every kind before and after the open one, on every level", |c, i| {
        let h = (i / 4) as usize;
        let pat = (i % 4) as usize;
        c.nontrivial();
        for (b, bd) in sib.iter() {
            for (a, ad) in sib.iter() {
                // the deepest sibling sits in the innermost container
                let d = |x: usize| if h == 0 { 0 } else { h + x };
                let t = tower(h, 2, pat, b, a, "1");
                check(c, &t, d(0).max(d(*bd)).max(d(*ad)))?;
                if h > 400 && h < 505 && !matches!(h, 450 | 490) { break }
            }
        }
        Ok(())
    });

    // documents as walks: up and down between heights around the limit
    let hs = [1usize, 2, 3, 255, 256, 257, 509, 510, 511, 512];
    let over = [513usize, 514, 600];
    let steps = r.by(4, 6);
    r.dfs("walks", 0, "every sequence of up to 4 (6) towers of heights around 1, 256 and 512 (and one over the limit) on bases of height 0..2, 255, 256, 511, arrays and objects", |c| {
        let base = *c.pick(&[0usize, 1, 2, 255, 256, 511]);
        let n = c.choose(steps) + 1;
        let mut parts = Vec::new();
        let mut depth = 0;
        for _ in 0..n {
            let k = c.choose(hs.len() + 1);
            // absolute height of this part
            let h = if k < hs.len() { hs[k] } else { over[(n + base) % 3] };
            let rel = h.saturating_sub(base);
            let kind = (k + parts.len()) % 3;
            parts.push(tower(rel, 2, kind, "", "", if k % 2 == 0 { "[]" } else { "0" }));
            depth = depth.max(base + rel);
            if h > DEPTH { break }
        }
        // inside base containers, the innermost an array
        let mut t = String::new();
        let inner = parts.join(",");
        if base == 0 { let t = parts[0].clone(); return check(c, &t, height(&t)) }
        for l in 0..base { if l % 2 == 1 || l == base - 1 { t.push('[') } else { t.push_str("{\"x\":") } }
        t.push_str(&inner);
        for l in (0..base).rev() { if l % 2 == 1 || l == base - 1 { t.push(']') } else { t.push('}') } }
        c.log(|| format!("base {} heights {:?} depth {}", base, parts.iter().map(|p| p.len()).collect::<Vec<_>>(), depth));
        if depth >= 511 { c.nontrivial() }
        check(c, &t, depth)
    });

    // what a reader may keep between the levels: texts with escapes, numbers, keys
    let lens = [1usize, 31, 33, 1000, 4095, 4097, 5000, 33_000, 66_000, 140_000];
    r.sweep("behind long parts", (lens.len() * 10 * 7) as u64, "towers of 1, 2, 255, 256, 511, 512 and 513 levels behind, below and in front of long texts, keys, numbers and many small ones (10 kinds, up to 140000 bytes)", |c, i| {
        let i = i as usize;
        let (n, k, h) = (lens[i % lens.len()], i / lens.len() % 10, [1usize, 2, 255, 256, 511, 512, 513][i / lens.len() / 10]);
        c.nontrivial();
        let part = match k {
            0 => format!("\"{}\"", "a".repeat(n)), 1 => format!("\"\\n{}\"", "a".repeat(n)), 2 => format!("\"{}\"", "\\u00e9".repeat(n / 6 + 1)), 3 => format!("\"{}\"", "[{\\\"".repeat(n / 4 + 1)),
            4 => "1".repeat(n.min(32_000)), 5 => format!("0.{}", "9".repeat(n)), 6 => vec!["\"\\t\""; n / 5 + 1].join(","), 7 => vec!["true"; n / 5 + 1].join(","), 8 => format!("{}0", " ".repeat(n)), _ => vec!["\"[\\\\]\",-0.5e-3"; n / 10 + 1].join(","),
        };
        for pat in 0..2 {
            let t = |h: usize, core: &str| tower(h, 1, pat, "", "", core);
            check(c, &format!("[{},{}]", part, t(h - 1, "1")), h.max(1))?;
            check(c, &format!("[{},{}]", t(h - 1, "{}"), part), h.max(1))?;
            check(c, &t(h - 1, &format!("[{},{{}},{}]", part, part)), h)?;
            if part.starts_with('"') && k < 4 {
                check(c, &format!("{{{}:{},\"z\":{}}}", part, t(h - 1, "1"), part), h)?;
                check(c, &t(h - 1, &format!("{{{}:[]}}", part)), h)?;
                // the same part on every level near the limit
                if n < 6000 && h >= 2 { check(c, &format!("[{},[{},{}]]", part, part, tower(h - 2, 2, pat + 1, if n < 1000 { &part } else { "0" }, &part, "[]")), h)? }
            }
        }
        Ok(())
    });

    r.sweep("many", r.by(700, 3000), "documents with n closed containers (18 kinds) of depth up to 511 before and between open ones: length never uses up the limit", |c, i| {
        let n = i as usize;
        c.nontrivial();
        for unit in ["[]", "[1]", "{}", "{\"a\":1}", "[[[]]]", "[{\"a\":[1]}]", "[1,2]", "[1,[],2]", "{\"a\":1,\"b\":2}", "{\"a\":1,\"a\":2}", "{\"a\":{},\"b\":[],\"c\":\"[{\"}", "{\"a\":[1,2,3],\"b\":{\"c\":1,\"d\":{\"e\":0}}}", "[[1],[2,3],{\"\":[]}]", "1,\"]\",null", "[ ]", "{ \"a\" : 1 , \"b\" : [ ] }", "[{\"a\":1},{\"b\":2}]", "[0,{\"long key that does not fit anywhere, really\":-1.5e3}]"] {
            let d = height(unit);
            let many = vec![unit; n].join(",");
            check(c, &format!("[{}]", many), if n == 0 { 0 } else { 1 + d })?;
            if n > 0 { check(c, &format!("[{},{}]", many, tower(511, 2, 1, "", "", "1")), 512)?; }
            if n > 0 && n % 10 == 0 { check(c, &format!("{{\"a\":[{}],\"b\":{}}}", many, tower(512, 2, 2, "", "", "1")), 513)?; }
        }
        if n <= 40 {
            let t = vec![tower(511, 3, n % 8, "", "", "{}"); n + 1].join(",");
            check(c, &format!("[{}]", t), 512)?;
        }
        Ok(())
    });

    let deep: Vec<usize> = vec![513, 514, 1000, 1024, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 100_000, 131072, 1_000_000];
    r.sweep("very deep", deep.len() as u64 * 6, "very deep documents, complete, truncated and unbalanced, parsed on a small stack", |c, i| {
        let n = deep[(i / 6) as usize];
        c.nontrivial();
        let unit = ["[", "{\"a\":", "[1,", "[{\"a\":", "{\"a\":[", " [\n"][(i % 6) as usize];
        let complete = tower(n, 1 + (i % 2) as usize, (i % 3) as usize, "", "", "1");
        let open = unit.repeat(n + 1) + "[[";
        c.step();
        let t = std::thread::Builder::new().stack_size(512 << 10).spawn(move || {
            for s in [&complete, &open] {
                match json::parse(s) {
                    Err(json::Error::ExceededDepthLimit) => {}
                    x => return Err(format!("depth {} gives {:?}", n, x.map(|_| "a value"))),
                }
            }
            Ok(())
        }).unwrap();
        t.join().unwrap_or_else(|_| Err("panicked".into()))
    });
    // every unit of closed containers between open ones, many times
    let parts = ["[1]", "[]", "{}", "{\"a\":1}", "{\"a\":1,\"b\":2}", "{\"a\":1,\"a\":[]}", "[1,2]", "[[1],{}]", "{\"a\":[1],\"b\":{\"c\":[]}}", "\"[\"", "0"];
    let up = r.by(2u32, 4);
    r.sweep("mixed", (parts.len() as u64).pow(up) * 2, "every sequence of 2 (4) of 11 kinds of closed containers, repeated 600 times, in an array or as members of an object", |c, i| {
        let mut k = i as usize / 2;
        let mut u: Vec<&str> = vec![];
        for _ in 0..up { u.push(parts[k % parts.len()]); k /= parts.len() }
        c.nontrivial();
        let d = u.iter().map(|x| height(x)).max().unwrap();
        if i % 2 == 0 { check(c, &format!("[{}]", vec![u.join(","); 600].join(",")), 1 + d) }
        else { check(c, &format!("{{{}}}", vec![u.iter().enumerate().map(|(i, x)| format!("\"{}\":{}", i, x)).collect::<Vec<_>>().join(","); 600].join(",")), 1 + d) }
    });
    // the limit again after failures and successes: nothing is remembered
    r.sweep("repeat", 300, "alternating documents at, over and under the limit, from the same thread", |c, i| {
        c.nontrivial();
        for k in 0..5 {
            let h = [512, 513, 1, 600, 511][(i as usize + k) % 5];
            check(c, &tower(h, 2, (i % 4) as usize, "", "", "1"), h)?;
        }
        Ok(())
    });
    r.finish()
}

/// Depth of the non-empty containers, by counting brackets outside strings.
fn height(s: &str) -> usize {
    let b: Vec<char> = s.chars().filter(|c| !c.is_whitespace()).collect();
    let (mut d, mut best, mut i, mut instr) = (0usize, 0usize, 0, false);
    while i < b.len() {
        match b[i] {
            '\\' if instr => i += 1,
            '"' => instr = !instr,
            '[' | '{' if !instr => { d += 1; if i + 1 < b.len() && b[i + 1] != ']' && b[i + 1] != '}' { best = best.max(d) } }
            ']' | '}' if !instr => d -= 1,
            _ => {}
        }
        i += 1;
    }
    best
}
