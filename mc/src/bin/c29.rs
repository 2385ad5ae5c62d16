//! C29: what parses can be used on an ordinary stack.
use json::JsonValue;
use mc::*;

mc::fast_alloc!();

/// What a thread of the standard library gets if nobody says otherwise.
const STACK: usize = 2 << 20;
const DEPTH: usize = 512;

/// Run on a thread with an ordinary stack. Running out of it ends the process;
/// the execution is then named by the runner.
fn ordinary<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).expect("harness: thread").join()
    }).map_err(|e| format!("panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}

struct Level { open: &'static str, close: &'static str }
const LEVELS: [Level; 8] = [
    Level { open: "[", close: "]" },
    Level { open: "{\"a\":", close: "}" },
    Level { open: "[1,\"x\",", close: "]" },
    Level { open: "[", close: ",[],{\"q\":[null]}]" },
    Level { open: "{\"k\":[[1]],\"a key that does not fit into the node itself\":", close: "}" },
    Level { open: "{\"a\":1,\"b\":2,\"c\":", close: ",\"d\":[{}],\"e\":\"text\"}" },
    Level { open: " [ ", close: " ] " },
    Level { open: "{\"\\n\\u0041\":", close: ",\"\":false}" },
];
const CORES: [&str; 6] = ["1", "[]", "{}", "\"a string that does not fit into a short\"", "-1.5e300", "\"\\n\""];

fn tower(word: &[usize], depth: usize, core: &str) -> String {
    let mut s = String::new();
    for l in 0..depth { s.push_str(LEVELS[word[l % word.len()]].open) }
    s.push_str(core);
    for l in (0..depth).rev() { s.push_str(LEVELS[word[l % word.len()]].close) }
    s
}
/// The child that goes on downwards: the one with most levels below it.
fn down(v: &JsonValue) -> Option<&JsonValue> {
    // iterative on purpose; siblings of the tower are shallow
    let mut best: Option<(usize, &JsonValue)> = None;
    let shallow = |x: &JsonValue| { let mut d = 0; let mut y = x; while d < 4 { match y.members().next().or_else(|| y.entries().map(|e| e.1).next()) { Some(z) => { y = z; d += 1 } None => break } } d };
    for x in v.members().chain(v.entries().map(|e| e.1)) {
        let d = shallow(x);
        if best.map_or(true, |b| d >= b.0) { best = Some((d, x)) }
    }
    best.map(|b| b.1)
}
struct Sink(u64);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len() as u64; Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// Every operation that goes through the whole value.
const OPS: usize = 15;
fn op(k: usize, text: &str, v: JsonValue) -> Result<u64, String> {
    let bad = |what: &str| Err(format!("{} went wrong", what));
    Ok(match k {
        0 => { drop(v); 0 }
        1 => { let s = v.dump(); if json::parse(&s).map_or(true, |w| w != v) { return bad("dump") } s.len() as u64 }
        2 => { let s = v.pretty(1); if json::parse(&s).map_or(true, |w| w != v) { return bad("pretty") } s.len() as u64 }
        3 => { let s = v.to_string(); let t = format!("{:#}", v); (s.len() + t.len()) as u64 }
        4 => { let mut s = Sink(0); v.write(&mut s).map_err(|e| e.to_string())?; s.0 }
        5 => { let mut s = Sink(0); v.write_pretty(&mut s, 2).map_err(|e| e.to_string())?; s.0 }
        6 => { let w = v.clone(); drop(v); drop(w); 0 }
        7 => { let w = v.clone(); if w != v || v != w { return bad("comparing") } 0 }
        8 => { let a = v.clone(); let mut b = JsonValue::new_array(); b.push(v).map_err(|e| e.to_string())?; if b.contains(a.clone()) == false { return bad("contains") } json::stringify(b).len() as u64 }
        9 => { let mut w = JsonValue::Null; w["in"]["side"] = v; let mut o = JsonValue::new_object(); o.insert("x", w.take()).map_err(|e| e.to_string())?; o.clear(); 0 }
        10 => { let mut n = 0; let mut x = &v; while let Some(y) = down(x) { n += 1; x = y } n }
        11 => { let a = json::parse(text).map_err(|e| e.to_string())?; let b = json::from(vec![a, v]); json::stringify_pretty(b, 1).len() as u64 }
        13 => { let mut s = Sink(0); use std::io::Write; write!(s, "{:?}", v).map_err(|e| e.to_string())?; s.0 }
        12 => { let a = json::parse(text).map_err(|e| e.to_string())?; if json::object! { "p": a.clone(), "q": json::array![a, v.clone()] }["q"][1] != v { return bad("macros") } 0 }
        _ => { let mut w = vec![v]; while let Some(mut x) = w.pop() { loop { let y = x.pop(); if y.is_null() { break } w.push(y) } for (_, y) in x.entries_mut() { w.push(y.take()) } } 0 }
    })
}

fn main() {
    let mut r = Runner::new("C29");
    let period = r.by(3, 4);
    let mut words: Vec<Vec<usize>> = Vec::new();
    for p in 1..=period { for k in 0..LEVELS.len().pow(p as u32) { let mut k = k; words.push((0..p).map(|_| { let d = k % LEVELS.len(); k /= LEVELS.len(); d }).collect()) } }
    let words = &words;
    let nw = words.len() as u64;
    let sub = DEPTH - 2;
    r.sweep("operations at the limit", nw * OPS as u64, "every mix of 8 kinds of levels of period up to 3 (4), as deep as the parser allows, x 15 operations, on a stack of 2 MiB", |c, i| {
        let w = &words[(i / OPS as u64) as usize];
        let k = (i % OPS as u64) as usize;
        c.step();
        c.nontrivial();
        let core = CORES[(i as usize / 3) % CORES.len()];
        // levels may carry siblings of up to two levels
        let text = tower(w, sub, core);
        let n = ordinary(|| json::parse(&text).map_err(|e| format!("refused: {}", e)).and_then(|v| op(k, &text, v))).and_then(|x| x).map_err(|e| format!("operation {} on {} levels of {:?}: {}", k, sub, w, e))?;
        c.outcome(n);
        Ok(())
    });
    let ops = OPS as u64;
    let all = r.thorough();
    r.sweep("every depth", 513 * 8, "every eighth depth (every depth) up to the limit, all near it, x 8 kinds of levels x every operation x every innermost value", |c, i| {
        let (d, l) = ((i / 8) as usize, (i % 8) as usize);
        if d > sub { return Ok(()) }
        if !all && d % 8 != 7 && d < 490 && d > 16 { return Ok(()) }
        for core in CORES {
            let text = tower(&[l], d, core);
            ordinary(|| {
                for k in 0..ops as usize {
                    let v = json::parse(&text).map_err(|e| format!("refused: {}", e))?;
                    op(k, &text, v).map_err(|e| format!("operation {} on {} levels of kind {}: {}", k, d, l, e))?;
                }
                Ok::<(), String>(())
            }).and_then(|x| x)?;
            c.steps(ops);
        }
        c.nontrivial();
        Ok(())
    });
    let far = r.by(200_000usize, 3_000_000);
    r.sweep("texts", 8 * 24, "open levels far beyond the limit, unclosed, mismatched and broken at every eighth of the depth: refused without more stack", |c, i| {
        let (l, k) = ((i / 24) as usize, (i % 24) as usize);
        c.step();
        c.nontrivial();
        let lev = &LEVELS[l];
        let text = match k {
            0..=7 => { let mut s = tower(&[l], 510, "1"); let mut at = s.len() * (k + 8) / 16; while !s.is_char_boundary(at) { at -= 1 } s.truncate(at); s }
            8..=15 => { let mut s = tower(&[l], 510, "1"); let at = s.len() * (k - 8) / 8; s.insert(at, '\u{1}'); s }
            16 => lev.open.repeat(513),
            17 => lev.open.repeat(512),
            18 => lev.open.repeat(far),
            19 => tower(&[l], 513, "1"),
            20 => tower(&[l], far, "1"),
            21 => tower(&[l, (l + 1) % 8], far, ""),
            22 => { let mut s = lev.open.repeat(510); s.push('1'); s.push_str(&LEVELS[if lev.close.trim_start().starts_with(&[']', ','][..]) && lev.open.contains('[') && !lev.open.contains('{') { 1 } else { 0 }].close.repeat(510)); s }
            _ => { let mut s = tower(&[l], 510, "1"); s.push_str("]"); s }
        };
        // kinds 1, 5 and 7 cut or broken between tokens may stay right; all the others fail
        let e = ordinary(|| json::parse(&text).err().map(|e| { let _ = (e.to_string(), format!("{:?}", e)); e }))?;
        if k >= 16 && e.is_none() { return Err(format!("accepted a text of {} bytes of kind {}/{}", text.len(), l, k)) }
        Ok(())
    });
    r.finish()
}
