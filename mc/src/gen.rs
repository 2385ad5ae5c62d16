//! Generators shared by the checkers. All of them enumerate, none samples.
use crate::engine::Ctl;
use crate::model::*;

pub fn rep(s: &str, n: usize) -> String { s.repeat(n) }

/// A string of exactly `n` bytes, characters of mixed widths, position-dependent.
pub fn text_of_len(n: usize) -> String {
    let mut s = String::new();
    let cs = ["a", "\u{e9}", "z", "\u{20ac}", "0", "\u{10348}", " "];
    let mut i = 0;
    while s.len() < n {
        let c = cs[i % cs.len()];
        i += 1;
        if s.len() + c.len() <= n { s.push_str(c) } else { s.push((b'A' + (s.len() % 26) as u8) as char) }
    }
    s
}

/// A string of `n` bytes of characters that all take `w` bytes, with letters
/// at the end where `n` is not a multiple.
pub fn wide_of_len(w: usize, n: usize) -> String {
    let base = [0x61, 0xe0, 0x20a0, 0x10330][w - 1];
    let mut s: String = (0..n / w).map(|i| char::from_u32(base + ((i * 7 + i / 26) % 26) as u32).unwrap()).collect();
    while s.len() < n { s.push((b'A' + (s.len() % 26) as u8) as char) }
    s
}

/// Target sizes for something that grows and shrinks: every sequence of them
/// up to three, which passes thresholds in both directions.
pub const TIDES: [usize; 6] = [0, 1, 20, 70, 300, 1100];

/// ASCII text of n bytes whose bytes depend on position (so that shifted or
/// repeated pieces show).
pub fn ascii_of_len(n: usize) -> String { (0..n).map(|i| (b'a' + ((i * 7 + i / 26) % 26) as u8) as char).collect() }

/// Two strings with the same FNV-1a hash (zero: then every byte appended to
/// both keeps the hashes equal, too).
pub const COLLIDE: [&str; 2] = ["!0IC=VloaY", "QvXtM>@Fp%"];

/// Behind either of the above: four strings of 21 bytes with the same hash.
pub const TWIN: [&str; 2] = ["UAUBW6WpsHM", "FQIy1grS2kN"];
/// Behind `ascii_of_len(21)` and `ascii_of_len(64)`: the same hash, and a long
/// common beginning.
pub const LATE21: [&str; 2] = ["luA2qZPJ9FB", "dH4KoVS1Q7D"];
pub const LATE64: [&str; 2] = ["wucqv0zRi5O", "Wh+QJake56J"];
pub fn quad(i: usize) -> String { format!("{}{}", COLLIDE[i & 1], TWIN[i >> 1 & 1]) }
pub fn late(w: usize, i: usize) -> String { format!("{}{}", ascii_of_len(w), if w == 21 { LATE21[i & 1] } else { LATE64[i & 1] }) }
#[test]
fn collisions() {
    let h = |s: String| fnv(s.as_bytes());
    for i in 1..4 { assert_eq!(h(quad(i)), h(quad(0))) }
    assert_eq!(h(late(21, 0)), h(late(21, 1)));
    assert_eq!(h(late(64, 0)), h(late(64, 1)));
}

/// Keys that exercise hashing, storage and comparison.
pub fn key_pool() -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "a".into(), "b".into(), "aa".into(), "\u{e9}".into(), "\u{1F600}".into(), "a\"\\\n".into(), "\0".into(), "\0\0".into()];
    for c in COLLIDE { v.push(c.into()); }
    v.push(format!("{}\0", COLLIDE[0]));
    for i in 0..4 { v.push(quad(i)); v.push(late([21, 64][i / 2], i)) }
    v.push(format!("{}abcdefghijklmnopqrstuvwxyz0123456789", COLLIDE[0]));
    v.push(format!("{}abcdefghijklmnopqrstuvwxyz0123456789", COLLIDE[1]));
    for n in [15, 16, 29, 30, 31, 32, 33, 34, 63, 64, 65] { v.push(ascii_of_len(n)); }
    // same length, same prefix as the 32 byte key / 33 byte key, different end
    v.push(format!("{}!", &ascii_of_len(32)[..31]));
    v.push(format!("{}!", &ascii_of_len(33)[..32]));
    v.push(text_of_len(32));
    v.push(text_of_len(33));
    v
}

pub fn leaves() -> Vec<RV> {
    vec![
        RV::Null, RV::Bool(true), RV::Bool(false), RV::i(0), RV::i(1), RV::i(-1), RV::d(false, 15, -1),
        RV::d(true, 0, 0), RV::s(""), RV::s("a"), RV::s("\"\\\n\u{e9}"), RV::Str(text_of_len(31)),
    ]
}

/// Every tree with at most `budget` further nodes and `depth` further levels.
pub fn tree(c: &mut Ctl, budget: &mut usize, depth: usize, leaves: &[RV], keys: &[&str]) -> RV {
    let inner = depth > 0;
    let k = c.choose(leaves.len() + if inner { 2 } else { 0 });
    if k < leaves.len() { return leaves[k].clone() }
    if k == leaves.len() {
        let mut a = Vec::new();
        while *budget > 0 && c.flag() { *budget -= 1; a.push(tree(c, budget, depth - 1, leaves, keys)) }
        RV::Arr(a)
    } else {
        let mut o: Vec<(String, RV)> = Vec::new();
        while *budget > 0 && o.len() < keys.len() && c.flag() {
            *budget -= 1;
            // any key not used yet
            let free: Vec<&&str> = keys.iter().filter(|k| !o.iter().any(|e| e.0 == **k)).collect();
            let key = free[c.choose(free.len())].to_string();
            let v = tree(c, budget, depth - 1, leaves, keys);
            o.push((key, v));
        }
        RV::Obj(o)
    }
}

/// Valid documents that together use every feature of the grammar.
pub const DOCS: &[&str] = &[
    "null", "true", "false", "0", "-0", "12", "-7", "1.5", "0.25e+10", "-1E-2", "10e5", "\"\"", "\"abc\"",
    "\"a\\n\\\"\\\\\\/\\b\\f\\r\\t\\u00e9\"", "\"\\uD83D\\uDE00x\"", "\"\u{e9}\u{20ac}\u{10348}\"",
    "[]", "{}", "[ ]", "{ }", "[1]", "[1,2]", "[ 1 , 2 ]", "[[],[]]", "[[1],{}]", "{\"a\":1}", "{\"a\":1,\"b\":2}",
    "{ \"a\" : 1 , \"b\" : [ ] }", "{\"a\":{\"b\":{\"c\":null}}}", "[{\"a\":[{}]},\"x\",-1.5e3,true,false,null]",
    " \t\n\r[\u{b}\u{c}1 ]\n", "{\"\":\"\",\"\\u0061\":0,\"a\":1}", "[\"\\u0000\",\"\\uFFFF\"]", "[18446744073709551615,1e400,0.1e-400]",
    "{\"k\":\"v\\n\",\"k2\\t\":[\"w\\\\\",{\"z\\u0041\":\"\\\"\"}]}", "[[[[[[]]]]]]", "[1,[2,[3,{\"d\":[4]}],5],6]\n\n",
    "{\"a\":[1,2,{\"b\":\"c\"}],\"d\":\"e\",\"f\":{}}", "\n\n\"x\"\n", "[\"\u{7f}\",\"\u{80}\",\"\u{2028}\"]",
];

/// Characters to try at a place: every ASCII one and a spread of others.
pub fn probe_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(|b| b as char).collect();
    for u in [0x80u32, 0x85, 0xa0, 0xe9, 0x7ff, 0x800, 0x2028, 0x20ac, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1F600, 0x10ffff,
              // characters whose low byte or UTF-16/UTF-8 bytes look like JSON syntax
              0x122, 0x15b, 0x17b, 0x230, 0x22c, 0x0660, 0xff10] {
        v.push(char::from_u32(u).unwrap());
    }
    v
}

/// FNV-1a, only used to construct adversarial key orders.
pub fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }

/// `n` distinct keys in an order that is interesting for a search tree.
pub fn key_family(kind: usize, n: usize) -> Vec<String> {
    let mut v: Vec<String> = match kind {
        0 | 1 | 2 => (0..n).map(|i| format!("k{}", i)).collect(),
        // inline and heap keys mixed
        3 => (0..n).map(|i| format!("{:0w$}", i, w = 20 + i % 25)).collect(),
        // all hashes equal in pairs
        4 => (0..n).map(|i| format!("{}{}", COLLIDE[i % 2], "\0".repeat(i / 2 % 40)) + &format!("{}", i / 80)).collect(),
        // one long collision chain: suffixes of NUL keep the hash at zero
        5 => (0..n).map(|i| format!("{}{}", COLLIDE[i % 2], "\0".repeat(i / 2))).collect(),
        6 => (0..n).map(|i| text_of_len(i)).collect(),
        // fours and pairs with the same hash and length, the pairs with a long
        // common beginning
        _ => (0..n).map(|i| if i % 6 < 4 { format!("{}{:03}", quad(i % 6), i / 6) } else { format!("{}{:03}", late(64, i), i / 6) }).collect(),
    };
    if kind == 1 { v.sort_by_key(|k| fnv(k.as_bytes())) }
    if kind == 2 { v.sort_by_key(|k| !fnv(k.as_bytes())) }
    v
}
pub const KEY_FAMILIES: usize = 8;

/// Sizes next to powers of two.
pub fn large() -> Vec<usize> { (9..18).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1]).chain([200_000]).collect() }
/// Places in something of `n` parts that are worth looking at.
pub fn places(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)].into_iter().chain((7..18).flat_map(|p| [(1usize << p) - 1, 1 << p])).filter(|x| *x < n).collect();
    v.sort();
    v.dedup();
    v
}

/// Long regular texts with one piece that does not belong: frame, fill, and
/// what is put between two of the fills.
pub const RUNS: [(&str, &str, &str); 18] = [
    ("\"", "a", "\""), ("[\"", "\u{e9}", "\",1]"), ("{\"", "q", "\":1}"), ("{\"x\":\"", "\u{1F600}", "\"}"), ("\"", " ", "\""), ("", "1", ""), ("[0.", "7", "]"), ("1e", "0", ""), ("-", "9", ""),
    ("[", " ", "1]"), ("[1", "\n", " ]"), ("{", "\t", "\"a\":1}"), ("[", "1,", "1]"), ("[", "[],", "{}]"), ("[", "\"x\",", "\"\"]"), ("{", "\"k\":1,", "\"k\":2}"), ("\"", "\\n", "\""), ("\"", "\\u0041", "\""),
];
pub const STRANGERS: [&str; 26] = ["\"", "\\", "\n", "\0", "\u{1f}", "\u{7f}", "\u{e9}", "\u{1D11E}", "x", "-", ".", ",", "]", "}", "[", "{", ":", "e", "+", "0", " ", "\u{8}", "\\\"", "\\u00e9", "\\ud83d\\ude00", "\u{b}"];
/// Every text of `n` fills in the frame `f` with one stranger at every place.
pub fn one_stranger(f: usize, n: usize, mut go: impl FnMut(&str) -> Result<(), String>) -> Result<(), String> {
    let (h, b, t) = RUNS[f];
    let mut xs: Vec<String> = STRANGERS.iter().map(|x| x.to_string()).collect();
    // any ASCII character in not too long ones
    if n <= 64 { xs.extend((0u8..128).map(|b| (b as char).to_string()).filter(|x| !STRANGERS.contains(&x.as_str()))) }
    for x in xs {
        for p in 0..=n { go(&format!("{}{}{}{}{}", h, b.repeat(p), x, b.repeat(n - p), t))? }
    }
    Ok(())
}

/// Small values of every kind, for long runs of one of them.
pub fn tiny() -> Vec<RV> {
    ["null", "true", "false", "0", "7", "-1.5", "\"\"", "\"x\"", "\"a text that does not fit the inline storage\"", "\"\\n\"", "[]", "[true]", "[null]", "[1]", "[\"s\"]", "[[]]", "[[true]]", "[true,false,1]", "{}", "{\"k\":true}", "{\"k\":1}", "{\"k\":[]}", "{\"k\":{}}", "{\"j\":\"s\",\"k\":[1]}", "[{\"k\":null}]"].iter().map(|t| crate::model::ref_parse(t).unwrap()).collect()
}

/// Lengths of such runs.
pub fn run_lengths(all: usize) -> Vec<usize> { (1..=all).chain([100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]).collect() }

/// `x` n times with `y` at the end (twice, `x` between), in front, or in the middle.
pub fn alike(x: &RV, y: &RV, n: usize, place: usize) -> Vec<RV> {
    let mut a: Vec<RV> = vec![x.clone(); n];
    match place { 0 => { a.push(y.clone()); a.push(x.clone()); a.push(y.clone()) } 1 => a.insert(0, y.clone()), _ => a.insert(n / 2, y.clone()) }
    a
}
pub fn named(a: &[RV]) -> RV { RV::Obj(a.iter().enumerate().map(|(k, v)| (format!("k{}", k), v.clone())).collect()) }

/// Literals of every kind, as parts of a document.
pub const LITS: [&str; 44] = [
    "null", "true", "false", "0", "-0", "7", "-12", "0.5", "-1.25", "1e5", "1E+10", "2.5e-3", "0e1", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890.5", "0.00000000000000000000001", "1e400",
    "\"\"", "\"a\"", "\"key\"", "\"a text that does not fit the inline storage\"", "\"\\n\"", "\"\\\"\\\\\\/\"", "\"\\u0041b\"", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"\u{e9}\u{20ac}\u{1f600}\"", "\"\\t and more that does not fit there\"", "\"a\\u20acb and \\b more that does not fit\"",
    "[]", "[ ]", "[[]]", "[1,2]", "[\"a\\n\"]", "[null,[true],{}]", "{}", "{ }", "{\"a\":1}", "{\"\\n\":\"\"}", "{\"a\":{\"b\":[]}}", "{\"k\":\"v\",\"k\":0}", "[\n1\r\n,\t2 ]", "{ \"a\" : [ 0.1 ] }",
];
/// Every text that is one edit away from `l`.
pub fn one_edit(l: &str) -> Vec<String> {
    let cs: Vec<char> = l.chars().collect();
    let mut out = vec![l.to_string()];
    for k in 0..=cs.len() {
        let (a, b): (String, String) = (cs[..k].iter().collect(), cs[k..].iter().collect());
        let rest: String = cs[(k + 1).min(cs.len())..].iter().collect();
        out.push(format!("{}{}", a, rest));
        for p in ["0", "9", ".", "e", "-", "+", "\"", "\\", "\\u00", "\n", " ", ",", ":", "]", "}", "[", "{", "a", "F", "\u{e9}", "\u{0}"] { out.push(format!("{}{}{}", a, p, b)); out.push(format!("{}{}{}", a, p, rest)) }
    }
    out.sort();
    out.dedup();
    out
}
/// `a`, and behind it `b`: as elements, members, in arrays within, as key and value.
pub fn after_one_another(a: &str, b: &str, mut go: impl FnMut(&str) -> Result<(), String>) -> Result<(), String> {
    go(&format!("[{},{}]", a, b))?;
    go(&format!("{{\"x\":[{}],\n\"y\":{{\"z\":{}}}}}", a, b))?;
    if a.starts_with('"') { go(&format!("{{{}:{}}}", a, b))? }
    if b.starts_with('"') { go(&format!("[{},\n{{{}:1}}]", a, b))? }
    Ok(())
}
/// The literals that denote a value that fits, with that value.
pub fn lits() -> Vec<(&'static str, RV)> { LITS.iter().filter(|l| l.bytes().filter(|b| b.is_ascii_digit()).count() < 19 || l.contains("000000")).map(|l| (*l, crate::model::ref_parse(l).unwrap())).collect() }
/// `text` as a slice of a longer text, at each of 16 addresses modulo 16, with
/// something that would go on with it on either side.
pub fn at_addresses(text: &str, mut go: impl FnMut(&str) -> Result<(), String>) -> Result<(), String> {
    let n = text.len();
    for fill in ["7", "\"", "]", "e1"] {
        let mut buf = String::with_capacity(n + 96);
        for off in 0..16usize {
            if (off + n) % 4 != ["7", "\"", "]", "e1"].iter().position(|f| *f == fill).unwrap() { continue }
            buf.clear();
            let lead = (16 + off - buf.as_ptr() as usize % 16) % 16 + 16;
            while buf.len() < lead { buf.push_str(&fill[..1]) }
            buf.push_str(text);
            while buf.len() < lead + n + 20 { buf.push_str(fill) }
            go(&buf[lead..lead + n])?;
        }
    }
    Ok(())
}
