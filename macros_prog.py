"""C25: programs that use the construction macros, generated exhaustively from a
grammar, compiled against /repo and run; each is compared with the value and
the evaluation order its source text means."""
import hashlib, json, os, re, shutil, subprocess, time

PRE = r'''#![allow(warnings)]
use json::{array, object, value, JsonValue};
use json::object::Object;
use std::cell::RefCell;
use std::collections::BTreeMap;
thread_local! { static LOG: RefCell<Vec<u32>> = RefCell::new(Vec::new()); }
/// An expression that is noticed when it is evaluated.
fn t<T>(n: u32, v: T) -> T { LOG.with(|l| l.borrow_mut().push(n)); v }
fn two<A: Default, B>(n: u32) -> u8 where B: From<u8>, u32: From<B> { t(n, 0u8) + u32::from(B::from(2u8)) as u8 }
const KEY: &str = "computed";
static STAT: &str = "stat";
struct P { x: i32, name: String }
impl P { fn get(&self, n: u32) -> i32 { t(n, self.x) } }
macro_rules! mk_arr { ($a:expr, $b:expr) => { array![$a, null, $b] } }
macro_rules! mk_obj { ($k:ident, $l:literal, $v:expr) => { object!{ $k: $v, $l: [$v, {$k: null}], [$l]: null } } }
macro_rules! mk_tt { ($($x:tt)*) => { object!{ inner: { $($x)* }, list: [{ $($x)* }] } } }
type Case = (u32, fn() -> JsonValue, &'static str, &'static [u32]);
'''
POST = r'''
fn main() {
    use mc::model::*;
    let mut want = std::env::args().nth(1).and_then(|a| a.parse::<u32>().ok());
    let (mut n, mut ev, mut parts) = (0u64, 0u64, 0u64);
    let mut states = std::collections::HashSet::new();
    std::panic::set_hook(Box::new(|_| {}));
    for (id, f, text, log) in CASES {
        if want.map_or(false, |w| w != *id) { continue }
        LOG.with(|l| l.borrow_mut().clear());
        let fail = |m: String| { println!("FAIL {} {}", id, m); std::process::exit(1) };
        let v = match std::panic::catch_unwind(f) { Ok(v) => v, Err(_) => { fail("panics".into()); return } };
        let got: Vec<u32> = LOG.with(|l| l.borrow().clone());
        let m = ref_parse_ordered(text);
        if let Err(e) = observe(&m, &v) { fail(format!("builds {}, not {} ({})", v.dump(), text, e)) }
        if got != *log { fail(format!("evaluates {:?}, expected {:?}", got, log)) }
        n += 1;
        ev += got.len() as u64;
        parts += m.nodes() as u64;
        states.insert((text.to_string(), log.to_vec()));
    }
    println!("DONE {} {} {} {}", n, ev, parts, states.len());
}
fn ref_parse_ordered(s: &str) -> mc::model::RV { mc::model::ref_parse(s).unwrap_or_else(|_| panic!("expectation {}", s)) }
'''


class Case:
    __slots__ = ("body", "text", "events", "setup", "group", "kind")

    def __init__(self, group, kind, body, text, events, setup=""):
        self.group, self.kind, self.body, self.text, self.events, self.setup = group, kind, body, text, events, setup


# ---------------------------------------------------------------------------
# Items. Each is a function of a fresh event number base n (it may use n and
# n+1) and gives (source, json, events, setup).

def e(src, js, ev=(0,), setup=""):
    def f(n):
        r = lambda s: s.replace("$0", str(n)).replace("$1", str(n + 1))
        return r(src), js, tuple(n + i for i in ev), r(setup)
    return f


V = {
    "null": e("null", "null", ()),
    "call": e("t($0, 1)", "1"),
    "str": e('"lit"', '"lit"', ()),
    "neg": e("-1", "-1", ()),
    "sum": e("t($0, 2) + t($1, 3)", "5", (0, 1)),
    "arr": e("[t($0, 1), null]", "[1,null]"),
    "obj": e("{ a: t($0, 1), b: null }", '{"a":1,"b":null}'),
    "arr0": e("[]", "[]", ()),
    "obj0": e("{}", "{}", ()),
    "if": e('if t($0, true) { "y" } else { "n" }', '"y"'),
    "var": e("x$0", '"moved"', (), 'let x$0 = String::from("moved");'),
    "match": e('match t($0, 1) { 1 => "one", _ => "other" }', '"one"'),
    # the rest in shorter sequences
    "true": e("true", "true", ()),
    "false": e("false", "false", ()),
    "float": e("1.5", "1.5", ()),
    "int": e("42u8", "42", ()),
    "vec": e("vec![t($0, 1), 2]", "[1,2]"),
    "some": e("t($0, Some(3))", "3"),
    "none": e("t($0, None::<i32>)", "null"),
    "turbo": e("two::<i32, u8>($0)", "2"),
    "macro": e("array![null, t($0, 1), { k: [] }]", '[null,1,{"k":[]}]'),
    "macro2": e("json::object!{ a: null, \"b\": t($0, -1) }", '{"a":null,"b":-1}'),
    "cast": e("t($0, 300) as u8", "44"),
    "tuple": e("(t($0, 1), 2).0", "1"),
    "ref": e("&x$0[1..]", '"bc"', (), 'let x$0 = String::from("abc");'),
    "deref": e("*x$0", "7", (), "let x$0 = &7;"),
    "closure": e("(|a: i32, b: i32| a + b)(t($0, 1), 2)", "3"),
    "less": e("t($0, 1) < 2", "true"),
    "not": e("!t($0, false)", "true"),
    "andor": e("t($0, false) || t($1, true)", "true", (0, 1)),
    "short circuit": e("t($0, false) && t($1, true)", "false", (0,)),
    "loop": e("loop { break t($0, 7) }", "7"),
    "method": e("x$0.get($0)", "9", (0,), "let x$0 = P { x: 9, name: String::new() };"),
    "field": e("x$0.name", '"n"', (), 'let x$0 = P { x: 9, name: String::from("n") };'),
    "index": e("x$0[1].clone()", '"b"', (), 'let x$0 = array!["a", "b"];'),
    "len": e("t($0, [1, 2]).len()", "2"),
    "Null": e("json::Null", "null", ()),
    "slice": e("t($0, &[1u8, 2][..])", "[1,2]"),
    "owned": e('t($0, String::from("s"))', '"s"'),
    "json": e("t($0, JsonValue::from(true))", "true"),
    "number": e("json::number::Number::from(t($0, 5))", "5"),
    "object": e("x$0", '{"q":null}', (), 'let mut x$0 = Object::new(); x$0.insert("q", JsonValue::Null);'),
    "map": e("BTreeMap::from([(\"m\", t($0, 1))])", '{"m":1}'),
    "paren": e("(t($0, 6))", "6"),
    "block": e("({ let z = t($0, 5); z + 1 })", "6"),
    "unsafe": e("unsafe { t($0, 5) }", "5"),
    "raw str": e('r#"a "quoted" text"#', '"a \\"quoted\\" text"', ()),
    "minus var": e("- x$0", "-4", (), "let x$0 = 4;"),
    "bits": e("t($0, 1) << 3 | 1", "9"),
    "range": e("(t($0, 1)..5).sum::<i32>()", "10"),
    "std macro": e('format!("{}-{}", t($0, 1), "x")', '"1-x"'),
    "qualified": e("<i32 as From<u8>>::from(t($0, 8u8))", "8"),
    "nested": e('{ "k": [null, {}, [t($0, 1)]], [KEY]: -1, "l" : { m: [] } }', '{"k":[null,{},[1]],"computed":-1,"l":{"m":[]}}'),
    "let else": e("x$0.unwrap_or(0)", "3", (), "let x$0 = Some(3);"),
    "try": e('(|| -> Option<i32> { Some(t($0, Some(2))? + 1) })()', "3"),
    "struct": e("P { x: t($0, 3), name: String::new() }.x", "3"),
    "hygiene": e("array + object + size + item", "10", (), "let (array, object, size, item) = (1, 2, 3, 4);"),
    "value": e("value!([null, t($0, 2)])", "[null,2]"),
}
CORE = ["null", "call", "str", "neg", "sum", "arr", "obj", "arr0", "obj0", "if", "var", "match"]

# Keys: name -> (source, key) given position; the last are legacy arrows.
ED = {
    "ident": lambda n: ("i%d:" % n, "i%d" % n, (), ""),
    "keyword": lambda n: (["type:", "null:", "match:", "self:"][n // 10 % 4], ["type", "null", "match", "self"][n // 10 % 4], (), ""),
    "lit": lambda n: ('"a key %d":' % n, "a key %d" % n, (), ""),
    "const": lambda n: ("[KEY]:", "computed", (), ""),
    "expr": lambda n: ('[t(%d, &format!("e{}", %d))]:' % (n + 5, n), "e%d" % n, (n + 5,), ""),
    "owned": lambda n: ("[&k%d]:" % n, "own%d" % n, (), 'let k%d = String::from("own%d");' % (n, n)),
    "empty": lambda n: ('"":', "", (), ""),
    "long": lambda n: ('"a key of more than thirty-two bytes %d":' % n, "a key of more than thirty-two bytes %d" % n, (), ""),
}
ARROW = {
    "lit=>": lambda n: ('"a key %d" =>' % n, "a key %d" % n, (), ""),
    "const=>": lambda n: ("KEY =>", "computed", (), ""),
    "expr=>": lambda n: ('t(%d, &format!("e{}", %d)) =>' % (n + 5, n), "e%d" % n, (n + 5,), ""),
    "own=>": lambda n: ("k%d.as_str() =>" % n, "own%d" % n, (), 'let k%d = String::from("own%d");' % (n, n)),
}
# what a legacy entry takes: expressions
EXPRS = [k for k in V if k not in ("null", "arr", "obj", "arr0", "obj0", "nested")]


def js(s):
    return json.dumps(s)


def merge(entries):
    """Members of an object, later duplicates winning in the first place."""
    d = {}
    for k, v in entries:
        d[k] = v
    return "{" + ",".join(js(k) + ":" + v for k, v in d.items()) + "}"


BR = ["[]", "()", "{}"]


def arr_case(group, names, trail, br=0, path="array!"):
    src, out, ev, setup = [], [], [], []
    for i, nm in enumerate(names):
        s, j, x, st = V[nm](10 * (i + 1))
        src.append(s), out.append(j), ev.extend(x), setup.append(st)
    o, c = BR[br]
    body = "%s%s%s%s%s" % (path, o, ", ".join(src), "," if trail else "", c)
    return Case(group, "/".join(names), body, "[" + ",".join(out) + "]", ev, " ".join(dict.fromkeys(filter(None, setup))))


def obj_case(group, entries, trail, br=2, path="object!", keys=None):
    keys = keys or {**ED, **ARROW}
    src, out, ev, setup = [], [], [], []
    for i, (kn, vn) in enumerate(entries):
        n = 10 * (i + 1)
        ks, kj, kx, kst = keys[kn](n)
        s, j, x, st = V[vn](n)
        src.append(ks + " " + s), out.append((kj, j)), ev.extend(kx), ev.extend(x), setup.extend([kst, st])
    o, c = BR[br]
    body = "%s%s%s%s%s" % (path, o, ", ".join(src), "," if trail else "", c)
    return Case(group, "/".join("%s %s" % x for x in entries), body, merge(out), ev, " ".join(dict.fromkeys(filter(None, setup))))


def shapes(budget, depth):
    """Trees with exactly `budget` nodes: None is a leaf, ('a'|'o', kids)."""
    if budget == 1:
        yield None
        if depth > 0:
            yield ("a", ())
            yield ("o", ())
        return
    if depth == 0:
        return
    for kids in seqs(budget - 1, depth - 1):
        yield ("a", kids)
        yield ("o", kids)


def seqs(n, depth):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for a in shapes(first, depth):
            for rest in seqs(n - first, depth):
                yield (a,) + rest


def tree_src(sh, ctr, setup, ev):
    """Source, json of a nested tree; leaves cycle through kinds."""
    if sh is None:
        nm = ["null", "call", "neg", "str", "sum", "if"][ctr[0] % 6]
        ctr[0] += 1
        s, j, x, st = V[nm](10 * ctr[0])
        ev.extend(x)
        if st:
            setup.append(st)
        return s, j
    kind, kids = sh
    src, out = [], []
    for i, k in enumerate(kids):
        ctr[1] += 1
        if kind == "o":
            ks, kj, kx, kst = ED[["ident", "lit", "expr"][ctr[1] % 3]](1000 + 10 * ctr[1])
            ev.extend(kx)
        s, j = tree_src(k, ctr, setup, ev)
        if kind == "o":
            src.append(ks + " " + s), out.append((kj, j))
        else:
            src.append(s), out.append(j)
    ctr[2] += 1
    tr = "," if kids and ctr[2] % 2 else ""
    if kind == "o":
        return "{ " + ", ".join(src) + tr + " }", merge(out)
    return "[" + ", ".join(src) + tr + "]", "[" + ",".join(out) + "]"


def cases(tier):
    th = tier == "thorough"
    out = []
    names = list(V)
    # arrays
    for br in range(3):
        for path in ("array!", "json::array!"):
            out.append(Case("arrays", "empty", path + BR[br], "[]", []))
            for a in names:
                for tr in (0, 1):
                    out.append(arr_case("arrays", [a], tr, br, path))
    for a in names:
        for b in names:
            for tr in (0, 1):
                out.append(arr_case("arrays", [a, b], tr))
    wide = names if th else CORE
    for a in CORE:
        for b in wide:
            for c in CORE:
                for tr in (0, 1):
                    out.append(arr_case("arrays", [a, b, c], tr))
                if th and b in CORE:
                    for f in CORE[:8]:
                        out.append(arr_case("arrays", [a, b, c, f], len(a + b + c + f) % 2))
    # objects
    for br in range(3):
        for path in ("object!", "json::object!"):
            out.append(Case("objects", "empty", path + BR[br], "{}", []))
            for k in ED:
                for a in (names if br == 2 and path == "object!" else CORE):
                    for tr in (0, 1):
                        out.append(obj_case("objects", [(k, a)], tr, br, path))
    ek, vk = list(ED), CORE
    for k in ek:
        for k2 in ek:
            for a in (vk if th else vk[:8]):
                for b in (vk if th else vk[:8]):
                    out.append(obj_case("objects", [(k, a), (k2, b)], (len(k) + len(k2) + len(a) + len(b)) % 2))
    for a in names:
        for b in names:
            for tr in (0, 1):
                out.append(obj_case("objects", [("ident", a), ("lit", b)], tr))
    k3, v3 = ["ident", "lit", "expr"], ["null", "call", "neg", "arr"] + ["obj"] + (["match", "str", "sum"] if th else [])
    for k in k3:
        for k2 in k3:
            for k4 in k3:
                for a in v3:
                    for b in v3:
                        for c in v3:
                            out.append(obj_case("objects", [(k, a), (k2, b), (k4, c)], (len(k) + len(b) + len(c)) % 2))
    # legacy arrows
    for tr in (0, 1):
        for k in ARROW:
            for a in EXPRS:
                out.append(obj_case("legacy", [(k, a)], tr))
            for k2 in ARROW:
                for a in EXPRS[:8]:
                    for b in EXPRS[:8]:
                        out.append(obj_case("legacy", [(k, a), (k2, b)], tr))
    for a in EXPRS[:6]:
        for b in EXPRS[:6]:
            for c in EXPRS[:6]:
                out.append(obj_case("legacy", [("lit=>", a), ("const=>", b), ("expr=>", c)], (len(a) + len(b)) % 2))
    # duplicates: the last value in the first place
    sp = {"a:": ("a:", "a"), '"a":': ('"a":', "a"), "[A]:": ("[a]:", "a"), "b:": ("b:", "b"), '"b":': ('"b":', "b")}
    def dups(n, pre):
        if n == 0:
            src = ", ".join("%s t(%d, %d)" % (sp[k][0], i, i) for i, k in enumerate(pre))
            out.append(Case("duplicates", "/".join(pre), "object!{ %s }" % src, merge([(sp[k][1], str(i)) for i, k in enumerate(pre)]), range(len(pre)), 'let a = "a";'))
            return
        for k in sp:
            dups(n - 1, pre + [k])
    for n in range(1, 7 if th else 6):
        dups(n, [])
    # nesting
    for n in range(1, 8 if th else 7):
        for sh in shapes(n, 5):
            if sh is None:
                continue
            ctr, setup, ev = [0, 0, 0], [], []
            s, j = tree_src(sh, ctr, setup, ev)
            m = "array!" if sh[0] == "a" else "object!"
            out.append(Case("nesting", s, m + (s if sh[0] == "a" else s), j, ev, " ".join(dict.fromkeys(setup))))
    # towers
    for n in range(1, 21):
        for pat in range(4):
            s, j = "null", "null"
            for i in range(n):
                if (pat >> (i % 2)) & 1:
                    s, j = "{ k: %s }" % s, '{"k":%s}' % j
                else:
                    s, j = "[%s]" % s, "[%s]" % j
            out.append(Case("nesting", "tower", ("object!" if s[0] == "{" else "array!") + s, j, []))
    # sizes well below the compiler's default recursion limit
    for n in range(0, 65, 1):
        out.append(Case("sizes", "array %d" % n, "array![%s]" % ", ".join("t(%d, %d)" % (i, i) for i in range(n)), "[" + ",".join(map(str, range(n))) + "]", range(n)))
    for n in range(0, 33, 1):
        out.append(Case("sizes", "object %d" % n, "object!{%s}" % ", ".join("k%d: t(%d, %d)" % (i, i, i) for i in range(n)), merge([("k%d" % i, str(i)) for i in range(n)]), range(n)))
        out.append(Case("sizes", "literal object %d" % n, "object!{%s}" % "".join('"k%d": null,' % i for i in range(n)), merge([("k%d" % i, "null") for i in range(n)]), []))
    for n in range(0, 65):
        out.append(Case("sizes", "legacy object %d" % n, "object!{%s}" % ", ".join('"k%d" => t(%d, %d)' % (i, i, i) for i in range(n)), merge([("k%d" % i, str(i)) for i in range(n)]), range(n)))
    # value!
    for a in names:
        s, j, x, st = V[a](10)
        out.append(Case("value", a, "JsonValue::from(value!(%s))" % s, j, x, st))
        out.append(Case("value", a, "JsonValue::from(json::value!{%s})" % s, j, x, st))
    # used from other macros and in other places
    for a in EXPRS:
        s, j, x, st = V[a](10)
        if not x:
            out.append(Case("from macros", a, "mk_arr!(%s, 1)" % s, "[%s,null,1]" % j, x, st))
        else:
            out.append(Case("from macros", a, "mk_arr!(%s, t(99, 1))" % s, "[%s,null,1]" % j, tuple(x) + (99,), st))
            out.append(Case("from macros", a, 'mk_obj!(name, "lit", %s)' % s, '{"name":%s,"lit":null}' % j, tuple(x) * 2, st) if st == "" else arr_case("arrays", [a], 0))
        if st == "" or a in ("deref", "hygiene", "ref"):
            out.append(Case("from macros", a, "mk_tt!(v: %s, \"w\": null)" % s, '{"inner":{"v":%s,"w":null},"list":[{"v":%s,"w":null}]}' % (j, j), tuple(x) * 2, st))
    for i, (b, j, ev) in enumerate([
        ("{ fn f() -> JsonValue { return array![1, null]; } f() }", "[1,null]", []),
        ("(|| object!{ a: [] })()", '{"a":[]}', []),
        ("match object!{ a: 1 } { v => v }", '{"a":1}', []),
        ("{ let mut v = array![object!{ a: 1 }, array![]]; v.push(object!{ b: null }).unwrap(); v }", '[{"a":1},[],{"b":null}]', []),
        ("if array![1].is_array() && object!{ a: 1 }.is_object() { array![true] } else { array![] }", "[true]", []),
        ("{ let x = object!{ a: array!{ 1 }, b: object!( c: json::Null ) }; x }", '{"a":[1],"b":{"c":null}}', []),
        ("{ let k = array![t(1, 1), t(2, 2)]; array![k.clone(), k] }", "[[1,2],[1,2]]", [1, 2]),
        ("{ let mut n = 0; array![{ a: { n += 1; n } , }, n] }" if False else "{ let mut n = 0; array![({ n += 1; n }), ({ n += 1; n }), n] }", "[1,2,2]", []),
        ("{ let mut n = 0; object!{ a: ({ n += 1; n }), b: [({ n *= 10; n }), ({ n += 5; n })], [if n == 15 { \"right\" } else { \"wrong\" }]: n } }", '{"a":1,"b":[10,15],"right":15}', []),
        ("(0..3).map(|i| object!{ i: i, sq: [i * i] }).collect::<Vec<_>>().into()", '[{"i":0,"sq":[0]},{"i":1,"sq":[1]},{"i":2,"sq":[4]}]', []),
    ]):
        out.append(Case("places", str(i), b, j, ev))
    return out


def uniq(cs):
    seen, out = set(), []
    for c in cs:
        k = (c.setup, c.body)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def rust_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def source(cs):
    """cs: list of (id, Case). Returns text and the line of every case."""
    lines, where = PRE.splitlines(), {}
    for i, c in cs:
        lines.append("fn c%d() -> JsonValue { %s %s }" % (i, c.setup, c.body))
        where[len(lines)] = i
    lines.append("static CASES: &[Case] = &[")
    for i, c in cs:
        lines.append("(%d, c%d, %s, &%s)," % (i, i, rust_str(c.text), json.dumps(list(c.events))))
    lines.append("];")
    return "\n".join(lines) + POST, where


def workspace(root, repo, d, n):
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\njson = { path = "%s" }\nmc = { path = "%s/mc" }\n[workspace]\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\noverflow-checks = true\n' % (repo, root))
    for i in range(n):
        open(os.path.join(d, "src", "bin", "p%d.rs" % i), "a").close()


def cargo(d, env, args):
    return subprocess.run(["cargo"] + args + ["--offline"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=700)


def attempt(root, repo, d, env, cs, slot):
    """Compile and run a few cases; (ok, text)."""
    src, _ = source(cs)
    with open(os.path.join(d, "src", "bin", "p%d.rs" % slot), "w") as f:
        f.write(src)
    r = cargo(d, env, ["build", "--bin", "p%d" % slot])
    if r.returncode != 0:
        return False, "does not compile:\n" + "\n".join(l for l in r.stdout.splitlines() if not l.strip().startswith("Compiling"))[:1500]
    p = subprocess.run([os.path.join(env["CARGO_TARGET_DIR"], "debug", "p%d" % slot)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    return p.returncode == 0, p.stdout


def viol(c, i, msg):
    return {"scenario": c.group, "kind": "program", "profile": "checked", "choices": [i], "message": "`%s` (means %s): %s" % (c.body[:500], c.text[:300], msg[:1500]),
            "trace": [c.setup, c.body, "value: " + c.text, "evaluation order: %s" % list(c.events)], "setup": c.setup, "body": c.body, "text": c.text, "events": list(c.events)}


class Broken(Exception):
    pass


CONTROL = Case("control", "control", "JsonValue::new_array()", "[]", [])


def run(root, repo, w, tier, seed, cargo_env):
    t0 = time.time()
    cs = list(enumerate(uniq(cases(tier))))
    nb = 8
    d = os.path.join(w, "c25-%s" % tier)
    shutil.rmtree(os.path.join(d, "src"), ignore_errors=True)
    workspace(root, repo, d, nb + 1)
    env = cargo_env({"CARGO_TARGET_DIR": os.path.join(d, "target"), "RUSTFLAGS": "-Awarnings"})
    parts, wheres = [], []
    for b in range(nb):
        part = cs[b::nb]
        src, where = source(part)
        parts.append(part), wheres.append(where)
        with open(os.path.join(d, "src", "bin", "p%d.rs" % b), "w") as f:
            f.write(src)
    with open(os.path.join(d, "src", "bin", "p%d.rs" % nb), "w") as f:
        f.write(source([(0, CONTROL)])[0])
    # the control shows that the toolchain and the crate work
    r = cargo(d, env, ["build", "--bin", "p%d" % nb])
    if r.returncode != 0:
        raise Broken("control program does not build:\n" + r.stdout[-3000:])
    r = cargo(d, env, ["build", "--keep-going", "--bins"])
    tb = time.time() - t0
    violation = None
    if r.returncode != 0:
        bad = []
        for m in re.finditer(r"--> src/bin/p(\d+)\.rs:(\d+):", r.stdout):
            i = wheres[int(m.group(1))].get(int(m.group(2))) if int(m.group(1)) < nb else None
            if i is not None and i not in bad:
                bad.append(i)
        for i in bad[:6]:
            c = cs[i][1]
            ok, txt = attempt(root, repo, d, env, [(i, c)], nb)
            if not ok:
                violation = viol(c, i, txt)
                break
        if not violation:
            raise Broken("generated programs do not build:\n" + r.stdout[-3000:])
    agg = {}
    for i, c in cs:
        g = agg.setdefault(c.group, {"n": 0, "ev": 0, "st": set(), "sample": []})
        g["n"] += 1
        g["ev"] += len(c.events)
        g["st"].add((c.text, tuple(c.events)))
        if len(g["sample"]) < 400:
            g["sample"].append(c)
    done = 0
    if not violation:
        for b in range(nb):
            p = subprocess.run([os.path.join(env["CARGO_TARGET_DIR"], "debug", "p%d" % b)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            m = re.search(r"FAIL (\d+) (.*)", p.stdout, re.S)
            if m:
                i = int(m.group(1))
                c = cs[i][1]
                ok, txt = attempt(root, repo, d, env, [(i, c)], nb)
                violation = viol(c, i, m.group(2).strip() + ("" if not ok else " [only after other cases]"))
                break
            m = re.search(r"DONE (\d+) ", p.stdout)
            if p.returncode != 0 or not m or int(m.group(1)) != len(parts[b]):
                raise Broken("program %d ended with %s: %s" % (b, p.returncode, p.stdout[-1000:]))
            done += int(m.group(1))
    wall = time.time() - t0
    sc = []
    for g, a in agg.items():
        sm = [a["sample"][k] for k in (len(a["sample"]) // 3, len(a["sample"]) - 1)]
        sc.append({"name": g, "bound": BOUNDS.get(g, g), "executions": a["n"] if not violation else 0, "transitions": a["ev"] + a["n"], "states": len(a["st"]), "states_capped": False,
                   "outcomes": 0, "nontrivial": a["n"] if not violation else 0, "max_choices": 0, "complete": not violation, "tags": {}, "samples": ["%s: %s" % (x.body[:150], x.text[:150]) for x in sm], "wall_s": wall / len(agg)})
    reports = {"checked": {"scenarios": sc, "wall_s": wall}}
    # build output of this kind is large and never reused
    shutil.rmtree(d, ignore_errors=True)
    return reports, violation, {"programs": done, "compile_s": round(tb, 1)}


BOUNDS = {
    "arrays": "all sequences of one and two items out of %d kinds and of three out of %d, with and without trailing comma" % (len(V), len(CORE)),
    "objects": "all one-entry objects (8 kinds of keys x all kinds of values), all two-entry objects over key kinds x core values and over all pairs of values, three-entry objects",
    "legacy": "all one- and two-entry objects written with arrows, with and without trailing comma",
    "duplicates": "all sequences of up to 5 (6) entries over 5 spellings of 2 keys",
    "nesting": "all shapes of up to 6 (7) nodes; towers of every height to 20",
    "sizes": "every size of array to 64, of object to 32 (64 with arrows)",
    "value": "value! on every kind of item",
    "from macros": "fragments handed on by other macros",
    "places": "macros in other positions, side effects between items",
}


def replay(root, repo, w, v):
    import run as r
    d = os.path.join(w, "c25-replay")
    workspace(root, repo, d, 1)
    env = r.cargo_env({"CARGO_TARGET_DIR": os.path.join(d, "target"), "RUSTFLAGS": "-Awarnings"})
    c = Case(v["scenario"], "replay", v["body"], v["text"], v["events"], v["setup"])
    ok, txt = attempt(root, repo, d, env, [(v["choices"][0], c)], 0)
    print(txt)
    shutil.rmtree(d, ignore_errors=True)
    return 0 if ok else 1
