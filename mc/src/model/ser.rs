//! Reference serializers. Numbers have to be integers below 10^19 or have at
//! most 17 decimals, the range in which the text of a number is forced to be
//! plain digits.
use super::value::RV;
use super::dec::Num;

pub fn num_text(n: &Num) -> String {
    let d = n.m.to_string();
    let mut s = String::new();
    if n.neg { s.push('-') }
    if n.m == 0 { s.push('0'); return s }
    if n.e >= 0 {
        assert!(d.len() as i64 + n.e <= 20, "harness: number text not forced");
        s.push_str(&d);
        for _ in 0..n.e { s.push('0') }
    } else {
        let k = -n.e as usize;
        assert!(k <= 17, "harness: number text not forced");
        if d.len() > k { s.push_str(&d[..d.len() - k]); s.push('.'); s.push_str(&d[d.len() - k..]) }
        else { s.push_str("0."); for _ in d.len()..k { s.push('0') } s.push_str(&d) }
    }
    s
}

pub fn str_text(t: &str) -> String {
    let mut s = String::with_capacity(t.len() + 2);
    s.push('"');
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            '\u{8}' => s.push_str("\\b"),
            '\u{c}' => s.push_str("\\f"),
            c if (c as u32) < 0x20 => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

pub fn dump(v: &RV) -> String { let mut s = String::new(); d(v, &mut s); s }

fn scalar(v: &RV, s: &mut String) {
    match v {
        RV::Null | RV::Nan => s.push_str("null"),
        RV::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
        RV::Num(n) => s.push_str(&num_text(n)),
        RV::Str(t) => s.push_str(&str_text(t)),
        _ => unreachable!(),
    }
}

fn d(v: &RV, s: &mut String) {
    match v {
        RV::Arr(a) => {
            s.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { s.push(',') } d(x, s) }
            s.push(']');
        }
        RV::Obj(a) => {
            s.push('{');
            for (i, (k, x)) in a.iter().enumerate() { if i > 0 { s.push(',') } s.push_str(&str_text(k)); s.push(':'); d(x, s) }
            s.push('}');
        }
        v => scalar(v, s),
    }
}

pub fn pretty(v: &RV, n: usize) -> String { let mut s = String::new(); p(v, n, 0, &mut s); s }

fn nl(k: usize, s: &mut String) { s.push('\n'); s.extend(std::iter::repeat(' ').take(k)) }

fn p(v: &RV, n: usize, level: usize, s: &mut String) {
    match v {
        RV::Arr(a) if a.is_empty() => s.push_str("[]"),
        RV::Obj(a) if a.is_empty() => s.push_str("{}"),
        RV::Arr(a) => {
            s.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 { s.push(',') }
                nl((level + 1) * n, s);
                p(x, n, level + 1, s);
            }
            nl(level * n, s);
            s.push(']');
        }
        RV::Obj(a) => {
            s.push('{');
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 { s.push(',') }
                nl((level + 1) * n, s);
                s.push_str(&str_text(k));
                s.push_str(": ");
                p(x, n, level + 1, s);
            }
            nl(level * n, s);
            s.push('}');
        }
        v => scalar(v, s),
    }
}
