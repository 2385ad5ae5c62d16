//! Recursive-descent reference parser with an exact error oracle.
use super::dec::Dec;
use super::machine::{is_ws, DEPTH};
use super::value::RV;

/// An outcome of a failed parse.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RErr {
    Eof,
    /// unexpected character at this byte offset
    Char(usize),
    Depth,
    Surrogate,
}

/// Acceptable outcomes of a failed parse, canonical one first. More than one
/// only where several errors are equally true (text that is both too deep and
/// wrong, or a surrogate that is both lone and followed by the wrong thing).
pub type Fail = Vec<RErr>;

struct P<'a> { b: &'a [u8], s: &'a str, i: usize, /* tracks duplicates */ }

pub fn ref_parse(s: &str) -> Result<RV, Fail> {
    let mut p = P { b: s.as_bytes(), s, i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i < p.b.len() { return Err(vec![RErr::Char(p.i)]) }
    Ok(v)
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> { self.b.get(self.i).copied() }
    fn ws(&mut self) { while let Some(c) = self.peek() { if is_ws(c as char) && c < 128 { self.i += 1 } else { break } } }
    fn bad<T>(&self) -> Result<T, Fail> {
        Err(vec![if self.i < self.b.len() { RErr::Char(self.i) } else { RErr::Eof }])
    }
    fn eat(&mut self, c: u8) -> Result<(), Fail> { if self.peek() == Some(c) { self.i += 1; Ok(()) } else { self.bad() } }

    fn value(&mut self, depth: usize) -> Result<RV, Fail> {
        match self.peek() {
            Some(b'[') => {
                self.i += 1;
                self.ws();
                if self.peek() == Some(b']') { self.i += 1; return Ok(RV::Arr(vec![])) }
                self.deeper(depth, |p| !matches!(p.peek(), Some(b'[' | b'{' | b'"' | b'-' | b'0'..=b'9' | b't' | b'f' | b'n')))?;
                let mut a = Vec::new();
                loop {
                    self.ws();
                    a.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b']') => { self.i += 1; return Ok(RV::Arr(a)) }
                        _ => return self.bad(),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                self.ws();
                if self.peek() == Some(b'}') { self.i += 1; return Ok(RV::Obj(vec![])) }
                self.deeper(depth, |p| p.peek() != Some(b'"'))?;
                let mut o: Vec<(String, RV)> = Vec::new();
                let mut at: std::collections::HashMap<String, usize> = Default::default();
                loop {
                    self.ws();
                    if self.peek() != Some(b'"') { return self.bad() }
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    let v = self.value(depth + 1)?;
                    match at.get(&k) {
                        Some(i) => o[*i].1 = v,
                        None => { at.insert(k.clone(), o.len()); o.push((k, v)) }
                    }
                    self.ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => { self.i += 1; return Ok(RV::Obj(o)) }
                        _ => return self.bad(),
                    }
                }
            }
            Some(b'"') => Ok(RV::Str(self.string()?)),
            Some(b't') => self.word("true", RV::Bool(true)),
            Some(b'f') => self.word("false", RV::Bool(false)),
            Some(b'n') => self.word("null", RV::Null),
            Some(b'-') | Some(b'0'..=b'9') => self.number(),
            _ => self.bad(),
        }
    }

    /// Entering a non-empty container. The limit is reported once something is
    /// inside; a text that ends right there is also just unfinished.
    fn deeper(&self, depth: usize, wrong: impl Fn(&Self) -> bool) -> Result<(), Fail> {
        if depth < DEPTH { return Ok(()) }
        if self.i >= self.b.len() { return Err(vec![RErr::Eof]) }
        if wrong(self) { return Err(vec![RErr::Depth, RErr::Char(self.i)]) }
        Err(vec![RErr::Depth])
    }

    fn word(&mut self, w: &str, v: RV) -> Result<RV, Fail> {
        for c in w.bytes() { self.eat(c)? }
        Ok(v)
    }

    fn digits(&mut self) -> Result<(), Fail> {
        if !matches!(self.peek(), Some(b'0'..=b'9')) { return self.bad() }
        while matches!(self.peek(), Some(b'0'..=b'9')) { self.i += 1 }
        Ok(())
    }

    fn number(&mut self) -> Result<RV, Fail> {
        let start = self.i;
        if self.peek() == Some(b'-') { self.i += 1 }
        if self.peek() == Some(b'0') { self.i += 1 } else { self.digits()? }
        if self.peek() == Some(b'.') { self.i += 1; self.digits()? }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) { self.i += 1 }
            self.digits()?;
        }
        Ok(number(&self.s[start..self.i]))
    }

    fn hex4(&mut self) -> Result<u32, Fail> {
        let mut v = 0;
        for _ in 0..4 {
            match self.peek() {
                Some(c) if c.is_ascii_hexdigit() => { v = v * 16 + (c as char).to_digit(16).unwrap(); self.i += 1 }
                _ => return self.bad(),
            }
        }
        Ok(v)
    }

    fn string(&mut self) -> Result<String, Fail> {
        self.i += 1;
        let mut o = String::new();
        loop {
            let c = match self.s[self.i..].chars().next() { Some(c) => c, None => return self.bad() };
            match c {
                '"' => { self.i += 1; return Ok(o) }
                '\\' => {
                    self.i += 1;
                    let e = match self.peek() { Some(e) => e, None => return self.bad() };
                    let r = match e {
                        b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\u{8}', b'f' => '\u{c}',
                        b'n' => '\n', b'r' => '\r', b't' => '\t',
                        b'u' => {
                            self.i += 1;
                            let u = self.hex4()?;
                            let ch = if (0xd800..0xe000).contains(&u) {
                                // a pair has to follow, and it has to be one
                                let follow = (|| { self.eat(b'\\')?; self.eat(b'u')?; self.hex4() })();
                                match follow {
                                    Ok(l) if u < 0xdc00 && (0xdc00..0xe000).contains(&l) =>
                                        char::from_u32(0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00)).unwrap(),
                                    Ok(_) => return Err(vec![RErr::Surrogate]),
                                    Err(mut f) => { f.push(RErr::Surrogate); return Err(f) }
                                }
                            } else { char::from_u32(u).unwrap() };
                            o.push(ch);
                            continue;
                        }
                        _ => return self.bad(),
                    };
                    o.push(r);
                    self.i += 1;
                }
                c if (c as u32) < 0x20 => return self.bad(),
                c => { o.push(c); self.i += c.len_utf8() }
            }
        }
    }
}

pub fn number(lit: &str) -> RV {
    let d = Dec::read(lit);
    let plain = d.digits.len() <= 19 && d.exp.abs() < 32000 && d.written_exp.abs() < 32000;
    match d.as_num() { Some(n) if plain => RV::Num(n), _ => RV::Big(d) }
}

/// 1-based line and column (in characters) of a byte offset, the slow way.
pub fn position(s: &str, at: usize) -> (char, usize, usize) {
    let (mut line, mut col) = (1, 1);
    for (i, c) in s.char_indices() {
        if i == at { return (c, line, col) }
        if c == '\n' { line += 1; col = 1 } else { col += 1 }
    }
    panic!("harness: offset {} outside", at)
}
