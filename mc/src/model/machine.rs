//! Character-level automaton of the JSON grammar (RFC 8259 plus VT and FF as
//! whitespace, plus the nesting limit). One step per character.

pub const DEPTH: usize = 512;

pub fn is_ws(c: char) -> bool { matches!(c, '\t' | '\n' | '\u{b}' | '\u{c}' | '\r' | ' ') }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N { Minus, Zero, Int, Dot, Frac, E, ESign, Exp }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum S { Norm, Esc, U(u8, u16), NeedBs, NeedU, U2(u8, u16) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum M { Value, ArrFirst, ObjFirst, ObjKey, Colon, After, Lit(&'static str), Num(N), Str(bool, S) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Reject { Char, Depth, Surrogate }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Machine {
    pub mode: M,
    /// open non-empty containers; true = object
    pub stack: Vec<bool>,
}

impl Default for Machine { fn default() -> Self { Machine::new() } }

impl Machine {
    pub fn new() -> Machine { Machine { mode: M::Value, stack: Vec::new() } }

    /// Whole text accepted so far?
    pub fn accepting(&self) -> bool {
        self.stack.is_empty() && match self.mode {
            M::After => true,
            M::Num(n) => matches!(n, N::Zero | N::Int | N::Frac | N::Exp),
            _ => false,
        }
    }

    fn open(&mut self, obj: bool) -> Result<(), Reject> {
        if self.stack.len() == DEPTH { return Err(Reject::Depth) }
        self.stack.push(obj);
        Ok(())
    }

    fn value(&mut self, c: char) -> Result<(), Reject> {
        self.mode = match c {
            '[' => M::ArrFirst,
            '{' => M::ObjFirst,
            '"' => M::Str(false, S::Norm),
            '-' => M::Num(N::Minus),
            '0' => M::Num(N::Zero),
            '1'..='9' => M::Num(N::Int),
            't' => M::Lit("rue"),
            'f' => M::Lit("alse"),
            'n' => M::Lit("ull"),
            _ => return Err(Reject::Char),
        };
        Ok(())
    }

    fn after(&mut self, c: char) -> Result<(), Reject> {
        match (self.stack.last(), c) {
            (_, c) if is_ws(c) => self.mode = M::After,
            (Some(false), ',') => self.mode = M::Value,
            (Some(true), ',') => self.mode = M::ObjKey,
            (Some(false), ']') | (Some(true), '}') => { self.stack.pop(); self.mode = M::After }
            _ => return Err(Reject::Char),
        }
        Ok(())
    }

    pub fn step(&mut self, c: char) -> Result<(), Reject> {
        let bad = Err(Reject::Char);
        match self.mode {
            M::Value => if is_ws(c) { Ok(()) } else { self.value(c) },
            M::ArrFirst => {
                if is_ws(c) { return Ok(()) }
                if c == ']' { self.mode = M::After; return Ok(()) }
                self.open(false)?;
                self.value(c)
            }
            M::ObjFirst => {
                if is_ws(c) { return Ok(()) }
                if c == '}' { self.mode = M::After; return Ok(()) }
                self.open(true)?;
                if c != '"' { return bad }
                self.mode = M::Str(true, S::Norm);
                Ok(())
            }
            M::ObjKey => {
                if is_ws(c) { return Ok(()) }
                if c != '"' { return bad }
                self.mode = M::Str(true, S::Norm);
                Ok(())
            }
            M::Colon => {
                if is_ws(c) { return Ok(()) }
                if c != ':' { return bad }
                self.mode = M::Value;
                Ok(())
            }
            M::After => self.after(c),
            M::Lit(rest) => {
                if !rest.starts_with(c) { return bad }
                self.mode = if rest.len() == 1 { M::After } else { M::Lit(&rest[1..]) };
                Ok(())
            }
            M::Num(n) => {
                let d = c.is_ascii_digit();
                let next = match n {
                    N::Minus if c == '0' => Some(N::Zero),
                    N::Minus if d => Some(N::Int),
                    N::Minus => return bad,
                    N::Zero | N::Int if c == '.' => Some(N::Dot),
                    N::Zero | N::Int | N::Frac if c == 'e' || c == 'E' => Some(N::E),
                    N::Zero => None,
                    N::Int if d => Some(N::Int),
                    N::Dot | N::Frac if d => Some(N::Frac),
                    N::E if c == '+' || c == '-' => Some(N::ESign),
                    N::E | N::ESign | N::Exp if d => Some(N::Exp),
                    N::Dot | N::E | N::ESign => return bad,
                    N::Int | N::Frac | N::Exp => None,
                };
                match next {
                    Some(n) => { self.mode = M::Num(n); Ok(()) }
                    None => self.after(c),
                }
            }
            M::Str(key, s) => {
                let next = match s {
                    S::Norm => match c {
                        '"' => { self.mode = if key { M::Colon } else { M::After }; return Ok(()) }
                        '\\' => S::Esc,
                        c if (c as u32) < 0x20 => return bad,
                        _ => S::Norm,
                    },
                    S::Esc => match c {
                        '"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' => S::Norm,
                        'u' => S::U(0, 0),
                        _ => return bad,
                    },
                    S::U(k, v) => {
                        let h = if c.is_ascii() { c.to_digit(16) } else { None };
                        let v = v << 4 | match h { Some(h) => h as u16, None => return bad };
                        if k < 3 { S::U(k + 1, v) }
                        else if (0xd800..0xdc00).contains(&v) { S::NeedBs }
                        else if (0xdc00..0xe000).contains(&v) { return Err(Reject::Surrogate) }
                        else { S::Norm }
                    }
                    S::NeedBs => if c == '\\' { S::NeedU } else { return bad },
                    S::NeedU => if c == 'u' { S::U2(0, 0) } else { return bad },
                    S::U2(k, v) => {
                        let h = if c.is_ascii() { c.to_digit(16) } else { None };
                        let v = v << 4 | match h { Some(h) => h as u16, None => return bad };
                        if k < 3 { S::U2(k + 1, v) }
                        else if (0xdc00..0xe000).contains(&v) { S::Norm }
                        else { return Err(Reject::Surrogate) }
                    }
                };
                self.mode = M::Str(key, next);
                Ok(())
            }
        }
    }

    /// The same machine with the digits of a pending \u unit replaced by a
    /// representative: the future only depends on whether the unit can still
    /// become a high surrogate, a low surrogate or another unit.
    pub fn canon(&self) -> Machine {
        fn class(k: u8, v: u16) -> u16 {
            match k {
                0 => 0,
                1 => if v == 0xd { 0xd } else { 0 },
                k => {
                    let top = v >> (4 * (k - 2));
                    let c = match top { 0xd8..=0xdb => 0xd8, 0xdc..=0xdf => 0xdc, _ => 0 };
                    c << (4 * (k - 2))
                }
            }
        }
        let mut m = self.clone();
        m.mode = match m.mode {
            M::Str(a, S::U(k, v)) => M::Str(a, S::U(k, class(k, v))),
            M::Str(a, S::U2(k, v)) => M::Str(a, S::U2(k, class(k, v))),
            x => x,
        };
        m
    }

    /// A shortest text that completes the document; None if the pending second
    /// surrogate can no longer be one.
    pub fn completion(&self) -> Option<String> {
        let mut o = String::new();
        match self.mode {
            M::Value => o.push('0'),
            M::ArrFirst => o.push(']'),
            M::ObjFirst => o.push('}'),
            M::ObjKey => o.push_str("\"\":0"),
            M::Colon => o.push_str(":0"),
            M::After => {}
            M::Lit(r) => o.push_str(r),
            M::Num(n) => if matches!(n, N::Minus | N::Dot | N::E | N::ESign) { o.push('0') },
            M::Str(key, s) => {
                match s {
                    S::Norm => {}
                    S::Esc => o.push('n'),
                    S::U(k, v) => {
                        let mut done = false;
                        // fill with zeros; the unit must not be a low surrogate
                        for fill in ["0000", "7777"] {
                            let f = &fill[..4 - k as usize];
                            let u = f.chars().fold(v, |a, c| a << 4 | c.to_digit(16).unwrap() as u16);
                            if (0xdc00..0xe000).contains(&u) { continue }
                            o.push_str(f);
                            if (0xd800..0xdc00).contains(&u) { o.push_str("\\uDC00") }
                            done = true;
                            break;
                        }
                        if !done { return None }
                    }
                    S::NeedBs => o.push_str("\\udC01"),
                    S::NeedU => o.push_str("udfFf"),
                    S::U2(k, v) => {
                        let full = ["dc00", "c00", "00", "0"][k as usize];
                        let u = full.chars().fold(v, |a, c| a << 4 | c.to_digit(16).unwrap() as u16);
                        if !(0xdc00..0xe000).contains(&u) { return None }
                        o.push_str(full);
                    }
                }
                o.push('"');
                if key { o.push_str(":0") }
            }
        }
        for obj in self.stack.iter().rev() { o.push(if *obj { '}' } else { ']' }) }
        Some(o)
    }

    /// Run over a text: Ok(machine) or the byte position of the rejection.
    pub fn run(text: &str) -> Result<Machine, (usize, Reject)> {
        let mut m = Machine::new();
        for (i, c) in text.char_indices() { m.step(c).map_err(|r| (i, r))? }
        Ok(m)
    }

    pub fn accepts(text: &str) -> bool { Machine::run(text).map(|m| m.accepting()).unwrap_or(false) }
}
