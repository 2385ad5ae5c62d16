//! Exact decimals.

/// neg, m * 10^e, normalised: no trailing zero in m; zero has e == 0.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Num { pub neg: bool, pub m: u64, pub e: i64 }

impl Num {
    pub fn new(neg: bool, mut m: u64, mut e: i64) -> Num {
        if m == 0 { return Num { neg, m: 0, e: 0 } }
        while m % 10 == 0 { m /= 10; e += 1 }
        Num { neg, m, e }
    }
    pub fn of(n: &json::number::Number) -> Option<Num> {
        if n.is_nan() { return None }
        let (p, m, e) = n.as_parts();
        Some(Num::new(!p, m, e as i64))
    }
    pub fn int(i: i128) -> Num { Num::new(i < 0, i.unsigned_abs() as u64, 0) }
    /// Some number with this value.
    pub fn number(&self) -> json::number::Number {
        unsafe { json::number::Number::from_parts_unchecked(!self.neg, self.m, self.e as i16) }
    }
    /// Value equality: -0 == 0.
    pub fn same_value(&self, o: &Num) -> bool { (self.m == 0 && o.m == 0) || self == o }
    /// As integer if it is one in the i128 range used here.
    pub fn as_int(&self) -> Option<i128> {
        if self.e < 0 { return None }
        if self.m == 0 { return Some(0) }
        if self.e > 20 { return None }
        let v = (self.m as i128).checked_mul(10i128.pow(self.e as u32))?;
        Some(if self.neg { -v } else { v })
    }
    pub fn text(&self) -> String { format!("{}{}e{}", if self.neg { "-" } else { "" }, self.m, self.e) }
}

/// Arbitrary precision decimal read from a literal: 0.d1d2d3... style digits.
/// `digits` has no leading and no trailing zero (empty for zero); the value is
/// digits as an integer times 10^exp.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dec { pub neg: bool, pub digits: Vec<u8>, pub exp: i64,
    /// exponent that belongs to the digits as written (trailing zeros included)
    pub written_exp: i64,
    /// number of digits of the integer part as written
    pub int_digits: usize }

impl Dec {
    /// `lit` must match the JSON number grammar.
    pub fn read(lit: &str) -> Dec {
        let b = lit.as_bytes();
        let mut i = 0;
        let neg = b[0] == b'-';
        if neg { i += 1 }
        let mut digits = Vec::new();
        let mut frac = 0i64;
        let mut seen_dot = false;
        let mut int_digits = 0;
        while i < b.len() {
            match b[i] {
                b'0'..=b'9' => { digits.push(b[i] - b'0'); if seen_dot { frac += 1 } else { int_digits += 1 } }
                b'.' => seen_dot = true,
                _ => break,
            }
            i += 1;
        }
        let mut exp = 0i64;
        if i < b.len() {
            i += 1; // e
            let eneg = b[i] == b'-';
            if b[i] == b'-' || b[i] == b'+' { i += 1 }
            while i < b.len() { exp = (exp * 10 + (b[i] - b'0') as i64).min(1_000_000_000_000); i += 1 }
            if eneg { exp = -exp }
        }
        let written_exp = exp - frac;
        Dec::norm(neg, digits, written_exp, written_exp, int_digits)
    }
    fn norm(neg: bool, mut digits: Vec<u8>, mut exp: i64, written_exp: i64, int_digits: usize) -> Dec {
        while digits.last() == Some(&0) { digits.pop(); exp += 1 }
        let z = digits.iter().take_while(|d| **d == 0).count();
        digits.drain(..z);
        if digits.is_empty() { exp = 0 }
        Dec { neg, digits, exp, written_exp, int_digits }
    }
    pub fn of(n: &Num) -> Dec {
        let d: Vec<u8> = if n.m == 0 { vec![] } else { n.m.to_string().bytes().map(|b| b - b'0').collect() };
        Dec::norm(n.neg, d, n.e, n.e, 1)
    }
    pub fn is_zero(&self) -> bool { self.digits.is_empty() }
    pub fn same(&self, o: &Dec) -> bool { self.neg == o.neg && self.digits == o.digits && self.exp == o.exp }
    /// The digits as u64 if they fit.
    pub fn mantissa(&self) -> Option<u64> {
        let mut m = 0u64;
        for d in &self.digits { m = m.checked_mul(10)?.checked_add(*d as u64)? }
        Some(m)
    }
    pub fn as_num(&self) -> Option<Num> { self.mantissa().map(|m| Num::new(self.neg, m, self.exp)) }
    /// Position of the leading digit: value is in [10^adj, 10^(adj+1)).
    pub fn adj(&self) -> i64 { self.exp + self.digits.len() as i64 - 1 }
    /// Leading 38 digits as an integer.
    fn head(&self) -> u128 {
        let mut v = 0u128;
        for i in 0..38 { v = v * 10 + self.digits.get(i).copied().unwrap_or(0) as u128 }
        v
    }

    /// Is `got` an acceptable reading of the literal that denotes `self`?
    /// (see property C06)
    pub fn read_as(&self, got: &Num) -> Result<(), String> {
        let fail = |why: &str| Err(format!("literal denoting {}{:?}e{} read as {}: {}", if self.neg { "-" } else { "" },
            crate::engine::clip(&self.digits.iter().map(|d| (d + b'0') as char).collect::<String>(), 60), self.exp, got.text(), why));
        if got.neg != self.neg { return fail("sign differs") }
        if self.is_zero() { return if got.m == 0 { Ok(()) } else { fail("zero read as nonzero") } }
        let (lo, hi) = (i16::MIN as i64, i16::MAX as i64);
        // exponent that goes with the digits a reader keeps in 64 bits
        let kept_lo = self.written_exp.max(self.adj() - 19);
        let kept_hi = self.written_exp.max(self.adj() - 18);
        if kept_lo >= lo && kept_hi <= hi {
            if let Some(n) = self.as_num() {
                return if *got == n { Ok(()) } else { fail("not exact") };
            }
            let g = Dec::of(got);
            if g.is_zero() || g.adj() != self.adj() { return fail("wrong magnitude") }
            let (t, p) = (self.head(), g.head());
            if p > t { return fail("not truncated towards zero") }
            if t - p >= t / 1_000_000_000_000_000_000 { return fail("relative error not below 1e-18") }
            return Ok(());
        }
        if got.m == 0 { return fail("nonzero literal read as zero") }
        if kept_hi > hi {
            if got.e < hi { return fail("exponent did not saturate upwards") }
        } else if Dec::of(got).adj() > lo + 20 { return fail("exponent did not saturate downwards") }
        Ok(())
    }
}

/// Nearest f64 to a decimal, by the standard library's correctly rounded parser.
pub fn nearest_f64(n: &Num) -> f64 { n.text().parse().unwrap() }

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn reads() {
        let d = Dec::read("-120.0340e2");
        assert_eq!((d.neg, d.digits.clone(), d.exp), (true, vec![1, 2, 0, 0, 3, 4], -1));
        assert_eq!(d.as_num().unwrap(), Num::new(true, 120034, -1));
        assert!(Dec::read("0.000").is_zero());
    }
}
