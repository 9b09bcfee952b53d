//! Decimal numbers m * 10^-s with a (possibly symbolic) mantissa and a concrete scale.
use crate::sx;

#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub m: i64,
    pub s: u32,
}

pub const fn p10(n: u32) -> i64 {
    let mut r = 1;
    let mut i = 0;
    while i < n {
        r *= 10;
        i += 1;
    }
    r
}

pub const fn n(m: i64, s: u32) -> Num {
    Num { m, s }
}

impl Num {
    pub const ZERO: Num = Num { m: 0, s: 0 };
    pub fn at(self, s: u32) -> i64 {
        self.m * p10(s - self.s)
    }
    pub fn add(self, o: Num) -> Num {
        let s = self.s.max(o.s);
        Num { m: self.at(s) + o.at(s), s }
    }
    pub fn sub(self, o: Num) -> Num {
        self.add(o.neg())
    }
    pub fn neg(self) -> Num {
        Num { m: 0 - self.m, s: self.s }
    }
    pub fn mul(self, o: Num) -> Num {
        Num { m: self.m * o.m, s: self.s + o.s }
    }
    pub fn abs(self) -> Num {
        Num { m: if self.m < 0 { 0 - self.m } else { self.m }, s: self.s }
    }
    pub fn eq(self, o: Num) -> bool {
        let s = self.s.max(o.s);
        self.at(s) == o.at(s)
    }
    pub fn lt(self, o: Num) -> bool {
        let s = self.s.max(o.s);
        self.at(s) < o.at(s)
    }
    pub fn gt(self, o: Num) -> bool {
        o.lt(self)
    }
    pub fn is_zero(self) -> bool {
        self.m == 0
    }
    /// |self| <= t, as one condition
    pub fn within(self, t: Num) -> bool {
        let s = self.s.max(t.s);
        let (a, t) = (self.at(s), t.at(s));
        (a <= t) & (a >= 0 - t)
    }
    /// |self| < t
    pub fn strictly_within(self, t: Num) -> bool {
        let s = self.s.max(t.s);
        let (a, t) = (self.at(s), t.at(s));
        (a < t) & (a > 0 - t)
    }
    pub fn text(self) -> Vec<u8> {
        // concrete numbers only
        let mut v = Vec::new();
        if self.m < 0 {
            v.push(b'-');
        }
        let a = self.m.unsigned_abs();
        let mut d: Vec<u8> = a.to_string().into_bytes();
        while d.len() <= self.s as usize {
            d.insert(0, b'0');
        }
        let p = d.len() - self.s as usize;
        v.extend(&d[..p]);
        if self.s > 0 {
            v.push(b'.');
            v.extend(&d[p..]);
        }
        v
    }
}

/// A number as written, with its digits.
#[derive(Clone, Debug)]
pub struct Amt {
    pub n: Num,
    pub text: Vec<u8>,
}

impl Amt {
    pub fn c(m: i64, s: u32) -> Amt {
        let n = Num { m, s };
        Amt { n, text: n.text() }
    }
    pub fn neg(&self) -> Amt {
        let mut text = self.text.clone();
        if text[0] == b'-' {
            text.remove(0);
        } else {
            text.insert(0, b'-');
        }
        Amt { n: self.n.neg(), text }
    }
}

impl Amt {
    /// without a leading zero, for one written with two digits
    pub fn strip(self) -> Amt {
        if self.n.m < 10 {
            of(self.n.m, 1, 0)
        } else {
            self
        }
    }
}

fn digits(m: u64, ints: u32, scale: u32) -> Vec<u8> {
    let k = ints + scale;
    let mut v = Vec::with_capacity(k as usize + 1);
    for i in 0..k {
        if i == ints {
            v.push(b'.');
        }
        let d = (m / p10(k - 1 - i) as u64) % 10;
        v.push(b'0' + d as u8);
    }
    v
}

/// any positive number with exactly `ints` digits before and `scale` after the point
/// (the first is not a zero unless it is the only one)
pub fn sym(name: &str, ints: u32, scale: u32) -> Amt {
    let k = ints + scale;
    let lo = if ints > 1 { p10(k - 1) } else { 0 };
    sym_range(name, lo, p10(k) - 1, ints, scale)
}

pub fn sym_range(name: &str, lo: i64, hi: i64, ints: u32, scale: u32) -> Amt {
    let m = sx::var(name, lo as u64, hi as u64);
    Amt { n: Num { m: m as i64, s: scale }, text: digits(m, ints, scale) }
}

/// of any sign, or zero
pub fn any(name: &str) -> Amt {
    match sx::choice(4) {
        0 => sym(name, 1, 0),
        1 => sym(name, 1, 2),
        2 => sym(name, 1, 2).neg(),
        _ => pos(name, 3, 1),
    }
}

/// like sym, but never zero and without a leading zero
pub fn pos(name: &str, ints: u32, scale: u32) -> Amt {
    let k = ints + scale;
    sym_range(name, p10(k - 1), p10(k) - 1, ints, scale)
}

/// a computed value in 10^(ints-1+scale) ..= 10^(ints+scale)-1 written with all its digits
pub fn of(m: i64, ints: u32, scale: u32) -> Amt {
    Amt { n: Num { m, s: scale }, text: digits(m as u64, ints, scale) }
}

/// two numbers of two whole digits, of the given scales, less than 10 apart:
/// every such distance in either direction
pub fn pair(name: &str, sa: u32, sb: u32) -> (Amt, Amt) {
    let (lo, hi) = (sa.min(sb), sa.max(sb));
    let c = sx::var(name, 20 * p10(lo) as u64, 60 * p10(lo) as u64) as i64;
    let d = sx::var("distance", 0, 10 * p10(hi) as u64) as i64;
    let base = c * p10(hi - lo);
    let f = if sx::flip() { base + d } else { base - d };
    let (x, y) = (of(c, 2, lo), of(f, 2, hi));
    if sa <= sb {
        (x, y)
    } else {
        (y, x)
    }
}

/// a number in text; None if it is not one
pub fn parse(t: &[u8]) -> Option<Num> {
    let mut m: i64 = 0;
    let mut s = 0;
    let mut dot = false;
    let mut nd = 0;
    let (neg, t) = if !t.is_empty() && t[0] == b'-' { (true, &t[1..]) } else { (false, t) };
    for &b in t {
        if b == b'.' {
            if dot {
                return None;
            }
            dot = true;
        } else if b.is_ascii_digit() {
            m = m * 10 + (b - b'0') as i64;
            nd += 1;
            if nd > 18 {
                return None;
            }
            if dot {
                s += 1;
            }
        } else {
            return None;
        }
    }
    if nd == 0 {
        return None;
    }
    Some(Num { m: if neg { 0 - m } else { m }, s })
}
