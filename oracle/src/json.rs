//! JSON as the server writes it, over bytes that may be symbolic.

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

pub fn parse(b: &[u8]) -> Option<J> {
    let mut p = P { b, i: 0 };
    let v = p.value()?;
    if p.i != b.len() {
        return None;
    }
    Some(v)
}

impl P<'_> {
    fn peek(&self) -> u8 {
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    fn lit(&mut self, s: &[u8], v: J) -> Option<J> {
        if self.b[self.i..].starts_with(s) {
            self.i += s.len();
            Some(v)
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<J> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Some(J::Obj(v));
                }
                loop {
                    let k = self.string()?;
                    if self.peek() != b':' {
                        return None;
                    }
                    self.i += 1;
                    let x = self.value()?;
                    v.push((k, x));
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Some(J::Obj(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                if self.peek() == b']' {
                    self.i += 1;
                    return Some(J::Arr(v));
                }
                loop {
                    let x = self.value()?;
                    v.push(x);
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Some(J::Arr(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'"' => Some(J::Str(self.string()?)),
            b'n' => self.lit(b"null", J::Null),
            b't' => self.lit(b"true", J::Bool(true)),
            b'f' => self.lit(b"false", J::Bool(false)),
            _ => {
                let s = self.i;
                loop {
                    let c = self.peek();
                    if c.is_ascii_digit() || c == b'-' || c == b'.' || c == b'e' || c == b'E' || c == b'+' {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                if s == self.i {
                    return None;
                }
                Some(J::Num(self.b[s..self.i].to_vec()))
            }
        }
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        if self.peek() != b'"' {
            return None;
        }
        self.i += 1;
        let mut v = Vec::new();
        loop {
            if self.i >= self.b.len() {
                return None;
            }
            let c = self.b[self.i];
            self.i += 1;
            match c {
                b'"' => return Some(v),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => v.push(e),
                        b'n' => v.push(b'\n'),
                        b't' => v.push(b'\t'),
                        b'r' => v.push(b'\r'),
                        b'b' => v.push(8),
                        b'f' => v.push(12),
                        b'u' => {
                            let mut x = 0u32;
                            for _ in 0..4 {
                                let h = (self.peek() as char).to_digit(16)?;
                                self.i += 1;
                                x = x * 16 + h;
                            }
                            let ch = char::from_u32(x)?;
                            let mut t = [0; 4];
                            v.extend(ch.encode_utf8(&mut t).as_bytes());
                        }
                        _ => return None,
                    }
                }
                // raw control characters are not JSON
                0..=31 => return None,
                _ => v.push(c),
            }
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n.len() == k.len() && n == k.as_bytes()).map(|(_, x)| x),
            _ => None,
        }
    }
    pub fn keys(&self) -> usize {
        match self {
            J::Obj(v) => v.len(),
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn is_arr(&self) -> bool {
        matches!(self, J::Arr(_))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn str(&self) -> Option<&[u8]> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_str(&self, t: &[u8]) -> bool {
        match self {
            J::Str(s) => same(s, t),
            _ => false,
        }
    }
    pub fn num(&self) -> Option<crate::num::Num> {
        match self {
            J::Num(s) => crate::num::parse(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        self.num().filter(|n| n.s == 0).map(|n| n.m)
    }
    pub fn get_str(&self, k: &str) -> Option<&[u8]> {
        self.get(k).and_then(|x| x.str())
    }
    pub fn get_num(&self, k: &str) -> Option<crate::num::Num> {
        self.get(k).and_then(|x| x.num())
    }
    pub fn has(&self, k: &str, v: &[u8]) -> bool {
        self.get(k).is_some_and(|x| x.is_str(v))
    }

    /// the same value: object entries in any order, everything else exactly
    pub fn same(&self, o: &J) -> bool {
        match (self, o) {
            (J::Null, J::Null) => true,
            (J::Bool(a), J::Bool(b)) => a == b,
            (J::Num(a), J::Num(b)) | (J::Str(a), J::Str(b)) => same(a, b),
            (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (J::Obj(a), J::Obj(b)) => {
                a.len() == b.len() && a.iter().all(|(k, x)| b.iter().any(|(l, y)| same(k, l) && x.same(y)))
            }
            _ => false,
        }
    }
}

/// equality of byte strings as a single condition
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

pub fn quote(s: &[u8]) -> Vec<u8> {
    let mut v = vec![b'"'];
    for &c in s {
        match c {
            b'"' => v.extend(b"\\\""),
            b'\\' => v.extend(b"\\\\"),
            b'\n' => v.extend(b"\\n"),
            b'\t' => v.extend(b"\\t"),
            _ => v.push(c),
        }
    }
    v.push(b'"');
    v
}

/// the same for JSON, where control characters are escaped
pub fn jquote(s: &[u8]) -> Vec<u8> {
    let hex = |x: u8| if x < 10 { b'0' + x } else { b'a' + x - 10 };
    let mut v = vec![b'"'];
    for &c in s {
        match c {
            b'"' => v.extend(b"\\\""),
            b'\\' => v.extend(b"\\\\"),
            0..=31 => {
                v.extend(b"\\u00");
                v.push(hex(c >> 4));
                v.push(hex(c & 15));
            }
            _ => v.push(c),
        }
    }
    v.push(b'"');
    v
}
