//! Linear view of bit-vector expressions: sums of integer multiples of atoms.
//!
//! `lin(e)` gives terms and a constant whose sum is congruent to `e` modulo
//! 2^width. Where interval arithmetic shows that the sum cannot wrap (read as
//! unsigned or as signed) it is the value itself, so sums can be regrouped
//! across widths, digits of a number joined to the number again, and
//! comparisons decided or written in one canonical form.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Lin {
    pub t: Vec<(E, i128)>, // sorted by atom
    pub k: i128,
}

const MAXT: usize = 20;
const BIG: i128 = 1 << 125;

fn bits(v: u128) -> u16 {
    (128 - v.leading_zeros()).max(1) as u16
}

impl Lin {
    fn konst(k: i128) -> Lin {
        Lin { t: vec![], k }
    }
    fn atom(e: E) -> Lin {
        Lin { t: vec![(e, 1)], k: 0 }
    }
    fn is_atom(&self) -> bool {
        self.k == 0 && self.t.len() == 1 && self.t[0].1 == 1
    }
    fn scale(&self, c: i128) -> Option<Lin> {
        if c == 0 {
            return Some(Lin::konst(0));
        }
        let mut t = Vec::with_capacity(self.t.len());
        for &(e, m) in &self.t {
            let p = m.checked_mul(c)?;
            if p.abs() > BIG {
                return None;
            }
            t.push((e, p));
        }
        let k = self.k.checked_mul(c)?;
        if k.unsigned_abs() > BIG as u128 {
            return None;
        }
        Some(Lin { t, k })
    }
    fn add(&self, o: &Lin) -> Option<Lin> {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push(o.t[j]);
                j += 1;
            } else {
                let c = self.t[i].1 + o.t[j].1;
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        let k = self.k + o.k;
        if k.abs() > BIG || t.iter().any(|x| x.1.abs() > BIG) || t.len() > 2 * MAXT {
            return None;
        }
        Some(Lin { t, k })
    }
    fn coef(&self, e: E) -> i128 {
        match self.t.binary_search_by_key(&e, |x| x.0) {
            Ok(i) => self.t[i].1,
            Err(_) => 0,
        }
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

impl Exprs {
    // the sum's range without the constant
    fn span(&self, l: &Lin) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (0i128, 0i128);
        for &(e, c) in &l.t {
            let (a, b) = (self.lo(e), self.hi(e));
            if b > BIG as u128 {
                return None;
            }
            let (a, b) = ((a as i128).checked_mul(c)?, (b as i128).checked_mul(c)?);
            lo = lo.checked_add(a.min(b))?;
            hi = hi.checked_add(a.max(b))?;
            if lo < -BIG || hi > BIG {
                return None;
            }
        }
        Some((lo, hi))
    }

    // reduce coefficients to the width
    fn modred(&self, mut l: Lin, w: u16) -> Option<Lin> {
        if w <= 120 {
            let m = 1i128 << w;
            for x in l.t.iter_mut() {
                if x.1 >= m || x.1 <= -m {
                    x.1 = x.1.rem_euclid(m);
                }
                if x.1 < 0 && x.1 + m < -x.1 {
                    x.1 += m;
                }
                if x.1 > m / 2 {
                    let h = self.hi(x.0);
                    if h > BIG as u128 || (h as i128).checked_mul(x.1).map_or(true, |v| v >= m) {
                        x.1 -= m;
                    }
                }
            }
            l.t.retain(|x| x.1 != 0);
            l.k = l.k.rem_euclid(m);
        }
        if l.t.len() > MAXT {
            return None;
        }
        Some(l)
    }

    fn atom_of(&self, e: E) -> Lin {
        let mut e = e;
        loop {
            match self.n(e) {
                Node::ZExt(x) => e = x,
                Node::Extract(0, x) if self.hi(x) <= mask(self.w(e)) => e = x,
                Node::Const(c) if c < BIG as u128 => return Lin::konst(c as i128),
                _ => return Lin::atom(e),
            }
        }
    }

    /// terms congruent to e modulo 2^w(e)
    pub fn lin(&mut self, e: E) -> Rc<Lin> {
        if let Some(l) = self.lins.get(&e) {
            return l.clone();
        }
        let w = self.w(e);
        let r = match self.n(e) {
            Node::Const(c) => Some(Lin::konst(if c < BIG as u128 {
                c as i128
            } else {
                let s = sext(c, w);
                if s.unsigned_abs() > BIG as u128 {
                    // no use; treated as an atom
                    let l = Rc::new(Lin::atom(e));
                    self.lins.insert(e, l.clone());
                    return l;
                }
                s
            })),
            Node::Bin(Op::Add, a, b) => {
                let (x, y) = (self.lin(a), self.lin(b));
                x.add(&y)
            }
            Node::Bin(Op::Sub, a, b) => {
                let (x, y) = (self.lin(a), self.lin(b));
                y.scale(-1).and_then(|y| x.add(&y))
            }
            Node::Bin(Op::Mul, a, b) => match self.cval(b) {
                Some(c) => {
                    let x = self.lin(a);
                    let s = sext(c, w);
                    let c = if c < BIG as u128 && (s >= 0 || x.t.iter().all(|t| t.1 > 0)) { c as i128 } else { s };
                    if c.unsigned_abs() > BIG as u128 { None } else { x.scale(c) }
                }
                None => None,
            },
            Node::ZExt(x) => Some((*self.ulin_or_atom(x)).clone()),
            Node::SExt(x) => self.slin(x).map(|l| (*l).clone()),
            Node::Extract(0, x) => {
                let l = self.lin(x);
                match self.modred((*l).clone(), w) {
                    Some(l) if self.ufit(&l, w).is_some() => Some(l),
                    _ => None,
                }
            }
            Node::Bin(Op::Concat, h, l) => {
                let lw = self.w(l);
                let x = self.lin(h);
                let y = self.ulin_or_atom(l);
                if lw < 120 { x.scale(1i128 << lw).and_then(|x| x.add(&y)) } else { None }
            }
            Node::Bin(Op::URem, x, c) => match self.cval(c) {
                Some(c) if c > 0 && c < BIG as u128 => {
                    let l = self.ulin_or_atom(x);
                    let k = self.konst(c, w);
                    let q = self.bin(Op::UDiv, x, k);
                    let ql = self.ulin_or_atom(q);
                    ql.scale(-(c as i128)).and_then(|q| l.add(&q))
                }
                _ => None,
            },
            _ => None,
        };
        let l = match r.and_then(|l| self.modred(l, w)) {
            Some(l) => l,
            None => self.atom_of(e),
        };
        let l = Rc::new(l);
        self.lins.insert(e, l.clone());
        l
    }

    // the same sum with a constant such that it stays within [0, 2^w)
    fn ufit(&self, l: &Lin, w: u16) -> Option<Lin> {
        let f = self.fit_iv(l)?;
        let (lo, hi) = f;
        if w > 120 {
            return if w == 128 && lo + l.k >= 0 { Some(l.clone()) } else { None };
        }
        let m = 1i128 << w;
        let k = (lo + l.k).rem_euclid(m) - lo;
        if hi + k < m {
            Some(Lin { t: l.t.clone(), k })
        } else {
            None
        }
    }
    fn sfit(&self, l: &Lin, w: u16) -> Option<Lin> {
        let (lo, hi) = self.fit_iv(l)?;
        if w > 120 {
            return if w == 128 { Some(l.clone()) } else { None };
        }
        let (m, h) = (1i128 << w, 1i128 << (w - 1));
        let k = (lo + l.k + h).rem_euclid(m) - h - lo;
        if hi + k < h {
            Some(Lin { t: l.t.clone(), k })
        } else {
            None
        }
    }
    // range of the sum without the constant, digits joined first
    fn fit_iv(&self, l: &Lin) -> Option<(i128, i128)> {
        let f = self.group(l);
        let (mut lo, mut hi) = self.span(&Lin { t: f.0, k: 0 })?;
        for (x, o, k, c) in f.1 {
            // c * ((x + o) % k)
            let h = ((k - 1).min(self.hi(x).saturating_add(o.max(0) as u128))) as i128;
            let v = h.checked_mul(c)?;
            if v.abs() > BIG {
                return None;
            }
            lo = lo.checked_add(v.min(0))?;
            hi = hi.checked_add(v.max(0))?;
        }
        Some((lo.checked_add(f.2)?, hi.checked_add(f.2)?))
    }

    /// exact unsigned value
    pub fn ulin(&mut self, e: E) -> Option<Rc<Lin>> {
        let l = self.lin(e);
        let w = self.w(e);
        self.ufit(&l, w).map(Rc::new)
    }
    fn ulin_or_atom(&mut self, e: E) -> Rc<Lin> {
        match self.ulin(e) {
            Some(l) => l,
            None => Rc::new(self.atom_of(e)),
        }
    }
    /// exact signed value
    pub fn slin(&mut self, e: E) -> Option<Rc<Lin>> {
        let l = self.lin(e);
        let w = self.w(e);
        self.sfit(&l, w).map(Rc::new)
    }

    // the dividend and divisor of an atom read as floor(x / c)
    fn as_div(&self, e: E) -> (E, u128) {
        if let Node::Bin(Op::UDiv, x, c) = self.n(e) {
            if let Some(c) = self.cval(c) {
                let mut x = x;
                while let Node::ZExt(y) = self.n(x) {
                    x = y;
                }
                return (x, c);
            }
        }
        (e, 1)
    }

    // (plain terms, [(x, o, k, c)] meaning c * ((x + o) % k), constant to add)
    fn group(&self, l: &Lin) -> (Vec<(E, i128)>, Vec<(E, i128, u128, i128)>, i128) {
        let mut t = l.t.clone();
        let mut rems = vec![];
        if !t.iter().any(|&(e, _)| matches!(self.n(e), Node::Bin(Op::UDiv, ..))) {
            return (t, rems, 0);
        }
        let mut dk = 0i128;
        let mut again = true;
        while again {
            again = false;
            'o: for i in 0..t.len() {
                let (qi, ci) = t[i];
                let (xi, ki) = self.as_div(qi);
                if ki == 1 || ci == 0 {
                    continue;
                }
                // the dividend is itself a sum
                if ki < BIG as u128 && ci % (ki as i128) == 0 {
                    let m = -ci / (ki as i128);
                    let mut t2 = t.clone();
                    let mut r2 = vec![];
                    let mut k2 = 0;
                    t2[i].1 = 0;
                    if self.take(&mut t2, xi, m, &mut r2, &mut k2, 0) {
                        t = t2;
                        rems.append(&mut r2);
                        rems.push((xi, 0, ki, m));
                        dk += k2;
                        again = true;
                        continue 'o;
                    }
                }
                for j in 0..t.len() {
                    let (qj, cj) = t[j];
                    if i == j || cj == 0 || (cj > 0) == (ci > 0) {
                        continue;
                    }
                    let (xj, kj) = self.as_div(qj);
                    let (kj, off) = if xj == xi {
                        (kj, 0)
                    } else if qj == xi {
                        (1, 0)
                    } else if let Some(o) = self.offset(xi, xj, kj) {
                        (kj, o)
                    } else {
                        continue;
                    };
                    if kj >= ki || ki % kj != 0 {
                        continue;
                    }
                    let r = ki / kj;
                    // floor(xi / ki) = floor((floor(xj / kj) + off) / r)
                    // ci*floor(x/ki) + cj*floor(x/kj), with ci = -r*m and m between 0 and cj
                    if r > BIG as u128 || ci % (r as i128) != 0 {
                        continue;
                    }
                    let m = -ci / (r as i128);
                    if m.abs() > cj.abs() {
                        continue;
                    }
                    rems.push((qj, off, r, m));
                    dk -= m * off;
                    t[i].1 = 0;
                    t[j].1 -= m;
                    again = true;
                    continue 'o;
                }
            }
        }
        t.retain(|x| x.1 != 0);
        (t, rems, dk)
    }

    // o with x = y + k * o, o >= 0
    fn offset(&self, x: E, y: E, k: u128) -> Option<i128> {
        let a = self.lins.get(&x)?;
        let b = self.lins.get(&y)?;
        if a.t != b.t || k > BIG as u128 {
            return None;
        }
        let a = self.ufit(a, self.w(x))?;
        let b = self.ufit(b, self.w(y))?;
        let d = a.k - b.k;
        if d < 0 || d % (k as i128) != 0 {
            return None;
        }
        Some(d / (k as i128))
    }

    // remove m times the value of x from the terms; remainders and a constant
    // that remain of what was removed are added to rems and k
    fn take(&self, t: &mut Vec<(E, i128)>, x: E, m: i128, rems: &mut Vec<(E, i128, u128, i128)>, k: &mut i128, depth: u32) -> bool {
        if let Some(y) = t.iter_mut().find(|y| y.0 == x) {
            if (y.1 > 0) == (m > 0) && y.1.abs() >= m.abs() {
                y.1 -= m;
                return true;
            }
        }
        if depth > 8 {
            return false;
        }
        let (d, c) = self.as_div(x);
        if c > 1 {
            // m * floor(d / c) = (m / c) * d - (m / c) * (d % c)
            if c > BIG as u128 || m % (c as i128) != 0 {
                return false;
            }
            let v = m / (c as i128);
            if !self.take(t, d, v, rems, k, depth + 1) {
                return false;
            }
            // what was taken exceeds m * x by v * (d % c), which stays
            rems.push((d, 0, c, v));
            return true;
        }
        let l = match self.lins.get(&x) {
            Some(l) if !l.is_atom() => l.clone(),
            _ => return false,
        };
        let l = match self.ufit(&l, self.w(x)) {
            Some(l) => l,
            None => return false,
        };
        for &(e, c) in &l.t {
            match m.checked_mul(c) {
                Some(v) if v.abs() < BIG => {
                    if !self.take(t, e, v, rems, k, depth + 1) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
        match l.k.checked_mul(m) {
            Some(v) if v.abs() < BIG => *k -= v,
            _ => return false,
        }
        true
    }

    fn resize(&mut self, e: E, w: u16) -> E {
        let x = self.w(e);
        if x < w {
            self.zext(e, w)
        } else if x > w {
            if let Node::Bin(Op::UDiv | Op::URem | Op::Add | Op::Sub, ..) = self.n(e) {
                let i = self.info[e as usize];
                if i.hi <= mask(w) {
                    return self.intern(Node::Extract(0, e), w, i.lo, i.hi, i.vars, i.depth + 1);
                }
            }
            self.trunc(e, w)
        } else {
            e
        }
    }

    // sum of nonnegative multiples at width w (no wrap by the caller's bounds, or modular)
    fn raw_sum(&mut self, ts: &[(E, i128)], w: u16) -> Option<E> {
        let mut acc: Option<E> = None;
        for &(a, c) in ts {
            let a = self.resize(a, w);
            let ia = self.info[a as usize];
            let m = mask(w);
            let t = if c == 1 {
                a
            } else {
                let cc = (c as u128) & m;
                let k = self.konst(cc, w);
                let (lo, hi) = match ia.hi.checked_mul(cc) {
                    Some(h) if h <= m => (ia.lo * cc, h),
                    _ => (0, m),
                };
                if cc == 0 {
                    self.konst(0, w)
                } else {
                    self.intern(Node::Bin(Op::Mul, a, k), w, lo, hi, ia.vars, ia.depth + 1)
                }
            };
            acc = Some(match acc {
                None => t,
                Some(s) => self.raw_add(s, t),
            });
        }
        acc
    }
    fn raw_add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (x, y) = (self.info[a as usize], self.info[b as usize]);
        let m = mask(w);
        if let (Some(p), Some(q)) = (self.cval(a), self.cval(b)) {
            return self.konst(p.wrapping_add(q), w);
        }
        if self.cval(b) == Some(0) {
            return a;
        }
        if self.cval(a) == Some(0) {
            return b;
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        let (lo, hi) = match x.hi.checked_add(y.hi) {
            Some(h) if h <= m => (x.lo + y.lo, h),
            _ => {
                // adding a negative constant
                let c = self.cval(b);
                let i = self.info[a as usize];
                match c {
                    Some(c) if i.lo >= c.wrapping_neg() & m => {
                        let n = c.wrapping_neg() & m;
                        (i.lo - n, i.hi - n)
                    }
                    _ => (0, m),
                }
            }
        };
        self.intern(Node::Bin(Op::Add, a, b), w, lo, hi, x.vars | y.vars, x.depth.max(y.depth) + 1)
    }
    fn raw_sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (x, y) = (self.info[a as usize], self.info[b as usize]);
        let (lo, hi) = if x.lo >= y.hi { (x.lo - y.hi, x.hi - y.lo) } else { (0, mask(w)) };
        self.intern(Node::Bin(Op::Sub, a, b), w, lo, hi, x.vars | y.vars, x.depth.max(y.depth) + 1)
    }

    // positive and negative terms after joining digits
    fn sides(&mut self, l: &Lin) -> (Vec<(E, i128)>, Vec<(E, i128)>, i128) {
        let (mut t, rems, dk) = self.group(l);
        for (x, o, k, c) in rems {
            let w = self.w(x);
            let x = if o == 0 {
                x
            } else {
                let w = w.max(bits(self.hi(x) + o as u128));
                let y = self.resize(x, w);
                let kk = self.konst(o as u128, w);
                self.raw_add(y, kk)
            };
            let kk = self.konst(k, self.w(x));
            let r = self.raw_rem(x, kk);
            t.push((r, c));
        }
        t.sort();
        let p = t.iter().filter(|x| x.1 > 0).cloned().collect();
        let n = t.iter().filter(|x| x.1 < 0).map(|x| (x.0, -x.1)).collect();
        (p, n, dk)
    }
    fn raw_rem(&mut self, x: E, k: E) -> E {
        let i = self.info[x as usize];
        let c = self.cval(k).unwrap();
        if i.hi < c {
            return x;
        }
        if c.is_power_of_two() {
            let b = c.trailing_zeros() as u16;
            return if b == 0 { self.konst(0, i.w) } else { let y = self.extract(x, 0, b); self.zext(y, i.w) };
        }
        let (lo, hi) = if i.lo / c == i.hi / c { (i.lo % c, i.hi % c) } else { (0, c - 1) };
        self.intern(Node::Bin(Op::URem, x, k), i.w, lo, hi, i.vars, i.depth + 1)
    }
    fn iv_side(&self, t: &[(E, i128)]) -> Option<(i128, i128)> {
        self.span(&Lin { t: t.to_vec(), k: 0 })
    }

    /// an expression of width w for the sum (modulo 2^w)
    pub fn from_lin(&mut self, l: &Lin, w: u16) -> E {
        if l.t.is_empty() {
            return self.konst(l.k as u128, w);
        }
        let (p, n, dk) = self.sides(l);
        let (pi, ni) = (self.iv_side(&p), self.iv_side(&n));
        let mut bw = w;
        let mut sx = false;
        let mut k = l.k + dk;
        let mut bound: Option<(i128, i128)> = None;
        if let (Some(pi), Some(ni)) = (pi, ni) {
            let need = |k: i128| bits((pi.1 + k.max(0)) as u128).max(bits((ni.1 + (-k).max(0)) as u128));
            let z = Lin { t: l.t.clone(), k: l.k };
            if let Some(f) = self.ufit(&z, w) {
                let b = need(f.k + dk);
                let r = self.fit_iv(&f).unwrap();
                bound = Some((r.0 + f.k, r.1 + f.k));
                if b <= w || b <= 120 {
                    bw = b;
                    k = f.k + dk;
                }
            } else if let Some(f) = self.sfit(&z, w) {
                let b = need(f.k + dk) + 1;
                if b < w {
                    bw = b;
                    k = f.k + dk;
                    sx = true;
                }
            }
        }
        let ps = self.raw_sum(&p, bw);
        let ns = self.raw_sum(&n, bw);
        let kk = self.konst(k as u128, bw);
        let r = match (ps, ns) {
            (Some(a), None) => self.raw_add(a, kk),
            (Some(a), Some(b)) => {
                // keep the order that does not wrap where there is one
                if k < 0 || k >= 1 << 100 {
                    let d = self.raw_sub(a, b);
                    self.raw_add(d, kk)
                } else {
                    let s = self.raw_add(a, kk);
                    self.raw_sub(s, b)
                }
            }
            (None, Some(b)) => self.raw_sub(kk, b),
            (None, None) => kk,
        };
        if let Some((lo, hi)) = bound {
            let i = &mut self.info[r as usize];
            if lo >= 0 && self.nodes[r as usize] != Node::Nil && !matches!(self.nodes[r as usize], Node::Const(_)) {
                i.lo = i.lo.max(lo as u128);
                i.hi = i.hi.min(hi as u128);
            }
            if lo == hi && lo >= 0 {
                return self.konst(lo as u128, w);
            }
        }
        if sx {
            // always signed-exact at bw
            let i = self.info[r as usize];
            if i.w == w {
                r
            } else if i.hi < 1u128 << (i.w - 1) {
                self.zext(r, w)
            } else {
                self.sext(r, w)
            }
        } else {
            self.resize(r, w)
        }
    }

    pub fn lin_add(&mut self, a: E, b: E, neg: bool) -> Option<E> {
        let w = self.w(a);
        let (x, y) = (self.lin(a), self.lin(b));
        let y = if neg { Rc::new(y.scale(-1)?) } else { y };
        let l = self.modred(x.add(&y)?, w)?;
        Some(self.from_lin(&l, w))
    }
    pub fn lin_mul(&mut self, a: E, c: u128) -> Option<E> {
        let w = self.w(a);
        let x = self.lin(a);
        let s = sext(c, w);
        let c = if c < BIG as u128 && (s >= 0 || x.t.iter().all(|t| t.1 > 0)) { c as i128 } else { s };
        if c.unsigned_abs() > BIG as u128 {
            return None;
        }
        let l = self.modred(x.scale(c)?, w)?;
        Some(self.from_lin(&l, w))
    }

    /// a / c or a % c as a sum of quotients in canonical form
    pub fn lin_div(&mut self, a: E, c: u128, rem: bool) -> Option<E> {
        let w = self.w(a);
        if c > 1 << 100 {
            return None;
        }
        let l = self.ulin(a)?;
        let q = self.floor_lin(&l, c as i128)?;
        if rem {
            let r = l.add(&q.scale(-(c as i128))?)?;
            if r.t.len() > MAXT {
                return None;
            }
            return Some(self.from_lin(&r, w));
        }
        if q.t.len() > MAXT {
            return None;
        }
        Some(self.from_lin(&q, w))
    }

    /// a >> s, for a = g * x and g the rounded-up reciprocal of some d: x / d
    pub fn lin_magic(&mut self, a: E, s: u16) -> Option<E> {
        let w = self.w(a);
        let l = self.ulin(a)?;
        let mut g = l.k.unsigned_abs();
        for &(_, c) in &l.t {
            g = gcd(g, c.unsigned_abs());
        }
        if g < 5 || g >> 64 != 0 || s > 62 {
            return None;
        }
        let p = 1u128 << s;
        let d = p / g + 1; // ceil(p / g) unless g is a power of two
        let e = g * d - p;
        if d < 3 || e >= g {
            return None;
        }
        let x = self.info[a as usize].hi / g;
        // floor(x g / 2^s) = floor((x + x e / 2^s) / d) 
        if x.checked_mul(e)? >= p {
            return None;
        }
        let mut r = Lin::konst(l.k / g as i128);
        for &(t, c) in &l.t {
            r = r.add(&Lin { t: vec![(t, c / g as i128)], k: 0 })?;
        }
        let q = self.floor_lin(&r, d as i128)?;
        if q.t.len() > MAXT {
            return None;
        }
        Some(self.from_lin(&q, w))
    }

    fn raw_div(&mut self, x: E, c: u128) -> E {
        let i = self.info[x as usize];
        let k = self.konst(c, i.w);
        if i.lo / c == i.hi / c {
            return self.konst(i.lo / c, i.w);
        }
        if c.is_power_of_two() {
            let b = c.trailing_zeros() as u16;
            let y = self.extract(x, b, i.w - b);
            return self.zext(y, i.w);
        }
        self.intern(Node::Bin(Op::UDiv, x, k), i.w, i.lo / c, i.hi / c, i.vars, i.depth + 1)
    }

    /// floor(l / c) of the exact integer sum l
    fn floor_lin(&mut self, l: &Lin, c: i128) -> Option<Lin> {
        if c == 1 {
            return Some(l.clone());
        }
        let mut q = Lin::konst(l.k.div_euclid(c));
        let mut r = Lin::konst(l.k.rem_euclid(c));
        for &(e, m) in &l.t {
            if m % c == 0 {
                q.t.push((e, m / c));
            } else {
                r.t.push((e, m));
            }
        }
        if r.t.is_empty() {
            return Some(q);
        }
        let (rl, rh) = self.fit_iv(&r)?;
        let (lo, hi) = (rl.checked_add(r.k)?, rh.checked_add(r.k)?);
        if lo.div_euclid(c) == hi.div_euclid(c) {
            q.k += lo.div_euclid(c);
            return Some(q);
        }
        if r.t.iter().all(|x| x.1 < 0) {
            let mut n = r.scale(-1)?;
            n.k = c - 1 - r.k;
            let f = self.floor_lin(&n, c)?;
            return q.add(&f.scale(-1)?);
        }
        let mut hi = hi;
        if lo < 0 {
            let s = (-lo + c - 1) / c;
            r.k += s * c;
            q.k -= s;
            hi += s * c;
        }
        let mut f = 1i128;
        for &(_, m) in &r.t {
            let mut g = 1i128;
            while c % (g * 10) == 0 && m % (g * 10) == 0 {
                g *= 10;
            }
            f = f.max(g);
        }
        if f > 1 {
            let mut a = Lin::konst(r.k.div_euclid(f));
            let mut b = Lin::konst(r.k.rem_euclid(f));
            for &(e, m) in &r.t {
                if m % f == 0 {
                    a.t.push((e, m / f));
                } else {
                    b.t.push((e, m));
                }
            }
            let fb = self.floor_lin(&b, f)?;
            let inner = a.add(&fb)?;
            let fi = self.floor_lin(&inner, c / f)?;
            return q.add(&fi);
        }
        if r.t.len() == 1 && r.t[0].1 == 1 {
            if let Node::Bin(Op::UDiv, y, k) = self.n(r.t[0].0) {
                if let Some(k2) = self.cval(k) {
                    let cc = c.checked_mul(k2 as i128)?;
                    if cc > 1 << 100 {
                        return None;
                    }
                    let mut ly = (*self.ulin_or_atom(y)).clone();
                    ly.k += r.k.checked_mul(k2 as i128)?;
                    let fl = self.floor_lin(&ly, cc)?;
                    return q.add(&fl);
                }
            }
        }
        let w = bits(hi as u128).max(bits(c as u128));
        if w > 120 || r.t.len() > MAXT {
            return None;
        }
        let mut e = if r.is_atom() && c as u128 <= mask(self.w(r.t[0].0)) { r.t[0].0 } else { self.from_lin(&r, w) };
        self.lin(e);
        while let Node::ZExt(y) = self.n(e) {
            if (c as u128) > mask(self.w(y)) {
                break;
            }
            e = y;
        }
        self.lin(e);
        let d = self.raw_div(e, c as u128);
        q.add(&self.atom_of(d))
    }

    /// a < b (strict) or a <= b as integers given by the two sums
    fn lin_less(&mut self, a: &Lin, b: &Lin, strict: bool) -> Option<E> {
        let mut d = a.add(&b.scale(-1)?)?;
        if !strict {
            d.k -= 1;
        }
        // d < 0
        let (lo, hi) = self.fit_iv(&d)?;
        if hi + d.k < 0 {
            return Some(self.konst(1, 1));
        }
        if lo + d.k >= 0 {
            return Some(self.konst(0, 1));
        }
        let (mut p, mut n, dk) = self.sides(&d);
        let mut g = 0u128;
        for &(_, c) in p.iter().chain(n.iter()) {
            g = gcd(c as u128, g);
        }
        let mut k = d.k + dk;
        if g > 1 {
            let g = g as i128;
            for x in p.iter_mut().chain(n.iter_mut()) {
                x.1 /= g;
            }
            // g*s + k < 0  <=>  s < -k/g  <=>  s < ceil(-k/g)  <=>  s - ceil(-k/g) < 0
            k = k.div_euclid(g);
        }
        let (kp, kn) = (k.max(0), (-k).max(0));
        let (pi, ni) = (self.iv_side(&p)?, self.iv_side(&n)?);
        let w = bits((pi.1 + kp) as u128).max(bits((ni.1 + kn) as u128));
        if w > 126 {
            return None;
        }
        let l = self.side_expr(&p, kp, w);
        let r = self.side_expr(&n, kn, w);
        if self.cval(r) == Some(1) {
            let z = self.konst(0, w);
            return Some(self.eq_raw(l, z));
        }
        let (i, j) = (self.info[l as usize], self.info[r as usize]);
        if i.hi < j.lo {
            return Some(self.konst(1, 1));
        }
        if i.lo >= j.hi {
            return Some(self.konst(0, 1));
        }
        Some(self.intern(Node::Bin(Op::Ult, l, r), 1, 0, 1, i.vars | j.vars, i.depth.max(j.depth) + 1))
    }
    fn side_expr(&mut self, t: &[(E, i128)], k: i128, w: u16) -> E {
        let kk = self.konst(k as u128, w);
        match self.raw_sum(t, w) {
            Some(s) => self.raw_add(s, kk),
            None => kk,
        }
    }
    fn eq_raw(&mut self, a: E, b: E) -> E {
        let (i, j) = (self.info[a as usize], self.info[b as usize]);
        if a == b {
            return self.konst(1, 1);
        }
        if i.hi < j.lo || j.hi < i.lo {
            return self.konst(0, 1);
        }
        if self.cval(b).is_some() {
            return self.eq_const_raw(a, b);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.intern(Node::Bin(Op::Eq, a, b), 1, 0, 1, i.vars | j.vars, i.depth.max(j.depth) + 1)
    }

    pub fn lin_cmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        if let Op::Ult | Op::Ule = op {
            // an unsigned range check of a value that may be negative
            let w = self.w(a);
            let (ua, ub) = (self.ulin(a), self.ulin(b));
            let half = 1u128 << (w - 1);
            if ua.is_none() && ub.is_some() && self.hi(b) <= half {
                let y = ub?;
                let x = self.slin(a)?;
                let p = self.lin_less(&Lin::konst(0), &x, false)?;
                let q = self.lin_less(&x, &y, op == Op::Ult)?;
                return Some(self.bin(Op::And, p, q));
            }
            if ua.is_some() && ub.is_none() && self.hi(a) < half {
                let x = ua?;
                let y = self.slin(b)?;
                let p = self.lin_less(&y, &Lin::konst(0), true)?;
                let q = self.lin_less(&x, &y, op == Op::Ult)?;
                return Some(self.bin(Op::Or, p, q));
            }
        }
        let (x, y) = match op {
            Op::Ult | Op::Ule => (self.ulin(a)?, self.ulin(b)?),
            _ => (self.slin(a)?, self.slin(b)?),
        };
        self.lin_less(&x, &y, matches!(op, Op::Ult | Op::Slt))
    }

    pub fn lin_eq(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w > 120 {
            let (x, y) = (self.ulin(a)?, self.ulin(b)?);
            let d = x.add(&y.scale(-1)?)?;
            return self.lin_zero(&d);
        }
        let (x, y) = (self.lin(a), self.lin(b));
        let mut d = self.modred(x.add(&y.scale(-1)?)?, w)?;
        let (lo, hi) = self.fit_iv(&d)?;
        let m = 1i128 << w;
        // the multiples of 2^w the sum can reach
        let first = (lo + d.k + m - 1).div_euclid(m);
        let last = (hi + d.k).div_euclid(m);
        if first > last {
            return Some(self.konst(0, 1));
        }
        if first != last {
            return None;
        }
        d.k -= first * m;
        self.lin_zero(&d)
    }
    fn lin_zero(&mut self, d: &Lin) -> Option<E> {
        let (lo, hi) = self.fit_iv(d)?;
        if lo + d.k > 0 || hi + d.k < 0 {
            return Some(self.konst(0, 1));
        }
        let (mut p, mut n, dk) = self.sides(d);
        let mut k = d.k + dk;
        if p.is_empty() && n.is_empty() {
            return Some(self.konst((k == 0) as u128, 1));
        }
        let mut g = 0u128;
        for &(_, c) in p.iter().chain(n.iter()) {
            g = gcd(c as u128, g);
        }
        if g > 1 {
            let g = g as i128;
            if k % g != 0 {
                return Some(self.konst(0, 1));
            }
            for x in p.iter_mut().chain(n.iter_mut()) {
                x.1 /= g;
            }
            k /= g;
        }
        if p.is_empty() || (!n.is_empty() && n[0].0 < p[0].0) {
            std::mem::swap(&mut p, &mut n);
            k = -k;
        }
        let (kp, kn) = (k.max(0), (-k).max(0));
        let (pi, ni) = (self.iv_side(&p)?, self.iv_side(&n)?);
        let w = bits((pi.1 + kp) as u128).max(bits((ni.1 + kn) as u128));
        if w > 126 {
            return None;
        }
        let l = self.side_expr(&p, kp, w);
        let r = self.side_expr(&n, kn, w);
        Some(self.eq_raw(l, r))
    }

    /// the sign bit of e
    pub fn lin_neg(&mut self, e: E) -> Option<E> {
        let l = self.slin(e)?;
        self.lin_less(&l, &Lin::konst(0), true)
    }

    pub fn lin_is_plain(&self, l: &Lin) -> bool {
        l.is_atom()
    }
}
