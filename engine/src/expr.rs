//! Hash-consed bit-vector expressions with simplification.
//!
//! Every node carries an unsigned interval and known-zero bits that hold for
//! all values of the variables (variables are declared with a range), so most
//! conditions that do not really depend on the input fold to constants.

use std::collections::HashMap;

pub type E = u32; // index into nodes; 0 is reserved for "not symbolic"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat, // a is the high part
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Nil,
    Const(u128),
    Var(u32), // index of variable
    Bin(Op, E, E),
    ZExt(E),
    SExt(E),
    Extract(u16, E), // low bit
    Ite(E, E, E),
}

#[derive(Clone, Copy)]
pub struct Info {
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
    pub ones: u128, // bits that can be one
    pub vars: u128,
    pub depth: u32,
}

pub struct VarDecl {
    pub name: String,
    pub w: u16,
    pub lo: u128,
    pub hi: u128,
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<(Node, u16), E>,
    pub vars: Vec<VarDecl>,
    pub lins: HashMap<E, std::rc::Rc<crate::lin::Lin>>,
    /// values of an expression over one variable of few values, for each of them
    tables: HashMap<E, std::rc::Rc<Vec<u128>>>,
}

/// most values of a variable for which expressions are tabulated
const TABLE: u128 = 16;
/// the same for conditions
const TABLE_COND: u128 = 256;
/// least depth of an expression worth tabulating
const TABLE_DEPTH: u32 = 6;

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}
fn bits_mask(hi: u128) -> u128 {
    // all-ones mask covering hi
    if hi == 0 {
        0
    } else {
        u128::MAX >> hi.leading_zeros()
    }
}

pub fn fold(op: Op, a: u128, b: u128, w: u16, bw: u16) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                m
            } else {
                (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let b = b.min(127) as u32;
            ((s >> b) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        Op::Concat => (a << bw) | b,
    }
}

impl Exprs {
    pub fn new() -> Self {
        let mut x = Exprs {
            nodes: vec![],
            info: vec![],
            map: HashMap::new(),
            vars: vec![],
            lins: HashMap::new(),
            tables: HashMap::new(),
        };
        x.nodes.push(Node::Nil);
        x.info.push(Info { w: 0, lo: 0, hi: 0, ones: 0, vars: 0, depth: 0 });
        x
    }

    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.info[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn lo(&self, e: E) -> u128 {
        self.info[e as usize].lo
    }
    #[inline]
    pub fn hi(&self, e: E) -> u128 {
        self.info[e as usize].hi
    }
    pub fn vars_of(&self, e: E) -> u128 {
        self.info[e as usize].vars
    }
    #[inline]
    pub fn cval(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }

    fn ones(&self, e: E) -> u128 {
        self.info[e as usize].ones
    }
    fn ones_of(&self, n: Node, w: u16) -> u128 {
        let m = mask(w);
        match n {
            Node::Const(c) => c,
            Node::Bin(Op::And, a, b) => self.ones(a) & self.ones(b),
            Node::Bin(Op::Or | Op::Xor, a, b) => self.ones(a) | self.ones(b),
            Node::Bin(Op::Concat, a, b) => (self.ones(a) << self.w(b)) | self.ones(b),
            Node::ZExt(a) => self.ones(a),
            Node::Extract(l, a) => (self.ones(a) >> l) & m,
            Node::Ite(_, a, b) => self.ones(a) | self.ones(b),
            _ => m,
        }
    }

    pub(crate) fn intern(&mut self, n: Node, w: u16, lo: u128, hi: u128, vars: u128, depth: u32) -> E {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let (n, vars, depth) = if lo == hi {
            (Node::Const(lo), 0, 0)
        } else {
            (n, vars, depth)
        };
        if lo == hi {
            if let Some(&e) = self.map.get(&(n, w)) {
                return e;
            }
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        let ones = bits_mask(hi) & self.ones_of(n, w);
        self.info.push(Info { w, lo, hi, ones, vars, depth });
        self.map.insert((n, w), e);
        e
    }

    pub fn konst(&mut self, v: u128, w: u16) -> E {
        let v = v & mask(w);
        self.intern(Node::Const(v), w, v, v, 0, 0)
    }

    pub fn var(&mut self, idx: u32, name: &str, w: u16, lo: u128, hi: u128) -> E {
        assert!(idx < 128, "too many symbolic variables");
        while self.vars.len() <= idx as usize {
            self.vars.push(VarDecl { name: String::new(), w: 0, lo: 0, hi: 0 });
        }
        let d = &mut self.vars[idx as usize];
        if d.w == 0 {
            *d = VarDecl { name: name.to_string(), w, lo, hi };
        } else if d.w != w || d.lo != lo || d.hi != hi {
            panic!("variable {} declared with two ranges", idx);
        }
        self.intern(Node::Var(idx), w, lo, hi, 1u128 << idx, 1)
    }

    // number of known trailing zero bits
    fn tz(&self, e: E) -> u32 {
        match self.n(e) {
            Node::Const(c) => {
                if c == 0 {
                    self.w(e) as u32
                } else {
                    c.trailing_zeros()
                }
            }
            Node::Bin(Op::Concat, a, b) => {
                if let Some(0) = self.cval(b) {
                    self.w(b) as u32 + self.tz(a)
                } else {
                    self.tz(b)
                }
            }
            Node::Bin(Op::Mul, a, b) => (self.tz(a) + self.tz(b)).min(self.w(e) as u32),
            Node::Bin(Op::Add, a, b) | Node::Bin(Op::Sub, a, b) => self.tz(a).min(self.tz(b)),
            Node::ZExt(a) | Node::SExt(a) => self.tz(a),
            _ => 0,
        }
    }
    pub fn stride(&self, e: E) -> u128 {
        // e - lo is a multiple of this
        match self.n(e) {
            Node::Bin(Op::Add, a, b) => {
                if self.cval(b).is_some() {
                    return self.stride(a);
                }
                let (x, y) = (self.stride(a), self.stride(b));
                gcd(x, y)
            }
            Node::Bin(Op::Mul, a, b) if self.cval(b).is_some() => {
                self.stride(a).saturating_mul(self.cval(b).unwrap())
            }
            Node::ZExt(a) => self.stride(a),
            Node::Const(_) => 0,
            Node::Bin(Op::Concat, a, b) => match self.cval(b) {
                Some(_) => self.stride(a) << self.w(b),
                None => 1,
            },
            _ => 1,
        }
    }

    pub fn not(&mut self, a: E) -> E {
        // 1-bit negation
        debug_assert_eq!(self.w(a), 1);
        match self.n(a) {
            Node::Const(c) => return self.konst(c ^ 1, 1),
            Node::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
            Node::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
            Node::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
            Node::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
            Node::Bin(Op::Xor, x, y) if self.cval(y) == Some(1) => return x,
            Node::Ite(c, x, y) if self.cval(x).is_some() || self.cval(y).is_some() => {
                let nx = self.not(x);
                let ny = self.not(y);
                return self.ite(c, nx, ny);
            }
            _ => {}
        }
        let one = self.konst(1, 1);
        let i = self.info[a as usize];
        self.intern(Node::Bin(Op::Xor, a, one), 1, 0, 1, i.vars, i.depth + 1)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let i = self.info[a as usize];
        if i.w == w {
            return a;
        }
        debug_assert!(w > i.w);
        match self.n(a) {
            Node::Const(c) => return self.konst(c, w),
            Node::ZExt(b) => return self.zext(b, w),
            Node::Ite(c, x, y) if self.cval(x).is_some() && self.cval(y).is_some() => {
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.intern(Node::ZExt(a), w, i.lo, i.hi, i.vars, i.depth + 1)
    }

    pub fn sext(&mut self, a: E, w: u16) -> E {
        let i = self.info[a as usize];
        if i.w == w {
            return a;
        }
        if let Node::Const(c) = self.n(a) {
            return self.konst(sext(c, i.w) as u128, w);
        }
        if i.hi < (1u128 << (i.w - 1)) {
            return self.zext(a, w);
        }
        if let Node::Ite(c, x, y) = self.n(a) {
            if self.cval(x).is_some() && self.cval(y).is_some() {
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                return self.ite(c, x, y);
            }
        }
        if let Node::SExt(b) = self.n(a) {
            return self.sext(b, w);
        }
        if i.w == 1 {
            let m = self.konst(u128::MAX, w);
            let z = self.konst(0, w);
            return self.ite(a, m, z);
        }
        let (lo, hi) = if i.lo >= (1u128 << (i.w - 1)) {
            ((sext(i.lo, i.w) as u128) & mask(w), (sext(i.hi, i.w) as u128) & mask(w))
        } else {
            (0, mask(w))
        };
        self.intern(Node::SExt(a), w, lo, hi, i.vars, i.depth + 1)
    }

    pub fn trunc(&mut self, a: E, w: u16) -> E {
        self.extract(a, 0, w)
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let i = self.info[a as usize];
        if lo == 0 && w == i.w {
            return a;
        }
        debug_assert!(lo + w <= i.w);
        if lo as u32 >= 128 - i.hi.leading_zeros() {
            return self.konst(0, w);
        }
        match self.n(a) {
            Node::Const(c) => return self.konst(c >> lo, w),
            Node::Extract(l2, b) => return self.extract(b, l2 + lo, w),
            Node::ZExt(b) => {
                let bw = self.w(b);
                if lo >= bw {
                    return self.konst(0, w);
                }
                if lo + w <= bw {
                    return self.extract(b, lo, w);
                }
                let x = self.extract(b, lo, bw - lo);
                return self.zext(x, w);
            }
            Node::SExt(b) if w == 1 && lo == i.w - 1 => {
                let bw = self.w(b);
                return self.extract(b, bw - 1, 1);
            }
            Node::SExt(b) => {
                let bw = self.w(b);
                if lo + w <= bw {
                    return self.extract(b, lo, w);
                }
                if lo == 0 {
                    return self.sext(b, w);
                }
            }
            Node::Bin(Op::Concat, h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                let x = self.extract(l, lo, lw - lo);
                let y = self.extract(h, 0, lo + w - lw);
                return self.concat(y, x);
            }
            Node::Ite(c, x, y)
                if (self.cval(x).is_some() || self.cval(y).is_some()) || i.depth < 4 =>
            {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.ite(c, x, y);
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.bin(op, x, y);
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y)
                if lo == 0 && (i.hi > mask(w) || self.hi(x) <= mask(w) && self.hi(y) <= mask(w)) =>
            {
                // low bits of modular arithmetic
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                return self.bin(op, x, y);
            }
            Node::Bin(Op::Add | Op::Sub | Op::Mul, ..) if w == 1 && lo == i.w - 1 => {
                if let Some(r) = self.lin_neg(a) {
                    return r;
                }
            }
            Node::Bin(Op::Add | Op::Sub | Op::Mul, ..) if lo > 3 && w > 1 && 128 - i.hi.leading_zeros() <= (lo + w) as u32 => {
                if let Some(r) = self.lin_magic(a, lo) {
                    return self.extract(r, 0, w);
                }
            }
            Node::Bin(op @ (Op::UDiv | Op::URem), x, y)
                if lo == 0 && self.hi(x) <= mask(w) && self.hi(y) <= mask(w) && self.lo(y) > 0 =>
            {
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                return self.bin(op, x, y);
            }
            _ => {}
        }
        let (l, h) = if i.hi >> lo <= mask(w) {
            (i.lo >> lo, i.hi >> lo)
        } else {
            (0, mask(w))
        };
        self.intern(Node::Extract(lo, a), w, l, h, i.vars, i.depth + 1)
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hi, li) = (self.info[h as usize], self.info[l as usize]);
        let w = hi.w + li.w;
        if let (Some(a), Some(b)) = (self.cval(h), self.cval(l)) {
            return self.konst((a << li.w) | b, w);
        }
        if let Some(0) = self.cval(h) {
            return self.zext(l, w);
        }
        // adjacent extracts of one value
        if let (Node::Extract(a, x), Node::Extract(b, y)) = (self.n(h), self.n(l)) {
            if x == y && a == b + li.w {
                return self.extract(x, b, w);
            }
        }
        if let Node::Extract(a, x) = self.n(h) {
            if a == li.w && self.w(x) >= w {
                if self.extract(x, 0, li.w) == l {
                    return self.extract(x, 0, w);
                }
            }
        }
        // (z ++ extract) ++ extract
        if let Node::Bin(Op::Concat, hh, hl) = self.n(h) {
            let hlw = self.w(hl);
            if let (Node::Extract(a, x), Node::Extract(b, y)) = (self.n(hl), self.n(l)) {
                if x == y && a == b + li.w {
                    let m = self.extract(x, b, hlw + li.w);
                    return self.concat(hh, m);
                }
            }
            if self.cval(hl).is_some() && self.cval(l).is_some() {
                let m = self.concat(hl, l);
                return self.concat(hh, m);
            }
        }
        if let Node::ZExt(b) = self.n(h) {
            // zext(b) ++ l = zext(b ++ l)
            let x = self.concat(b, l);
            return self.zext(x, w);
        }
        // upper bytes that are part of a value with known zero bits
        if let Node::Extract(0, x) = self.n(l) {
            // h is extract of same x at li.w handled above
            let _ = x;
        }
        let lo = (hi.lo << li.w) | li.lo;
        let hi_ = (hi.hi << li.w) | li.hi;
        self.intern(
            Node::Bin(Op::Concat, h, l),
            w,
            lo,
            hi_,
            hi.vars | li.vars,
            hi.depth.max(li.depth) + 1,
        )
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if let Node::Bin(Op::Xor, x, y) = self.n(c) {
            if self.cval(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if let Node::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        let (ia, ib, ic) = (self.info[a as usize], self.info[b as usize], self.info[c as usize]);
        self.intern(
            Node::Ite(c, a, b),
            w,
            ia.lo.min(ib.lo),
            ia.hi.max(ib.hi),
            ia.vars | ib.vars | ic.vars,
            ia.depth.max(ib.depth).max(ic.depth) + 1,
        )
    }

    // x - c or x + c view: returns (base, constant addend) modulo 2^w
    fn split_add(&self, e: E) -> (E, u128) {
        if let Node::Bin(Op::Add, a, b) = self.n(e) {
            if let Some(c) = self.cval(b) {
                return (a, c);
            }
        }
        (e, 0)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let w = ia.w;
        debug_assert!(op == Op::Concat || ia.w == ib.w, "{:?} {} {}", op, ia.w, ib.w);
        if op == Op::Concat {
            return self.concat(a, b);
        }
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst(fold(op, x, y, w, ib.w), rw);
        }
        let m = mask(w);
        let vars = ia.vars | ib.vars;
        let depth = ia.depth.max(ib.depth) + 1;
        if depth > TABLE_DEPTH
            && vars.is_power_of_two()
            && matches!(op, Op::UDiv | Op::URem | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
        {
            let i = vars.trailing_zeros();
            let (lo, hi) = (self.vars[i as usize].lo, self.vars[i as usize].hi);
            if hi - lo < if rw == 1 { TABLE_COND } else { TABLE } {
                let (x, y) = (self.table(a, lo, hi), self.table(b, lo, hi));
                let t: Vec<u128> = x.iter().zip(y.iter()).map(|(&x, &y)| fold(op, x, y, w, ib.w)).collect();
                return self.tabulated(i, lo, &t, rw);
            }
        }
        let ca = self.cval(a);
        let cb = self.cval(b);
        match op {
            Op::Add => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let (x, k) = self.split_add(a);
                    if k != 0 {
                        let kk = self.konst(k.wrapping_add(c), w);
                        return self.bin(Op::Add, x, kk);
                    }
                    if let Node::Ite(cc, x, y) = self.n(a) {
                        if self.cval(x).is_some() && self.cval(y).is_some() {
                            let x = self.bin(Op::Add, x, b);
                            let y = self.bin(Op::Add, y, b);
                            return self.ite(cc, x, y);
                        }
                    }
                    if w > 8 {
                        if let Some(r) = self.add_parts(a, c) {
                            return r;
                        }
                    }
                    if let Some(r) = self.lin_add(a, b, false) {
                        return r;
                    }
                    let (lo, hi) = {
                        let neg = c.wrapping_neg() & m;
                        if ia.hi.checked_add(c).is_some_and(|s| s <= m) {
                            (ia.lo + c, ia.hi + c)
                        } else if ia.lo >= neg {
                            (ia.lo - neg, ia.hi - neg)
                        } else {
                            (0, m)
                        }
                    };
                    return self.intern(Node::Bin(Op::Add, a, b), w, lo, hi, vars, depth);
                }
                // x + (y - x) = y
                if let Node::Bin(Op::Sub, y, x) = self.n(b) {
                    if x == a {
                        return y;
                    }
                }
                if let Node::Bin(Op::Sub, y, x) = self.n(a) {
                    if x == b {
                        return y;
                    }
                }
                if w > 1 {
                    if let Some(r) = self.lin_add(a, b, false) {
                        return r;
                    }
                }
                let (a, b) = if a > b { (b, a) } else { (a, b) };
                let (lo, hi) = match ia.hi.checked_add(ib.hi) {
                    Some(s) if s <= m => (ia.lo + ib.lo, s),
                    _ => (0, m),
                };
                self.intern(Node::Bin(op, a, b), w, lo, hi, vars, depth)
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(c) = cb {
                    let k = self.konst(c.wrapping_neg(), w);
                    return self.bin(Op::Add, a, k);
                }
                // (x + y) - x
                if let Node::Bin(Op::Add, x, y) = self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
                if let (Some(0), Node::Bin(Op::Sub, x, y)) = (ca, self.n(b)) {
                    return self.bin(Op::Sub, y, x);
                }
                // x - (x/c)*c = x % c ; x - (x - y) = y
                if let Node::Bin(Op::Mul, q, c) = self.n(b) {
                    if let Some(cv) = self.cval(c) {
                        if let Node::Bin(Op::UDiv, x, c2) = self.n(q) {
                            if x == a && self.cval(c2) == Some(cv) {
                                return self.bin(Op::URem, a, c2);
                            }
                        }
                        // through zext
                        let (az, qz) = (self.strip_zext(a), self.strip_zext(q));
                        if let Node::Bin(Op::UDiv, x, c2) = self.n(qz) {
                            if self.strip_zext(x) == az && self.cval(c2) == Some(cv) {
                                let c3 = self.konst(cv, w);
                                return self.bin(Op::URem, a, c3);
                            }
                        }
                    }
                }
                if let Node::Bin(Op::Sub, x, y) = self.n(b) {
                    if x == a {
                        return y;
                    }
                }
                if w > 8 {
                    if let Some(r) = self.sub_parts(a, b) {
                        return r;
                    }
                }
                if w > 1 {
                    if let Some(r) = self.lin_add(a, b, true) {
                        return r;
                    }
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.lo(x) >= self.hi(y) {
                        let nw = self.w(x).max(self.w(y));
                        let x = self.zext(x, nw);
                        let y = self.zext(y, nw);
                        let s = self.bin(Op::Sub, x, y);
                        return self.zext(s, w);
                    }
                }
                let (lo, hi) = if ia.lo >= ib.hi {
                    (ia.lo - ib.hi, ia.hi - ib.lo)
                } else {
                    (0, m)
                };
                self.intern(Node::Bin(op, a, b), w, lo, hi, vars, depth)
            }
            Op::Mul => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if let Node::Bin(Op::Mul, x, k) = self.n(a) {
                        if let Some(k) = self.cval(k) {
                            let kk = self.konst(k.wrapping_mul(c), w);
                            return self.bin(Op::Mul, x, kk);
                        }
                    }
                    if let Node::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        let need = self.hi(x).checked_mul(c);
                        if c <= mask(xw) && need.is_some_and(|s| s <= mask(xw)) {
                            let k = self.konst(c, xw);
                            let s = self.bin(Op::Mul, x, k);
                            return self.zext(s, w);
                        }
                    }
                    if let Node::Ite(cc, x, y) = self.n(a) {
                        if self.cval(x).is_some() && self.cval(y).is_some() {
                            let x = self.bin(op, x, b);
                            let y = self.bin(op, y, b);
                            return self.ite(cc, x, y);
                        }
                    }
                    if w > 1 {
                        if let Some(r) = self.lin_mul(a, c) {
                            return r;
                        }
                    }
                }
                let (lo, hi) = match ia.hi.checked_mul(ib.hi) {
                    Some(s) if s <= m => (ia.lo * ib.lo, s),
                    _ => (0, m),
                };
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.intern(Node::Bin(op, a, b), w, lo, hi, vars, depth)
            }
            Op::UDiv | Op::URem => {
                if let Some(c) = cb {
                    if c == 0 {
                        return if op == Op::UDiv { self.konst(m, w) } else { a };
                    }
                    if c == 1 {
                        return if op == Op::UDiv { a } else { self.konst(0, w) };
                    }
                    if ia.hi < c {
                        return if op == Op::UDiv { self.konst(0, w) } else { a };
                    }
                    if c.is_power_of_two() {
                        let s = c.trailing_zeros() as u16;
                        if op == Op::UDiv {
                            let k = self.konst(s as u128, w);
                            return self.bin(Op::LShr, a, k);
                        }
                        let k = self.konst(c - 1, w);
                        return self.bin(Op::And, a, k);
                    }
                    if let Node::ZExt(x) = self.n(a) {
                        let xw = self.w(x);
                        if c <= mask(xw) {
                            let k = self.konst(c, xw);
                            let r = self.bin(op, x, k);
                            return self.zext(r, w);
                        }
                    }
                    // non-wrapping (p*c + q) with q < c, or sum of multiples
                    if let Some(r) = self.lin_div(a, c, op == Op::URem) {
                        return r;
                    }
                    if op == Op::UDiv {
                        // (x / c1) / c2
                        if let Node::Bin(Op::UDiv, x, k) = self.n(a) {
                            if let Some(k) = self.cval(k) {
                                if let Some(kc) = k.checked_mul(c) {
                                    if kc <= m {
                                        let kk = self.konst(kc, w);
                                        return self.bin(Op::UDiv, x, kk);
                                    } else {
                                        return self.konst(0, w);
                                    }
                                }
                            }
                        }
                    } else if let Node::Bin(Op::URem, x, k) = self.n(a) {
                        if let Some(k) = self.cval(k) {
                            if k % c == 0 {
                                return self.bin(Op::URem, x, b);
                            }
                        }
                    }
                    let (lo, hi) = if op == Op::UDiv {
                        (ia.lo / c, ia.hi / c)
                    } else if ia.lo / c == ia.hi / c {
                        (ia.lo % c, ia.hi % c)
                    } else {
                        (0, c - 1)
                    };
                    if op == Op::URem && ia.lo / c == ia.hi / c && ia.lo / c != 0 {
                        let k = self.konst((ia.lo / c) * c, w);
                        return self.bin(Op::Sub, a, k);
                    }
                    return self.intern(Node::Bin(op, a, b), w, lo, hi, vars, depth);
                }
                let (lo, hi) = if op == Op::UDiv {
                    if ib.lo > 0 {
                        (ia.lo / ib.hi, ia.hi / ib.lo)
                    } else {
                        (0, m)
                    }
                } else if ib.lo > 0 {
                    (0, ia.hi.min(ib.hi - 1))
                } else {
                    (0, ia.hi.max(ib.hi))
                };
                self.intern(Node::Bin(op, a, b), w, lo, hi, vars, depth)
            }
            Op::SDiv | Op::SRem => {
                let s = 1u128 << (w - 1);
                if ia.hi < s && ib.hi < s {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
                self.intern(Node::Bin(op, a, b), w, 0, m, vars, depth)
            }
            Op::And => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    let cover = ia.ones;
                    if cover & c == cover {
                        return a;
                    }
                    if cover & c == 0 {
                        return self.konst(0, w);
                    }
                    if cover & c != c {
                        let k = self.konst(c & cover, w);
                        return self.bin(op, a, k);
                    }
                    if w > 1 {
                        // contiguous mask -> extract
                        let tz = c.trailing_zeros() as u16;
                        let run = (c >> tz).trailing_ones() as u16;
                        if tz + run == 128 || (c >> tz) >> run == 0 {
                            let run = run.min(w - tz);
                            let x = self.extract(a, tz, run);
                            let x = if tz > 0 {
                                let z = self.konst(0, tz);
                                self.concat(x, z)
                            } else {
                                x
                            };
                            return self.zext(x, w);
                        }
                    }
                    if let Node::Ite(cc, x, y) = self.n(a) {
                        if self.cval(x).is_some() || self.cval(y).is_some() {
                            let x = self.bin(op, x, b);
                            let y = self.bin(op, y, b);
                            return self.ite(cc, x, y);
                        }
                    }
                    if let Node::Bin(Op::And, x, k) = self.n(a) {
                        if let Some(k) = self.cval(k) {
                            let kk = self.konst(k & c, w);
                            return self.bin(Op::And, x, kk);
                        }
                    }
                }
                if ia.ones & ib.ones == 0 {
                    return self.konst(0, w);
                }
                if let Some(r) = self.bytewise(op, a, b) {
                    return r;
                }
                if w == 1 {
                    // contradiction / absorption
                    let na = self.not(a);
                    if na == b {
                        return self.konst(0, 1);
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                self.intern(Node::Bin(op, a, b), w, 0, ia.hi.min(ib.hi), vars, depth)
            }
            Op::Or => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.konst(1, 1);
                    }
                } else {
                    if let Some(r) = self.bytewise(op, a, b) {
                        return r;
                    }
                    // disjoint bits: split at the boundary
                    let (x, y) = if self.tz(a) >= self.tz(b) { (a, b) } else { (b, a) };
                    let t = self.tz(x);
                    if t > 0 && (t as u16) < w && self.hi(y) <= mask(t as u16) {
                        let h = self.extract(x, t as u16, w - t as u16);
                        let l = self.extract(y, 0, t as u16);
                        return self.concat(h, l);
                    }
                    if let Node::Ite(cc, x, y) = self.n(a) {
                        if self.cval(x).is_some() && self.cval(y).is_some() && cb.is_some() {
                            let x = self.bin(op, x, b);
                            let y = self.bin(op, y, b);
                            return self.ite(cc, x, y);
                        }
                    }
                }
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                let hi = bits_mask(ia.hi) | bits_mask(ib.hi);
                self.intern(Node::Bin(op, a, b), w, ia.lo.max(ib.lo), hi, vars, depth)
            }
            Op::Xor => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if let Some(r) = self.bytewise(op, a, b) {
                        return r;
                    }
                    if let Node::Ite(cc, x, y) = self.n(a) {
                        if self.cval(x).is_some() && self.cval(y).is_some() {
                            let x = self.bin(op, x, b);
                            let y = self.bin(op, y, b);
                            return self.ite(cc, x, y);
                        }
                    }
                    if let Node::Bin(Op::Xor, x, k) = self.n(a) {
                        if let Some(k) = self.cval(k) {
                            let kk = self.konst(k ^ c, w);
                            return self.bin(Op::Xor, x, kk);
                        }
                    }
                }
                if cb.is_none() {
                    if let Some(r) = self.bytewise(op, a, b) {
                        return r;
                    }
                }
                // bits above the common ones stay as they are
                let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
                let hi = bits_mask(ia.hi) | bits_mask(ib.hi);
                self.intern(Node::Bin(op, a, b), w, 0, hi, vars, depth)
            }
            Op::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(0, w);
                    }
                    let c = c as u16;
                    let x = self.extract(a, 0, w - c);
                    let z = self.konst(0, c);
                    return self.concat(x, z);
                }
                self.intern(Node::Bin(op, a, b), w, 0, m, vars, depth)
            }
            Op::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(0, w);
                    }
                    let c = c as u16;
                    let x = self.extract(a, c, w - c);
                    return self.zext(x, w);
                }
                self.intern(Node::Bin(op, a, b), w, 0, ia.hi, vars, depth)
            }
            Op::AShr => {
                if ia.hi < (1u128 << (w - 1)) {
                    return self.bin(Op::LShr, a, b);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = (c as u16).min(w - 1);
                    let x = self.extract(a, c, w - c);
                    return self.sext(x, w);
                }
                self.intern(Node::Bin(op, a, b), w, 0, m, vars, depth)
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if ia.hi < ib.lo || ib.hi < ia.lo {
                    return self.konst(0, 1);
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                let lk = |x: &Exprs, e: E| matches!(x.n(e), Node::SExt(_) | Node::Bin(Op::Add | Op::Sub | Op::Mul, ..));
                if w > 1 && (cb.is_none() || lk(self, a)) {
                    if let Some(r) = self.lin_eq(a, b) {
                        return r;
                    }
                }
                self.eq_rest(a, b)
            }
            Op::Ult => {
                if ia.hi < ib.lo {
                    return self.konst(1, 1);
                }
                if ia.lo >= ib.hi {
                    return self.konst(0, 1);
                }
                self.cmp_common(op, a, b)
            }
            Op::Ule => {
                if ia.hi <= ib.lo {
                    return self.konst(1, 1);
                }
                if ia.lo > ib.hi {
                    return self.konst(0, 1);
                }
                self.cmp_common(op, a, b)
            }
            Op::Slt | Op::Sle => {
                let s = 1u128 << (w - 1);
                let sa = if ia.hi < s { 0 } else if ia.lo >= s { 1 } else { 2 };
                let sb = if ib.hi < s { 0 } else if ib.lo >= s { 1 } else { 2 };
                if sa == 2 || sb == 2 {
                    if a == b {
                        return self.konst((op == Op::Sle) as u128, 1);
                    }
                    if let Some(r) = self.lin_cmp(op, a, b) {
                        return r;
                    }
                    // sign test
                    if op == Op::Slt && cb == Some(0) {
                        return self.extract(a, w - 1, 1);
                    }
                    if op == Op::Slt && ca == Some(m) {
                        let x = self.extract(b, w - 1, 1);
                        return self.not(x);
                    }
                    if op == Op::Sle && ca == Some(0) {
                        let x = self.extract(b, w - 1, 1);
                        return self.not(x);
                    }
                    if let Node::Ite(c, x, y) = self.n(a) {
                        if self.cval(x).is_some() && self.cval(y).is_some() && cb.is_some() {
                            let x = self.bin(op, x, b);
                            let y = self.bin(op, y, b);
                            return self.ite(c, x, y);
                        }
                    }
                    if let Node::Ite(c, x, y) = self.n(b) {
                        if self.cval(x).is_some() && self.cval(y).is_some() && ca.is_some() {
                            let x = self.bin(op, a, x);
                            let y = self.bin(op, a, y);
                            return self.ite(c, x, y);
                        }
                    }
                    return self.intern(Node::Bin(op, a, b), 1, 0, 1, vars, depth);
                }
                if sa == sb {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // different known signs
                self.konst((sa == 1) as u128, 1)
            }
            Op::Concat => unreachable!(),
        }
    }

    pub(crate) fn eq_const_raw(&mut self, a: E, b: E) -> E {
        self.eq_rest(a, b)
    }
    fn eq_rest(&mut self, a: E, b: E) -> E {
        let op = Op::Eq;
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let w = ia.w;
        let m = mask(w);
        let vars = ia.vars | ib.vars;
        let depth = ia.depth.max(ib.depth) + 1;
        let cb = self.cval(b);
        if let Some(c) = cb {
            if w == 1 {
                return if c == 1 { a } else { self.not(a) };
            }
            match self.n(a) {
                Node::Bin(Op::UDiv, x, k) if self.cval(k).is_some() => {
                    let k = self.cval(k).unwrap();
                    // x / k = c
                    if let Some(top) = (c + 1).checked_mul(k).filter(|t| *t <= m && k > 0) {
                        let t = self.konst(top, w);
                        let hi = self.bin(Op::Ult, x, t);
                        let t = self.konst(c * k, w);
                        let lo = self.bin(Op::Ule, t, x);
                        return self.bin(Op::And, lo, hi);
                    }
                }

                Node::ZExt(x) => {
                    let xw = self.w(x);
                    let k = self.konst(c, xw);
                    return self.bin(op, x, k);
                }
                Node::SExt(x) => {
                    let xw = self.w(x);
                    let k = self.konst(c, xw);
                    if (sext(c & mask(xw), xw) as u128) & m == c {
                        return self.bin(op, x, k);
                    }
                    return self.konst(0, 1);
                }
                Node::Ite(cc, x, y) => {
                    if self.cval(x).is_some() || self.cval(y).is_some() {
                        let x = self.bin(op, x, b);
                        let y = self.bin(op, y, b);
                        return self.ite(cc, x, y);
                    }
                }
                Node::Bin(Op::Add, x, k) if self.cval(k).is_some() => {
                    let kk = self.konst(c.wrapping_sub(self.cval(k).unwrap()), w);
                    return self.bin(op, x, kk);
                }
                Node::Bin(Op::Sub, x, y) if c == 0 => {
                    return self.bin(op, x, y);
                }
                Node::Bin(Op::Xor, x, k) => {
                    if let Some(k) = self.cval(k) {
                        let kk = self.konst(k ^ c, w);
                        return self.bin(op, x, kk);
                    } else if c == 0 {
                        return self.bin(op, x, k);
                    }
                }
                Node::Bin(Op::Or, x, y) if c == 0 => {
                    let z = self.konst(0, w);
                    let p = self.bin(Op::Eq, x, z);
                    let q = self.bin(Op::Eq, y, z);
                    return self.bin(Op::And, p, q);
                }
                Node::Bin(Op::Concat, h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kl = self.konst(c, lw);
                    let kh = self.konst(c >> lw, hw);
                    let p = self.bin(Op::Eq, l, kl);
                    if self.cval(p) == Some(0) {
                        return p;
                    }
                    let q = self.bin(Op::Eq, h, kh);
                    return self.bin(Op::And, p, q);
                }
                Node::Bin(Op::Mul, x, k) if self.cval(k).is_some() => {
                    let k = self.cval(k).unwrap();
                    if self.hi(x).checked_mul(k).is_some_and(|s| s <= m) {
                        if c % k != 0 {
                            return self.konst(0, 1);
                        }
                        let kk = self.konst(c / k, w);
                        return self.bin(op, x, kk);
                    }
                }
                _ => {}
            }
        } else {
            if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a), self.n(b)) {
                let nw = self.w(x).max(self.w(y));
                let x = self.zext(x, nw);
                let y = self.zext(y, nw);
                return self.bin(op, x, y);
            }
            let (x, k) = self.split_add(a);
            let (y, l) = self.split_add(b);
            if k != 0 && k == l {
                return self.bin(op, x, y);
            }
            if w == 1 {
                let x = self.bin(Op::Xor, a, b);
                return self.not(x);
            }
        }
        let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.intern(Node::Bin(op, a, b), 1, 0, 1, vars, depth)
        }

    // the boundary between the parts of a concatenation, or 0
    fn seam(&self, e: E) -> u16 {
        match self.n(e) {
            Node::Bin(Op::Concat, _, l) => self.w(l),
            Node::ZExt(x) => match self.n(x) {
                Node::Bin(Op::Concat, _, l) => self.w(l),
                _ => self.w(x),
            },
            _ => 0,
        }
    }
    fn bytewise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w < 2 {
            return None;
        }
        let (p, q) = (self.seam(a), self.seam(b));
        let s = match (self.cval(a).is_some(), self.cval(b).is_some()) {
            (false, true) => p,
            (true, false) => q,
            (false, false) if p != 0 && q != 0 => {
                if p == q || !matches!(self.n(b), Node::Bin(Op::Concat, ..)) {
                    p
                } else {
                    p.min(q)
                }
            }
            _ => 0,
        };
        if s == 0 || s >= w {
            return None;
        }
        let (ah, al) = (self.extract(a, s, w - s), self.extract(a, 0, s));
        let (bh, bl) = (self.extract(b, s, w - s), self.extract(b, 0, s));
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        Some(self.concat(h, l))
    }
    // (h ++ l) + c where the carry out of the low part is known
    fn add_parts(&mut self, a: E, c: u128) -> Option<E> {
        let w = self.w(a);
        let s = self.seam(a);
        if s == 0 || s >= w || !matches!(self.n(a), Node::Bin(Op::Concat, ..)) && s + 8 > w {
            return None;
        }
        if let Node::ZExt(x) = self.n(a) {
            if !matches!(self.n(x), Node::Bin(Op::Concat, ..)) {
                return None;
            }
        }
        let (h, l) = (self.extract(a, s, w - s), self.extract(a, 0, s));
        let cl = c & mask(s);
        let carry = if self.hi(l) + cl <= mask(s) {
            0
        } else if self.lo(l) + cl > mask(s) {
            1
        } else {
            return None;
        };
        let kl = self.konst(cl, s);
        let kh = self.konst((c >> s) + carry, w - s);
        let l = self.bin(Op::Add, l, kl);
        let h = self.bin(Op::Add, h, kh);
        Some(self.concat(h, l))
    }

    // c - (h ++ l) where the borrow of the low part is known
    fn sub_parts(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let c = self.cval(a)?;
        let s = self.seam(b);
        if s == 0 || s >= w {
            return None;
        }
        match self.n(b) {
            Node::Bin(Op::Concat, ..) => {}
            Node::ZExt(x) if matches!(self.n(x), Node::Bin(Op::Concat, ..)) => {}
            _ => return None,
        }
        let (h, l) = (self.extract(b, s, w - s), self.extract(b, 0, s));
        let cl = c & mask(s);
        let borrow = if cl >= self.hi(l) {
            0
        } else if cl < self.lo(l) {
            1
        } else {
            return None;
        };
        let kl = self.konst(cl, s);
        let kh = self.konst((c >> s).wrapping_sub(borrow), w - s);
        let l = self.bin(Op::Sub, kl, l);
        let h = self.bin(Op::Sub, kh, h);
        Some(self.concat(h, l))
    }

    fn strip_zext(&self, e: E) -> E {
        match self.n(e) {
            Node::ZExt(x) => x,
            _ => e,
        }
    }

    fn cmp_common(&mut self, op: Op, a: E, b: E) -> E {
        if a == b {
            return self.konst((op == Op::Ule) as u128, 1);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        let (ca, cb) = (self.cval(a), self.cval(b));
        // canonical: x < c  (c const), c < x kept as is; x <= c -> x < c+1
        if op == Op::Ule {
            if let Some(c) = cb {
                if c < mask(ib.w) {
                    let k = self.konst(c + 1, ia.w);
                    return self.bin(Op::Ult, a, k);
                }
            }
            if let Some(c) = ca {
                if c > 0 {
                    let k = self.konst(c - 1, ia.w);
                    return self.bin(Op::Ult, k, b);
                }
            }
        }
        if let Some(c) = cb {
            if op == Op::Ult && c == 1 {
                let z = self.konst(0, ia.w);
                return self.bin(Op::Eq, a, z);
            }
            if let (Node::Bin(Op::UDiv, x, k), Op::Ult) = (self.n(a), op) {
                // x / k < c
                if let Some(k) = self.cval(k).filter(|k| *k > 0) {
                    if let Some(t) = c.checked_mul(k).filter(|t| *t <= mask(ia.w)) {
                        let t = self.konst(t, ia.w);
                        return self.bin(Op::Ult, x, t);
                    }
                }
            }
            match self.n(a) {
                Node::ZExt(x) => {
                    let xw = self.w(x);
                    let k = self.konst(c, xw); // c <= hi here, so it fits
                    if c <= mask(xw) {
                        return self.bin(op, x, k);
                    }
                }
                Node::Ite(cc, x, y) if self.cval(x).is_some() || self.cval(y).is_some() => {
                    let x = self.bin(op, x, b);
                    let y = self.bin(op, y, b);
                    return self.ite(cc, x, y);
                }
                Node::Bin(Op::Add, x, k) if self.cval(k).is_some() => {
                    let k = self.cval(k).unwrap();
                    let m = mask(ia.w);
                    // non-wrapping?
                    if self.hi(x).checked_add(k).is_some_and(|s| s <= m) && c >= k {
                        let kk = self.konst(c - k, ia.w);
                        return self.bin(op, x, kk);
                    }
                }
                Node::Bin(Op::Concat, h, l) if op == Op::Ult => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    if c & mask(lw) == 0 {
                        let k = self.konst(c >> lw, hw);
                        return self.bin(op, h, k);
                    }
                }
                _ => {}
            }
        }
        if let Some(c) = ca {
            if let (Node::Bin(Op::UDiv, x, k), Op::Ult) = (self.n(b), op) {
                // c < x / k
                if let Some(k) = self.cval(k).filter(|k| *k > 0) {
                    if let Some(t) = (c + 1).checked_mul(k).filter(|t| *t <= mask(ia.w)) {
                        let t = self.konst(t, ia.w);
                        return self.bin(Op::Ule, t, x);
                    }
                }
            }
            match self.n(b) {
                Node::ZExt(x) => {
                    let xw = self.w(x);
                    if c <= mask(xw) {
                        let k = self.konst(c, xw);
                        return self.bin(op, k, x);
                    }
                }
                Node::Ite(cc, x, y) if self.cval(x).is_some() || self.cval(y).is_some() => {
                    let x = self.bin(op, a, x);
                    let y = self.bin(op, a, y);
                    return self.ite(cc, x, y);
                }
                Node::Bin(Op::Add, x, k) if self.cval(k).is_some() => {
                    let k = self.cval(k).unwrap();
                    let m = mask(ia.w);
                    if self.hi(x).checked_add(k).is_some_and(|s| s <= m) && c >= k {
                        let kk = self.konst(c - k, ia.w);
                        return self.bin(op, kk, x);
                    }
                }
                Node::Bin(Op::Concat, h, l) if op == Op::Ult => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    if c & mask(lw) == mask(lw) {
                        let k = self.konst(c >> lw, hw);
                        return self.bin(op, k, h);
                    }
                }
                _ => {}
            }
        }
        if let (Node::ZExt(x), Node::ZExt(y)) = (self.n(a), self.n(b)) {
            let nw = self.w(x).max(self.w(y));
            let x = self.zext(x, nw);
            let y = self.zext(y, nw);
            return self.bin(op, x, y);
        }
        if let Some(r) = self.lin_cmp(op, a, b) {
            return r;
        }
        // overflow checks: (x + y) < x with no overflow possible
        let v = ia.vars | ib.vars;
        let d = ia.depth.max(ib.depth) + 1;
        if let Node::Bin(Op::Add, x, y) = self.n(a) {
            if (x == b || y == b)
                && self.hi(x).checked_add(self.hi(y)).is_some_and(|s| s <= mask(ia.w))
                && op == Op::Ult
            {
                return self.konst(0, 1);
            }
        }
        self.intern(Node::Bin(op, a, b), 1, 0, 1, v, d)
    }

    /// the values of e for each value of its only variable
    fn table(&mut self, e: E, lo: u128, hi: u128) -> std::rc::Rc<Vec<u128>> {
        if let Some(t) = self.tables.get(&e) {
            return t.clone();
        }
        let n = (hi - lo + 1) as usize;
        let w = self.w(e);
        let t: Vec<u128> = match self.nodes[e as usize] {
            Node::Nil => panic!("nil expr"),
            // of no variable: not remembered, as it has no range
            Node::Const(c) => return std::rc::Rc::new(vec![c; n]),
            Node::Var(_) => (lo..=hi).collect(),
            Node::Bin(op, a, b) => {
                let (x, y) = (self.table(a, lo, hi), self.table(b, lo, hi));
                let (wa, wb) = (self.w(a), self.w(b));
                x.iter().zip(y.iter()).map(|(&x, &y)| fold(op, x, y, wa, wb)).collect()
            }
            Node::ZExt(a) => return self.table(a, lo, hi),
            Node::SExt(a) => {
                let wa = self.w(a);
                self.table(a, lo, hi).iter().map(|&x| sext(x, wa) as u128 & mask(w)).collect()
            }
            Node::Extract(l, a) => self.table(a, lo, hi).iter().map(|&x| (x >> l) & mask(w)).collect(),
            Node::Ite(c, a, b) => {
                let (c, x, y) = (self.table(c, lo, hi), self.table(a, lo, hi), self.table(b, lo, hi));
                (0..n).map(|i| if c[i] != 0 { x[i] } else { y[i] }).collect()
            }
        };
        let t = std::rc::Rc::new(t);
        self.tables.insert(e, t.clone());
        t
    }

    /// an expression over variable i (from lo) with the given values
    fn tabulated(&mut self, i: u32, lo: u128, t: &[u128], w: u16) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(t[0], w);
        }
        let vw = self.vars[i as usize].w;
        let v = self.map[&(Node::Var(i), vw)];
        if w > 1 && t[1] > t[0] && vw <= w {
            let d = t[1] - t[0];
            let linear = (0..t.len()).all(|k| d.checked_mul(k as u128).and_then(|x| x.checked_add(t[0])) == Some(t[k]));
            if linear {
                if let Some(b) = d.checked_mul(lo).filter(|b| *b <= t[0]) {
                    let z = self.zext(v, w);
                    let d = self.konst(d, w);
                    let b = self.konst(t[0] - b, w);
                    let m = self.bin(Op::Mul, z, d);
                    return self.bin(Op::Add, m, b);
                }
            }
        }
        // runs of equal values
        let mut e = self.konst(t[t.len() - 1], w);
        for k in (0..t.len() - 1).rev() {
            if t[k] != t[k + 1] {
                let c = self.konst(lo + k as u128, vw);
                let c = self.bin(Op::Ule, v, c);
                let x = self.konst(t[k], w);
                e = self.ite(c, x, e);
            }
        }
        e
    }

    pub fn eval(&self, e: E, model: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        match self.nodes[e as usize] {
            Node::Nil => panic!("nil expr"),
            Node::Const(c) => return c,
            Node::Var(i) => return model.get(i as usize).copied().unwrap_or(self.vars[i as usize].lo),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = self.w(e);
        let v = match self.nodes[e as usize] {
            Node::Bin(op, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                fold(op, x, y, self.w(a), self.w(b))
            }
            Node::ZExt(a) => self.eval(a, model, memo),
            Node::SExt(a) => (sext(self.eval(a, model, memo), self.w(a)) as u128) & mask(w),
            Node::Extract(lo, a) => (self.eval(a, model, memo) >> lo) & mask(w),
            Node::Ite(c, a, b) => {
                if self.eval(c, model, memo) != 0 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            _ => unreachable!(),
        };
        memo.insert(e, v);
        v
    }

    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        match self.n(e) {
            Node::Nil => "nil".into(),
            Node::Const(c) => format!("{}:{}", c, self.w(e)),
            Node::Var(i) => format!("{}", self.vars[i as usize].name),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, d - 1), self.show(b, d - 1)),
            Node::ZExt(a) => format!("(zx{} {})", self.w(e), self.show(a, d - 1)),
            Node::SExt(a) => format!("(sx{} {})", self.w(e), self.show(a, d - 1)),
            Node::Extract(l, a) => format!("(ex {}+{} {})", l, self.w(e), self.show(a, d - 1)),
            Node::Ite(c, a, b) => format!(
                "(ite {} {} {})",
                self.show(c, d - 1),
                self.show(a, d - 1),
                self.show(b, d - 1)
            ),
        }
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
