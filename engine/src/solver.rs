//! Satisfiability of path conditions: independent slicing, caching, Z3.
use crate::expr::*;
use crate::z3::{self, *};
use std::collections::HashMap;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u128)>), // values of the variables in the slice
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
    pub int_used: u64,
}

pub struct Solver {
    ctx: Ctx,
    bv: HashMap<E, Ast>,
    bl: HashMap<E, Ast>,
    int: HashMap<E, Option<Ast>>,
    cache: HashMap<Vec<E>, Res>,
    linear: HashMap<E, bool>,
    isolver: Option<z3::Solver>,
    pub stats: Stats,
    pub bv_ms: u32,
    pub int_ms: u32,
    pub long_ms: u32,
    pub slow_log: bool,
}

impl Solver {
    pub fn new() -> Self {
        Solver {
            ctx: z3::new_ctx(),
            bv: HashMap::new(),
            bl: HashMap::new(),
            int: HashMap::new(),
            cache: HashMap::new(),
            linear: HashMap::new(),
            isolver: None,
            stats: Stats::default(),
            bv_ms: 1500,
            int_ms: 8000,
            long_ms: 30000,
            slow_log: std::env::var("SYMX_SLOW").is_ok(),
        }
    }

    /// constraints sharing variables (transitively) with the query
    pub fn slice(x: &Exprs, cons: &[E], q: E) -> Vec<E> {
        let mut vars = x.vars_of(q);
        let mut used = vec![false; cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in cons.iter().enumerate() {
                if !used[i] && x.vars_of(c) & vars != 0 {
                    used[i] = true;
                    vars |= x.vars_of(c);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<E> = cons.iter().zip(&used).filter(|(_, u)| **u).map(|(c, _)| *c).collect();
        v.push(q);
        v.sort();
        v.dedup();
        v
    }

    pub fn check(&mut self, x: &Exprs, cons: &[E], q: E) -> Res {
        if let Some(v) = x.cval(q) {
            return if v != 0 { Res::Sat(vec![]) } else { Res::Unsat };
        }
        let s = Self::slice(x, cons, q);
        if let Some(r) = self.cache.get(&s) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let t = Instant::now();
        self.stats.queries += 1;
        let linear = s.iter().all(|&e| self.is_linear(x, e));
        let mut r = Res::Unknown;
        if linear {
            self.stats.int_used += 1;
            r = self.run_int(x, &s, 1000);
        }
        if let Res::Unknown = r {
            r = self.run_bv(x, &s, self.bv_ms);
        }
        if let Res::Unknown = r {
            self.stats.int_used += 1;
            r = self.run_int(x, &s, self.int_ms);
            if let Res::Unknown = r {
                r = self.run_bv(x, &s, self.long_ms);
            }
        }
        let us = t.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if self.cache.len() > 200_000 {
            self.cache.clear();
        }
        self.cache.insert(s, r.clone());
        r
    }

    // only sums, constant multiples and constant division of nonwrapping values
    fn is_linear(&mut self, x: &Exprs, e: E) -> bool {
        if let Some(&b) = self.linear.get(&e) {
            return b;
        }
        let m = mask(x.w(e));
        let r = match x.n(e) {
            Node::Const(_) | Node::Var(_) => true,
            Node::ZExt(p) => self.is_linear(x, p),
            Node::Ite(i, p, q) => self.is_linear(x, i) && self.is_linear(x, p) && self.is_linear(x, q),
            Node::Extract(0, p) => x.hi(p) <= m && self.is_linear(x, p),
            Node::Bin(op, p, q) => {
                let ok = match op {
                    Op::Add => x.hi(p).checked_add(x.hi(q)).is_some_and(|s| s <= m),
                    Op::Sub => x.lo(p) >= x.hi(q),
                    Op::Mul => x.cval(q).is_some() && x.hi(p).checked_mul(x.hi(q)).is_some_and(|s| s <= m),
                    Op::UDiv | Op::URem => x.cval(q).is_some_and(|c| c > 0),
                    Op::Eq | Op::Ult | Op::Ule => true,
                    Op::And | Op::Or | Op::Xor => x.w(e) == 1,
                    Op::Concat => true,
                    _ => false,
                };
                ok && self.is_linear(x, p) && self.is_linear(x, q)
            }
            _ => false,
        };
        if !r && self.slow_log && !matches!(x.n(e), Node::Bin(Op::Eq | Op::Ult | Op::Ule | Op::And | Op::Or | Op::Xor, ..)) {
            eprintln!("NL {}", x.show(e, 14));
        }
        self.linear.insert(e, r);
        r
    }

    fn var_list(x: &Exprs, s: &[E]) -> Vec<u32> {
        let m = s.iter().fold(0u128, |a, &e| a | x.vars_of(e));
        (0..128).filter(|i| m >> i & 1 == 1).collect()
    }

    fn run_bv(&mut self, x: &Exprs, s: &[E], ms: u32) -> Res {
        unsafe {
            let c = self.ctx;
            let sv = Z3_mk_solver_for_logic(c, z3::sym(c, "QF_BV"));
            Z3_solver_inc_ref(c, sv);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, z3::sym(c, "timeout"), ms);
            Z3_solver_set_params(c, sv, p);
            let vl = Self::var_list(x, s);
            for &v in &vl {
                let d = &x.vars[v as usize];
                let a = self.bv_var(x, v);
                let so = Z3_mk_bv_sort(c, d.w as u32);
                if d.lo > 0 {
                    let k = z3::numeral(c, d.lo, so);
                    Z3_solver_assert(c, sv, Z3_mk_bvule(c, k, a));
                }
                if d.hi < mask(d.w) {
                    let k = z3::numeral(c, d.hi, so);
                    Z3_solver_assert(c, sv, Z3_mk_bvule(c, a, k));
                }
            }
            for &e in s {
                let b = self.to_bool(x, e);
                Z3_solver_assert(c, sv, b);
            }
            let r = Z3_solver_check(c, sv);
            let out = if r == 1 {
                let m = Z3_solver_get_model(c, sv);
                Z3_model_inc_ref(c, m);
                let mut vals = vec![];
                for &v in &vl {
                    let a = self.bv_var(x, v);
                    let mut o: Ast = std::ptr::null_mut();
                    Z3_model_eval(c, m, a, true, &mut o);
                    let t = z3::cstr(Z3_get_numeral_string(c, o));
                    vals.push((v, t.parse().unwrap_or(0)));
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(vals)
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_dec_ref(c, sv);
            out
        }
    }

    fn run_int(&mut self, x: &Exprs, s: &[E], ms: u32) -> Res {
        unsafe {
            let c = self.ctx;
            let mut asts = vec![];
            for &e in s {
                match self.int_bool(x, e) {
                    Some(a) => asts.push(a),
                    None => return Res::Unknown,
                }
            }
            let sv = match self.isolver {
                Some(s) => s,
                None => {
                    let s = Z3_mk_solver(c);
                    Z3_solver_inc_ref(c, s);
                    self.isolver = Some(s);
                    s
                }
            };
            Z3_solver_push(c, sv);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, z3::sym(c, "timeout"), ms);
            Z3_solver_set_params(c, sv, p);
            Z3_params_dec_ref(c, p);
            let vl = Self::var_list(x, s);
            let so = Z3_mk_int_sort(c);
            for &v in &vl {
                let d = &x.vars[v as usize];
                let a = self.int_var(v);
                let k = z3::numeral(c, d.lo, so);
                Z3_solver_assert(c, sv, Z3_mk_le(c, k, a));
                let k = z3::numeral(c, d.hi, so);
                Z3_solver_assert(c, sv, Z3_mk_le(c, a, k));
            }
            for a in asts {
                Z3_solver_assert(c, sv, a);
            }
            let r = Z3_solver_check(c, sv);
            let out = if r == 1 {
                let m = Z3_solver_get_model(c, sv);
                Z3_model_inc_ref(c, m);
                let mut vals = vec![];
                for &v in &vl {
                    let a = self.int_var(v);
                    let mut o: Ast = std::ptr::null_mut();
                    Z3_model_eval(c, m, a, true, &mut o);
                    let t = z3::cstr(Z3_get_numeral_string(c, o));
                    vals.push((v, t.parse().unwrap_or(0)));
                }
                Z3_model_dec_ref(c, m);
                // confirm the model with the bit-vector semantics
                let mut full = vec![0u128; 128];
                for (v, k) in &vals {
                    full[*v as usize] = *k;
                }
                let mut memo = HashMap::new();
                if s.iter().all(|&e| x.eval(e, &full, &mut memo) != 0) {
                    Res::Sat(vals)
                } else {
                    Res::Unknown
                }
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_pop(c, sv, 1);
            out
        }
    }

    fn bv_var(&mut self, x: &Exprs, v: u32) -> Ast {
        unsafe {
            let c = self.ctx;
            let so = Z3_mk_bv_sort(c, x.vars[v as usize].w as u32);
            Z3_mk_const(c, z3::sym(c, &format!("v{}", v)), so)
        }
    }
    fn int_var(&mut self, v: u32) -> Ast {
        unsafe {
            let c = self.ctx;
            Z3_mk_const(c, z3::sym(c, &format!("i{}", v)), Z3_mk_int_sort(c))
        }
    }

    fn to_bool(&mut self, x: &Exprs, e: E) -> Ast {
        if let Some(&a) = self.bl.get(&e) {
            return a;
        }
        let c = self.ctx;
        let a = unsafe {
            match x.n(e) {
                Node::Const(v) => {
                    if v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Bin(op, p, q) => match op {
                    Op::Eq if x.w(p) == 1 => {
                        let (p, q) = (self.to_bool(x, p), self.to_bool(x, q));
                        Z3_mk_eq(c, p, q)
                    }
                    Op::Eq => {
                        let (p, q) = (self.to_bv(x, p), self.to_bv(x, q));
                        Z3_mk_eq(c, p, q)
                    }
                    Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let (p, q) = (self.to_bv(x, p), self.to_bv(x, q));
                        match op {
                            Op::Ult => Z3_mk_not(c, Z3_mk_bvule(c, q, p)),
                            Op::Ule => Z3_mk_bvule(c, p, q),
                            Op::Slt => Z3_mk_not(c, Z3_mk_bvsle(c, q, p)),
                            _ => Z3_mk_bvsle(c, p, q),
                        }
                    }
                    Op::And => {
                        let v = [self.to_bool(x, p), self.to_bool(x, q)];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    Op::Or => {
                        let v = [self.to_bool(x, p), self.to_bool(x, q)];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    Op::Xor => {
                        let (p, q) = (self.to_bool(x, p), self.to_bool(x, q));
                        Z3_mk_xor(c, p, q)
                    }
                    _ => self.bv_is_one(x, e),
                },
                Node::Ite(i, p, q) => {
                    let (i, p, q) = (self.to_bool(x, i), self.to_bool(x, p), self.to_bool(x, q));
                    Z3_mk_ite(c, i, p, q)
                }
                _ => self.bv_is_one(x, e),
            }
        };
        self.bl.insert(e, a);
        a
    }
    fn bv_is_one(&mut self, x: &Exprs, e: E) -> Ast {
        let b = self.to_bv(x, e);
        unsafe {
            let so = Z3_mk_bv_sort(self.ctx, 1);
            Z3_mk_eq(self.ctx, b, z3::numeral(self.ctx, 1, so))
        }
    }

    fn to_bv(&mut self, x: &Exprs, e: E) -> Ast {
        if let Some(&a) = self.bv.get(&e) {
            return a;
        }
        let c = self.ctx;
        let w = x.w(e);
        let a = unsafe {
            match x.n(e) {
                Node::Nil => panic!("nil"),
                Node::Const(v) => z3::numeral(c, v, Z3_mk_bv_sort(c, w as u32)),
                Node::Var(v) => self.bv_var(x, v),
                Node::Bin(op, p, q) => match op {
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.bool_to_bv(x, e),
                    _ if w == 1 && matches!(op, Op::And | Op::Or | Op::Xor) => self.bool_to_bv(x, e),
                    _ => {
                        let (p, q) = (self.to_bv(x, p), self.to_bv(x, q));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, p, q),
                            Op::Sub => Z3_mk_bvsub(c, p, q),
                            Op::Mul => Z3_mk_bvmul(c, p, q),
                            Op::UDiv => Z3_mk_bvudiv(c, p, q),
                            Op::URem => Z3_mk_bvurem(c, p, q),
                            Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                            Op::SRem => Z3_mk_bvsrem(c, p, q),
                            Op::And => Z3_mk_bvand(c, p, q),
                            Op::Or => Z3_mk_bvor(c, p, q),
                            Op::Xor => Z3_mk_bvxor(c, p, q),
                            Op::Shl => Z3_mk_bvshl(c, p, q),
                            Op::LShr => Z3_mk_bvlshr(c, p, q),
                            Op::AShr => Z3_mk_bvashr(c, p, q),
                            Op::Concat => Z3_mk_concat(c, p, q),
                            _ => unreachable!(),
                        }
                    }
                },
                Node::ZExt(p) => {
                    let k = w - x.w(p);
                    let p = self.to_bv(x, p);
                    Z3_mk_zero_ext(c, k as u32, p)
                }
                Node::SExt(p) => {
                    let k = w - x.w(p);
                    let p = self.to_bv(x, p);
                    Z3_mk_sign_ext(c, k as u32, p)
                }
                Node::Extract(lo, p) => {
                    let p = self.to_bv(x, p);
                    Z3_mk_extract(c, (lo + w - 1) as u32, lo as u32, p)
                }
                Node::Ite(i, p, q) => {
                    let i = self.to_bool(x, i);
                    let (p, q) = (self.to_bv(x, p), self.to_bv(x, q));
                    Z3_mk_ite(c, i, p, q)
                }
            }
        };
        self.bv.insert(e, a);
        a
    }
    fn bool_to_bv(&mut self, x: &Exprs, e: E) -> Ast {
        let b = self.to_bool(x, e);
        unsafe {
            let so = Z3_mk_bv_sort(self.ctx, 1);
            Z3_mk_ite(self.ctx, b, z3::numeral(self.ctx, 1, so), z3::numeral(self.ctx, 0, so))
        }
    }

    // ---- integer encoding: exact unsigned value of each node ----
    fn inum(&self, v: u128) -> Ast {
        unsafe { z3::numeral(self.ctx, v, Z3_mk_int_sort(self.ctx)) }
    }
    fn pow2(&self, w: u16) -> Ast {
        if w < 128 {
            self.inum(1u128 << w)
        } else {
            // 2^128
            unsafe {
                let t = std::ffi::CString::new("340282366920938463463374607431768211456").unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), Z3_mk_int_sort(self.ctx))
            }
        }
    }
    fn iadd(&self, a: Ast, b: Ast) -> Ast {
        let v = [a, b];
        unsafe { Z3_mk_add(self.ctx, 2, v.as_ptr()) }
    }
    fn isub(&self, a: Ast, b: Ast) -> Ast {
        let v = [a, b];
        unsafe { Z3_mk_sub(self.ctx, 2, v.as_ptr()) }
    }
    fn imul(&self, a: Ast, b: Ast) -> Ast {
        let v = [a, b];
        unsafe { Z3_mk_mul(self.ctx, 2, v.as_ptr()) }
    }
    fn int_bool(&mut self, x: &Exprs, e: E) -> Option<Ast> {
        let c = self.ctx;
        unsafe {
            Some(match x.n(e) {
                Node::Const(v) => {
                    if v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Bin(op, p, q) => match op {
                    Op::Eq if x.w(p) == 1 => {
                        let (p, q) = (self.int_bool(x, p)?, self.int_bool(x, q)?);
                        Z3_mk_eq(c, p, q)
                    }
                    Op::Eq => {
                        let (p, q) = (self.to_int(x, p)?, self.to_int(x, q)?);
                        Z3_mk_eq(c, p, q)
                    }
                    Op::Ult => {
                        let (p, q) = (self.to_int(x, p)?, self.to_int(x, q)?);
                        Z3_mk_lt(c, p, q)
                    }
                    Op::Ule => {
                        let (p, q) = (self.to_int(x, p)?, self.to_int(x, q)?);
                        Z3_mk_le(c, p, q)
                    }
                    Op::Slt | Op::Sle => {
                        let (p, q) = (self.to_sint(x, p)?, self.to_sint(x, q)?);
                        if op == Op::Slt {
                            Z3_mk_lt(c, p, q)
                        } else {
                            Z3_mk_le(c, p, q)
                        }
                    }
                    Op::And => {
                        let v = [self.int_bool(x, p)?, self.int_bool(x, q)?];
                        Z3_mk_and(c, 2, v.as_ptr())
                    }
                    Op::Or => {
                        let v = [self.int_bool(x, p)?, self.int_bool(x, q)?];
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                    Op::Xor => {
                        let (p, q) = (self.int_bool(x, p)?, self.int_bool(x, q)?);
                        Z3_mk_xor(c, p, q)
                    }
                    _ => {
                        let a = self.to_int(x, e)?;
                        Z3_mk_eq(c, a, self.inum(1))
                    }
                },
                _ => {
                    let a = self.to_int(x, e)?;
                    Z3_mk_eq(c, a, self.inum(1))
                }
            })
        }
    }
    fn to_sint(&mut self, x: &Exprs, e: E) -> Option<Ast> {
        let w = x.w(e);
        let a = self.to_int(x, e)?;
        if x.hi(e) < 1u128 << (w - 1) {
            return Some(a);
        }
        let h = self.pow2(w - 1);
        let m = self.pow2(w);
        unsafe { Some(Z3_mk_ite(self.ctx, Z3_mk_lt(self.ctx, a, h), a, self.isub(a, m))) }
    }
    fn to_int(&mut self, x: &Exprs, e: E) -> Option<Ast> {
        if let Some(a) = self.int.get(&e) {
            return *a;
        }
        let r = self.to_int0(x, e);
        self.int.insert(e, r);
        r
    }
    fn to_int0(&mut self, x: &Exprs, e: E) -> Option<Ast> {
        let c = self.ctx;
        let w = x.w(e);
        let m = mask(w);
        unsafe {
            Some(match x.n(e) {
                Node::Nil => return None,
                Node::Const(v) => self.inum(v),
                Node::Var(v) => self.int_var(v),
                Node::ZExt(p) => self.to_int(x, p)?,
                Node::SExt(p) => {
                    let s = self.to_sint(x, p)?;
                    let z = self.inum(0);
                    Z3_mk_ite(c, Z3_mk_lt(c, s, z), self.iadd(s, self.pow2(w)), s)
                }
                Node::Extract(lo, p) => {
                    let pw = x.w(p);
                    let mut a = self.to_int(x, p)?;
                    if lo > 0 {
                        a = Z3_mk_div(c, a, self.pow2(lo));
                    }
                    if lo + w < pw && x.hi(p) >> lo > m {
                        a = Z3_mk_mod(c, a, self.pow2(w));
                    }
                    a
                }
                Node::Ite(i, p, q) => {
                    let i = self.int_bool(x, i)?;
                    let (p, q) = (self.to_int(x, p)?, self.to_int(x, q)?);
                    Z3_mk_ite(c, i, p, q)
                }
                Node::Bin(op, p, q) => match op {
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let b = self.int_bool(x, e)?;
                        Z3_mk_ite(c, b, self.inum(1), self.inum(0))
                    }
                    Op::And | Op::Or | Op::Xor if w == 1 => {
                        let b = self.int_bool(x, e)?;
                        Z3_mk_ite(c, b, self.inum(1), self.inum(0))
                    }
                    Op::Add => {
                        let (a, b) = (self.to_int(x, p)?, self.to_int(x, q)?);
                        if x.hi(p).checked_add(x.hi(q)).is_some_and(|s| s <= m) {
                            self.iadd(a, b)
                        } else if let Some(k) = x.cval(q) {
                            let neg = k.wrapping_neg() & m;
                            let nk = self.inum(neg);
                            if x.lo(p) >= neg {
                                self.isub(a, nk)
                            } else {
                                let s = self.isub(a, nk);
                                Z3_mk_ite(c, Z3_mk_lt(c, a, nk), self.iadd(s, self.pow2(w)), s)
                            }
                        } else {
                            let s = self.iadd(a, b);
                            let t = self.pow2(w);
                            Z3_mk_ite(c, Z3_mk_lt(c, s, t), s, self.isub(s, t))
                        }
                    }
                    Op::Sub => {
                        let (a, b) = (self.to_int(x, p)?, self.to_int(x, q)?);
                        let s = self.isub(a, b);
                        if x.lo(p) >= x.hi(q) {
                            s
                        } else {
                            Z3_mk_ite(c, Z3_mk_lt(c, a, b), self.iadd(s, self.pow2(w)), s)
                        }
                    }
                    Op::Mul => {
                        let (a, b) = (self.to_int(x, p)?, self.to_int(x, q)?);
                        let s = self.imul(a, b);
                        if x.hi(p).checked_mul(x.hi(q)).is_some_and(|s| s <= m) {
                            s
                        } else {
                            Z3_mk_mod(c, s, self.pow2(w))
                        }
                    }
                    Op::UDiv | Op::URem if x.lo(q) > 0 => {
                        let (a, b) = (self.to_int(x, p)?, self.to_int(x, q)?);
                        if op == Op::UDiv {
                            Z3_mk_div(c, a, b)
                        } else {
                            Z3_mk_mod(c, a, b)
                        }
                    }
                    Op::Concat => {
                        let (a, b) = (self.to_int(x, p)?, self.to_int(x, q)?);
                        let h = self.imul(a, self.pow2(x.w(q)));
                        self.iadd(h, b)
                    }
                    _ => return None,
                },
            })
        }
    }
}
