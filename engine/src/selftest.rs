//! Randomised self-test: simplified expressions must agree with plain evaluation.
use crate::expr::*;
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
}

#[derive(Clone)]
enum T {
    V(usize),
    K(u128, u16),
    B(Op, Box<T>, Box<T>),
    Not(Box<T>),
    Z(Box<T>, u16),
    S(Box<T>, u16),
    X(Box<T>, u16, u16),
    I(Box<T>, Box<T>, Box<T>),
}

const WS: [u16; 6] = [1, 8, 16, 32, 64, 128];

fn gen(r: &mut Rng, w: u16, d: u32, vars: &[(u16, u128, u128)]) -> T {
    if d == 0 || r.below(8) == 0 {
        // leaf
        let c: Vec<usize> = (0..vars.len()).filter(|&i| vars[i].0 <= w).collect();
        if !c.is_empty() && r.below(3) != 0 {
            let i = c[r.below(c.len() as u64) as usize];
            let t = T::V(i);
            return if vars[i].0 < w {
                if r.below(4) == 0 { T::S(Box::new(t), w) } else { T::Z(Box::new(t), w) }
            } else {
                t
            };
        }
        let interesting: [u128; 14] = [0, 1, 2, 3, 9, 10, 48, 57, 99, 100, 255, 1000, u128::MAX, 1 << 63];
        let v = if r.below(3) == 0 { r.next() as u128 } else { interesting[r.below(14) as usize] };
        return T::K(v & mask(w), w);
    }
    let sub = |r: &mut Rng, w| Box::new(gen(r, w, d - 1, vars));
    if w == 1 && r.below(4) != 0 {
        let ow = WS[1 + r.below(5) as usize];
        let op = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle][r.below(5) as usize];
        return T::B(op, sub(r, ow), sub(r, ow));
    }
    match r.below(12) {
        0 => {
            if w > 8 {
                let hw = w / 2;
                T::B(Op::Concat, sub(r, hw), sub(r, w - hw))
            } else {
                T::B(Op::Xor, sub(r, w), sub(r, w))
            }
        }
        1 => {
            let big: Vec<u16> = WS.iter().copied().filter(|&x| x > w).collect();
            if big.is_empty() {
                return *sub(r, w);
            }
            let b = big[r.below(big.len() as u64) as usize];
            let lo = if r.below(2) == 0 { 0 } else { (r.below((b - w + 1) as u64) as u16) / 8 * 8 };
            T::X(sub(r, b), lo, w)
        }
        2 => {
            let c = sub(r, 1);
            T::I(c, sub(r, w), sub(r, w))
        }
        3 => {
            let small: Vec<u16> = WS.iter().copied().filter(|&x| x < w).collect();
            if small.is_empty() {
                return T::Not(sub(r, w));
            }
            let s = small[r.below(small.len() as u64) as usize];
            if r.below(3) == 0 { T::S(sub(r, s), w) } else { T::Z(sub(r, s), w) }
        }
        4 if w == 1 => T::Not(sub(r, 1)),
        5 | 6 => {
            // by a small constant, as decimal code does
            let k = [1u128, 2, 5, 10, 100, 1000, 3, 7][r.below(8) as usize] & mask(w);
            let op = [Op::UDiv, Op::URem, Op::Mul, Op::Add, Op::Sub, Op::SDiv, Op::SRem][r.below(7) as usize];
            if k == 0 {
                return T::B(Op::Add, sub(r, w), sub(r, w));
            }
            T::B(op, sub(r, w), Box::new(T::K(k, w)))
        }
        7 => {
            // q*c + x%c patterns
            let x = gen(r, w, d - 1, vars);
            let k = [10u128, 100][r.below(2) as usize] & mask(w);
            if k == 0 || w < 8 {
                return x;
            }
            let kk = || Box::new(T::K(k, w));
            let q = T::B(Op::UDiv, Box::new(x.clone()), kk());
            let q = if r.below(2) == 0 { T::B(Op::URem, Box::new(q), kk()) } else { q };
            T::B(
                Op::Add,
                Box::new(T::B(Op::Mul, Box::new(q), kk())),
                Box::new(T::B(Op::URem, Box::new(x), kk())),
            )
        }
        9 if w >= 16 => {
            // digits of a sum of multiples of small values, put together again
            let p = [1u128, 10, 100, 1000, 2, 5, 20];
            let ks = |r: &mut Rng, n: u64| Box::new(T::K(p[r.below(n) as usize], w));
            let mut term = |r: &mut Rng| {
                let v = T::Z(Box::new(gen(r, 8, 0, vars)), w);
                T::B(Op::Mul, Box::new(v), Box::new(T::K([1u128, 10, 100, 2, 20][r.below(5) as usize], w)))
            };
            let (a, b) = (term(r), term(r));
            let op = if r.below(3) == 0 { Op::Sub } else { Op::Add };
            let f = T::B(op, Box::new(a), Box::new(b));
            let c = [0u128, 9, 99, 1, 30, 600][r.below(6) as usize];
            let f = T::B(Op::Add, Box::new(f), Box::new(T::K(c, w)));
            let mut out = T::K(0, w);
            for _ in 0..1 + r.below(3) {
                let mut d = T::B(Op::UDiv, Box::new(f.clone()), ks(r, 4));
                if r.below(3) == 0 {
                    d = T::B(Op::UDiv, Box::new(d), ks(r, 7));
                }
                if r.below(4) != 0 {
                    d = T::B(Op::URem, Box::new(d), ks(r, 7));
                }
                d = T::B(Op::Mul, Box::new(d), ks(r, 4));
                out = T::B(if r.below(4) == 0 { Op::Sub } else { Op::Add }, Box::new(out), Box::new(d));
            }
            out
        }
        10 if w >= 32 => {
            // multiplication by a rounded reciprocal
            let v = |r: &mut Rng| Box::new(T::Z(Box::new(gen(r, 8, 1, vars)), w));
            let s = T::B(Op::Mul, v(r), Box::new(T::K([1u128, 10, 100][r.below(3) as usize], w)));
            let x = T::B(Op::Add, Box::new(s), v(r));
            let (g, n) = [(5243u128, 19), (103, 10), (205, 11), (41, 12), (1311, 17), (6554, 16), (86, 8), (37, 8)][r.below(8) as usize];
            T::B(Op::LShr, Box::new(T::B(Op::Mul, Box::new(x), Box::new(T::K(g, w)))), Box::new(T::K(n, w)))
        }
        8 => {
            let op = [Op::Shl, Op::LShr, Op::AShr][r.below(3) as usize];
            let k = r.below(w as u64 + 1) as u128;
            T::B(op, sub(r, w), Box::new(T::K(k & mask(w), w)))
        }
        _ => {
            let op = [Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor, Op::UDiv, Op::URem][r.below(8) as usize];
            T::B(op, sub(r, w), sub(r, w))
        }
    }
}

fn build(t: &T, x: &mut Exprs, vs: &[E]) -> E {
    match t {
        T::V(i) => vs[*i],
        T::K(v, w) => x.konst(*v, *w),
        T::B(Op::Concat, a, b) => {
            let (a, b) = (build(a, x, vs), build(b, x, vs));
            x.concat(a, b)
        }
        T::B(op, a, b) => {
            let (a, b) = (build(a, x, vs), build(b, x, vs));
            x.bin(*op, a, b)
        }
        T::Not(a) => {
            let a = build(a, x, vs);
            x.not(a)
        }
        T::Z(a, w) => {
            let a = build(a, x, vs);
            x.zext(a, *w)
        }
        T::S(a, w) => {
            let a = build(a, x, vs);
            x.sext(a, *w)
        }
        T::X(a, l, w) => {
            let a = build(a, x, vs);
            x.extract(a, *l, *w)
        }
        T::I(c, a, b) => {
            let c = build(c, x, vs);
            let (a, b) = (build(a, x, vs), build(b, x, vs));
            x.ite(c, a, b)
        }
    }
}

fn plain(t: &T, m: &[u128], vars: &[(u16, u128, u128)]) -> (u128, u16) {
    match t {
        T::V(i) => (m[*i], vars[*i].0),
        T::K(v, w) => (*v, *w),
        T::B(op, a, b) => {
            let (p, w) = plain(a, m, vars);
            let (q, bw) = plain(b, m, vars);
            let r = fold(*op, p, q, w, bw);
            let rw = match op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
                Op::Concat => w + bw,
                _ => w,
            };
            (r, rw)
        }
        T::Not(a) => {
            let (p, w) = plain(a, m, vars);
            (p ^ 1, w)
        }
        T::Z(a, w) => (plain(a, m, vars).0, *w),
        T::S(a, w) => {
            let (p, pw) = plain(a, m, vars);
            ((sext(p, pw) as u128) & mask(*w), *w)
        }
        T::X(a, l, w) => ((plain(a, m, vars).0 >> l) & mask(*w), *w),
        T::I(c, a, b) => {
            if plain(c, m, vars).0 != 0 {
                plain(a, m, vars)
            } else {
                plain(b, m, vars)
            }
        }
    }
}

pub fn run(n: u64) {
    let mut r = Rng(0x9E3779B97F4A7C15);
    let mut bad = 0;
    let mut solver_checked = 0;
    for it in 0..n {
        let vars: Vec<(u16, u128, u128)> = (0..3)
            .map(|_| {
                let w = WS[1 + r.below(4) as usize];
                match r.below(4) {
                    0 => (w, 0, mask(w)),
                    1 => (w, 0, 9),
                    2 => (w, 48, 57),
                    _ => {
                        let hi = mask(w).min(99999);
                        (w, 0, hi)
                    }
                }
            })
            .collect();
        let mut x = Exprs::new();
        let vs: Vec<E> = vars.iter().enumerate().map(|(i, v)| x.var(i as u32, &format!("v{}", i), v.0, v.1, v.2)).collect();
        let w = WS[r.below(6) as usize];
        // some deep ones over one variable, which are tabulated
        let one = it % 4 == 0;
        let d = 2 + r.below(if one { 6 } else { 4 }) as u32;
        let t = gen(&mut r, w, d, if one { &vars[..1] } else { &vars });
        let e = build(&t, &mut x, &vs);
        for k in 0..12 {
            let m: Vec<u128> = vars
                .iter()
                .map(|v| match k {
                    0 => v.1,
                    1 => v.2,
                    _ => v.1 + (r.next() as u128) % (v.2 - v.1 + 1),
                })
                .collect();
            let (want, ww) = plain(&t, &m, &vars);
            let got = x.eval(e, &m, &mut HashMap::new());
            if want != got || x.w(e) != ww || got < x.lo(e) || got > x.hi(e) {
                bad += 1;
                if bad < 10 {
                    eprintln!("mismatch #{}: want {} ({}) got {} ({}) range [{},{}] for {} with {:?} vars {:?}", it, want, ww, got, x.w(e), x.lo(e), x.hi(e), x.show(e, 12), m, vars);
                }
                break;
            }
        }
        // now and then compare the solver encodings with evaluation
        if w == 1 && it % 50 == 0 && x.cval(e).is_none() {
            let mut s = crate::solver::Solver::new();
            s.bv_ms = 3000;
            for q in [e, x.not(e)] {
                match s.check(&x, &[], q) {
                    crate::solver::Res::Sat(v) => {
                        let mut m: Vec<u128> = vars.iter().map(|v| v.1).collect();
                        for (i, k) in v {
                            m[i as usize] = k;
                        }
                        if x.eval(q, &m, &mut HashMap::new()) == 0 {
                            bad += 1;
                            eprintln!("solver model does not satisfy {}", x.show(q, 12));
                        }
                    }
                    crate::solver::Res::Unsat => {
                        for _ in 0..200 {
                            let m: Vec<u128> = vars.iter().map(|v| v.1 + (r.next() as u128) % (v.2 - v.1 + 1)).collect();
                            if x.eval(q, &m, &mut HashMap::new()) != 0 {
                                bad += 1;
                                eprintln!("solver says unsat but {:?} satisfies {}", m, x.show(q, 12));
                                break;
                            }
                        }
                    }
                    _ => {}
                }
                solver_checked += 1;
            }
        }
    }
    println!("{{\"selftest\":{},\"solver_checked\":{},\"mismatches\":{}}}", n, solver_checked, bad);
    if bad > 0 {
        std::process::exit(1);
    }
}
