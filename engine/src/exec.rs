//! Symbolic executor: explores every feasible path of the lowered program.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub lo: u64,
    pub hi: u64,
    pub e: E,
}
impl V {
    #[inline]
    pub fn c(v: u64) -> V {
        V { lo: v, hi: 0, e: 0 }
    }
    #[inline]
    pub fn c128(v: u128) -> V {
        V { lo: v as u64, hi: (v >> 64) as u64, e: 0 }
    }
    #[inline]
    pub fn u(&self) -> u128 {
        self.lo as u128 | (self.hi as u128) << 64
    }
    #[inline]
    pub fn s(e: E) -> V {
        V { lo: 0, hi: 0, e }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub fid: u32,
    pub pc: u32,
    pub base: u32,
    pub dst: u32, // register of the caller receiving the result
    pub sp: u64,
}

#[derive(Clone)]
pub enum Input {
    Var(E),
    Choice(u64),
}

#[derive(Clone, Default)]
pub struct Fd {
    pub kind: u8, // 0 closed, 1 stdin, 2 stdout, 3 stderr, 4 file, 5 directory, 6 pipe to read, 7 pipe to write (its reading end at pos)
    pub path: Rc<str>,
    pub data: Rc<Vec<B>>,
    pub pos: u64,
}

#[derive(Clone, Default)]
pub struct Env {
    pub files: HashMap<String, Rc<Vec<B>>>,
    pub stdin: Rc<Vec<B>>,
    pub fds: Vec<Fd>,
    /// reads and writes so far in this run
    pub io: [u64; 2],
    pub out: [Vec<B>; 2],
    pub args: Vec<Vec<B>>,
    pub vars: Vec<(String, Vec<B>)>,
    /// the calls of other programs in this run
    pub log: Vec<B>,
    /// other programs which may be started: name, output, error output, status
    pub programs: Vec<(String, Vec<B>, Vec<B>, V)>,
    /// descriptors the next program started gets: (ours, its)
    pub dups: Vec<(u64, u64)>,
    pub child: Option<V>,
    pub environ_addr: u64,
}

#[derive(Clone)]
pub struct State {
    pub regs: Vec<V>,
    pub top: u32,
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub model: Vec<u128>,
    pub sp: u64,
    pub heap: u64,
    pub errno: u64,
    pub inputs: Vec<Input>,
    pub env: Env,
    pub run_depth: Option<(usize, u32)>, // frame depth of the harness while the program runs
    pub prog: usize,
    pub runs: u32,
    pub steps: u64,
    pub reach: Vec<u32>,
    pub notes: Vec<String>,
    pub outs_hash: Vec<(u64, Vec<B>)>, // (exit code, stdout) of each run
    pub forks: u32,
    pub redo: bool,
}

pub enum Stop {
    End(String),       // path finished normally or was cut by an assumption
    Fail(String),      // assertion failure or harness panic
    Error(String),     // engine limitation
    Infeasible,
}

pub type R<T> = Result<T, Stop>;
pub type Builtin = fn(&mut Exec, &mut State, &[V]) -> R<V>;

#[derive(Default, Clone)]
pub struct Counters {
    pub paths: u64,
    pub cut: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub sym_branches: u64,
    pub inconclusive: u64,
    pub errors: u64,
    pub violations: u64,
    pub runs: u64,
}

pub struct Exec {
    pub prog: Program,
    pub x: Exprs,
    pub sol: Solver,
    pub bh: Vec<(E, u8)>,
    bmap: HashMap<(E, u8), u32>,
    pub builtins: HashMap<&'static str, Builtin>,
    scache: Vec<u8>, // which functions are byte searches: 0 unknown, 1 no, 2 forwards, 3 backwards
    pub bcache: Vec<Option<Builtin>>,
    pub panics: Vec<bool>,
    pub work: Vec<State>,
    pub cnt: Counters,
    pub called: Vec<bool>,
    pub reach: std::collections::BTreeMap<u32, u64>,
    pub var_ids: HashMap<(u32, String, u128, u128), u32>,
    pub msgs: Vec<String>,
    pub max_steps: u64,
    pub images: Vec<(usize, u64, Vec<u8>)>, // module, address, bytes
    pub base_mem: Mem,
    pub mod_names: Vec<String>,
    pub witness: Vec<String>,
    pub max_witness: usize,
    pub viol: Vec<String>,
    pub max_viol: usize,
    pub fork_hook: Option<fn(&mut Exec) -> bool>,
    pub deadline: std::time::Instant,
    pub stopped: bool,
    pub profile: HashMap<u32, u64>,
    pub do_profile: bool,
    pub trace: bool,
    pub concrete_mode: bool,
}

fn opt_mask(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Exec {
    pub fn new(prog: Program) -> Self {
        let n = prog.funcs.len();
        let mut x = Exec {
            prog,
            x: Exprs::new(),
            sol: Solver::new(),
            bh: vec![(0, 0)],
            bmap: HashMap::new(),
            builtins: HashMap::new(),
            scache: Vec::new(),
            bcache: vec![None; n],
            panics: vec![],
            work: vec![],
            cnt: Counters::default(),
            called: vec![],
            reach: Default::default(),
            var_ids: HashMap::new(),
            msgs: vec![],
            max_steps: 2_000_000_000,
            images: vec![],
            base_mem: Mem::new(),
            mod_names: vec![],
            witness: vec![],
            max_witness: 40,
            viol: vec![],
            max_viol: 5,
            fork_hook: None,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(100000),
            stopped: false,
            profile: HashMap::new(),
            do_profile: false,
            trace: false,
            concrete_mode: false,
        };
        crate::env::register(&mut x);
        x.panics = x.prog.funcs.iter().map(|f| is_panic(&f.name)).collect();
        let img = std::mem::take(&mut x.prog.image);
        x.base_mem.write_c(GLOBAL_BASE, 8, 0).ok().expect("image");
        for (a, b, m, k) in img {
            x.base_mem.write_bytes(a, &b).ok().expect("image");
            if m {
                x.images.push((k, a, b));
            }
        }
        x
    }

    // ---- symbolic bytes ----
    pub fn byte_handle(&mut self, e: E, i: u8) -> B {
        if self.x.w(e) == 8 {
            if let Some(c) = self.x.cval(e) {
                return c as u32;
            }
        }
        if let Some(&h) = self.bmap.get(&(e, i)) {
            return h | SYM;
        }
        let h = self.bh.len() as u32;
        self.bh.push((e, i));
        self.bmap.insert((e, i), h);
        h | SYM
    }
    pub fn byte_expr(&mut self, b: B) -> E {
        if b & SYM == 0 {
            return self.x.konst(b as u128, 8);
        }
        let (e, i) = self.bh[(b & !SYM) as usize];
        self.x.extract(e, 8 * i as u16, 8)
    }
    pub fn join_bytes(&mut self, bs: &[B]) -> E {
        // little endian
        let mut acc: E = 0;
        let mut i = bs.len();
        while i > 0 {
            // find a run ending at i-1 of consecutive bytes of one expression
            let j = i - 1;
            let piece;
            let mut k = j;
            if bs[j] & SYM == 0 {
                let mut v = bs[j] as u128;
                while k > 0 && bs[k - 1] & SYM == 0 {
                    k -= 1;
                    v = (v << 8) | bs[k] as u128;
                }
                piece = self.x.konst(v, ((i - k) * 8) as u16);
            } else {
                let (e, t) = self.bh[(bs[j] & !SYM) as usize];
                let mut t0 = t;
                while k > 0 && bs[k - 1] & SYM != 0 && t0 > 0 {
                    let (e2, t2) = self.bh[(bs[k - 1] & !SYM) as usize];
                    if e2 == e && t2 + 1 == t0 {
                        k -= 1;
                        t0 = t2;
                    } else {
                        break;
                    }
                }
                piece = self.x.extract(e, 8 * t0 as u16, ((i - k) * 8) as u16);
            }
            acc = if acc == 0 { piece } else { self.x.concat(acc, piece) };
            i = k;
        }
        acc
    }
    fn fault(&self, st: &State, f: Fault, what: &str) -> Stop {
        Stop::Error(format!("memory fault at {:#x} during {} in {}", f.0, what, self.where_(st)))
    }
    pub fn where_(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(8) {
            v.push(format!("{}:{}", short(&self.prog.funcs[f.fid as usize].name), f.pc));
        }
        v.join(" < ")
    }

    #[inline]
    pub fn load_at(&mut self, st: &State, a: u64, w: u16) -> R<V> {
        let n = (w as usize + 7) / 8;
        match st.mem.read_c(a, n) {
            Ok(Some(v)) => {
                let v = if w % 8 != 0 { v & mask(w) } else { v };
                Ok(V::c128(v))
            }
            Ok(None) => {
                let bs = st.mem.read_bytes(a, n as u64).map_err(|f| self.fault(st, f, "load"))?;
                let mut e = self.join_bytes(&bs);
                if self.x.w(e) > w {
                    e = self.x.trunc(e, w);
                }
                Ok(self.from_e(e))
            }
            Err(f) => Err(self.fault(st, f, "load")),
        }
    }
    #[inline]
    pub fn store_at(&mut self, st: &mut State, a: u64, w: u16, v: V) -> R<()> {
        let n = (w as usize + 7) / 8;
        if v.e == 0 {
            return match st.mem.write_c(a, n, v.u()) {
                Ok(()) => Ok(()),
                Err(f) => Err(self.fault(st, f, "store")),
            };
        }
        let mut e = v.e;
        if self.x.w(e) as usize != n * 8 {
            e = self.x.zext(e, (n * 8) as u16);
        }
        for i in 0..n {
            let h = self.byte_handle(e, i as u8);
            if let Err(f) = st.mem.write_b(a + i as u64, h) {
                return Err(self.fault(st, f, "store"));
            }
        }
        Ok(())
    }
    #[inline]
    pub fn from_e(&self, e: E) -> V {
        match self.x.cval(e) {
            Some(c) => V::c128(c),
            None => V::s(e),
        }
    }
    #[inline]
    pub fn to_e(&mut self, v: V, w: u16) -> E {
        if v.e != 0 {
            debug_assert_eq!(self.x.w(v.e), w, "width mismatch");
            v.e
        } else {
            self.x.konst(v.u(), w)
        }
    }

    // ---- path decisions ----
    pub fn eval(&self, st: &State, e: E) -> u128 {
        let mut memo = HashMap::new();
        self.x.eval(e, &st.model, &mut memo)
    }

    pub fn set_model(&self, m: &mut Vec<u128>, vals: &[(u32, u128)]) {
        for &(i, v) in vals {
            while m.len() <= i as usize {
                m.push(self.x.vars[m.len()].lo);
            }
            m[i as usize] = v;
        }
    }
    /// variables not mentioned by the model take their lower bound
    pub fn model_for(&self, m: &[u128]) -> Vec<u128> {
        (0..self.x.vars.len())
            .map(|i| m.get(i).copied().unwrap_or(self.x.vars[i].lo))
            .collect()
    }

    /// Decide a condition on the current path; the sibling path (if feasible)
    /// is queued and will re-execute the current instruction.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.x.cval(c) {
            return Ok(v != 0);
        }
        if st.cons.contains(&c) {
            return Ok(true);
        }
        let nc = self.x.not(c);
        if st.cons.contains(&nc) {
            return Ok(false);
        }
        self.cnt.sym_branches += 1;
        let side = self.eval(st, c) != 0;
        let (mine, other) = if side { (c, nc) } else { (nc, c) };
        let t0 = self.sol.stats.time_us;
        let q = self.sol.check(&self.x, &st.cons, other);
        if self.sol.slow_log && self.sol.stats.time_us > t0 {
            eprintln!("Q {} {} {}", (self.sol.stats.time_us - t0) / 1000, self.x.show(c, 4), self.where_(st));
        }
        match q {
            Res::Unsat => Ok(side),
            Res::Sat(vals) => {
                self.cnt.forks += 1;
                if self.trace {
                    eprintln!("fork {} at {}", self.x.show(c, 6), self.where_(st));
                }
                st.forks += 1;
                let mut sib = st.clone();
                sib.regs.truncate(st.top as usize);
                sib.cons.push(other);
                self.set_model(&mut sib.model, &vals);
                st.cons.push(mine);
                self.push_work(sib);
                Ok(side)
            }
            Res::Unknown => {
                self.cnt.inconclusive += 1;
                let m = format!("solver gave up on {} at {}", self.x.show(other, 6), self.where_(st));
                self.note(m);
                st.cons.push(mine);
                Ok(side)
            }
        }
    }
    fn push_work(&mut self, s: State) {
        self.work.push(s);
        if let Some(h) = self.fork_hook {
            h(self);
        }
    }
    pub fn note(&mut self, m: String) {
        if self.msgs.len() < 50 {
            self.msgs.push(m);
        }
    }

    /// Give a symbolic value one concrete value on this path, forking for the others.
    pub fn concretise(&mut self, st: &mut State, v: V, _why: &str) -> R<u64> {
        if v.e == 0 {
            return Ok(v.lo);
        }
        let w = self.x.w(v.e);
        let k = self.eval(st, v.e);
        let kc = self.x.konst(k, w);
        let c = self.x.bin(Op::Eq, v.e, kc);
        if !self.decide(st, c)? {
            return Err(Stop::Error("model and decision disagree".into()));
        }
        Ok(k as u64)
    }

    fn feasible_addrs(&mut self, e: E) -> Option<Vec<u64>> {
        let (lo, hi) = (self.x.lo(e), self.x.hi(e));
        let s = self.x.stride(e).max(1);
        let n = (hi - lo) / s + 1;
        if n > 4096 {
            return None;
        }
        Some((0..n).map(|i| (lo + i * s) as u64).collect())
    }

    fn load_sym(&mut self, st: &mut State, e: E, lanes: &[(u16, u64)]) -> R<Vec<V>> {
        let cands = match self.feasible_addrs(e) {
            Some(c) if c.len() > 1 => c,
            _ => {
                let a = self.concretise(st, V::s(e), "load address")?;
                let mut out = vec![];
                for &(w, o) in lanes {
                    out.push(self.load_at(st, a + o, w)?);
                }
                return Ok(out);
            }
        };
        // drop candidates outside the path condition at the ends when they are unmapped
        let mut out = vec![];
        for &(w, o) in lanes {
            let mut vals: Vec<(u64, V)> = vec![];
            for &a in &cands {
                match self.load_at(st, a + o, w) {
                    Ok(v) => vals.push((a, v)),
                    Err(_) => {
                        let k = self.x.konst(a as u128, 64);
                        let c = self.x.bin(Op::Eq, e, k);
                        match self.sol.check(&self.x, &st.cons, c) {
                            Res::Unsat => {}
                            _ => return Err(Stop::Error(format!("symbolic load may touch unmapped {:#x} in {}", a, self.where_(st)))),
                        }
                    }
                }
            }
            let v = self.table(e, w, &vals);
            out.push(v);
        }
        Ok(out)
    }

    /// expression for a lookup of `e` (an address) in a table
    fn table(&mut self, e: E, w: u16, vals: &[(u64, V)]) -> V {
        let first = vals[0].1;
        if vals.iter().all(|(_, v)| v.e == first.e && v.lo == first.lo && v.hi == first.hi) {
            return first;
        }
        // closed forms over the index
        if w <= 64 && vals.len() >= 8 && vals.iter().all(|(_, v)| v.e == 0) {
            let stride = vals[1].0 - vals[0].0;
            if vals.iter().enumerate().all(|(i, (a, _))| *a == vals[0].0 + i as u64 * stride) {
                if let Some(r) = self.closed_form(e, w, vals, stride) {
                    return r;
                }
            }
        }
        self.balanced(e, w, vals)
    }
    fn index_expr(&mut self, e: E, base: u64, stride: u64) -> E {
        let nb = self.x.konst(base as u128, 64);
        let d = self.x.bin(Op::Sub, e, nb);
        if stride == 1 {
            d
        } else {
            let k = self.x.konst(stride as u128, 64);
            self.x.bin(Op::UDiv, d, k)
        }
    }
    fn closed_form(&mut self, e: E, w: u16, vals: &[(u64, V)], stride: u64) -> Option<V> {
        let m = opt_mask(w);
        let v = |i: usize| vals[i].1.lo;
        let n = vals.len();
        // linear
        let d = v(1).wrapping_sub(v(0)) & m;
        if (1..n).all(|i| v(i) == (v(0).wrapping_add(d.wrapping_mul(i as u64)) & m)) {
            let i = self.index_expr(e, vals[0].0, stride);
            let i = if w < 64 { self.x.trunc(i, w) } else { i };
            let k = self.x.konst(d as u128, w);
            let t = self.x.bin(Op::Mul, i, k);
            let c = self.x.konst(v(0) as u128, w);
            let r = self.x.bin(Op::Add, t, c);
            return Some(self.from_e(r));
        }
        for p in [10u64, 100] {
            // v0 + (i / p)   or  v0' + (i mod p), with a phase
            for ph in 0..p.min(n as u64) {
                let b = v(0).wrapping_sub(0) & m;
                if (0..n).all(|i| v(i) == (b.wrapping_add((i as u64 + ph) / p - ph / p) & m)) {
                    let i = self.index_expr(e, vals[0].0, stride);
                    let c = self.x.konst(ph as u128, 64);
                    let i = self.x.bin(Op::Add, i, c);
                    let pk = self.x.konst(p as u128, 64);
                    let q = self.x.bin(Op::UDiv, i, pk);
                    let q = if w < 64 { self.x.trunc(q, w) } else { q };
                    let c = self.x.konst(b.wrapping_sub(ph / p) as u128, w);
                    let r = self.x.bin(Op::Add, q, c);
                    return Some(self.from_e(r));
                }
                let b0 = v(0).wrapping_sub(ph % p) & m;
                if (0..n).all(|i| v(i) == (b0.wrapping_add((i as u64 + ph) % p) & m)) {
                    let i = self.index_expr(e, vals[0].0, stride);
                    let c = self.x.konst(ph as u128, 64);
                    let i = self.x.bin(Op::Add, i, c);
                    let pk = self.x.konst(p as u128, 64);
                    let q = self.x.bin(Op::URem, i, pk);
                    let q = if w < 64 { self.x.trunc(q, w) } else { q };
                    let c = self.x.konst(b0 as u128, w);
                    let r = self.x.bin(Op::Add, q, c);
                    return Some(self.from_e(r));
                }
                if p == 100 && ph > 10 {
                    break;
                }
            }
        }
        // interleaved tables (two-digit decimal table read byte by byte is
        // covered above with stride 2); 16-bit little-endian digit pairs:
        if w == 16 && n <= 128 {
            let lo = |i: usize| v(i) & 0xff;
            let hi = |i: usize| v(i) >> 8;
            for ph in 0..100u64 {
                let ok = (0..n).all(|i| {
                    let k = i as u64 + ph;
                    lo(i) == 48 + k / 10 && hi(i) == 48 + k % 10
                });
                if ok {
                    let i = self.index_expr(e, vals[0].0, stride);
                    let c = self.x.konst(ph as u128, 64);
                    let i = self.x.bin(Op::Add, i, c);
                    let ten = self.x.konst(10, 64);
                    let q = self.x.bin(Op::UDiv, i, ten);
                    let r = self.x.bin(Op::URem, i, ten);
                    let q = self.x.trunc(q, 8);
                    let r = self.x.trunc(r, 8);
                    let k = self.x.konst(48, 8);
                    let q = self.x.bin(Op::Add, q, k);
                    let r = self.x.bin(Op::Add, r, k);
                    let c = self.x.concat(r, q);
                    return Some(self.from_e(c));
                }
            }
        }
        None
    }
    fn balanced(&mut self, e: E, w: u16, vals: &[(u64, V)]) -> V {
        let first = vals[0].1;
        if vals.iter().all(|(_, v)| v.e == first.e && v.lo == first.lo && v.hi == first.hi) {
            return first;
        }
        let mid = vals.len() / 2;
        // prefer a split at a value change
        let mut best = mid;
        let mut bd = usize::MAX;
        for i in 1..vals.len() {
            let (a, b) = (vals[i - 1].1, vals[i].1);
            if a.e != b.e || a.lo != b.lo || a.hi != b.hi {
                let d = i.abs_diff(mid);
                if d < bd {
                    bd = d;
                    best = i;
                }
            }
        }
        let a = self.balanced(e, w, &vals[..best]);
        let b = self.balanced(e, w, &vals[best..]);
        let k = self.x.konst(vals[best].0 as u128, 64);
        let c = self.x.bin(Op::Ult, e, k);
        let (ea, eb) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.x.ite(c, ea, eb);
        self.from_e(r)
    }

    // ---- running ----
    pub fn call(&mut self, st: &mut State, fid: u32, args: &[V], dst: u32) -> R<()> {
        while self.called.len() <= fid as usize {
            self.called.resize(fid as usize + 64, false);
        }
        self.called[fid as usize] = true;
        if (fid as usize) < self.panics.len() && self.panics[fid as usize] {
            return Err(self.panic_stop(st, fid, args));
        }
        let f = self.prog.lower(fid);
        let base = st.top;
        let need = base as usize + f.nregs as usize;
        if st.regs.len() < need {
            st.regs.resize(need + 256, V::c(0));
        }
        if args.len() < f.params.len() {
            return Err(Stop::Error(format!("too few arguments for {}", self.prog.funcs[fid as usize].name)));
        }
        for (i, &r) in f.params.iter().enumerate() {
            st.regs[(base + r) as usize] = args[i];
        }
        st.top = need as u32;
        if st.frames.len() > 20000 {
            return Err(Stop::Error("call depth".into()));
        }
        st.frames.push(Frame { func: f, fid, pc: 0, base, dst, sp: st.sp });
        Ok(())
    }

    fn panic_stop(&mut self, st: &mut State, fid: u32, args: &[V]) -> Stop {
        let name = self.prog.funcs[fid as usize].name.clone();
        let mut msg = format!("panic ({})", short(&name));
        if let Some(l) = args.last() {
            if l.e == 0 {
                if let (Ok(Some(p)), Ok(Some(n)), Ok(Some(line))) =
                    (st.mem.read_c(l.lo, 8), st.mem.read_c(l.lo + 8, 8), st.mem.read_c(l.lo + 16, 4))
                {
                    if n < 300 {
                        let mut s = String::new();
                        for i in 0..n as u64 {
                            if let Ok(b) = st.mem.read_b(p as u64 + i) {
                                s.push((b & 0xff) as u8 as char);
                            }
                        }
                        msg = format!("panic at {}:{}", s.trim_end_matches('\0'), line);
                    }
                }
            }
        }
        if st.run_depth.is_some() {
            st.notes.push(format!("program: {}", msg));
            // a panicking main thread exits with 101
            match self.leave_program(st, 101) {
                Ok(()) => Stop::End("__continue".into()),
                Err(s) => s,
            }
        } else {
            Stop::Fail(format!("oracle {}", msg))
        }
    }

    /// return from sx_run with an exit code
    pub fn leave_program(&mut self, st: &mut State, code: u64) -> R<()> {
        let (depth, dst) = st.run_depth.take().ok_or_else(|| Stop::Error("exit outside program".into()))?;
        let f = st.frames[depth].clone();
        st.frames.truncate(depth);
        st.top = f.base;
        st.sp = f.sp;
        let b = st.frames.last().unwrap().base;
        st.regs[(b + dst) as usize] = V::c(code);
        let mut out = st.env.out[0].clone();
        // how the programs it started were called
        out.extend(&st.env.log);
        st.outs_hash.push((code, out));
        self.cnt.runs += 1;
        if self.concrete_mode {
            return Err(Stop::End("exit".into()));
        }
        Ok(())
    }

    pub fn explore(&mut self, init: State) {
        self.work.push(init);
        while let Some(st) = self.work.pop() {
            if std::time::Instant::now() > self.deadline {
                self.stopped = true;
                self.cnt.inconclusive += 1 + self.work.len() as u64;
                self.note("time limit reached before all paths were explored".into());
                self.work.clear();
                break;
            }
            self.run_path(st);
        }
    }

    pub fn run_to_exit(&mut self, st: &mut State) -> R<u64> {
        // concrete mode: stop when the program has been left
        loop {
            match self.run(st) {
                Err(Stop::End(m)) if m == "__continue" => {}
                Err(Stop::End(m)) if m == "exit" => {}
                Err(e) => return Err(e),
                Ok(()) => {}
            }
            if let Some((c, _)) = st.outs_hash.last() {
                return Ok(*c);
            }
        }
    }

    fn run_path(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = loop {
            match self.run(&mut st) {
                Err(Stop::End(m)) if m == "__continue" => continue,
                r => break r,
            }
        };
        self.cnt.steps += st.steps - s0;
        for r in &st.reach {
            *self.reach.entry(*r).or_insert(0) += 1;
        }
        match r {
            Ok(()) => {
                self.cnt.paths += 1;
                let n = self.cnt.paths;
                // sample more densely at the beginning
                if self.witness.len() < self.max_witness && (n < 8 || n.is_power_of_two() || n % 97 == 0) {
                    let w = self.record(&st, "witness", "");
                    self.witness.push(w);
                }
            }
            Err(Stop::End(_)) | Err(Stop::Infeasible) => self.cnt.cut += 1,
            Err(Stop::Fail(m)) => {
                self.cnt.paths += 1;
                self.report_violation(&st, &m, None);
            }
            Err(Stop::Error(m)) => {
                self.cnt.errors += 1;
                let w = self.record(&st, "error", &m);
                self.note(format!("engine: {} [{}]", m, w));
            }
        }
    }

    pub fn report_violation(&mut self, st: &State, m: &str, model: Option<Vec<u128>>) {
        self.cnt.violations += 1;
        if self.viol.len() < self.max_viol {
            let mut s2;
            let st = match model {
                Some(md) => {
                    s2 = st.clone();
                    s2.model = md;
                    &s2
                }
                None => st,
            };
            let r = self.record(st, "violation", m);
            self.viol.push(r);
        }
    }

    pub fn record(&self, st: &State, kind: &str, msg: &str) -> String {
        let model = self.model_for(&st.model);
        let mut memo = HashMap::new();
        let ins: Vec<String> = st
            .inputs
            .iter()
            .map(|i| match i {
                Input::Choice(c) => c.to_string(),
                Input::Var(e) => self.x.eval(*e, &model, &mut memo).to_string(),
            })
            .collect();
        // outputs of the program under this model
        let mut outs = vec![];
        for (code, o) in &st.outs_hash {
            let mut h: u64 = 0xcbf29ce484222325;
            let mut sum: u64 = 0;
            for &b in o {
                let v = if b & SYM == 0 {
                    b as u8
                } else {
                    let (e, i) = self.bh[(b & !SYM) as usize];
                    (self.x.eval(e, &model, &mut memo) >> (8 * i as u32)) as u8
                };
                h = (h ^ v as u64).wrapping_mul(0x100000001b3);
                // and one which is the same in any order
                let z = (v as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
                let z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                sum = sum.wrapping_add(z ^ (z >> 27));
            }
            outs.push(format!("[{},{},{},{}]", code, o.len(), h, sum));
        }
        format!(
            "{{\"kind\":\"{}\",\"msg\":{},\"inputs\":[{}],\"runs\":[{}],\"notes\":[{}]}}",
            kind,
            jstr(msg),
            ins.join(","),
            outs.join(","),
            st.notes.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(",")
        )
    }

    #[inline]
    fn pcset(st: &mut State, pc: u32) {
        st.frames.last_mut().unwrap().pc = pc;
    }

    fn run(&mut self, st: &mut State) -> R<()> {
        let mut steps_check = 0u32;
        'frame: loop {
            let (func, base, mut pc, fid) = {
                let f = st.frames.last().unwrap();
                (f.func.clone(), f.base as usize, f.pc as usize, f.fid)
            };
            let code = &func.code[..];
            let consts = &func.consts[..];
            macro_rules! get {
                ($o:expr) => {{
                    let o = $o;
                    if o & CONST_BIT != 0 {
                        let k = consts[(o & !CONST_BIT) as usize];
                        V { lo: k.0, hi: k.1, e: 0 }
                    } else {
                        st.regs[base + o as usize]
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.regs[base + $d as usize] = v;
                }};
            }
            loop {
                st.steps += 1;
                steps_check += 1;
                if steps_check >= 1 << 20 {
                    steps_check = 0;
                    if st.steps > self.max_steps {
                        return Err(Stop::Error(format!("instruction limit in {}", self.where_(st))));
                    }
                    if std::time::Instant::now() > self.deadline {
                        self.stopped = true;
                        self.cnt.inconclusive += 1;
                        self.note(format!("time limit reached in {}", self.where_(st)));
                        return Err(Stop::Infeasible);
                    }
                }
                if self.do_profile {
                    *self.profile.entry(fid).or_insert(0) += 1;
                }
                debug_assert!(pc < code.len());
                if pc >= code.len() {
                    return Err(Stop::Error(format!("ran off the end of {} {:?}", self.prog.funcs[fid as usize].name, code)));
                }
                match &code[pc] {
                    Inst::Bin { op, w, dst, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        if x.e | y.e == 0 {
                            if *w <= 64 {
                                let m = opt_mask(*w);
                                let (p, q) = (x.lo, y.lo);
                                let r = match op {
                                    Op::Add => p.wrapping_add(q) & m,
                                    Op::Sub => p.wrapping_sub(q) & m,
                                    Op::Mul => p.wrapping_mul(q) & m,
                                    Op::And => p & q,
                                    Op::Or => p | q,
                                    Op::Xor => p ^ q,
                                    Op::Shl if q < 64 => (p << q) & m,
                                    Op::LShr if q < 64 => p >> q,
                                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem if q == 0 => {
                                        return Err(Stop::Error(format!("division by zero in {}", self.where_(st))))
                                    }
                                    _ => fold(*op, p as u128, q as u128, *w, *w) as u64,
                                };
                                set!(*dst, V::c(r));
                            } else {
                                if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && y.u() == 0 {
                                    return Err(Stop::Error(format!("division by zero in {}", self.where_(st))));
                                }
                                set!(*dst, V::c128(fold(*op, x.u(), y.u(), *w, *w)));
                            }
                        } else {
                            let (p, q) = (self.to_e(x, *w), self.to_e(y, *w));
                            if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && self.x.lo(q) == 0 {
                                let z = self.x.konst(0, *w);
                                let c = self.x.bin(Op::Eq, q, z);
                                Self::pcset(st, pc as u32);
                                if self.decide(st, c)? {
                                    return Err(Stop::Error(format!("division by zero in {}", self.where_(st))));
                                }
                            }
                            let r = self.x.bin(*op, p, q);
                            set!(*dst, self.from_e(r));
                        }
                        pc += 1;
                    }
                    Inst::Icmp { op, neg, w, dst, a, b } => {
                        let (x, y) = (get!(*a), get!(*b));
                        if x.e | y.e == 0 {
                            let r = if *w <= 64 {
                                let s = 64 - *w as u32;
                                match op {
                                    Op::Eq => x.lo == y.lo,
                                    Op::Ult => x.lo < y.lo,
                                    Op::Ule => x.lo <= y.lo,
                                    Op::Slt => ((x.lo << s) as i64) < ((y.lo << s) as i64),
                                    _ => ((x.lo << s) as i64) <= ((y.lo << s) as i64),
                                }
                            } else {
                                fold(*op, x.u(), y.u(), *w, *w) != 0
                            };
                            set!(*dst, V::c((r ^ *neg) as u64));
                        } else {
                            let (p, q) = (self.to_e(x, *w), self.to_e(y, *w));
                            let mut r = self.x.bin(*op, p, q);
                            if *neg {
                                r = self.x.not(r);
                            }
                            set!(*dst, self.from_e(r));
                        }
                        pc += 1;
                    }
                    Inst::Cast { c, from, to, dst, a } => {
                        let x = get!(*a);
                        let r = match c {
                            Cast::Copy => x,
                            Cast::Trunc => {
                                if x.e == 0 {
                                    if *to <= 64 {
                                        V::c(x.lo & opt_mask(*to))
                                    } else {
                                        V::c128(x.u() & mask(*to))
                                    }
                                } else {
                                    let e = self.x.trunc(x.e, *to);
                                    self.from_e(e)
                                }
                            }
                            Cast::ZExt => {
                                if x.e == 0 {
                                    x
                                } else {
                                    let e = self.x.zext(x.e, *to);
                                    self.from_e(e)
                                }
                            }
                            Cast::SExt => {
                                if x.e == 0 {
                                    V::c128((sext(x.u(), *from) as u128) & mask(*to))
                                } else {
                                    let e = self.x.sext(x.e, *to);
                                    self.from_e(e)
                                }
                            }
                            _ => {
                                Self::pcset(st, pc as u32);
                                let v = if x.e != 0 { V::c(self.concretise(st, x, "float")?) } else { x };
                                V::c128(fcast(*c, v.u(), *from, *to))
                            }
                        };
                        set!(*dst, r);
                        pc += 1;
                    }
                    Inst::Select { dst, w, ptr, c, a, b } => {
                        let cv = get!(*c);
                        let (x, y) = (get!(*a), get!(*b));
                        let r = if cv.e == 0 {
                            if cv.lo & 1 != 0 {
                                x
                            } else {
                                y
                            }
                        } else if x.e == y.e && x.lo == y.lo && x.hi == y.hi {
                            x
                        } else if *ptr {
                            Self::pcset(st, pc as u32);
                            if self.decide(st, cv.e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let (p, q) = (self.to_e(x, *w), self.to_e(y, *w));
                            let e = self.x.ite(cv.e, p, q);
                            self.from_e(e)
                        };
                        set!(*dst, r);
                        pc += 1;
                    }
                    Inst::Load { dst, lanes, p } => {
                        let a = get!(*p);
                        if a.e == 0 {
                            for (i, &(w, o)) in lanes.iter().enumerate() {
                                let v = match self.load_at(st, a.lo.wrapping_add(o), w) {
                                    Ok(v) => v,
                                    Err(e) => {
                                        Self::pcset(st, pc as u32);
                                        let _ = e;
                                        return Err(Stop::Error(format!("bad load at {:#x} in {}", a.lo, self.where_(st))));
                                    }
                                };
                                set!(*dst + i as u32, v);
                            }
                        } else {
                            Self::pcset(st, pc as u32);
                            let vs = self.load_sym(st, a.e, lanes)?;
                            for (i, v) in vs.into_iter().enumerate() {
                                set!(*dst + i as u32, v);
                            }
                        }
                        pc += 1;
                    }
                    Inst::Store { lanes, p } => {
                        let a = get!(*p);
                        let addr = if a.e == 0 {
                            a.lo
                        } else {
                            Self::pcset(st, pc as u32);
                            self.concretise(st, a, "store address")?
                        };
                        for &(w, o, v) in lanes.iter() {
                            let v = get!(v);
                            if let Err(e) = self.store_at(st, addr.wrapping_add(o), w, v) {
                                Self::pcset(st, pc as u32);
                                let _ = e;
                                return Err(Stop::Error(format!("bad store at {:#x} in {}", addr, self.where_(st))));
                            }
                        }
                        pc += 1;
                    }
                    Inst::Gep { dst, base: b, off, terms } => {
                        let p = get!(*b);
                        let mut sym = p.e != 0;
                        let mut r = p.lo.wrapping_add(*off as u64);
                        for &(o, scale, w) in terms.iter() {
                            let v = get!(o);
                            if v.e != 0 {
                                sym = true;
                            } else {
                                let i = sext(v.u(), w) as i64;
                                r = r.wrapping_add(i.wrapping_mul(scale) as u64);
                            }
                        }
                        if sym {
                            let mut e = if p.e != 0 {
                                let k = self.x.konst(r as u128, 64);
                                // r holds only the concrete part relative to p.lo == 0
                                self.x.bin(Op::Add, p.e, k)
                            } else {
                                self.x.konst(r as u128, 64)
                            };
                            for &(o, scale, w) in terms.iter() {
                                let v = get!(o);
                                if v.e != 0 {
                                    let i = if w < 64 {
                                        self.x.sext(v.e, 64)
                                    } else {
                                        self.x.trunc(v.e, 64)
                                    };
                                    let k = self.x.konst(scale as u64 as u128, 64);
                                    let t = self.x.bin(Op::Mul, i, k);
                                    e = self.x.bin(Op::Add, e, t);
                                }
                            }
                            set!(*dst, self.from_e(e));
                        } else {
                            set!(*dst, V::c(r));
                        }
                        pc += 1;
                    }
                    Inst::Br(e) => {
                        pc = self.edge(st, e, base, consts);
                    }
                    Inst::CondBr(c, t, f) => {
                        let v = get!(*c);
                        let take = if v.e == 0 {
                            v.lo & 1 != 0
                        } else {
                            Self::pcset(st, pc as u32);
                            self.decide(st, v.e)?
                        };
                        pc = self.edge(st, if take { t } else { f }, base, consts);
                    }
                    Inst::Switch { v, w, cases, edges, default } => {
                        let x = get!(*v);
                        let k = if x.e == 0 {
                            let u = x.u();
                            match cases.binary_search_by(|c| c.0.cmp(&u)) {
                                Ok(i) => cases[i].1,
                                Err(_) => *default,
                            }
                        } else {
                            Self::pcset(st, pc as u32);
                            let u = self.eval(st, x.e);
                            let k = match cases.binary_search_by(|c| c.0.cmp(&u)) {
                                Ok(i) => cases[i].1,
                                Err(_) => *default,
                            };
                            let c = self.switch_cond(x.e, *w, cases, k, *default);
                            if !self.decide(st, c)? {
                                return Err(Stop::Error("switch: model and decision disagree".into()));
                            }
                            k
                        };
                        pc = self.edge(st, &edges[k as usize], base, consts);
                    }
                    Inst::Call { callee, args, dst } => {
                        Self::pcset(st, pc as u32);
                        let mut av: [V; 24] = [V::c(0); 24];
                        let mut big;
                        let avs: &[V] = if args.len() <= 24 {
                            for (i, &o) in args.iter().enumerate() {
                                av[i] = get!(o);
                            }
                            &av[..args.len()]
                        } else {
                            big = Vec::with_capacity(args.len());
                            for &o in args.iter() {
                                big.push(get!(o));
                            }
                            &big
                        };
                        let id = match callee {
                            Callee::Func(id) => *id,
                            Callee::Ind(o) => {
                                let v = get!(*o);
                                let a = self.concretise(st, v, "callee")?;
                                if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= self.prog.funcs.len() as u64 {
                                    return Err(Stop::Error(format!("indirect call to {:#x} in {}", a, self.where_(st))));
                                }
                                ((a - FUNC_BASE) / 16) as u32
                            }
                        };
                        if self.prog.funcs[id as usize].text.is_some() {
                            let d = *dst;
                            if avs.len() == 3 {
                                if let Some((found, at)) = self.byte_search(st, id, avs) {
                                    set!(d, V::c(found));
                                    set!(d + 1, V::c(at));
                                    pc += 1;
                                    continue;
                                }
                            }
                            // a panic intercept may pop frames, so advance first
                            Self::pcset(st, pc as u32 + 1);
                            self.call(st, id, avs, d)?;
                            continue 'frame;
                        }
                        let b = match self.bcache.get(id as usize).copied().flatten() {
                            Some(b) => b,
                            None => {
                                let n = self.prog.funcs[id as usize].name.clone();
                                match self.builtins.get(n.as_str()) {
                                    Some(&b) => {
                                        if self.bcache.len() <= id as usize {
                                            self.bcache.resize(id as usize + 64, None);
                                        }
                                        self.bcache[id as usize] = Some(b);
                                        b
                                    }
                                    None => {
                                        return Err(Stop::Error(format!("external function {} in {}", n, self.where_(st))))
                                    }
                                }
                            }
                        };
                        let depth = st.frames.len();
                        // the stand-ins take concrete values; only these
                        // harness functions are about symbolic ones
                        let mut conc;
                        let avs: &[V] = if avs.iter().any(|v| v.e != 0)
                            && !["sx_assume", "sx_assert", "sx_is_sym", "sx_program", "sx_concrete", "sx_choice", "sx_debug_val"]
                                .contains(&self.prog.funcs[id as usize].name.as_str())
                        {
                            conc = avs.to_vec();
                            for v in conc.iter_mut() {
                                if v.e != 0 {
                                    *v = V::c(self.concretise(st, *v, "argument of a stand-in")?);
                                }
                            }
                            &conc
                        } else {
                            avs
                        };
                        let r = b(self, st, avs)?;
                        if st.frames.len() != depth || st.redo {
                            // entered or left a program
                            st.redo = false;
                            continue 'frame;
                        }
                        set!(*dst, r);
                        pc += 1;
                    }
                    Inst::Ret(vals) => {
                        if let Some((d, _)) = st.run_depth {
                            if st.frames.len() == d + 1 {
                                // main returned
                                Self::pcset(st, pc as u32);
                                let v = if vals.is_empty() { V::c(0) } else { get!(vals[0]) };
                                let c = self.concretise(st, v, "exit code")?;
                                self.leave_program(st, c & 0xff)?;
                                continue 'frame;
                            }
                        }
                        let fr = st.frames.pop().unwrap();
                        st.sp = fr.sp;
                        st.top = fr.base;
                        if st.frames.is_empty() {
                            return Ok(());
                        }
                        let cb = st.frames.last().unwrap().base as usize;
                        for (i, &o) in vals.iter().enumerate() {
                            let v = get!(o);
                            st.regs[cb + fr.dst as usize + i] = v;
                        }
                        continue 'frame;
                    }
                    Inst::MemCpy { d, s, n } => {
                        let (d, s, n) = (get!(*d), get!(*s), get!(*n));
                        Self::pcset(st, pc as u32);
                        let d = self.concretise(st, d, "memcpy")?;
                        let s = self.concretise(st, s, "memcpy")?;
                        let n = self.concretise(st, n, "memcpy size")?;
                        if let Err(f) = st.mem.copy(d, s, n) {
                            return Err(self.fault(st, f, "memcpy"));
                        }
                        pc += 1;
                    }
                    Inst::MemSet { d, v, n } => {
                        let (d, v, n) = (get!(*d), get!(*v), get!(*n));
                        Self::pcset(st, pc as u32);
                        let d = self.concretise(st, d, "memset")?;
                        let n = self.concretise(st, n, "memset size")?;
                        let b = if v.e != 0 { self.byte_handle(v.e, 0) } else { v.lo as u32 & 0xff };
                        if let Err(f) = st.mem.set(d, b, n) {
                            return Err(self.fault(st, f, "memset"));
                        }
                        pc += 1;
                    }
                    Inst::Alloca { dst, size, align, count } => {
                        let mut n = *size;
                        if let Some((o, _)) = count {
                            let v = get!(*o);
                            Self::pcset(st, pc as u32);
                            n *= self.concretise(st, v, "alloca")?;
                        }
                        let a = (st.sp - n) & !(align.max(&8) - 1);
                        if a < STACK_TOP - STACK_SIZE + 65536 {
                            return Err(Stop::Error("stack overflow".into()));
                        }
                        st.sp = a;
                        set!(*dst, V::c(a));
                        pc += 1;
                    }
                    Inst::Intr { i, w, dst, args } => {
                        let a = get!(args[0]);
                        let b = if args.len() > 1 { get!(args[1]) } else { V::c(0) };
                        let c = if args.len() > 2 { get!(args[2]) } else { V::c(0) };
                        let (mut a, mut b) = (a, b);
                        if matches!(i, Intr::Copysign | Intr::Fabs) && (a.e | b.e) != 0 {
                            Self::pcset(st, pc as u32);
                            a = V::c(self.concretise(st, a, "float")?);
                            b = V::c(self.concretise(st, b, "float")?);
                        }
                        if *i == Intr::SMulO && *w > 64 && (a.e | b.e) != 0 {
                            Self::pcset(st, pc as u32);
                            return Err(Stop::Error(format!("overflow of a wide signed product in {}", self.where_(st))));
                        }
                        let (mut r, o) = self.intr(*i, *w, a, b, c, args.len());
                        if *i == Intr::Cttz && r.e != 0 {
                            Self::pcset(st, pc as u32);
                            r = V::c(self.concretise(st, r, "trailing zeros")?);
                        }
                        set!(*dst, r);
                        if let Some(o) = o {
                            set!(*dst + 1, o);
                        }
                        pc += 1;
                    }
                    Inst::Concat { dst, parts } => {
                        let mut acc = V::c(0);
                        let mut aw = 0u16;
                        for &(o, w) in parts.iter() {
                            let v = get!(o);
                            if aw == 0 {
                                acc = v;
                            } else if acc.e == 0 && v.e == 0 {
                                acc = V::c128(acc.u() | (v.u() << aw));
                            } else {
                                let (h, l) = (self.to_e(v, w), self.to_e(acc, aw));
                                let e = self.x.concat(h, l);
                                acc = self.from_e(e);
                            }
                            aw += w;
                        }
                        set!(*dst, acc);
                        pc += 1;
                    }
                    Inst::Slice { dst, a, lo, w, from: _ } => {
                        let v = get!(*a);
                        let r = if v.e == 0 {
                            V::c128((v.u() >> lo) & mask(*w))
                        } else {
                            let e = self.x.extract(v.e, *lo, *w);
                            self.from_e(e)
                        };
                        set!(*dst, r);
                        pc += 1;
                    }
                    Inst::AtomicRmw { op, w, dst, p, v } => {
                        let (p, v) = (get!(*p), get!(*v));
                        Self::pcset(st, pc as u32);
                        let a = self.concretise(st, p, "atomic")?;
                        let old = self.load_at(st, a, *w)?;
                        let k = match *op {
                            "xchg" => v,
                            "add" => self.bin2(Op::Add, *w, old, v),
                            "sub" => self.bin2(Op::Sub, *w, old, v),
                            "and" => self.bin2(Op::And, *w, old, v),
                            "or" => self.bin2(Op::Or, *w, old, v),
                            "xor" => self.bin2(Op::Xor, *w, old, v),
                            "umax" | "umin" if old.e != 0 || v.e != 0 => {
                                return Err(Stop::Error("atomic min or max of a symbolic value".into()))
                            }
                            "umax" => V::c(old.lo.max(v.lo)),
                            "umin" => V::c(old.lo.min(v.lo)),
                            _ => return Err(Stop::Error(format!("atomicrmw {}", op))),
                        };
                        self.store_at(st, a, *w, k)?;
                        set!(*dst, old);
                        pc += 1;
                    }
                    Inst::CmpXchg { w, dst, p, c, n } => {
                        let (p, c, n) = (get!(*p), get!(*c), get!(*n));
                        Self::pcset(st, pc as u32);
                        let a = self.concretise(st, p, "atomic")?;
                        let old = self.load_at(st, a, *w)?;
                        let eq = self.bin2(Op::Eq, *w, old, c);
                        let ok = if eq.e == 0 { eq.lo != 0 } else { self.decide(st, eq.e)? };
                        if ok {
                            self.store_at(st, a, *w, n)?;
                        }
                        set!(*dst, old);
                        set!(*dst + 1, V::c(ok as u64));
                        pc += 1;
                    }
                    Inst::DynExtract { dst, base: lanes, idx } => {
                        let i = get!(*idx);
                        Self::pcset(st, pc as u32);
                        let i = self.concretise(st, i, "vector index")? as usize;
                        let v = get!(lanes[i.min(lanes.len() - 1)]);
                        set!(*dst, v);
                        pc += 1;
                    }
                    Inst::FBin { op, w, dst, a, b } => {
                        let (a, b) = (get!(*a), get!(*b));
                        Self::pcset(st, pc as u32);
                        let x = self.concretise(st, a, "float")?;
                        let y = self.concretise(st, b, "float")?;
                        set!(*dst, V::c(fbin(*op, *w, x, y)));
                        pc += 1;
                    }
                    Inst::FNeg { w, dst, a } => {
                        let a = get!(*a);
                        Self::pcset(st, pc as u32);
                        let x = self.concretise(st, a, "float")?;
                        set!(*dst, V::c(x ^ (1u64 << (w - 1))));
                        pc += 1;
                    }
                    Inst::FCmp { pred, w, dst, a, b } => {
                        let (a, b) = (get!(*a), get!(*b));
                        Self::pcset(st, pc as u32);
                        let x = self.concretise(st, a, "float")?;
                        let y = self.concretise(st, b, "float")?;
                        set!(*dst, V::c(fcmp(pred, *w, x, y) as u64));
                        pc += 1;
                    }
                    Inst::Unreachable => {
                        Self::pcset(st, pc as u32);
                        return Err(Stop::Error(format!("unreachable executed in {}", self.where_(st))));
                    }
                    Inst::Unsupported(m) => {
                        Self::pcset(st, pc as u32);
                        return Err(Stop::Error(format!("unsupported instruction {} in {}", m, self.where_(st))));
                    }
                }
            }
        }
    }

    #[inline]
    fn edge(&mut self, st: &mut State, e: &Edge, base: usize, consts: &[(u64, u64)]) -> usize {
        let cp = &e.copies;
        match cp.len() {
            0 => {}
            1 => {
                let (d, o) = cp[0];
                let v = if o & CONST_BIT != 0 {
                    let k = consts[(o & !CONST_BIT) as usize];
                    V { lo: k.0, hi: k.1, e: 0 }
                } else {
                    st.regs[base + o as usize]
                };
                st.regs[base + d as usize] = v;
            }
            n => {
                let mut buf: [V; 16] = [V::c(0); 16];
                let mut big;
                let b: &mut [V] = if n <= 16 {
                    &mut buf[..n]
                } else {
                    big = vec![V::c(0); n];
                    &mut big
                };
                for (i, &(_, o)) in cp.iter().enumerate() {
                    b[i] = if o & CONST_BIT != 0 {
                        let k = consts[(o & !CONST_BIT) as usize];
                        V { lo: k.0, hi: k.1, e: 0 }
                    } else {
                        st.regs[base + o as usize]
                    };
                }
                for (i, &(d, _)) in cp.iter().enumerate() {
                    st.regs[base + d as usize] = b[i];
                }
            }
        }
        e.pc as usize
    }

    /// The standard library's byte searches, where it is evident for every byte
    /// whether it matches; otherwise they are executed.
    fn byte_search(&mut self, st: &mut State, id: u32, a: &[V]) -> Option<(u64, u64)> {
        let i = id as usize;
        if self.scache.len() <= i {
            self.scache.resize(self.prog.funcs.len(), 0);
        }
        if self.scache[i] == 0 {
            let n = &self.prog.funcs[i].name;
            self.scache[i] = match () {
                _ if n.starts_with("_RNvNtNtCs") && n.ends_with("_4core5slice6memchr14memchr_aligned") => 2,
                _ if n.starts_with("_RNvNtNtCs") && n.ends_with("_4core5slice6memchr15memrchr_aligned") => 3,
                _ => 1,
            };
        }
        let k = self.scache[i];
        if k == 1 || a.iter().any(|v| v.e != 0) || a[2].lo > 1 << 16 {
            return None;
        }
        let needle = (a[0].lo & 0xff) as u32;
        let bs = st.mem.read_bytes(a[1].lo, a[2].lo).ok()?;
        let n = bs.len();
        for j in 0..n {
            let p = if k == 2 { j } else { n - 1 - j };
            let b = bs[p];
            if b & SYM == 0 {
                if b == needle {
                    return Some((1, p as u64));
                }
                continue;
            }
            let e = self.byte_expr(b);
            let c = self.x.konst(needle as u128, 8);
            let q = self.x.bin(Op::Eq, e, c);
            match self.x.cval(q) {
                Some(0) => {}
                Some(_) => return Some((1, p as u64)),
                None => return None,
            }
        }
        Some((0, 0))
    }

    fn switch_cond(&mut self, e: E, w: u16, cases: &[(u128, u32)], k: u32, default: u32) -> E {
        // cases is sorted; collect maximal runs of consecutive values
        let pick = |c: &(u128, u32)| if k == default { c.1 != default } else { c.1 == k };
        let mut runs: Vec<(u128, u128)> = vec![];
        for c in cases.iter().filter(|c| pick(c)) {
            match runs.last_mut() {
                Some(r) if r.1 + 1 == c.0 => r.1 = c.0,
                _ => runs.push((c.0, c.0)),
            }
        }
        let mut acc = self.x.konst(0, 1);
        for (a, b) in runs {
            let t = if a == b {
                let c = self.x.konst(a, w);
                self.x.bin(Op::Eq, e, c)
            } else {
                let (ka, kb) = (self.x.konst(a, w), self.x.konst(b, w));
                let p = self.x.bin(Op::Ule, ka, e);
                let q = self.x.bin(Op::Ule, e, kb);
                self.x.bin(Op::And, p, q)
            };
            acc = self.x.bin(Op::Or, acc, t);
        }
        if k == default {
            self.x.not(acc)
        } else {
            acc
        }
    }

    pub fn bin2(&mut self, op: Op, w: u16, a: V, b: V) -> V {
        if a.e | b.e == 0 {
            return V::c128(fold(op, a.u(), b.u(), w, w));
        }
        let (p, q) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.x.bin(op, p, q);
        self.from_e(r)
    }
    fn ite2(&mut self, c: V, w: u16, a: V, b: V) -> V {
        if c.e == 0 {
            return if c.lo & 1 != 0 { a } else { b };
        }
        let (p, q) = (self.to_e(a, w), self.to_e(b, w));
        let r = self.x.ite(c.e, p, q);
        self.from_e(r)
    }

    fn intr(&mut self, i: Intr, w: u16, a: V, b: V, c: V, _n: usize) -> (V, Option<V>) {
        let m = mask(w);
        let conc = a.e | b.e | c.e == 0;
        let (x, y, z) = (a.u(), b.u(), c.u());
        let one = |v: u128| (V::c128(v & m), None);
        match i {
            Intr::Ident => (a, None),
            Intr::Zero => (V::c(0), None),
            Intr::Umax | Intr::Umin | Intr::Smax | Intr::Smin => {
                let op = if matches!(i, Intr::Umax | Intr::Umin) { Op::Ult } else { Op::Slt };
                let lt = self.bin2(op, w, a, b);
                let r = if matches!(i, Intr::Umax | Intr::Smax) { self.ite2(lt, w, b, a) } else { self.ite2(lt, w, a, b) };
                (r, None)
            }
            Intr::Abs => {
                let neg = self.bin2(Op::Slt, w, a, V::c(0));
                let n = self.bin2(Op::Sub, w, V::c(0), a);
                (self.ite2(neg, w, n, a), None)
            }
            Intr::UAddO => {
                let s = self.bin2(Op::Add, w, a, b);
                let o = self.bin2(Op::Ult, w, s, a);
                (s, Some(o))
            }
            Intr::USubO => {
                let s = self.bin2(Op::Sub, w, a, b);
                let o = self.bin2(Op::Ult, w, a, b);
                (s, Some(o))
            }
            Intr::SAddO | Intr::SSubO if conc => {
                let (p, q) = (sext(x, w), sext(y, w));
                let (r, of) = if i == Intr::SAddO { p.overflowing_add(q) } else { p.overflowing_sub(q) };
                let v = (r as u128) & m;
                (V::c128(v), Some(V::c((of || sext(v, w) != r) as u64)))
            }
            Intr::SAddO | Intr::SSubO => {
                let s = self.bin2(if i == Intr::SAddO { Op::Add } else { Op::Sub }, w, a, b);
                let sa = self.bin2(Op::Slt, w, a, V::c(0));
                let sb = self.bin2(Op::Slt, w, b, V::c(0));
                let ss = self.bin2(Op::Slt, w, s, V::c(0));
                let same = self.bin2(Op::Eq, 1, sa, sb);
                let same = if i == Intr::SAddO { same } else { self.bin2(Op::Xor, 1, same, V::c(1)) };
                let diff = self.bin2(Op::Xor, 1, ss, sa);
                let o = self.bin2(Op::And, 1, same, diff);
                (s, Some(o))
            }
            Intr::UMulO => {
                if conc {
                    let (r, of) = x.overflowing_mul(y);
                    return (V::c128(r & m), Some(V::c((of || r > m) as u64)));
                }
                let (p, q) = (self.to_e(a, w), self.to_e(b, w));
                let r = self.x.bin(Op::Mul, p, q);
                let no = self.x.hi(p).checked_mul(self.x.hi(q)).is_some_and(|t| t <= m);
                let o = if no {
                    V::c(0)
                } else {
                    // overflow iff q != 0 and p > m / q
                    let (kk, oth) = if self.x.cval(q).is_some() { (q, p) } else { (p, q) };
                    if let Some(k) = self.x.cval(kk) {
                        if k == 0 {
                            V::c(0)
                        } else {
                            let lim = self.x.konst(m / k, w);
                            let e = self.x.bin(Op::Ult, lim, oth);
                            self.from_e(e)
                        }
                    } else if w <= 64 {
                        let (p2, q2) = (self.x.zext(p, 2 * w), self.x.zext(q, 2 * w));
                        let r2 = self.x.bin(Op::Mul, p2, q2);
                        let lim = self.x.konst(m, 2 * w);
                        let e = self.x.bin(Op::Ult, lim, r2);
                        self.from_e(e)
                    } else {
                        let z = self.x.konst(0, w);
                        let qz = self.x.bin(Op::Eq, q, z);
                        let d = self.x.bin(Op::UDiv, r, q);
                        let eq = self.x.bin(Op::Eq, d, p);
                        let ne = self.x.not(eq);
                        let nz = self.x.not(qz);
                        let e = self.x.bin(Op::And, nz, ne);
                        self.from_e(e)
                    }
                };
                (self.from_e(r), Some(o))
            }
            Intr::SMulO => {
                if conc {
                    let (p, q) = (sext(x, w), sext(y, w));
                    let (r, of) = p.overflowing_mul(q);
                    let v = (r as u128) & m;
                    return (V::c128(v), Some(V::c((of || sext(v, w) != r) as u64)));
                }
                let (p, q) = (self.to_e(a, w), self.to_e(b, w));
                let r = self.x.bin(Op::Mul, p, q);
                if w <= 64 {
                    let (p2, q2) = (self.x.sext(p, 2 * w), self.x.sext(q, 2 * w));
                    let r2 = self.x.bin(Op::Mul, p2, q2);
                    let rs = self.x.sext(r, 2 * w);
                    let eq = self.x.bin(Op::Eq, r2, rs);
                    let o = self.x.not(eq);
                    (self.from_e(r), Some(self.from_e(o)))
                } else {
                    (self.from_e(r), Some(V::c(0)))
                }
            }
            Intr::UAddSat => {
                let s = self.bin2(Op::Add, w, a, b);
                let o = self.bin2(Op::Ult, w, s, a);
                (self.ite2(o, w, V::c128(m), s), None)
            }
            Intr::USubSat => {
                let s = self.bin2(Op::Sub, w, a, b);
                let o = self.bin2(Op::Ult, w, a, b);
                (self.ite2(o, w, V::c(0), s), None)
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (s, o) = self.intr(if i == Intr::SAddSat { Intr::SAddO } else { Intr::SSubO }, w, a, b, c, 2);
                let neg = self.bin2(Op::Slt, w, a, V::c(0));
                let mn = V::c128(1u128 << (w - 1));
                let mx = V::c128((1u128 << (w - 1)) - 1);
                let lim = self.ite2(neg, w, mn, mx);
                (self.ite2(o.unwrap(), w, lim, s), None)
            }
            Intr::Scmp | Intr::Ucmp => {
                // result width is not known here; results are i8 in practice
                let lt = self.bin2(if i == Intr::Scmp { Op::Slt } else { Op::Ult }, w, a, b);
                let eq = self.bin2(Op::Eq, w, a, b);
                let r = self.ite2(eq, 8, V::c(0), V::c(1));
                (self.ite2(lt, 8, V::c(255), r), None)
            }
            Intr::Bswap if conc => one((x.swap_bytes()) >> (128 - w as u32)),
            Intr::Bswap => {
                let n = w / 8;
                let mut acc = self.x.extract(a.e, 0, 8);
                for k in 1..n {
                    let p = self.x.extract(a.e, 8 * k, 8);
                    acc = self.x.concat(acc, p);
                }
                (self.from_e(acc), None)
            }
            Intr::Bitreverse if conc => one(x.reverse_bits() >> (128 - w as u32)),
            Intr::Bitreverse => {
                let mut acc = self.x.extract(a.e, 0, 1);
                for k in 1..w {
                    let p = self.x.extract(a.e, k, 1);
                    acc = self.x.concat(acc, p);
                }
                (self.from_e(acc), None)
            }
            Intr::Ctlz if a.e == 0 => one(if x == 0 { w as u128 } else { (x.leading_zeros() - (128 - w as u32)) as u128 }),
            Intr::Cttz if a.e == 0 => one(if x == 0 { w as u128 } else { x.trailing_zeros() as u128 }),
            Intr::Ctpop if a.e == 0 => one(x.count_ones() as u128),
            Intr::Ctlz => {
                // number of leading zeros by thresholds
                let e = a.e;
                let mut acc = self.x.konst(w as u128, w);
                // a >= 2^k  =>  clz <= w-1-k; walk upwards so the largest k wins
                let hi = self.x.hi(e);
                let top = 128 - hi.leading_zeros() as u16;
                for k in 0..top {
                    let t = self.x.konst(1u128 << k, w);
                    let c = self.x.bin(Op::Ule, t, e);
                    let v = self.x.konst((w - 1 - k) as u128, w);
                    acc = self.x.ite(c, v, acc);
                }
                (self.from_e(acc), None)
            }
            Intr::Cttz => {
                let e = a.e;
                let mut acc = self.x.konst(w as u128, w);
                for k in (0..w).rev() {
                    let c = self.x.extract(e, k, 1);
                    let v = self.x.konst(k as u128, w);
                    acc = self.x.ite(c, v, acc);
                }
                (self.from_e(acc), None)
            }
            Intr::Ctpop => {
                let mut acc = self.x.konst(0, w);
                for k in 0..w {
                    let p = self.x.extract(a.e, k, 1);
                    let p = if w > 1 { self.x.zext(p, w) } else { p };
                    acc = self.x.bin(Op::Add, acc, p);
                }
                (self.from_e(acc), None)
            }
            Intr::Fshl | Intr::Fshr => {
                if conc {
                    let s = (z % w as u128) as u32;
                    let wide = |sh: u32| -> u128 {
                        // (x:y) << s, high part
                        if sh == 0 {
                            x
                        } else {
                            ((x << sh) | (y >> (w as u32 - sh))) & m
                        }
                    };
                    let r = if i == Intr::Fshl {
                        wide(s)
                    } else if s == 0 {
                        y
                    } else {
                        wide(w as u32 - s)
                    };
                    return one(r);
                }
                let (p, q) = (self.to_e(a, w), self.to_e(b, w));
                if c.e == 0 {
                    let s = (z % w as u128) as u16;
                    let sh = if i == Intr::Fshl { s } else { (w - s) % w };
                    let r = if sh == 0 {
                        if i == Intr::Fshl {
                            p
                        } else {
                            q
                        }
                    } else {
                        let h = self.x.extract(p, 0, w - sh);
                        let l = self.x.extract(q, w - sh, sh);
                        self.x.concat(h, l)
                    };
                    return (self.from_e(r), None);
                }
                let kw = self.x.konst(w as u128, w);
                let s = self.x.bin(Op::URem, c.e, kw);
                let inv = self.x.bin(Op::Sub, kw, s);
                let zero = self.x.konst(0, w);
                let isz = self.x.bin(Op::Eq, s, zero);
                let (s1, s2) = if i == Intr::Fshl { (s, inv) } else { (inv, s) };
                let h = self.x.bin(Op::Shl, p, s1);
                let l = self.x.bin(Op::LShr, q, s2);
                let r = self.x.bin(Op::Or, h, l);
                let d = if i == Intr::Fshl { p } else { q };
                let r = self.x.ite(isz, d, r);
                (self.from_e(r), None)
            }
            Intr::Copysign => {
                let s = 1u64 << (w - 1);
                (V::c((a.lo & !s) | (b.lo & s)), None)
            }
            Intr::Fabs => (V::c(a.lo & !(1u64 << (w - 1))), None),
        }
    }
}

fn is_panic(n: &str) -> bool {
    n.contains("9panicking9panic_fmt")
        || n.contains("9panicking18panic_nounwind_fmt")
        || n.contains("9panicking15panic_with_hook")
        || n.contains("9panicking11begin_panicReE")
        || n.ends_with("18handle_alloc_error")
        || n.contains("rust_begin_unwind")
}

pub fn short(n: &str) -> String {
    // last identifiers of a v0-mangled name
    let b = n.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && k < 10000 {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if k > 1 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(&n[j..j + k]);
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn f(w: u16, v: u64) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v)
    }
}
fn fb(w: u16, v: f64) -> u64 {
    if w == 32 {
        (v as f32).to_bits() as u64
    } else {
        v.to_bits()
    }
}
fn fbin(op: FOp, w: u16, a: u64, b: u64) -> u64 {
    let (x, y) = (f(w, a), f(w, b));
    fb(
        w,
        match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Rem => x % y,
        },
    )
}
fn fcmp(p: &str, w: u16, a: u64, b: u64) -> bool {
    let (x, y) = (f(w, a), f(w, b));
    let un = x.is_nan() || y.is_nan();
    match p {
        "oeq" => x == y,
        "ogt" => x > y,
        "oge" => x >= y,
        "olt" => x < y,
        "ole" => x <= y,
        "one" => !un && x != y,
        "ord" => !un,
        "uno" => un,
        "ueq" => un || x == y,
        "ugt" => un || x > y,
        "uge" => un || x >= y,
        "ult" => un || x < y,
        "ule" => un || x <= y,
        "une" => un || x != y,
        "true" => true,
        _ => false,
    }
}
fn fcast(c: Cast, v: u128, from: u16, to: u16) -> u128 {
    match c {
        Cast::UIToFP => {
            if to == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        Cast::SIToFP => {
            let s = sext(v, from);
            if to == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        Cast::FPToUI => (f(from, v as u64) as u128) & mask(to),
        Cast::FPToSI => ((f(from, v as u64) as i128) as u128) & mask(to),
        Cast::FPExt | Cast::FPTrunc => fb(to, f(from, v as u64)) as u128,
        _ => v,
    }
}
