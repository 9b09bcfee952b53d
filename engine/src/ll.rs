//! Reader for textual LLVM IR: globals eagerly, functions lowered on demand to
//! a register code over scalars (vectors and aggregates are split into lanes).

use crate::expr::Op;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vect(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
    FnTy(Rc<Ty>),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::FnTy(_) => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if *w <= 64 {
                    b.next_power_of_two()
                } else {
                    (b + 15) / 16 * 16
                }
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vect(n, t) => {
                if let Ty::Int(w) = **t {
                    (n * w as u64 + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                if *packed {
                    o
                } else {
                    (o + al - 1) / al * al
                }
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vect(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) | Ty::Vect(_, t) => i * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += f.size();
                }
                o
            }
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn field(&self, i: u64) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vect(_, t) => (**t).clone(),
            Ty::Struct(fs, _) => fs[i as usize].clone(),
            _ => panic!("field {:?}", self),
        }
    }
    /// scalar lanes: (width, byte offset)
    pub fn lanes(&self) -> Vec<(u16, u64)> {
        let mut v = vec![];
        self.lanes_into(0, &mut v);
        v
    }
    fn lanes_into(&self, off: u64, v: &mut Vec<(u16, u64)>) {
        match self {
            Ty::Int(w) => v.push((*w, off)),
            Ty::Ptr | Ty::Double => v.push((64, off)),
            Ty::Float => v.push((32, off)),
            Ty::Arr(n, t) | Ty::Vect(n, t) => {
                let s = t.size();
                for i in 0..*n {
                    t.lanes_into(off + i * s, v);
                }
            }
            Ty::Struct(fs, _) => {
                for i in 0..fs.len() {
                    fs[i].lanes_into(off + self.field_off(i as u64), v);
                }
            }
            _ => {}
        }
    }
    pub fn nlanes(&self) -> u32 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => 1,
            Ty::Arr(n, t) | Ty::Vect(n, t) => *n as u32 * t.nlanes(),
            Ty::Struct(fs, _) => fs.iter().map(|f| f.nlanes()).sum(),
            _ => 0,
        }
    }
    pub fn width(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vect(_, t) => t.width(),
            _ => panic!("width of {:?}", self),
        }
    }
}

pub type Opnd = u32; // bit 31: constant pool index
pub const CONST_BIT: u32 = 1 << 31;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Copy,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Abs,
    Bitreverse,
    Bswap,
    Copysign,
    Fabs,
    Ctlz,
    Ctpop,
    Cttz,
    Fshl,
    Fshr,
    SAddSat,
    SSubSat,
    UAddSat,
    USubSat,
    SAddO,
    SSubO,
    SMulO,
    UAddO,
    USubO,
    UMulO,
    Scmp,
    Ucmp,
    Smax,
    Smin,
    Umax,
    Umin,
    Zero, // is.constant, xgetbv ...
    Ident,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Func(u32),
    Ind(Opnd),
}

#[derive(Debug, Clone)]
pub struct Edge {
    pub pc: u32, // block index until patched
    pub copies: Box<[(u32, Opnd)]>,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u16, dst: u32, a: Opnd, b: Opnd },
    Icmp { op: Op, neg: bool, w: u16, dst: u32, a: Opnd, b: Opnd },
    FBin { op: FOp, w: u16, dst: u32, a: Opnd, b: Opnd },
    FNeg { w: u16, dst: u32, a: Opnd },
    FCmp { pred: &'static str, w: u16, dst: u32, a: Opnd, b: Opnd },
    Cast { c: Cast, from: u16, to: u16, dst: u32, a: Opnd },
    Select { dst: u32, w: u16, ptr: bool, c: Opnd, a: Opnd, b: Opnd },
    Load { dst: u32, lanes: Box<[(u16, u64)]>, p: Opnd },
    Store { lanes: Box<[(u16, u64, Opnd)]>, p: Opnd },
    Gep { dst: u32, base: Opnd, off: i64, terms: Box<[(Opnd, i64, u16)]> },
    Alloca { dst: u32, size: u64, align: u64, count: Option<(Opnd, u16)> },
    Call { callee: Callee, args: Box<[Opnd]>, dst: u32 },
    Intr { i: Intr, w: u16, dst: u32, args: Box<[Opnd]> },
    MemCpy { d: Opnd, s: Opnd, n: Opnd },
    MemSet { d: Opnd, v: Opnd, n: Opnd },
    Concat { dst: u32, parts: Box<[(Opnd, u16)]> }, // first part is the lowest
    Slice { dst: u32, a: Opnd, lo: u16, w: u16, from: u16 },
    AtomicRmw { op: &'static str, w: u16, dst: u32, p: Opnd, v: Opnd },
    CmpXchg { w: u16, dst: u32, p: Opnd, c: Opnd, n: Opnd },
    DynExtract { dst: u32, base: Box<[Opnd]>, idx: Opnd },
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch { v: Opnd, w: u16, cases: Box<[(u128, u32)]>, edges: Box<[Edge]>, default: u32 },
    Ret(Box<[Opnd]>),
    Unreachable,
    Unsupported(String),
}

pub struct Func {
    pub code: Vec<Inst>,
    pub nregs: u32,
    pub params: Vec<u32>, // lane registers in order
    pub consts: Vec<(u64, u64)>,
}

pub struct FuncEntry {
    pub name: String,
    pub module: usize,
    pub text: Option<(usize, usize)>, // offsets: start of "define", end of body
    pub lowered: RefCell<Option<Rc<Func>>>,
}

pub struct Module {
    pub text: &'static [u8],
    pub funcs: HashMap<&'static str, u32>,
    pub globals: HashMap<&'static str, (u64, Ty)>,
    pub types: HashMap<&'static str, Ty>,
}

pub struct Program {
    pub modules: Vec<Module>,
    pub funcs: Vec<FuncEntry>,
    pub ext: HashMap<String, u32>, // externals shared by all modules
    pub image: Vec<(u64, Vec<u8>, bool, usize)>, // address, bytes, mutable, module
    #[allow(dead_code)]
    pub _p: (), // initial contents of globals
    pub next_global: u64,
}

pub const GLOBAL_BASE: u64 = 0x1_0000_0000;
pub const HEAP_BASE: u64 = 0x2_0000_0000;
pub const STACK_TOP: u64 = 0x4_0000_0000;
pub const FUNC_BASE: u64 = 0x5_0000_0000;
pub const NULL_WEAK: &[&str] = &["statx", "gettid", "__dso_handle"];

fn func_addr(i: u32) -> u64 {
    FUNC_BASE + (i as u64) * 16
}

struct Cur<'a> {
    s: &'static [u8],
    p: usize,
    end: usize,
    m: &'a ModCtx<'a>,
}

struct ModCtx<'a> {
    types: &'a HashMap<&'static str, Ty>,
    globals: &'a HashMap<&'static str, (u64, Ty)>,
    funcs: &'a HashMap<&'static str, u32>,
    ext: &'a RefCell<&'a mut HashMap<String, u32>>,
    fvec: &'a RefCell<&'a mut Vec<FuncEntry>>,
}

#[derive(Clone, Debug)]
enum Val {
    Local(&'static str),
    Const(Vec<(u64, u64)>), // per lane
}

fn st(b: &'static [u8]) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        while self.p < self.end && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1;
        }
    }
    fn nl(&mut self) {
        while self.p < self.end && matches!(self.s[self.p], b' ' | b'\t' | b'\n') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.p < self.end {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected {:?}", c as char));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(120);
        let b = (self.p + 120).min(self.end);
        panic!(
            "IR parse error: {} at ...{} <<HERE>> {}...",
            m,
            String::from_utf8_lossy(&self.s[a..self.p]),
            String::from_utf8_lossy(&self.s[self.p..b])
        );
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let mut q = self.p;
        while q < self.end
            && (self.s[q].is_ascii_alphanumeric() || self.s[q] == b'_' || self.s[q] == b'.' || self.s[q] == b'-')
        {
            q += 1;
        }
        st(&self.s[self.p..q])
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.p += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    // name after % or @ or $
    fn name(&mut self) -> &'static str {
        if self.s[self.p] == b'"' {
            let a = self.p + 1;
            let mut q = a;
            while self.s[q] != b'"' {
                q += 1;
            }
            self.p = q + 1;
            return st(&self.s[a..q]);
        }
        let a = self.p;
        let mut q = a;
        while q < self.end
            && (self.s[q].is_ascii_alphanumeric() || matches!(self.s[q], b'_' | b'.' | b'-' | b'$'))
        {
            q += 1;
        }
        self.p = q;
        st(&self.s[a..q])
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.p];
            self.p += 1;
            match c {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                b'"' => {
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                }
                _ => {}
            }
        }
    }
    fn uint(&mut self) -> u64 {
        let w = self.word();
        w.parse().unwrap_or_else(|_| self.fail("number"))
    }
    fn ty(&mut self) -> Ty {
        let mut t = self.ty0();
        // function type suffix
        while self.peek() == b'(' {
            self.skip_parens();
            t = Ty::FnTy(Rc::new(t));
        }
        t
    }
    fn ty0(&mut self) -> Ty {
        match self.peek() {
            b'[' => {
                self.p += 1;
                let n = self.uint();
                if !self.eat_word("x") {
                    self.fail("x");
                }
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.struct_ty(true);
                    self.expect(b'>');
                    t
                } else {
                    let n = self.uint();
                    if !self.eat_word("x") {
                        self.fail("x");
                    }
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vect(n, Rc::new(t))
                }
            }
            b'{' => self.struct_ty(false),
            b'%' => {
                self.p += 1;
                let n = self.name();
                self.m.types.get(n).cloned().unwrap_or_else(|| self.fail("unknown type"))
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "double" => Ty::Double,
                    "float" => Ty::Float,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "x86_fp80" | "half" | "fp128" | "token" => Ty::Meta,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.fail("type"))),
                    _ => self.fail(&format!("type {:?}", w)),
                }
            }
        }
    }
    fn struct_ty(&mut self, packed: bool) -> Ty {
        self.expect(b'{');
        let mut v = vec![];
        if !self.eat(b'}') {
            loop {
                v.push(self.ty());
                if self.eat(b'}') {
                    break;
                }
                self.expect(b',');
            }
        }
        Ty::Struct(Rc::new(v), packed)
    }
    fn global_ref(&self, n: &'static str) -> u64 {
        if let Some((a, _)) = self.m.globals.get(n) {
            return *a;
        }
        if NULL_WEAK.contains(&n) {
            return 0;
        }
        func_addr(self.func_ref(n))
    }
    fn func_ref(&self, n: &'static str) -> u32 {
        if let Some(&i) = self.m.funcs.get(n) {
            return i;
        }
        let mut ext = self.m.ext.borrow_mut();
        if let Some(&i) = ext.get(n) {
            return i;
        }
        let mut fv = self.m.fvec.borrow_mut();
        let i = fv.len() as u32;
        fv.push(FuncEntry { name: n.to_string(), module: usize::MAX, text: None, lowered: RefCell::new(None) });
        ext.insert(n.to_string(), i);
        i
    }
    /// constant of a given type, lanes
    fn konst(&mut self, t: &Ty) -> Vec<(u64, u64)> {
        match self.peek() {
            b'@' => {
                self.p += 1;
                let n = self.name();
                vec![(self.global_ref(n), 0)]
            }
            b'{' => {
                self.p += 1;
                let v = self.konst_list(b'}');
                v
            }
            b'[' => {
                self.p += 1;
                self.konst_list(b']')
            }
            b'<' => {
                self.p += 1;
                if self.eat(b'{') {
                    let v = self.konst_list(b'}');
                    self.expect(b'>');
                    v
                } else {
                    self.konst_list(b'>')
                }
            }
            b'c' if self.s[self.p + 1] == b'"' => {
                self.p += 2;
                let mut v = vec![];
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' && self.s[self.p + 1] == b'\\' {
                        v.push((b'\\' as u64, 0));
                        self.p += 2;
                    } else if self.s[self.p] == b'\\' {
                        let h = st(&self.s[self.p + 1..self.p + 3]);
                        v.push((u64::from_str_radix(h, 16).unwrap(), 0));
                        self.p += 3;
                    } else {
                        v.push((self.s[self.p] as u64, 0));
                        self.p += 1;
                    }
                }
                self.p += 1;
                v
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => vec![(1, 0)],
                    "false" => vec![(0, 0)],
                    "null" | "zeroinitializer" | "undef" | "poison" => {
                        vec![(0, 0); t.nlanes() as usize]
                    }
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.konst(&et);
                        self.expect(b')');
                        let n = t.nlanes() as usize;
                        vec![v[0]; n]
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.konst(&et);
                        if !self.eat_word("to") {
                            self.fail("to");
                        }
                        let to = self.ty();
                        self.expect(b')');
                        if w == "trunc" {
                            vec![(v[0].0 & crate::expr::mask(to.width()) as u64, 0)]
                        } else {
                            v
                        }
                    }
                    "sub" | "add" | "xor" | "and" | "or" | "mul" => {
                        while matches!(self.peek_word(), "nuw" | "nsw" | "disjoint") {
                            self.word();
                        }
                        self.expect(b'(');
                        let et = self.ty();
                        let a = self.konst(&et)[0].0;
                        self.expect(b',');
                        let et2 = self.ty();
                        let b = self.konst(&et2)[0].0;
                        self.expect(b')');
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "mul" => a.wrapping_mul(b),
                            "xor" => a ^ b,
                            "and" => a & b,
                            _ => a | b,
                        };
                        vec![(r & crate::expr::mask(et.width()) as u64, 0)]
                    }
                    "getelementptr" => {
                        while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                            self.word();
                            if self.peek() == b'(' && self.s[self.p + 1] == b'-' {
                                self.skip_parens();
                            }
                        }
                        self.expect(b'(');
                        let et = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = self.konst(&pt)[0].0;
                        let mut cur = et;
                        let mut off = 0i64;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let i = self.konst(&it)[0].0;
                            let i = crate::expr::sext(i as u128, it.width()) as i64;
                            if first {
                                off += i * cur.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_off(i as u64) as i64;
                                cur = cur.field(i as u64);
                            }
                        }
                        self.expect(b')');
                        vec![(base.wrapping_add(off as u64), 0)]
                    }
                    "blockaddress" => self.fail("blockaddress"),
                    _ => {
                        // number
                        if let Some(h) = w.strip_prefix("f0x").or_else(|| w.strip_prefix("0x")) {
                            let b = u64::from_str_radix(h, 16).unwrap_or_else(|_| self.fail("hex float"));
                            if *t == Ty::Float {
                                if h.len() <= 8 && w.starts_with('f') {
                                    return vec![(b, 0)];
                                }
                                return vec![((f64::from_bits(b) as f32).to_bits() as u64, 0)];
                            }
                            return vec![(b, 0)];
                        }
                        match t {
                            Ty::Double | Ty::Float => {
                                let mut txt = w.to_string();
                                if self.p < self.end && self.s[self.p] == b'+' {
                                    self.p += 1;
                                    txt.push('+');
                                    txt.push_str(self.word());
                                }
                                let f: f64 = txt.parse().unwrap_or_else(|_| self.fail("float"));
                                if *t == Ty::Float {
                                    vec![((f as f32).to_bits() as u64, 0)]
                                } else {
                                    vec![(f.to_bits(), 0)]
                                }
                            }
                            Ty::Int(width) => {
                                let v: u128 = if let Some(neg) = w.strip_prefix('-') {
                                    let x: u128 = neg.parse().unwrap_or_else(|_| self.fail("int"));
                                    x.wrapping_neg()
                                } else {
                                    w.parse().unwrap_or_else(|_| self.fail(&format!("constant {:?}", w)))
                                };
                                let v = v & crate::expr::mask(*width);
                                vec![(v as u64, (v >> 64) as u64)]
                            }
                            _ => self.fail(&format!("constant {:?} of {:?}", w, t)),
                        }
                    }
                }
            }
        }
    }
    fn konst_list(&mut self, close: u8) -> Vec<(u64, u64)> {
        let mut v = vec![];
        if self.eat(close) {
            return v;
        }
        loop {
            let t = self.ty();
            let k = self.konst(&t);
            v.extend(k);
            if self.eat(close) {
                return v;
            }
            self.expect(b',');
        }
    }
    fn attrs(&mut self) {
        // skip parameter / return attributes before a value or type
        loop {
            match self.peek() {
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                    if self.p < self.end && self.s[self.p] == b'=' {
                        self.p += 2;
                        while self.s[self.p] != b'"' {
                            self.p += 1;
                        }
                        self.p += 1;
                    }
                    continue;
                }
                b'#' => {
                    self.p += 1;
                    self.word();
                    continue;
                }
                _ => {}
            }
            let w = self.peek_word();
            match w {
                "noalias" | "nofree" | "noundef" | "nonnull" | "readonly" | "writeonly" | "readnone" | "signext"
                | "zeroext" | "inreg" | "nocapture" | "returned" | "nest" | "swiftself" | "immarg" | "writable"
                | "dead_on_unwind" | "dead_on_return" | "allocptr" | "allocalign" | "noext" | "nofpclass" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
                "align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    } else {
                        self.word();
                    }
                }
                "captures" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref"
                | "initializes" | "range" | "alignstack" | "elementtype" | "preallocated" | "inalloca" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }
    fn val(&mut self, t: &Ty) -> Val {
        if self.peek() == b'%' {
            self.p += 1;
            Val::Local(self.name())
        } else {
            Val::Const(self.konst(t))
        }
    }
}

struct Lower<'a> {
    regs: HashMap<&'static str, (u32, u32)>,
    nregs: u32,
    consts: Vec<(u64, u64)>,
    cmap: HashMap<(u64, u64), u32>,
    code: Vec<Inst>,
    _x: std::marker::PhantomData<&'a ()>,
}

impl<'a> Lower<'a> {
    fn reg(&mut self, n: &'static str, lanes: u32) -> u32 {
        if let Some(&(r, k)) = self.regs.get(n) {
            assert_eq!(k, lanes, "lane mismatch for %{}", n);
            return r;
        }
        let r = self.nregs;
        self.nregs += lanes;
        self.regs.insert(n, (r, lanes));
        r
    }
    fn tmp(&mut self) -> u32 {
        self.nregs += 1;
        self.nregs - 1
    }
    fn k(&mut self, v: (u64, u64)) -> Opnd {
        let n = self.consts.len() as u32;
        let i = *self.cmap.entry(v).or_insert(n);
        if i == n {
            self.consts.push(v);
        }
        i | CONST_BIT
    }
    fn ops(&mut self, v: &Val, t: &Ty) -> Vec<Opnd> {
        let n = t.nlanes();
        match v {
            Val::Local(s) => {
                let r = self.reg(s, n);
                (r..r + n).collect()
            }
            Val::Const(c) => {
                assert_eq!(c.len(), n as usize, "const lanes");
                c.iter().map(|&x| self.k(x)).collect()
            }
        }
    }
}

impl Program {
    pub fn new() -> Self {
        Program {
            modules: vec![],
            funcs: vec![FuncEntry { name: "<null>".into(), module: usize::MAX, text: None, lowered: RefCell::new(None) }],
            ext: HashMap::new(),
            image: vec![],
            _p: (),
            next_global: GLOBAL_BASE + 64, // the first slot is errno
        }
    }

    /// Load a module; returns its index.
    pub fn load(&mut self, path: &str) -> usize {
        let text: &'static [u8] = Box::leak(std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).into_boxed_slice());
        let mi = self.modules.len();
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut tlines = vec![];
        let mut funcs: HashMap<&'static str, u32> = HashMap::new();
        let mut p = 0;
        let n = text.len();
        let mut cur_def: Option<usize> = None;
        while p < n {
            let e = match text[p..].iter().position(|&c| c == b'\n') {
                Some(k) => p + k,
                None => n,
            };
            let line = &text[p..e];
            if let Some(d) = cur_def {
                if line == b"}" {
                    let at = text[d..e].iter().position(|&c| c == b'@').unwrap() + d + 1;
                    let nm = raw_name(text, at);
                    let id = self.funcs.len() as u32;
                    self.funcs.push(FuncEntry { name: nm.to_string(), module: mi, text: Some((d, p)), lowered: RefCell::new(None) });
                    funcs.insert(nm, id);
                    cur_def = None;
                }
            } else if line.starts_with(b"@") {
                glines.push((p, e));
            } else if line.starts_with(b"define ") {
                cur_def = Some(p);
            } else if line.starts_with(b"%") {
                tlines.push((p, e));
            }
            p = e + 1;
        }
        let mut types: HashMap<&'static str, Ty> = HashMap::new();
        let empty_g = HashMap::new();
        // named types: iterate until resolved (no recursion by value)
        for _ in 0..tlines.len() + 1 {
            let mut progress = false;
            for &(a, b) in &tlines {
                let nm = raw_name(text, a + 1);
                if types.contains_key(nm) {
                    continue;
                }
                let body = &text[a..b];
                if body.ends_with(b"opaque") {
                    types.insert(nm, Ty::Void);
                    progress = true;
                    continue;
                }
                // all referenced names known?
                let eq = find(body, b" = type ").unwrap() + 8;
                let mut ok = true;
                let mut q = eq;
                while q < body.len() {
                    if body[q] == b'%' {
                        let r = raw_name(text, a + q + 1);
                        if !types.contains_key(r) {
                            ok = false;
                        }
                    }
                    q += 1;
                }
                if ok {
                    let ext = RefCell::new(&mut self.ext);
                    let fv = RefCell::new(&mut self.funcs);
                    let t = {
                        let m = ModCtx { types: &types, globals: &empty_g, funcs: &funcs, ext: &ext, fvec: &fv };
                        let mut c = Cur { s: text, p: a + eq, end: b, m: &m };
                        c.ty()
                    };
                    types.insert(nm, t);
                    progress = true;
                }
            }
            if !progress {
                break;
            }
        }
        // globals: addresses first
        let mut globals: HashMap<&'static str, (u64, Ty)> = HashMap::new();
        let mut inits = vec![];
        for &(a, b) in &glines {
            let nm = raw_name(text, a + 1);
            let ext = RefCell::new(&mut self.ext);
            let fv = RefCell::new(&mut self.funcs);
            let m = ModCtx { types: &types, globals: &globals, funcs: &funcs, ext: &ext, fvec: &fv };
            let mut c = Cur { s: text, p: a + 1, end: b, m: &m };
            c.name();
            c.expect(b'=');
            let mut external = false;
            let mut alias = false;
            let mut mutable = true;
            loop {
                let w = c.peek_word();
                match w {
                    "global" | "constant" => {
                        mutable = w == "global";
                        c.word();
                        break;
                    }
                    "alias" => {
                        alias = true;
                        c.word();
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        c.word();
                    }
                    "" => c.fail("global"),
                    _ => {
                        c.word();
                        if c.peek() == b'(' {
                            c.skip_parens();
                        }
                    }
                }
            }
            let t = c.ty();
            let pos = c.p;
            drop(c);
            if alias {
                inits.push((nm, pos, b, t, true, mutable));
                continue;
            }
            if external {
                if NULL_WEAK.contains(&nm) {
                    globals.insert(nm, (0, t));
                    continue;
                }
                let a = self.next_global;
                self.next_global += 64;
                self.image.push((a, vec![0; 64], true, mi));
                globals.insert(nm, (a, t));
                continue;
            }
            let size = t.size();
            let al = t.align().max(16);
            let addr = (self.next_global + al - 1) / al * al;
            self.next_global = addr + size.max(1);
            globals.insert(nm, (addr, t.clone()));
            inits.push((nm, pos, b, t, false, mutable));
        }
        for pass in 0..2 {
            for (nm, pos, end, t, alias, mutable) in &inits {
                if *alias != (pass == 0) {
                    continue;
                }
                let ext = RefCell::new(&mut self.ext);
                let fv = RefCell::new(&mut self.funcs);
                let m = ModCtx { types: &types, globals: &globals, funcs: &funcs, ext: &ext, fvec: &fv };
                let mut c = Cur { s: text, p: *pos, end: *end, m: &m };
                if *alias {
                    // type was the value type; then ", ptr @target"
                    c.expect(b',');
                    let pt = c.ty();
                    c.expect(b'@');
                    let tn = c.name();
                    let _ = pt;
                    if let Some(&f) = funcs.get(tn) {
                        drop(c);
                        funcs.insert(nm, f);
                    } else {
                        let g = globals[tn].clone();
                        drop(c);
                        globals.insert(nm, g);
                    }
                    continue;
                }
                let k = c.konst(t);
                let lanes = t.lanes();
                assert_eq!(lanes.len(), k.len(), "initializer of {}", nm);
                let mut bytes = vec![0u8; t.size() as usize];
                for ((w, off), v) in lanes.iter().zip(&k) {
                    let full = (v.0 as u128) | ((v.1 as u128) << 64);
                    let n = ((*w as usize) + 7) / 8;
                    for i in 0..n {
                        bytes[*off as usize + i] = (full >> (8 * i)) as u8;
                    }
                }
                let a = globals[nm].0;
                self.image.push((a, bytes, *mutable, mi));
            }
        }
        self.modules.push(Module { text, funcs, globals, types });
        mi
    }

    pub fn lower(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = self.funcs[id as usize].lowered.borrow().as_ref() {
            return f.clone();
        }
        let (mi, (a, b)) = {
            let f = &self.funcs[id as usize];
            (f.module, f.text.unwrap_or_else(|| panic!("no body: {}", f.name)))
        };
        let Program { modules, funcs, ext, .. } = self;
        let md = &modules[mi];
        let ext = RefCell::new(ext);
        let fv = RefCell::new(funcs);
        let f = {
            let m = ModCtx { types: &md.types, globals: &md.globals, funcs: &md.funcs, ext: &ext, fvec: &fv };
            Rc::new(lower_fn(md.text, a, b, &m))
        };
        *self.funcs[id as usize].lowered.borrow_mut() = Some(f.clone());
        f
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn raw_name(text: &'static [u8], at: usize) -> &'static str {
    if text[at] == b'"' {
        let e = text[at + 1..].iter().position(|&c| c == b'"').unwrap();
        return st(&text[at + 1..at + 1 + e]);
    }
    let mut q = at;
    while q < text.len() && (text[q].is_ascii_alphanumeric() || matches!(text[q], b'_' | b'.' | b'-' | b'$')) {
        q += 1;
    }
    st(&text[at..q])
}

enum Term {
    Br(usize, &'static str),
    CondBr(usize, &'static str, &'static str),
    Switch(usize, &'static str, Vec<(u128, &'static str)>),
}

fn lower_fn<'m>(text: &'static [u8], a: usize, b: usize, m: &'m ModCtx<'m>) -> Func {
    let mut lo = Lower {
        regs: HashMap::new(),
        nregs: 0,
        consts: vec![],
        cmap: HashMap::new(),
        code: vec![],
        _x: std::marker::PhantomData,
    };
    // header line ends at first newline
    let hl = a + text[a..b].iter().position(|&c| c == b'\n').unwrap();
    let mut c = Cur { s: text, p: a, end: hl, m };
    // find '@name('
    while c.s[c.p] != b'@' {
        c.p += 1;
    }
    c.p += 1;
    c.name();
    c.expect(b'(');
    let mut params = vec![];
    let mut unnamed = 0usize;
    if !c.eat(b')') {
        loop {
            if c.peek() == b'.' {
                // varargs
                while c.peek() == b'.' {
                    c.p += 1;
                }
                c.expect(b')');
                break;
            }
            let t = c.ty();
            c.attrs();
            let n: &'static str = if c.eat(b'%') {
                c.name()
            } else {
                let s: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                s
            };
            unnamed += 1;
            let k = t.nlanes();
            let r = lo.reg(n, k);
            params.extend(r..r + k);
            if c.eat(b')') {
                break;
            }
            c.expect(b',');
        }
    }
    // body
    let mut c = Cur { s: text, p: hl + 1, end: b, m };
    let mut blocks: HashMap<&'static str, u32> = HashMap::new(); // label -> pc
    let mut phis: HashMap<&'static str, Vec<(u32, Vec<(&'static str, Vec<Opnd>)>)>> = HashMap::new();
    let mut terms: Vec<(Term, &'static str)> = vec![]; // with source block label
    // entry label
    let mut label: &'static str = "";
    {
        let save = c.p;
        // label line?
        if !text[c.p].is_ascii_whitespace() {
            if c.s[c.p] == b'"' {
                label = c.name();
            } else {
                label = c.name();
            }
            if c.s[c.p] != b':' {
                c.p = save;
                label = "";
            } else {
                skip_line(&mut c);
            }
        }
        if label.is_empty() {
            // implicit entry label is the next unnamed number
            label = Box::leak(unnamed.to_string().into_boxed_str());
        }
    }
    blocks.insert(label, 0);
    loop {
        // skip blank lines
        while c.p < c.end && c.s[c.p] == b'\n' {
            c.p += 1;
        }
        if c.p >= c.end {
            break;
        }
        if c.s[c.p] != b' ' {
            // label
            let l = c.name();
            if c.s[c.p] != b':' {
                c.fail("label");
            }
            skip_line(&mut c);
            label = l;
            blocks.insert(l, lo.code.len() as u32);
            continue;
        }
        lower_inst(&mut c, &mut lo, label, &mut phis, &mut terms);
        skip_line(&mut c);
    }
    // resolve terminators
    for (t, src) in terms {
        let mut edge = |l: &'static str| -> Edge {
            let mut copies = vec![];
            if let Some(ps) = phis.get(l) {
                for (dst, inc) in ps {
                    let v = inc.iter().find(|(b, _)| *b == src).unwrap_or_else(|| panic!("phi without {}", src));
                    for (i, &o) in v.1.iter().enumerate() {
                        if *dst + i as u32 != o {
                            copies.push((*dst + i as u32, o));
                        }
                    }
                }
            }
            Edge { pc: *blocks.get(l).unwrap_or_else(|| panic!("no block {}", l)), copies: copies.into_boxed_slice() }
        };
        match t {
            Term::Br(i, l) => lo.code[i] = Inst::Br(edge(l)),
            Term::CondBr(i, x, y) => {
                let (e1, e2) = (edge(x), edge(y));
                if let Inst::CondBr(_, p, q) = &mut lo.code[i] {
                    *p = e1;
                    *q = e2;
                }
            }
            Term::Switch(i, d, cs) => {
                let mut edges = vec![edge(d)];
                let mut labels = vec![d];
                let mut cases2 = vec![];
                for (v, l) in cs {
                    let k = match labels.iter().position(|x| *x == l) {
                        Some(k) => k,
                        None => {
                            labels.push(l);
                            edges.push(edge(l));
                            edges.len() - 1
                        }
                    };
                    cases2.push((v, k as u32));
                }
                cases2.sort();
                if let Inst::Switch { cases, edges: e, .. } = &mut lo.code[i] {
                    *cases = cases2.into_boxed_slice();
                    *e = edges.into_boxed_slice();
                }
            }
        }
    }
    Func { code: lo.code, nregs: lo.nregs, params, consts: lo.consts }
}

fn skip_line(c: &mut Cur) {
    while c.p < c.end && c.s[c.p] != b'\n' {
        c.p += 1;
    }
    c.p = (c.p + 1).min(c.end);
}

fn dummy_edge() -> Edge {
    Edge { pc: 0, copies: Box::new([]) }
}

fn lower_inst(
    c: &mut Cur,
    lo: &mut Lower,
    label: &'static str,
    phis: &mut HashMap<&'static str, Vec<(u32, Vec<(&'static str, Vec<Opnd>)>)>>,
    terms: &mut Vec<(Term, &'static str)>,
) {
    let mut res: &'static str = "";
    if c.peek() == b'%' {
        c.p += 1;
        res = c.name();
        c.expect(b'=');
    }
    let mut op = c.word();
    if matches!(op, "tail" | "musttail" | "notail") {
        op = c.word();
    }
    match op {
        "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
            while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                c.word();
            }
            let t = c.ty();
            let x = c.val(&t);
            c.expect(b',');
            let y = c.val(&t);
            let xs = lo.ops(&x, &t);
            let ys = lo.ops(&y, &t);
            let d = lo.reg(res, t.nlanes());
            let o = match op {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "urem" => Op::URem,
                "sdiv" => Op::SDiv,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                _ => Op::AShr,
            };
            let w = t.width();
            if w > 128 {
                lo.code.push(Inst::Unsupported(format!("{} i{}", op, w)));
                return;
            }
            for i in 0..xs.len() {
                lo.code.push(Inst::Bin { op: o, w, dst: d + i as u32, a: xs[i], b: ys[i] });
            }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            fmf(c);
            let t = c.ty();
            let x = c.val(&t);
            c.expect(b',');
            let y = c.val(&t);
            let xs = lo.ops(&x, &t);
            let ys = lo.ops(&y, &t);
            let d = lo.reg(res, t.nlanes());
            let o = match op {
                "fadd" => FOp::Add,
                "fsub" => FOp::Sub,
                "fmul" => FOp::Mul,
                "fdiv" => FOp::Div,
                _ => FOp::Rem,
            };
            let w = t.width();
            for i in 0..xs.len() {
                lo.code.push(Inst::FBin { op: o, w, dst: d + i as u32, a: xs[i], b: ys[i] });
            }
        }
        "fneg" => {
            fmf(c);
            let t = c.ty();
            let x = c.val(&t);
            let xs = lo.ops(&x, &t);
            let d = lo.reg(res, t.nlanes());
            for i in 0..xs.len() {
                lo.code.push(Inst::FNeg { w: t.width(), dst: d + i as u32, a: xs[i] });
            }
        }
        "icmp" => {
            while matches!(c.peek_word(), "samesign") {
                c.word();
            }
            let pred = c.word();
            let t = c.ty();
            let x = c.val(&t);
            c.expect(b',');
            let y = c.val(&t);
            let xs = lo.ops(&x, &t);
            let ys = lo.ops(&y, &t);
            let d = lo.reg(res, t.nlanes());
            let w = t.width();
            for i in 0..xs.len() {
                let (a, b) = (xs[i], ys[i]);
                let (o, neg, a, b) = match pred {
                    "eq" => (Op::Eq, false, a, b),
                    "ne" => (Op::Eq, true, a, b),
                    "ult" => (Op::Ult, false, a, b),
                    "ule" => (Op::Ule, false, a, b),
                    "ugt" => (Op::Ult, false, b, a),
                    "uge" => (Op::Ule, false, b, a),
                    "slt" => (Op::Slt, false, a, b),
                    "sle" => (Op::Sle, false, a, b),
                    "sgt" => (Op::Slt, false, b, a),
                    "sge" => (Op::Sle, false, b, a),
                    _ => c.fail("icmp predicate"),
                };
                lo.code.push(Inst::Icmp { op: o, neg, w, dst: d + i as u32, a, b });
            }
        }
        "fcmp" => {
            fmf(c);
            let pred = c.word();
            let t = c.ty();
            let x = c.val(&t);
            c.expect(b',');
            let y = c.val(&t);
            let xs = lo.ops(&x, &t);
            let ys = lo.ops(&y, &t);
            let d = lo.reg(res, t.nlanes());
            for i in 0..xs.len() {
                lo.code.push(Inst::FCmp { pred, w: t.width(), dst: d + i as u32, a: xs[i], b: ys[i] });
            }
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "freeze" | "uitofp" | "sitofp" | "fptoui"
        | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
            while matches!(c.peek_word(), "nuw" | "nsw" | "nneg" | "fast" | "contract") {
                c.word();
            }
            let t = c.ty();
            let x = c.val(&t);
            let xs = lo.ops(&x, &t);
            let to = if op == "freeze" {
                t.clone()
            } else {
                if !c.eat_word("to") {
                    c.fail("to");
                }
                c.ty()
            };
            let d = lo.reg(res, to.nlanes());
            if op == "bitcast" {
                // regroup
                let fw = t.width();
                let tw = to.width();
                if fw == tw {
                    for i in 0..xs.len() {
                        lo.code.push(Inst::Cast { c: Cast::Copy, from: fw, to: tw, dst: d + i as u32, a: xs[i] });
                    }
                } else if tw > fw {
                    let k = (tw / fw) as usize;
                    for i in 0..to.nlanes() as usize {
                        let parts: Vec<_> = (0..k).map(|j| (xs[i * k + j], fw)).collect();
                        lo.code.push(Inst::Concat { dst: d + i as u32, parts: parts.into_boxed_slice() });
                    }
                } else {
                    let k = (fw / tw) as usize;
                    for i in 0..to.nlanes() as usize {
                        lo.code.push(Inst::Slice {
                            dst: d + i as u32,
                            a: xs[i / k],
                            lo: (i % k) as u16 * tw,
                            w: tw,
                            from: fw,
                        });
                    }
                }
                return;
            }
            if op == "freeze" {
                let ls = t.lanes();
                for i in 0..xs.len() {
                    lo.code.push(Inst::Cast { c: Cast::Copy, from: ls[i].0, to: ls[i].0, dst: d + i as u32, a: xs[i] });
                }
                return;
            }
            let (from, tow) = (t.width(), to.width());
            if from > 128 || tow > 128 {
                lo.code.push(Inst::Unsupported(format!("{} i{} i{}", op, from, tow)));
                return;
            }
            let k = match op {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    if tow < from {
                        Cast::Trunc
                    } else if tow > from {
                        Cast::ZExt
                    } else {
                        Cast::Copy
                    }
                }
                "uitofp" => Cast::UIToFP,
                "sitofp" => Cast::SIToFP,
                "fptoui" => Cast::FPToUI,
                "fptosi" => Cast::FPToSI,
                "fpext" => Cast::FPExt,
                _ => Cast::FPTrunc,
            };
            for i in 0..xs.len() {
                lo.code.push(Inst::Cast { c: k, from, to: tow, dst: d + i as u32, a: xs[i] });
            }
        }
        "select" => {
            fmf(c);
            let ct = c.ty();
            let cv = c.val(&ct);
            c.expect(b',');
            let t = c.ty();
            let x = c.val(&t);
            c.expect(b',');
            let t2 = c.ty();
            let y = c.val(&t2);
            let cs = lo.ops(&cv, &ct);
            let xs = lo.ops(&x, &t);
            let ys = lo.ops(&y, &t);
            let d = lo.reg(res, t.nlanes());
            let ls = t.lanes();
            for i in 0..xs.len() {
                lo.code.push(Inst::Select {
                    dst: d + i as u32,
                    w: ls[i].0,
                    ptr: t == Ty::Ptr,
                    c: if cs.len() == 1 { cs[0] } else { cs[i] },
                    a: xs[i],
                    b: ys[i],
                });
            }
        }
        "load" => {
            while matches!(c.peek_word(), "atomic" | "volatile") {
                c.word();
            }
            let t = c.ty();
            c.expect(b',');
            let pt = c.ty();
            let p = c.val(&pt);
            let p = lo.ops(&p, &pt)[0];
            let d = lo.reg(res, t.nlanes());
            if let Some(n) = packed_bits(&t) {
                let r = lo.tmp();
                lo.code.push(Inst::Load { dst: r, lanes: Box::new([(n, 0)]), p });
                for i in 0..n {
                    lo.code.push(Inst::Slice { dst: d + i as u32, a: r, lo: i, w: 1, from: n });
                }
                return;
            }
            if t.lanes().iter().any(|l| l.0 > 128) {
                lo.code.push(Inst::Unsupported("wide load".into()));
                return;
            }
            lo.code.push(Inst::Load { dst: d, lanes: t.lanes().into_boxed_slice(), p });
        }
        "store" => {
            while matches!(c.peek_word(), "atomic" | "volatile") {
                c.word();
            }
            let t = c.ty();
            let v = c.val(&t);
            c.expect(b',');
            let pt = c.ty();
            let p = c.val(&pt);
            let vs = lo.ops(&v, &t);
            let p = lo.ops(&p, &pt)[0];
            if let Some(n) = packed_bits(&t) {
                let r = lo.tmp();
                let parts: Vec<_> = vs.iter().map(|v| (*v, 1u16)).collect();
                lo.code.push(Inst::Concat { dst: r, parts: parts.into_boxed_slice() });
                lo.code.push(Inst::Store { lanes: Box::new([(n, 0, r)]), p });
                return;
            }
            let lanes: Vec<_> = t.lanes().iter().zip(&vs).map(|((w, o), v)| (*w, *o, *v)).collect();
            lo.code.push(Inst::Store { lanes: lanes.into_boxed_slice(), p });
        }
        "getelementptr" => {
            while matches!(c.peek_word(), "inbounds" | "nuw" | "nusw") {
                c.word();
            }
            let et = c.ty();
            c.expect(b',');
            let pt = c.ty();
            let b = c.val(&pt);
            let base = lo.ops(&b, &pt)[0];
            let mut cur = et;
            let mut off = 0i64;
            let mut ts = vec![];
            let mut first = true;
            while c.peek() == b',' {
                // stop at metadata
                let save = c.p;
                c.p += 1;
                if c.peek() == b'!' {
                    c.p = save;
                    break;
                }
                let it = c.ty();
                let v = c.val(&it);
                let scale;
                let next;
                match &v {
                    Val::Const(k) => {
                        let i = crate::expr::sext(k[0].0 as u128 | (k[0].1 as u128) << 64, it.width()) as i64;
                        if first {
                            off += i.wrapping_mul(cur.size() as i64);
                        } else {
                            off += cur.field_off(i as u64) as i64;
                            cur = cur.field(i as u64);
                        }
                        first = false;
                        continue;
                    }
                    Val::Local(_) => {
                        if first {
                            scale = cur.size() as i64;
                            next = cur.clone();
                        } else {
                            next = cur.field(0);
                            scale = next.size() as i64;
                        }
                    }
                }
                first = false;
                cur = next;
                let o = lo.ops(&v, &it)[0];
                ts.push((o, scale, it.width()));
            }
            let d = lo.reg(res, 1);
            lo.code.push(Inst::Gep { dst: d, base, off, terms: ts.into_boxed_slice() });
        }
        "alloca" => {
            let t = c.ty();
            let mut count = None;
            let mut align = t.align();
            while c.eat(b',') {
                if c.eat_word("align") {
                    align = c.uint();
                } else if c.peek() == b'!' || c.peek() == b'a' {
                    break;
                } else {
                    let ct = c.ty();
                    let v = c.val(&ct);
                    count = Some((lo.ops(&v, &ct)[0], ct.width()));
                }
            }
            let d = lo.reg(res, 1);
            lo.code.push(Inst::Alloca { dst: d, size: t.size(), align: align.max(1), count });
        }
        "phi" => {
            fmf(c);
            let t = c.ty();
            let n = t.nlanes();
            let d = lo.reg(res, n);
            let mut inc = vec![];
            loop {
                c.expect(b'[');
                let v = c.val(&t);
                c.expect(b',');
                c.expect(b'%');
                let l = c.name();
                c.expect(b']');
                let o = lo.ops(&v, &t);
                inc.push((l, o));
                if c.peek() == b',' {
                    let save = c.p;
                    c.p += 1;
                    if c.peek() != b'[' {
                        c.p = save;
                        break;
                    }
                } else {
                    break;
                }
            }
            phis.entry(label).or_default().push((d, inc));
        }
        "br" => {
            if c.eat_word("label") {
                c.expect(b'%');
                let l = c.name();
                terms.push((Term::Br(lo.code.len(), l), label));
                lo.code.push(Inst::Br(dummy_edge()));
            } else {
                let t = c.ty();
                let v = c.val(&t);
                let o = lo.ops(&v, &t)[0];
                c.expect(b',');
                c.word();
                c.expect(b'%');
                let x = c.name();
                c.expect(b',');
                c.word();
                c.expect(b'%');
                let y = c.name();
                terms.push((Term::CondBr(lo.code.len(), x, y), label));
                lo.code.push(Inst::CondBr(o, dummy_edge(), dummy_edge()));
            }
        }
        "switch" => {
            let t = c.ty();
            let v = c.val(&t);
            let o = lo.ops(&v, &t)[0];
            c.expect(b',');
            c.word();
            c.expect(b'%');
            let d = c.name();
            c.expect(b'[');
            let mut cs = vec![];
            while {
                c.nl();
                !c.eat(b']')
            } {
                let kt = c.ty();
                let k = c.konst(&kt)[0];
                c.expect(b',');
                c.word();
                c.expect(b'%');
                let l = c.name();
                cs.push((k.0 as u128 | (k.1 as u128) << 64, l));
            }
            terms.push((Term::Switch(lo.code.len(), d, cs), label));
            lo.code.push(Inst::Switch {
                v: o,
                w: t.width(),
                cases: Box::new([]),
                edges: Box::new([]),
                default: 0,
            });
        }
        "ret" => {
            let t = c.ty();
            if t == Ty::Void {
                lo.code.push(Inst::Ret(Box::new([])));
            } else {
                let v = c.val(&t);
                let o = lo.ops(&v, &t);
                lo.code.push(Inst::Ret(o.into_boxed_slice()));
            }
        }
        "unreachable" => lo.code.push(Inst::Unreachable),
        "resume" | "landingpad" => {
            if op == "landingpad" {
                // never reached (unwinding is not modelled)
                let t = c.ty();
                lo.reg(res, t.nlanes());
                // skip clauses on following lines
                loop {
                    let save = c.p;
                    skip_line(c);
                    let w = c.peek_word();
                    if matches!(w, "cleanup" | "catch" | "filter") {
                        continue;
                    }
                    c.p = save;
                    // keep at end of current line
                    break;
                }
            }
            lo.code.push(Inst::Unsupported(op.to_string()));
        }
        "fence" => {}
        "extractvalue" => {
            let t = c.ty();
            let v = c.val(&t);
            let vs = lo.ops(&v, &t);
            let mut base = 0u32;
            let mut cur = t;
            while c.peek() == b',' {
                let save = c.p;
                c.p += 1;
                if c.peek() == b'!' {
                    c.p = save;
                    break;
                }
                let i = c.uint();
                for k in 0..i {
                    base += cur.field(k).nlanes();
                }
                cur = cur.field(i);
            }
            let n = cur.nlanes();
            let d = lo.reg(res, n);
            for k in 0..n {
                lo.code.push(Inst::Cast { c: Cast::Copy, from: 0, to: 0, dst: d + k, a: vs[(base + k) as usize] });
            }
        }
        "insertvalue" => {
            let t = c.ty();
            let v = c.val(&t);
            let vs = lo.ops(&v, &t);
            c.expect(b',');
            let et = c.ty();
            let ev = c.val(&et);
            let es = lo.ops(&ev, &et);
            let mut base = 0u32;
            let mut cur = t.clone();
            while c.peek() == b',' {
                let save = c.p;
                c.p += 1;
                if c.peek() == b'!' {
                    c.p = save;
                    break;
                }
                let i = c.uint();
                for k in 0..i {
                    base += cur.field(k).nlanes();
                }
                cur = cur.field(i);
            }
            let d = lo.reg(res, t.nlanes());
            for k in 0..t.nlanes() {
                let src = if k >= base && k < base + et.nlanes() { es[(k - base) as usize] } else { vs[k as usize] };
                lo.code.push(Inst::Cast { c: Cast::Copy, from: 0, to: 0, dst: d + k, a: src });
            }
        }
        "extractelement" => {
            let t = c.ty();
            let v = c.val(&t);
            let vs = lo.ops(&v, &t);
            c.expect(b',');
            let it = c.ty();
            let iv = c.val(&it);
            let d = lo.reg(res, 1);
            match iv {
                Val::Const(k) => {
                    let i = k[0].0 as usize;
                    lo.code.push(Inst::Cast { c: Cast::Copy, from: 0, to: 0, dst: d, a: vs[i] });
                }
                _ => {
                    let i = lo.ops(&iv, &it)[0];
                    lo.code.push(Inst::DynExtract { dst: d, base: vs.into_boxed_slice(), idx: i });
                }
            }
        }
        "insertelement" => {
            let t = c.ty();
            let v = c.val(&t);
            let vs = lo.ops(&v, &t);
            c.expect(b',');
            let et = c.ty();
            let ev = c.val(&et);
            let e = lo.ops(&ev, &et)[0];
            c.expect(b',');
            let it = c.ty();
            let iv = c.val(&it);
            let d = lo.reg(res, t.nlanes());
            match iv {
                Val::Const(k) => {
                    let i = k[0].0 as u32;
                    for q in 0..t.nlanes() {
                        let a = if q == i { e } else { vs[q as usize] };
                        lo.code.push(Inst::Cast { c: Cast::Copy, from: 0, to: 0, dst: d + q, a });
                    }
                }
                _ => lo.code.push(Inst::Unsupported("dynamic insertelement".into())),
            }
        }
        "shufflevector" => {
            let t = c.ty();
            let x = c.val(&t);
            c.expect(b',');
            let t2 = c.ty();
            let y = c.val(&t2);
            c.expect(b',');
            let mt = c.ty();
            let mv = c.konst(&mt);
            let mut all = lo.ops(&x, &t);
            all.extend(lo.ops(&y, &t2));
            let d = lo.reg(res, mt.nlanes());
            for (i, k) in mv.iter().enumerate() {
                lo.code.push(Inst::Cast { c: Cast::Copy, from: 0, to: 0, dst: d + i as u32, a: all[k.0 as usize] });
            }
        }
        "atomicrmw" => {
            while matches!(c.peek_word(), "volatile") {
                c.word();
            }
            let o = c.word();
            let pt = c.ty();
            let p = c.val(&pt);
            c.expect(b',');
            let t = c.ty();
            let v = c.val(&t);
            let p = lo.ops(&p, &pt)[0];
            let v = lo.ops(&v, &t)[0];
            let d = lo.reg(res, 1);
            lo.code.push(Inst::AtomicRmw { op: o, w: t.width(), dst: d, p, v });
        }
        "cmpxchg" => {
            while matches!(c.peek_word(), "weak" | "volatile") {
                c.word();
            }
            let pt = c.ty();
            let p = c.val(&pt);
            c.expect(b',');
            let t = c.ty();
            let x = c.val(&t);
            c.expect(b',');
            let t2 = c.ty();
            let y = c.val(&t2);
            let p = lo.ops(&p, &pt)[0];
            let x = lo.ops(&x, &t)[0];
            let y = lo.ops(&y, &t2)[0];
            let d = lo.reg(res, 2);
            lo.code.push(Inst::CmpXchg { w: t.width(), dst: d, p, c: x, n: y });
        }
        "call" | "invoke" => {
            lower_call(c, lo, res);
            if op == "invoke" {
                // "to label %x unwind label %y"
                loop {
                    c.nl();
                    let w = c.word();
                    if w == "to" {
                        break;
                    }
                    if w.is_empty() {
                        c.p += 1;
                    }
                }
                c.word();
                c.expect(b'%');
                let l = c.name();
                terms.push((Term::Br(lo.code.len(), l), label));
                lo.code.push(Inst::Br(dummy_edge()));
            }
        }
        _ => {
            c.fail(&format!("instruction {:?}", op));
        }
    }
}

fn packed_bits(t: &Ty) -> Option<u16> {
    match t {
        Ty::Vect(n, e) if **e == Ty::Int(1) => Some(*n as u16),
        _ => None,
    }
}

fn fmf(c: &mut Cur) {
    while matches!(
        c.peek_word(),
        "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
    ) {
        c.word();
    }
}

fn lower_call(c: &mut Cur, lo: &mut Lower, res: &'static str) {
    fmf(c);
    // calling convention
    loop {
        let w = c.peek_word();
        if w == "cc" {
            c.word();
            c.word();
        } else if w.ends_with("cc") && w != "cc" {
            c.word();
        } else {
            break;
        }
    }
    c.attrs();
    let mut rt = c.ty();
    if let Ty::FnTy(r) = &rt {
        rt = (**r).clone();
    }
    // callee
    enum Cal {
        Name(&'static str),
        Reg(Opnd),
        Asm(String),
    }
    let cal = match c.peek() {
        b'@' => {
            c.p += 1;
            Cal::Name(c.name())
        }
        b'%' => {
            c.p += 1;
            let n = c.name();
            Cal::Reg(lo.reg(n, 1))
        }
        _ => {
            if c.peek_word() == "asm" {
                c.word();
                while matches!(c.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") {
                    c.word();
                }
                let mut txt = String::new();
                for _ in 0..2 {
                    c.expect(b'"');
                    while c.s[c.p] != b'"' {
                        txt.push(c.s[c.p] as char);
                        c.p += 1;
                    }
                    c.p += 1;
                    txt.push('|');
                    c.eat(b',');
                }
                Cal::Asm(txt)
            } else {
                let k = c.konst(&Ty::Ptr);
                Cal::Reg(lo.k(k[0]))
            }
        }
    };
    c.expect(b'(');
    let mut args: Vec<(Ty, Vec<Opnd>)> = vec![];
    if !c.eat(b')') {
        loop {
            let t = c.ty();
            if t == Ty::Meta {
                // metadata argument: skip to , or )
                let mut d = 0;
                loop {
                    let ch = c.peek();
                    if (ch == b',' || ch == b')') && d == 0 {
                        break;
                    }
                    if ch == b'(' {
                        d += 1;
                    }
                    if ch == b')' {
                        d -= 1;
                    }
                    c.p += 1;
                }
            } else {
                c.attrs();
                let v = c.val(&t);
                let o = lo.ops(&v, &t);
                args.push((t, o));
            }
            if c.eat(b')') {
                break;
            }
            c.expect(b',');
        }
    }
    let nret = rt.nlanes();
    let d = if res.is_empty() {
        // result ignored
        let r = lo.nregs;
        lo.nregs += nret;
        r
    } else {
        lo.reg(res, nret)
    };
    let flat: Vec<Opnd> = args.iter().flat_map(|a| a.1.iter().copied()).collect();
    match cal {
        Cal::Asm(t) => {
            // cpuid and xgetbv answer zero; optimisation barriers are identities
            if t.contains("/*${0:q}*/") || (t.starts_with('|') && t.contains("=&r,0") ) {
                lo.code.push(Inst::Cast { c: Cast::Copy, from: 0, to: 0, dst: d, a: flat[0] });
            } else {
                let z = lo.k((0, 0));
                for i in 0..nret {
                    lo.code.push(Inst::Cast { c: Cast::Copy, from: 0, to: 0, dst: d + i, a: z });
                }
            }
        }
        Cal::Reg(r) => lo.code.push(Inst::Call { callee: Callee::Ind(r), args: flat.into_boxed_slice(), dst: d }),
        Cal::Name(n) if n.starts_with("llvm.") => {
            let base = n;
            if base.starts_with("llvm.memcpy") || base.starts_with("llvm.memmove") {
                lo.code.push(Inst::MemCpy { d: flat[0], s: flat[1], n: flat[2] });
                return;
            }
            if base.starts_with("llvm.memset") {
                lo.code.push(Inst::MemSet { d: flat[0], v: flat[1], n: flat[2] });
                return;
            }
            if base.starts_with("llvm.lifetime")
                || base.starts_with("llvm.assume")
                || base.starts_with("llvm.experimental.noalias")
                || base.starts_with("llvm.dbg")
                || base.starts_with("llvm.x86.sse2.pause")
                || base.starts_with("llvm.invariant")
                || base.starts_with("llvm.prefetch")
            {
                return;
            }
            if base.starts_with("llvm.trap") || base.starts_with("llvm.ubsantrap") {
                lo.code.push(Inst::Unreachable);
                return;
            }
            let parts: Vec<&str> = base.split('.').collect();
            let i = match parts[1] {
                "abs" => Intr::Abs,
                "bitreverse" => Intr::Bitreverse,
                "bswap" => Intr::Bswap,
                "copysign" => Intr::Copysign,
                "fabs" => Intr::Fabs,
                "ctlz" => Intr::Ctlz,
                "ctpop" => Intr::Ctpop,
                "cttz" => Intr::Cttz,
                "fshl" => Intr::Fshl,
                "fshr" => Intr::Fshr,
                "sadd" if parts[2] == "sat" => Intr::SAddSat,
                "ssub" if parts[2] == "sat" => Intr::SSubSat,
                "uadd" if parts[2] == "sat" => Intr::UAddSat,
                "usub" if parts[2] == "sat" => Intr::USubSat,
                "sadd" => Intr::SAddO,
                "ssub" => Intr::SSubO,
                "smul" => Intr::SMulO,
                "uadd" => Intr::UAddO,
                "usub" => Intr::USubO,
                "umul" => Intr::UMulO,
                "scmp" => Intr::Scmp,
                "ucmp" => Intr::Ucmp,
                "smax" => Intr::Smax,
                "smin" => Intr::Smin,
                "umax" => Intr::Umax,
                "umin" => Intr::Umin,
                "is" | "x86" => Intr::Zero,
                "threadlocal" | "expect" | "ptrmask" | "launder" | "strip" => Intr::Ident,
                _ => {
                    lo.code.push(Inst::Unsupported(format!("intrinsic {}", n)));
                    return;
                }
            };
            let at = args.first().map(|a| a.0.clone()).unwrap_or(Ty::Int(64));
            if let Ty::Vect(k, _) = &at {
                // lanewise
                let k = *k as usize;
                let w = at.width();
                for q in 0..k {
                    let la: Vec<Opnd> =
                        args.iter().map(|a| if a.1.len() == k { a.1[q] } else { a.1[0] }).collect();
                    lo.code.push(Inst::Intr { i, w, dst: d + q as u32, args: la.into_boxed_slice() });
                }
                return;
            }
            let w = at.width();
            if matches!(i, Intr::Zero) {
                let z = lo.k((0, 0));
                lo.code.push(Inst::Cast { c: Cast::Copy, from: 0, to: 0, dst: d, a: z });
                return;
            }
            lo.code.push(Inst::Intr { i, w, dst: d, args: flat.into_boxed_slice() });
        }
        Cal::Name(n) => {
            let id = c.func_ref(n);
            lo.code.push(Inst::Call { callee: Callee::Func(id), args: flat.into_boxed_slice(), dst: d });
        }
    }
    let _ = lo.tmp();
}
