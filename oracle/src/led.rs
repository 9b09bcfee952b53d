//! Ledgers: directives as the user writes them, in a beanfile or as request parameters.
use crate::json::{jquote, quote};
use crate::num::{Amt, Num};

pub type N = &'static str; // names: accounts, currencies, dates, flags
pub type T = Vec<u8>; // free text

#[derive(Clone, Debug)]
pub enum Mv {
    Amount(Amt, N),
    Str(T),
    Cur(N),
    Acc(N),
    Tag(N),
    Link(N),
    Date(N),
    Bool(bool),
    Num(Amt),
    Null,
}

#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub tags: Vec<N>,
    pub links: Vec<N>,
    pub kv: Vec<(N, Mv)>,
}

#[derive(Clone, Debug, Default)]
pub struct CostSpec {
    pub per: Option<Amt>,
    pub total: Option<Amt>,
    pub cur: Option<N>,
    pub date: Option<N>,
    pub label: Option<T>,
    pub merge: bool,
    /// written the other way round
    pub rev: bool,
}

#[derive(Clone, Debug, Default)]
pub struct PriceSpec {
    pub per: Option<Amt>,
    pub total: Option<Amt>,
    pub cur: Option<N>,
}

#[derive(Clone, Debug)]
pub struct Post {
    pub flag: Option<N>,
    pub acc: N,
    pub units: Option<Amt>,
    pub cur: Option<N>,
    pub cost: Option<CostSpec>,
    pub price: Option<PriceSpec>,
    pub meta: Meta,
}

pub fn post(acc: N, units: Amt, cur: N) -> Post {
    Post { flag: None, acc, units: Some(units), cur: Some(cur), cost: None, price: None, meta: Meta::default() }
}
pub fn auto(acc: N) -> Post {
    Post { flag: None, acc, units: None, cur: None, cost: None, price: None, meta: Meta::default() }
}

#[derive(Clone, Debug)]
pub enum V {
    Txn { flag: N, payee: Option<T>, narr: Option<T>, posts: Vec<Post> },
    Open { acc: N, curs: Vec<N>, booking: Option<N> },
    Close { acc: N },
    Bal { acc: N, units: Amt, cur: N, tol: Option<Amt> },
    Pad { acc: N, src: N },
    Price { cur: N, per: Amt, pcur: N },
    Commodity { cur: N },
    Note { acc: N, text: T },
    Document { acc: N, path: T },
    Event { ty: T, text: T },
    Query { name: T, text: T },
    Custom { ty: T, vals: Vec<Mv> },
}

#[derive(Clone, Debug)]
pub struct Dir {
    pub date: N,
    pub meta: Meta,
    pub v: V,
}

pub fn dir(date: N, v: V) -> Dir {
    Dir { date, meta: Meta::default(), v }
}
pub fn open(date: N, acc: N) -> Dir {
    dir(date, V::Open { acc, curs: vec![], booking: None })
}
pub fn open_curs(date: N, acc: N, curs: &[N]) -> Dir {
    dir(date, V::Open { acc, curs: curs.to_vec(), booking: None })
}
pub fn open_method(date: N, acc: N, m: Option<N>) -> Dir {
    dir(date, V::Open { acc, curs: vec![], booking: m })
}
pub fn close(date: N, acc: N) -> Dir {
    dir(date, V::Close { acc })
}
pub fn pad(date: N, acc: N, src: N) -> Dir {
    dir(date, V::Pad { acc, src })
}
pub fn bal(date: N, acc: N, units: Amt, cur: N) -> Dir {
    dir(date, V::Bal { acc, units, cur, tol: None })
}
pub fn bal_tol(date: N, acc: N, units: Amt, cur: N, tol: Option<Amt>) -> Dir {
    dir(date, V::Bal { acc, units, cur, tol })
}
pub fn txn(date: N, posts: Vec<Post>) -> Dir {
    dir(date, V::Txn { flag: "*", payee: None, narr: Some(b"t".to_vec()), posts })
}
/// a two-legged transfer
pub fn move_(date: N, a: N, b: N, x: &Amt, cur: N) -> Dir {
    txn(date, vec![post(a, x.clone(), cur), post(b, x.neg(), cur)])
}

/// the same on the given day of January 2020 (1 to 9), which may be symbolic
pub fn dir_on(day: u64, v: V) -> Dir {
    dir(day_name(day), v)
}
pub fn day_name(day: u64) -> N {
    let mut t = b"2020-01-0".to_vec();
    t.push(b'0' + day as u8);
    name(t)
}
pub fn name(t: Vec<u8>) -> N {
    Box::leak(unsafe { String::from_utf8_unchecked(t) }.into_boxed_str())
}

impl Dir {
    pub fn kind(&self) -> &'static str {
        match &self.v {
            V::Txn { .. } => "txn",
            V::Open { .. } => "open",
            V::Close { .. } => "close",
            V::Bal { .. } => "balance",
            V::Pad { .. } => "pad",
            V::Price { .. } => "price",
            V::Commodity { .. } => "commodity",
            V::Note { .. } => "note",
            V::Document { .. } => "document",
            V::Event { .. } => "event",
            V::Query { .. } => "query",
            V::Custom { .. } => "custom",
        }
    }
}

/// A beanfile under construction, with the place of everything in it.
#[derive(Default, Clone)]
pub struct Text {
    pub b: Vec<u8>,
    /// start offset of each directive, in textual order
    pub dirs: Vec<usize>,
    pub ends: Vec<usize>,
    /// start offset of each posting of each directive
    pub posts: Vec<Vec<usize>>,
}

impl Text {
    pub fn s(&mut self, s: &str) -> &mut Self {
        self.b.extend_from_slice(s.as_bytes());
        self
    }
    pub fn v(&mut self, s: &[u8]) -> &mut Self {
        self.b.extend_from_slice(s);
        self
    }
    pub fn str(&mut self, s: &[u8]) -> &mut Self {
        let q = quote(s);
        self.v(&q)
    }
    fn mv(&mut self, v: &Mv) {
        match v {
            Mv::Amount(a, c) => self.v(&a.text).s(" ").s(c),
            Mv::Str(t) => self.str(t),
            Mv::Cur(c) => self.s(c),
            Mv::Acc(a) => self.s(a),
            Mv::Tag(t) => self.s("#").s(t),
            Mv::Link(t) => self.s("^").s(t),
            Mv::Date(d) => self.s(d),
            Mv::Bool(b) => self.s(if *b { "TRUE" } else { "FALSE" }),
            Mv::Num(a) => self.v(&a.text),
            Mv::Null => self.s("NULL"),
        };
    }
    fn inline_meta(&mut self, m: &Meta) {
        for t in &m.tags {
            self.s(" #").s(t);
        }
        for t in &m.links {
            self.s(" ^").s(t);
        }
    }
    fn kv(&mut self, m: &Meta, indent: &str) {
        for (k, v) in &m.kv {
            self.s(indent).s(k).s(": ");
            self.mv(v);
            self.s("\n");
        }
    }
    pub fn dir(&mut self, d: &Dir) {
        self.dirs.push(self.b.len());
        let mut ps = vec![];
        self.s(d.date).s(" ");
        match &d.v {
            V::Txn { flag, payee, narr, posts } => {
                self.s(flag);
                if let Some(p) = payee {
                    self.s(" ").str(p);
                }
                if let Some(n) = narr {
                    self.s(" ").str(n);
                }
                self.inline_meta(&d.meta);
                self.s("\n");
                self.kv(&d.meta, "  ");
                for p in posts {
                    self.s("  ");
                    ps.push(self.b.len());
                    if let Some(f) = p.flag {
                        self.s(f).s(" ");
                    }
                    self.s(p.acc);
                    if let Some(u) = &p.units {
                        self.s(" ").v(&u.text);
                    }
                    if let Some(c) = p.cur {
                        self.s(" ").s(c);
                    }
                    if let Some(c) = &p.cost {
                        self.s(" {");
                        let mut sep = " ";
                        for k in 0..4 {
                            match if c.rev { 3 - k } else { k } {
                                0 if c.per.is_some() || c.total.is_some() || c.cur.is_some() => {
                                    self.s(sep);
                                    if let Some(x) = &c.per {
                                        self.s(" ").v(&x.text);
                                    }
                                    if let Some(x) = &c.total {
                                        self.s(" # ").v(&x.text);
                                    }
                                    if let Some(x) = c.cur {
                                        self.s(" ").s(x);
                                    }
                                }
                                1 if c.date.is_some() => {
                                    self.s(sep).s(c.date.unwrap());
                                }
                                2 if c.label.is_some() => {
                                    self.s(sep).str(c.label.as_ref().unwrap());
                                }
                                3 if c.merge => {
                                    self.s(sep).s("*");
                                }
                                _ => continue,
                            }
                            sep = ", ";
                        }
                        self.s(" }");
                    }
                    if let Some(c) = &p.price {
                        self.s(if c.total.is_some() { " @@" } else { " @" });
                        if let Some(x) = c.per.as_ref().or(c.total.as_ref()) {
                            self.s(" ").v(&x.text);
                        }
                        if let Some(x) = c.cur {
                            self.s(" ").s(x);
                        }
                    }
                    self.inline_meta(&p.meta);
                    self.s("\n");
                    self.kv(&p.meta, "    ");
                }
            }
            v => {
                self.s(d.kind()).s(" ");
                match v {
                    V::Open { acc, curs, booking } => {
                        self.s(acc);
                        for (i, c) in curs.iter().enumerate() {
                            self.s(if i == 0 { " " } else { "," }).s(c);
                        }
                        if let Some(b) = booking {
                            self.s(" \"").s(&b.to_uppercase().replace('-', "_")).s("\"");
                        }
                    }
                    V::Close { acc } => {
                        self.s(acc);
                    }
                    V::Bal { acc, units, cur, tol } => {
                        self.s(acc).s(" ").v(&units.text);
                        if let Some(t) = tol {
                            self.s(" ~ ").v(&t.text);
                        }
                        self.s(" ").s(cur);
                    }
                    V::Pad { acc, src } => {
                        self.s(acc).s(" ").s(src);
                    }
                    V::Price { cur, per, pcur } => {
                        self.s(cur).s(" ").v(&per.text).s(" ").s(pcur);
                    }
                    V::Commodity { cur } => {
                        self.s(cur);
                    }
                    V::Note { acc, text } => {
                        self.s(acc).s(" ").str(text);
                    }
                    V::Document { acc, path } => {
                        self.s(acc).s(" ").str(path);
                    }
                    V::Event { ty, text } => {
                        self.str(ty).s(" ").str(text);
                    }
                    V::Query { name, text } => {
                        self.str(name).s(" ").str(text);
                    }
                    V::Custom { ty, vals } => {
                        self.str(ty);
                        for x in vals {
                            self.s(" ");
                            self.mv(x);
                        }
                    }
                    V::Txn { .. } => {}
                }
                self.inline_meta(&d.meta);
                self.s("\n");
                self.kv(&d.meta, "  ");
            }
        }
        self.ends.push(self.b.len());
        self.posts.push(ps);
    }
}

/// the beanfile holding `dirs` after the given header
pub fn beanfile(header: &[u8], dirs: &[Dir]) -> Text {
    let mut t = Text { b: header.to_vec(), ..Text::default() };
    for d in dirs {
        t.dir(d);
    }
    t
}

/// ledger order: by date; on one day accounts are opened first, then balances, then the rest
pub fn order(dirs: &[Dir]) -> Vec<usize> {
    let key = |d: &Dir| {
        (
            d.date,
            match d.v {
                V::Open { .. } => 0,
                V::Bal { .. } => 1,
                _ => 2,
            },
        )
    };
    let mut o: Vec<usize> = (0..dirs.len()).collect();
    o.sort_by(|&a, &b| key(&dirs[a]).cmp(&key(&dirs[b])));
    o
}

/// JSON text
#[derive(Default)]
pub struct Js {
    pub b: Vec<u8>,
}

impl Js {
    pub fn raw(&mut self, s: &[u8]) -> &mut Self {
        self.b.extend_from_slice(s);
        self
    }
    fn sep(&mut self) {
        if !matches!(self.b.last(), None | Some(b'{') | Some(b'[') | Some(b':')) {
            self.b.push(b',');
        }
    }
    pub fn key(&mut self, k: &str) -> &mut Self {
        self.sep();
        let q = quote(k.as_bytes());
        self.raw(&q).raw(b":")
    }
    pub fn text(&mut self, k: &str, v: &[u8]) {
        self.key(k);
        let q = jquote(v);
        self.raw(&q);
    }
    pub fn name(&mut self, k: &str, v: N) {
        self.text(k, v.as_bytes())
    }
    pub fn amt(&mut self, k: &str, a: &Amt) {
        self.key(k).raw(&a.text);
    }
    fn mv(&mut self, v: &Mv) {
        if let Mv::Null = v {
            self.raw(b"null");
            return;
        }
        self.raw(b"{");
        match v {
            Mv::Amount(a, c) => {
                self.amt("units", a);
                self.name("cur", c);
            }
            Mv::Str(t) => self.text("string", t),
            Mv::Cur(c) => self.name("cur", c),
            Mv::Acc(a) => self.name("acc", a),
            Mv::Tag(t) => self.name("tag", t),
            Mv::Link(t) => self.name("link", t),
            Mv::Date(d) => self.name("date", d),
            Mv::Bool(b) => {
                self.key("bool").raw(if *b { b"true" } else { b"false" });
            }
            Mv::Num(a) => self.amt("number", a),
            Mv::Null => {}
        }
        self.raw(b"}");
    }
    fn names(&mut self, k: &str, v: &[N]) {
        if v.is_empty() {
            return;
        }
        self.key(k).raw(b"[");
        for x in v {
            self.sep();
            let q = quote(x.as_bytes());
            self.raw(&q);
        }
        self.raw(b"]");
    }
    fn meta(&mut self, m: &Meta) {
        self.names("tags", &m.tags);
        self.names("links", &m.links);
        if !m.kv.is_empty() {
            self.key("metadata").raw(b"{");
            for (k, v) in &m.kv {
                self.key(k);
                self.mv(v);
            }
            self.raw(b"}");
        }
    }
    /// a directive as parser.directives exports it, without spans
    pub fn dir(&mut self, d: &Dir) {
        self.sep();
        self.raw(b"{");
        self.name("date", d.date);
        self.meta(&d.meta);
        self.name("dct", d.kind());
        match &d.v {
            V::Txn { flag, payee, narr, posts } => {
                self.name("flag", flag);
                if let Some(p) = payee {
                    self.text("payee", p);
                }
                if let Some(p) = narr {
                    self.text("narration", p);
                }
                self.key("postings").raw(b"[");
                for p in posts {
                    self.sep();
                    self.raw(b"{");
                    if let Some(f) = p.flag {
                        self.name("flag", f);
                    }
                    self.name("acc", p.acc);
                    if let Some(u) = &p.units {
                        self.amt("units", u);
                    }
                    if let Some(c) = p.cur {
                        self.name("cur", c);
                    }
                    if let Some(c) = &p.cost {
                        self.key("cost-spec").raw(b"{");
                        if let Some(x) = &c.per {
                            self.amt("per-unit", x);
                        }
                        if let Some(x) = &c.total {
                            self.amt("total", x);
                        }
                        if let Some(x) = c.cur {
                            self.name("cur", x);
                        }
                        if let Some(x) = c.date {
                            self.name("date", x);
                        }
                        if let Some(x) = &c.label {
                            self.text("label", x);
                        }
                        if c.merge {
                            self.key("merge").raw(b"true");
                        }
                        self.raw(b"}");
                    }
                    if let Some(c) = &p.price {
                        self.key("price-spec").raw(b"{");
                        if let Some(x) = &c.per {
                            self.amt("per-unit", x);
                        }
                        if let Some(x) = &c.total {
                            self.amt("total", x);
                        }
                        if let Some(x) = c.cur {
                            self.name("cur", x);
                        }
                        self.raw(b"}");
                    }
                    self.meta(&p.meta);
                    self.raw(b"}");
                }
                self.raw(b"]");
            }
            V::Open { acc, curs, booking } => {
                self.name("acc", acc);
                self.names("currencies", curs);
                if let Some(b) = booking {
                    self.name("booking", b);
                }
            }
            V::Close { acc } => self.name("acc", acc),
            V::Bal { acc, units, cur, tol } => {
                self.name("acc", acc);
                self.amt("units", units);
                self.name("cur", cur);
                if let Some(t) = tol {
                    self.amt("tolerance", t);
                }
            }
            V::Pad { acc, src } => {
                self.name("acc", acc);
                self.name("source", src);
            }
            V::Price { cur, per, pcur } => {
                self.name("cur", cur);
                self.key("price").raw(b"{");
                self.amt("per-unit", per);
                self.name("cur", pcur);
                self.raw(b"}");
            }
            V::Commodity { cur } => self.name("cur", cur),
            V::Note { acc, text } => {
                self.name("acc", acc);
                self.text("comment", text);
            }
            V::Document { acc, path } => {
                self.name("acc", acc);
                self.text("path", path);
            }
            V::Event { ty, text } => {
                self.text("type", ty);
                self.text("description", text);
            }
            V::Query { name, text } => {
                self.text("name", name);
                self.text("content", text);
            }
            V::Custom { ty, vals } => {
                self.text("type", ty);
                self.key("values").raw(b"[");
                for v in vals {
                    self.sep();
                    self.mv(v);
                }
                self.raw(b"]");
            }
        }
        self.raw(b"}");
    }
}

pub fn params<'a>(dirs: impl Iterator<Item = &'a Dir>) -> Vec<u8> {
    let mut j = Js::default();
    j.raw(b"[");
    for d in dirs {
        j.dir(d);
    }
    j.raw(b"]");
    j.b
}

pub fn zero(n: Num) -> bool {
    n.is_zero()
}
