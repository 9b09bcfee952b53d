//! Talking to the server and reading its answers.
use crate::json::{self, J};
use crate::led::*;
use crate::model::*;
use crate::num::Num;
use crate::sx;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

pub const BOOK: &[u8] = br#"{"jsonrpc":"2.0","id":1,"method":"book"}"#;
pub const DIRECTIVES: &[u8] = br#"{"jsonrpc":"2.0","id":2,"method":"parser.directives"}"#;
pub const OPTIONS: &[u8] = br#"{"jsonrpc":"2.0","id":3,"method":"parser.options"}"#;
pub const PLUGINS: &[u8] = br#"{"jsonrpc":"2.0","id":4,"method":"parser.plugins"}"#;

pub fn request(method: &str, params: &[u8]) -> Vec<u8> {
    let mut v = br#"{"jsonrpc":"2.0","id":1,"method":""#.to_vec();
    v.extend(method.as_bytes());
    v.extend(br#"","params":"#);
    v.extend(params);
    v.push(b'}');
    v
}

/// serve `file`, sending the request lines; the response lines
pub fn serve(file: &[u8], reqs: &[Vec<u8>]) -> Vec<Vec<u8>> {
    serve_in(file, reqs, &[])
}
/// the same where the hash tables of the server are seeded by the given number
pub fn serve_seeded(file: &[u8], reqs: &[Vec<u8>], seed: u8) -> Vec<Vec<u8>> {
    let mut e = b"SX_SEED=".to_vec();
    e.push(b'0' + seed);
    serve_in(file, reqs, &[&e])
}
/// the same where reads and writes are partial or interrupted by the given schedules
pub fn serve_scheduled(file: &[u8], reqs: &[Vec<u8>], reads: &[u8], writes: &[u8]) -> Vec<Vec<u8>> {
    serve_in(file, reqs, &[&[b"SX_READS=", reads].concat(), &[b"SX_WRITES=", writes].concat()])
}
fn serve_in(file: &[u8], reqs: &[Vec<u8>], env: &[&[u8]]) -> Vec<Vec<u8>> {
    sx::file("/v/l.bean", file);
    let mut input = vec![];
    for r in reqs {
        input.extend(r);
        input.push(b'\n');
    }
    sx::stdin(&input);
    sx::args(&[b"limabean-pod", b"serve", b"/v/l.bean"]);
    sx::env(env);
    let code = sx::run(0);
    sx::check(code == 0, "the server ends with status 0");
    lines(&sx::out(1))
}

pub fn lines(o: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut s = 0;
    for i in 0..o.len() {
        if o[i] == b'\n' {
            v.push(o[s..i].to_vec());
            s = i + 1;
        }
    }
    if s < o.len() {
        v.push(o[s..].to_vec());
    }
    v
}

/// like serve, with every answer parsed
pub fn ask(file: &[u8], reqs: &[Vec<u8>]) -> Vec<J> {
    let l = serve(file, reqs);
    sx::check(l.len() == reqs.len(), "one answer per request");
    l.iter()
        .map(|x| match json::parse(x) {
            Some(j) => j,
            None => {
                sx::fail("the answer is JSON");
                J::Null
            }
        })
        .collect()
}

/// An error as reported.
#[derive(Debug)]
pub struct AEr {
    pub dir: usize,
    pub post: Option<usize>,
    pub reason: Vec<u8>,
    pub related: Vec<(usize, Option<usize>)>,
    pub annotation: Vec<u8>,
    /// the directives around, where these are given as spans
    pub around: Option<Vec<(usize, Option<usize>)>>,
}

pub enum Ans {
    Booked(Vec<J>),
    Errs(Vec<AEr>),
}

/// Where a span or an index points: (directive in booking order, posting)
pub struct Place<'a> {
    pub text: &'a Text,
    pub order: &'a [usize],
}

impl Place<'_> {
    fn span(&self, j: &J) -> Option<(usize, Option<usize>)> {
        let a = j.arr();
        if a.len() != 3 {
            return None;
        }
        let start = a[1].int()? as usize;
        for (k, &d) in self.order.iter().enumerate() {
            if self.text.dirs[d] == start {
                return Some((k, None));
            }
            if let Some(p) = self.text.posts[d].iter().position(|&s| s == start) {
                return Some((k, Some(p)));
            }
        }
        None
    }
}

fn index(j: &J) -> Option<(usize, Option<usize>)> {
    let a = j.arr();
    match a.len() {
        1 => Some((a[0].int()? as usize, None)),
        2 => Some((a[0].int()? as usize, Some(a[1].int()? as usize))),
        _ => None,
    }
}

/// the answer to a book request
pub fn answer(j: &J, place: Option<&Place>) -> Ans {
    if let Some(r) = j.get("result") {
        sx::check(j.get("error").is_none(), "result and error at once");
        return Ans::Booked(r.get("directives").map_or(vec![], |d| d.arr().to_vec()));
    }
    let mut v = vec![];
    let data = j.get("error").and_then(|e| e.get("data"));
    match data {
        None => sx::fail("a book answer is a result or lists errors"),
        Some(d) => {
            for e in d.arr() {
                let at = match place {
                    Some(p) => e.get("span").and_then(|s| p.span(s)),
                    None => e.get("idx").and_then(index),
                };
                let (dir, post) = match at {
                    Some(x) => x,
                    None => {
                        sx::fail("an error points to a directive or posting");
                        (0, None)
                    }
                };
                let mut related = vec![];
                for r in e.get("related").map_or(&[][..], |r| r.arr()) {
                    let at = match place {
                        Some(p) => r.arr().get(1).and_then(|s| p.span(s)),
                        None => index(r),
                    };
                    match at {
                        Some(x) => related.push(x),
                        None => sx::fail("a related element exists"),
                    }
                }
                let around = place.map(|p| {
                    let c = e.get("contexts").map_or(&[][..], |c| c.arr());
                    c.iter().filter_map(|r| r.arr().get(1).and_then(|s| p.span(s))).collect()
                });
                v.push(AEr { around, dir, post, reason: e.get_str("reason").unwrap_or(b"").to_vec(), related, annotation: e.get_str("annotation").unwrap_or(b"").to_vec() });
            }
        }
    }
    Ans::Errs(v)
}

/// numbers in a text, each with the word that follows
pub fn numbers(t: &[u8]) -> Vec<(Num, Vec<u8>)> {
    let words: Vec<&[u8]> = t.split(|&b| b == b' ' || b == b',' || b == b':').filter(|w| !w.is_empty()).collect();
    let mut v = vec![];
    for (i, w) in words.iter().enumerate() {
        if let Some(n) = crate::num::parse(w) {
            v.push((n, words.get(i + 1).map_or(vec![], |w| w.to_vec())));
        }
    }
    v
}

pub const WHERE: u32 = 1; // which directives fail
pub const POST: u32 = 2; // which posting
pub const RELATED: u32 = 4;
pub const DIFF: u32 = 8;
pub const UNITS: u32 = 16; // units, currency, account, index of booked postings
pub const PADS: u32 = 32; // synthesised transactions
pub const COST: u32 = 64; // costs and prices
pub const SEQ: u32 = 128; // the sequence of booked directives
pub const NEAR: u32 = 256; // missing amounts the size of the tolerance
pub const WRITTEN: u32 = 1024; // of the units only those written
pub const WHY: u32 = 512; // the postings that led to a failed balance

/// the explanation of a failed balance
fn explained(dirs: &[&Dir], w: &Why, x: &AEr) {
    match numbers(&x.reason).first() {
        Some((k, _)) => sx::check(k.eq(w.total), "the error states what was accumulated"),
        None => sx::fail("the error states what was accumulated"),
    }
    let lines: Vec<&[u8]> = x.annotation.split(|b| *b == b'\n').filter(|l| !l.is_empty()).collect();
    sx::check(lines.len() == w.rows.len(), "every posting since the last balance is listed once");
    let many = w.rows.iter().any(|r| r.1 != w.rows[0].1);
    for (l, (date, acc, units, total, dir)) in lines.iter().zip(&w.rows) {
        let mut t: Vec<&[u8]> = l.split(|b| *b == b' ').filter(|w| !w.is_empty()).collect();
        if t.is_empty() {
            sx::fail("a posting is listed with its date");
            continue;
        }
        sx::check(crate::json::same(t.remove(0), date.as_bytes()), "a posting is listed with its date");
        if many && *acc != w.base {
            let sub = &acc.as_bytes()[w.base.len()..];
            sx::check(!t.is_empty() && t[0] == sub, "a posting is listed with its account");
            if !t.is_empty() {
                t.remove(0);
            }
        }
        let num = |i: usize| t.get(i).and_then(|w| crate::num::parse(w));
        match (num(0), num(1)) {
            (Some(a), Some(b)) => {
                sx::check(a.eq(*units), "a posting is listed with its units");
                sx::check(b.eq(*total), "a posting is listed with the total so far");
            }
            _ => sx::fail("a posting is listed with its units and the total"),
        }
        if let V::Txn { payee, narr, .. } = &dirs[*dir].v {
            let some = |t: &Option<T>| t.as_ref().filter(|t| !t.is_empty()).cloned();
            let d = some(payee).or(some(narr)).unwrap_or_default();
            let words: Vec<&[u8]> = d.split(|b| *b == b' ').filter(|w| !w.is_empty()).collect();
            let rest = &t[2.min(t.len())..];
            sx::check(
                words.len() == rest.len() && words.iter().zip(rest).fold(true, |r, (a, b)| r & (a.len() == b.len() && crate::json::same(a, b))),
                "a posting is listed with the payee, or else the narration",
            );
        }
    }
}

/// Compare a book answer with the model.
pub fn judge(dirs: &[&Dir], m: &Outcome, a: &Ans, what: u32) {
    match a {
        Ans::Errs(v) => {
            sx::check(!m.errs.is_empty(), "a valid ledger is booked");
            sx::reach(101);
            if what & WHERE != 0 {
                sx::check(v.len() == m.errs.len(), "every invalid directive is reported exactly once, and nothing else");
            }
            for (x, e) in v.iter().zip(&m.errs) {
                if what & WHERE != 0 {
                    sx::check(x.dir == e.dir, "the error is on the invalid directive, in directive order");
                }
                if x.dir != e.dir {
                    continue;
                }
                if what & POST != 0 {
                    sx::check(e.posts.contains(&x.post), "the error is on the posting concerned");
                }
                if what & POST != 0 {
                    if let (Some(_), Some(c)) = (x.post, &x.around) {
                        sx::check(c.contains(&(x.dir, None)), "the error is within its transaction");
                    }
                }
                if what & RELATED != 0 {
                    if let Some(r) = e.related {
                        sx::check(x.related.iter().any(|y| y.0 == r), "the error refers to the related directive");
                    }
                }
                if what & WHY != 0 {
                    if let Some(w) = &e.why {
                        explained(dirs, w, x);
                    }
                }
                if what & DIFF != 0 {
                    if let Some((d, cur)) = e.diff {
                        let ns = numbers(&x.reason);
                        match ns.last() {
                            Some((k, c)) => {
                                sx::check(k.eq(d), "the error states asserted minus held");
                                sx::check(c == cur.as_bytes(), "the error states the currency");
                            }
                            None => sx::fail("the error states the difference"),
                        }
                    }
                }
            }
        }
        Ans::Booked(v) => {
            sx::check(m.errs.is_empty(), "an invalid ledger is not booked");
            sx::reach(100);
            if m.errs.is_empty() {
                booked(dirs, &m.booked, v, what);
            }
        }
    }
}

pub fn booked(dirs: &[&Dir], m: &[Booked], v: &[J], what: u32) {
    if what & SEQ != 0 {
        sx::check(v.len() == m.len(), "each directive is booked exactly once, with one transaction per pad");
    }
    for (x, b) in v.iter().zip(m) {
        let d = dirs[b.dir];
        if what & SEQ != 0 {
            sx::check(x.get("idx").and_then(|i| i.int()) == Some(b.dir as i64), "a booked directive carries its index");
            sx::check(x.has("date", d.date.as_bytes()), "a booked directive carries its date");
            let kind = if b.synth { "txn" } else { d.kind() };
            sx::check(x.has("dct", kind.as_bytes()), "a booked directive has its kind");
        }
        if let Some(posts) = &b.posts {
            if b.synth && what & PADS != 0 {
                pad_txn(d, posts, x);
            }
            if !b.synth && what & UNITS != 0 {
                postings(posts, x, what);
            }
        }
    }
}

fn pad_txn(d: &Dir, posts: &[BPost], x: &J) {
    sx::check(x.has("dct", b"txn") && x.has("date", d.date.as_bytes()), "the pad is followed by a transaction of its date");
    let ps = x.get("postings").map_or(&[][..], |p| p.arr());
    sx::check(ps.len() == posts.len(), "the pad transaction has two postings");
    if ps.len() == 2 && posts[0].acc == posts[1].acc {
        // padded from itself
        let u: Vec<Num> = ps.iter().filter_map(|p| p.get_num("units")).collect();
        let d = posts[0].units;
        sx::check(
            u.len() == 2 && (u[0].eq(d) & u[1].eq(d.neg())) | (u[1].eq(d) & u[0].eq(d.neg())),
            "the pad amount is exactly what was missing",
        );
        for p in ps {
            sx::check(p.has("acc", posts[0].acc.as_bytes()), "the pad transaction posts to the padded account and the source");
            sx::check(p.has("cur", posts[0].cur.as_bytes()), "the pad is in the asserted currency");
        }
        return;
    }
    // the padded account and the source may be listed in either order
    for b in posts {
        let found = ps.iter().find(|p| p.has("acc", b.acc.as_bytes()));
        match found {
            None => sx::fail("the pad transaction posts to the padded account and the source"),
            Some(p) => {
                sx::check(p.has("cur", b.cur.as_bytes()), "the pad is in the asserted currency");
                match p.get_num("units") {
                    Some(n) => sx::check(n.eq(b.units), "the pad amount is exactly what was missing"),
                    None => sx::fail("the pad posting has units"),
                }
            }
        }
    }
}

fn postings(posts: &[BPost], x: &J, what: u32) {
    let ps = x.get("postings").map_or(&[][..], |p| p.arr());
    sx::check(ps.len() == posts.len(), "the transaction has its postings");
    for (p, b) in ps.iter().zip(posts) {
        sx::check(p.get("idx").and_then(|i| i.int()) == b.idx.map(|i| i as i64), "a booked posting carries its index");
        sx::check(p.has("acc", b.acc.as_bytes()), "a booked posting keeps its account");
        sx::check(p.has("cur", b.cur.as_bytes()), "a booked posting has its currency");
        match p.get_num("units") {
            Some(_) if b.inferred && what & WRITTEN != 0 => {}
            Some(n) => {
                if b.or_zero {
                    // the residual is within tolerance
                    sx::check(n.eq(b.units) | n.is_zero(), "the missing amount is the negated sum of the others (or zero if that is within tolerance)");
                    if what & NEAR != 0 {
                        sx::check(n.eq(b.units), "[residual-within-tolerance] the missing amount is exactly the negated sum of the others");
                    }
                } else if b.inferred {
                    sx::check(n.eq(b.units), "the missing amount is exactly the negated sum of the others");
                } else {
                    sx::check(n.eq(b.units) && (n.s == b.units.s || b.lot.is_some()), "a booked posting has exactly the units written");
                }
            }
            None => sx::fail("a booked posting has units"),
        }
        if what & COST != 0 {
            costs(b, p);
        }
    }
}

fn costs(b: &BPost, p: &J) {
    match (&b.lot, p.get("cost")) {
        (None, None) => {}
        (Some(l), Some(c)) => {
            sx::check(c.has("date", l.date.as_bytes()), "the cost has its date");
            sx::check(c.has("cur", l.cur.as_bytes()), "the cost has its currency");
            match &l.label {
                Some(t) => sx::check(c.has("label", t), "the cost has its label"),
                None => sx::check(c.get("label").is_none(), "no label was written"),
            }
            sx::check(matches!(c.get("merge"), Some(J::Bool(true))) == l.merge, "the cost is to be merged if so written");
            let (per, total) = (c.get_num("per-unit"), c.get_num("total"));
            match (per, total) {
                (Some(per), Some(total)) => {
                    if l.per_given {
                        sx::check(per.eq(l.per), "the cost per unit is as written");
                        if l.total.is_none() {
                            sx::check(total.eq(l.per.mul(l.acquired)), "the total cost is units times cost per unit");
                        }
                    } else {
                        sx::check(per.mul(l.acquired.abs()).eq(total.abs()), "the cost per unit is the total divided by the units");
                    }
                    if let Some(t) = l.total {
                        sx::check(total.eq(t), "the total cost is as written");
                    }
                }
                _ => sx::fail("a cost has its amounts"),
            }
        }
        (Some(_), None) => sx::fail("a posting held at cost states the cost"),
        (None, Some(_)) => sx::fail("a cost was written"),
    }
    match (&b.price, p.get("price")) {
        (None, None) => {}
        (Some(l), Some(c)) => {
            sx::check(c.has("cur", l.cur.as_bytes()), "the price has its currency");
            let (per, total) = (c.get_num("per-unit"), c.get_num("total"));
            match (per, total) {
                (Some(per), Some(total)) => {
                    if let Some(q) = l.per {
                        sx::check(per.eq(q), "the price per unit is as written");
                        if l.total.is_none() {
                            sx::check(total.abs().eq(q.mul(b.units).abs()), "the total price is units times price per unit");
                        }
                    }
                    if let Some(t) = l.total {
                        sx::check(total.abs().eq(t.abs()), "the total price is as written");
                        if l.per.is_none() {
                            sx::check(per.mul(b.units.abs()).eq(t.abs()), "the price per unit is the total divided by the units");
                        }
                    }
                }
                _ => sx::fail("a price has its amounts"),
            }
        }
        (Some(_), None) => sx::fail("a posting with a price states it"),
        (None, Some(_)) => sx::fail("a price was written"),
    }
}

/// a scenario run on behalf of another property: what that property says of its ledgers
static ON_BEHALF: AtomicU32 = AtomicU32::new(0);
pub fn on_behalf(property: u32) {
    ON_BEHALF.store(property, Relaxed);
}

/// Book the ledger as a beanfile and again as request parameters, and judge both.
pub fn both(header: &[u8], opts: &Opts, dirs: &[Dir], what: u32) {
    let what = match ON_BEHALF.load(Relaxed) {
        0 => what,
        1..=3 => WHERE | DIFF,
        4 | 5 => WHERE | SEQ | PADS,
        6 | 7 | 13 => WHERE | POST | RELATED,
        8 | 9 => WHERE | SEQ | UNITS,
        10 | 11 | 26 => WHERE | UNITS | COST,
        12 | 16 => return crate::s_io::kept_if_valid(header, opts, dirs),
        14 => return crate::s_io::roundtrip(header, dirs),
        20 => return crate::s_io::exported(header, dirs),
        25 => WHY,
        _ => panic!(),
    };
    let t = beanfile(header, dirs);
    let o = order(dirs);
    let sorted: Vec<Dir> = o.iter().map(|&i| dirs[i].clone()).collect();
    let refs: Vec<&Dir> = sorted.iter().collect();
    let reqs = vec![BOOK.to_vec(), request("book", &params(sorted.iter()))];
    let a = ask(&t.b, &reqs);
    let m = Model::run(&sorted, opts);
    let place = Place { text: &t, order: &o };
    judge(&refs, &m, &answer(&a[0], Some(&place)), what);
    judge(&refs, &m, &answer(&a[1], None), what);
}
