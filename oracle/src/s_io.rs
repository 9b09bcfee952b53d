//! C12, C14, C15, C16, C20: what goes in comes out.
use crate::json::{self, J};
use crate::led::*;
use crate::model::*;
use crate::num::{self, of, p10, Amt};
use crate::rpc::*;
use crate::scen::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C20.kinds" => exp_kinds(),
        "C20.text" => exp_text(),
        "C20.txn" => exp_txn(),
        "C20.posting" => exp_posting(),
        "C20.cost" => exp_cost(),
        "C20.names" => exp_names(),
        "C20.dates" => exp_dates(),
        "C20.order" => exp_order(),
        "C20.meta" => exp_meta(),
        "C12.kinds" => book_kinds(),
        "C12.text" => book_text(),
        "C12.txn" => book_txn(),
        "C12.order" => book_order(),
        "C12.lots" => book_lots(),
        "C12.meta" => book_meta(),
        "C15.file" => num_file(),
        "C15.params" => num_params(),
        "C15.forms" => num_forms(),
        "C15.wide" => num_wide(),
        "C16.values" => meta_values(),
        "C16.posting" => meta_posting(),
        "C16.custom" => meta_custom(),
        "C16.strings" => meta_strings(),
        "C14.mix" => round_mix(3),
        "C14.mix4" => round_mix(4),
        "C14.kinds" => round_kinds(),
        "C14.lots" => round_lots(),
        "C14.txn" => round_txn(),
        "C14.part" => part(),
        "C14.repeat" => repeat(),
        "C14.seeds" => seeds(),
        _ => return false,
    }
    true
}

// ---- comparing ----

fn msg(what: &str, key: &[u8]) -> String {
    let mut v = what.as_bytes().to_vec();
    v.extend(b": ");
    v.extend(key);
    unsafe { String::from_utf8_unchecked(v) }
}

/// the value written equals the value reported
fn value(e: &J, a: &J, key: &[u8], what: &str) {
    match (e, a) {
        (J::Num(x), J::Num(y)) => match (num::parse(x), num::parse(y)) {
            (Some(x), Some(y)) => {
                sx::check(x.eq(y), &msg(what, key));
                sx::check(x.s == y.s, &msg("the number of decimals is kept", key));
            }
            _ => sx::check(json::same(x, y), &msg(what, key)),
        },
        (J::Obj(x), J::Obj(y)) => {
            for (k, v) in x {
                match y.iter().find(|(l, _)| l == k) {
                    Some((_, w)) => value(v, w, k, what),
                    None => sx::fail(&msg(what, k)),
                }
            }
            sx::check(x.len() == y.len(), &msg("nothing is reported that was not written", key));
        }
        (J::Arr(x), J::Arr(y)) => {
            sx::check(x.len() == y.len(), &msg(what, key));
            if key == b"tags" || key == b"links" || key == b"currencies" {
                for v in x {
                    sx::check(y.iter().any(|w| v.same(w)), &msg(what, key));
                }
            } else {
                for (v, w) in x.iter().zip(y) {
                    value(v, w, key, what);
                }
            }
        }
        _ => sx::check(e.same(a), &msg(what, key)),
    }
}

/// every field written is reported, and only those beside `extra`
fn fields(e: &J, a: &J, skip: &[&str], extra: &[&str], what: &str) {
    let (x, y) = match (e, a) {
        (J::Obj(x), J::Obj(y)) => (x, y),
        _ => {
            sx::fail(what);
            return;
        }
    };
    for (k, v) in x {
        if skip.iter().any(|s| s.as_bytes() == &k[..]) {
            continue;
        }
        match y.iter().find(|(l, _)| l == k) {
            Some((_, w)) => value(v, w, k, what),
            // an empty payee or narration is none
            None if matches!(&k[..], b"payee" | b"narration") && matches!(v, J::Str(t) if t.is_empty()) => {}
            None => sx::fail(&msg(what, k)),
        }
    }
    for (k, _) in y {
        if skip.iter().chain(extra).any(|s| s.as_bytes() == &k[..]) {
            continue;
        }
        if !x.iter().any(|(l, _)| l == k) {
            sx::fail(&msg("nothing is reported that was not written", k));
        }
    }
}

fn written(d: &Dir) -> J {
    let mut j = Js::default();
    j.dir(d);
    json::parse(&j.b).unwrap_or(J::Null)
}

fn list<'a>(j: &'a J, k: &str) -> &'a [J] {
    j.get(k).map_or(&[][..], |x| x.arr())
}

/// one exported directive
fn exported_one(d: &Dir, a: &J) {
    const W: &str = "a written field is exported exactly";
    let e = written(d);
    fields(&e, a, &["postings"], &["span"], W);
    if let V::Txn { posts, .. } = &d.v {
        let (x, y) = (list(&e, "postings"), list(a, "postings"));
        sx::check(y.len() == posts.len(), "every posting is exported");
        for (p, q) in x.iter().zip(y) {
            fields(p, q, &[], &["span"], W);
        }
    }
}

/// parser.directives lists the directives in ledger order
pub(crate) fn exported(header: &[u8], dirs: &[Dir]) {
    let t = beanfile(header, dirs);
    let a = ask(&t.b, &[DIRECTIVES.to_vec()]);
    let v = match a[0].get("result").and_then(|r| r.get("directives")) {
        Some(v) => v.arr(),
        None => {
            sx::fail("the directives of a valid beanfile are exported");
            return;
        }
    };
    sx::check(v.len() == dirs.len(), "every directive is exported once");
    for (&i, x) in order(dirs).iter().zip(v) {
        exported_one(&dirs[i], x);
    }
    sx::reach(100);
}

/// booking keeps every attribute, from the file and from parameters
fn kept(header: &[u8], dirs: &[Dir]) {
    let t = beanfile(header, dirs);
    let o = order(dirs);
    let sorted: Vec<Dir> = o.iter().map(|&i| dirs[i].clone()).collect();
    let a = ask(&t.b, &[BOOK.to_vec(), request("book", &params(sorted.iter()))]);
    for x in &a {
        kept_one(&sorted, x);
    }
}

/// the same for a ledger that may be invalid
pub(crate) fn kept_if_valid(header: &[u8], opts: &Opts, dirs: &[Dir]) {
    let t = beanfile(header, dirs);
    let o = order(dirs);
    let sorted: Vec<Dir> = o.iter().map(|&i| dirs[i].clone()).collect();
    let refs: Vec<&Dir> = sorted.iter().collect();
    let a = ask(&t.b, &[BOOK.to_vec(), request("book", &params(sorted.iter()))]);
    let m = Model::run(&sorted, opts);
    if !m.errs.is_empty() {
        sx::reach(101);
        return;
    }
    for x in &a {
        if x.get("result").is_some() {
            kept_one(&sorted, x);
            if let Ans::Booked(v) = answer(x, None) {
                booked(&refs, &m.booked, &v, SEQ | UNITS | WRITTEN);
            }
        }
    }
}

fn kept_one(sorted: &[Dir], x: &J) {
    const W: &str = "booking keeps what was written";
    let v = match x.get("result").and_then(|r| r.get("directives")) {
        Some(v) => v.arr(),
        None => {
            sx::fail("a valid ledger is booked");
            return;
        }
    };
    let mut it = v.iter();
    for (i, d) in sorted.iter().enumerate() {
        let b = match it.next() {
            Some(b) => b,
            None => {
                sx::fail("every directive is booked");
                return;
            }
        };
        sx::check(b.get("idx").and_then(|i| i.int()) == Some(i as i64), "a booked directive carries its index");
        let e = written(d);
        fields(&e, b, &["postings"], &["idx"], W);
        if let V::Txn { posts, .. } = &d.v {
            let wrote = list(&e, "postings");
            for p in list(b, "postings") {
                let k = match p.get("idx").and_then(|i| i.int()) {
                    Some(k) if (k as usize) < posts.len() => k as usize,
                    _ => {
                        sx::fail("a booked posting carries its index");
                        continue;
                    }
                };
                fields(
                    &wrote[k],
                    p,
                    &["units", "cur", "cost-spec", "price-spec", "cost", "price"],
                    &["idx"],
                    W,
                );
            }
            for k in 0..posts.len() {
                sx::check(
                    list(b, "postings").iter().any(|p| p.get("idx").and_then(|i| i.int()) == Some(k as i64)),
                    "every posting is booked",
                );
            }
        }
        if let V::Pad { .. } = d.v {
            match it.next() {
                Some(p) => {
                    sx::check(p.has("dct", b"txn"), "a pad is followed by its transaction");
                    sx::check(p.has("date", d.date.as_bytes()), "the transaction has the date of the pad");
                    sx::check(p.get("idx").and_then(|i| i.int()) == Some(i as i64), "the transaction has the index of the pad");
                    for k in ["tags", "links", "metadata"] {
                        match (e.get(k), p.get(k)) {
                            (None, None) => {}
                            (Some(v), Some(w)) => value(v, w, k.as_bytes(), "the transaction has the tags, links and metadata of the pad"),
                            _ => sx::fail("the transaction has the tags, links and metadata of the pad"),
                        }
                    }
                }
                None => sx::fail("a pad is followed by its transaction"),
            }
        }
    }
    sx::check(it.next().is_none(), "nothing else is booked");
    sx::reach(100);
}

// ---- material ----

/// n bytes of text that needs no escape
pub(crate) fn text(name: &[&'static str], n: usize) -> T {
    (0..n)
        .map(|i| {
            let c = sx::var(name[i], 32, 126) as u8;
            sx::assume((c != b'"') & (c != b'\\'));
            c
        })
        .collect()
}
pub(crate) const TN: [&str; 4] = ["t0", "t1", "t2", "t3"];
pub(crate) const UN: [&str; 4] = ["u0", "u1", "u2", "u3"];

fn word(s: &str) -> T {
    s.as_bytes().to_vec()
}

const KINDS: usize = 12;

/// a directive of each kind
pub(crate) fn sample(kind: usize, date: N, x: &T, y: &T) -> Dir {
    dir(
        date,
        match kind {
            0 => V::Txn {
                flag: "*",
                payee: Some(x.clone()),
                narr: Some(y.clone()),
                posts: vec![post(A, Amt::c(1250, 2), "USD"), post(E, Amt::c(-1250, 2), "USD")],
            },
            1 => V::Open { acc: "Assets:New", curs: vec!["USD", "GBP"], booking: Some("fifo") },
            2 => V::Close { acc: F },
            3 => V::Bal { acc: AB, units: Amt::c(0, 2), cur: "USD", tol: Some(Amt::c(5, 3)) },
            4 => V::Pad { acc: AX, src: E },
            5 => V::Price { cur: "GBP", per: Amt::c(12345, 4), pcur: "USD" },
            6 => V::Commodity { cur: "XYZ" },
            7 => V::Note { acc: A, text: x.clone() },
            8 => V::Document { acc: A, path: x.clone() },
            9 => V::Event { ty: x.clone(), text: y.clone() },
            10 => V::Query { name: x.clone(), text: y.clone() },
            _ => V::Custom {
                ty: x.clone(),
                vals: vec![
                    Mv::Str(y.clone()),
                    Mv::Amount(Amt::c(150, 2), "USD"),
                    Mv::Num(Amt::c(-25, 1)),
                    Mv::Bool(true),
                    Mv::Date(D3),
                    Mv::Acc(AB),
                ],
            },
        },
    )
}

pub(crate) fn base() -> Vec<Dir> {
    [A, AB, AX, E, F].iter().map(|a| open(D1, a)).collect()
}

/// tags, links and metadata for a directive of this kind
fn kind_meta(k: usize) -> Meta {
    meta(match k {
        0 | 4 => sx::choice(8),
        // a custom directive takes tags and links as values
        11 => sx::choice(2) * 4,
        _ => sx::pick(&[0, 4, 7]),
    })
}

pub(crate) fn meta(which: usize) -> Meta {
    let mut m = Meta::default();
    if which & 1 != 0 {
        m.tags = vec!["tag-one", "two", "c3"];
    }
    if which & 2 != 0 {
        m.links = vec!["link/1", "b", "c.d"];
    }
    if which & 4 != 0 {
        m.kv = vec![("key", Mv::Str(word("value"))), ("other-key", Mv::Num(Amt::c(100, 2)))];
    }
    m
}

// ---- C20 ----

fn exp_kinds() {
    let k = sx::choice(KINDS);
    let mut d = sample(k, D2, &text(&TN, sx::choice(3)), &text(&UN, sx::choice(2)));
    d.meta = kind_meta(k);
    let mut dirs = base();
    dirs.insert(sx::choice(2) * 5, d);
    exported(b"", &dirs);
}

/// text that needs escaping
/// texts needing care: any character below 128 (quotes, backslashes and control
/// characters among them), any two- and most three- and four-byte characters
pub(crate) fn special(name: &[&'static str]) -> T {
    let form = sx::choice(7);
    let mut v = |i: usize, lo, hi| sx::var(name[i], lo, hi) as u8;
    match form {
        0 => vec![],
        1 => vec![v(0, 1, 127)],
        2 => vec![b'a', v(0, 1, 127), b'z'],
        3 => vec![v(0, 0xc2, 0xdf), v(1, 0x80, 0xbf)],
        4 => vec![v(0, 0xe1, 0xec), v(1, 0x80, 0xbf), v(2, 0x80, 0xbf)],
        5 => vec![v(0, 0xf1, 0xf3), v(1, 0x80, 0xbf), v(2, 0x80, 0xbf), v(3, 0x80, 0xbf)],
        _ => [&b"; "[..], &[v(0, 32, 126)], b"  "].concat(),
    }
}

fn exp_text() {
    let k = [0, 7, 8, 9, 10, 11][sx::choice(6)];
    let dirs = vec![sample(k, D2, &special(&TN), &special(&UN))];
    exported(b"", &dirs);
}

const FLAGS: [N; 7] = ["*", "!", "&", "#", "?", "%", "txn"];

/// any flag
fn a_flag(txn: bool) -> N {
    let n = FLAGS.len() - !txn as usize;
    match sx::choice(n + 1) {
        0 => name(vec![b'\'', sx::var("flag", b'A' as u64, b'Z' as u64) as u8]),
        k => FLAGS[k - 1],
    }
}

fn exp_txn() {
    let f = a_flag(true);
    let strings = sx::choice(3);
    let n = sx::choice(4);
    let mut d = txn(D2, (0..n).map(|i| post([A, E, AB][i], Amt::c(i as i64, 0), "USD")).collect());
    d.meta = meta(sx::choice(8));
    if let V::Txn { flag, payee, narr, .. } = &mut d.v {
        *flag = f;
        *narr = if strings > 0 { Some(text(&TN, sx::choice(2))) } else { None };
        *payee = if strings > 1 { Some(text(&UN, sx::choice(2))) } else { None };
    }
    let t = beanfile(b"", &[d.clone()]);
    if let V::Txn { flag, .. } = &mut d.v {
        if *flag == "txn" {
            *flag = "*";
        }
    }
    let a = ask(&t.b, &[DIRECTIVES.to_vec()]);
    match a[0].get("result").and_then(|r| r.get("directives")) {
        Some(v) => {
            sx::check(v.arr().len() == 1, "every directive is exported once");
            exported_one(&d, &v.arr()[0]);
        }
        None => sx::fail("the directives of a valid beanfile are exported"),
    }
}

fn exp_posting() {
    let mut p = auto(A);
    let shape = sx::choice(4);
    if shape & 1 != 0 {
        p.units = Some(num::any("x"));
    }
    if shape & 2 != 0 {
        p.cur = Some(sx::pick(&["USD", "A'B", "X_Y-Z.1"]));
    }
    if sx::flip() {
        p.flag = Some(a_flag(false));
    }
    match sx::choice(7) {
        0 => {}
        k => {
            let y = num::any("y");
            p.price = Some(match k {
                1 => PriceSpec { per: Some(y), total: None, cur: Some("EUR") },
                2 => PriceSpec { per: None, total: Some(y), cur: Some("EUR") },
                3 => PriceSpec { per: Some(y), total: None, cur: None },
                5 => PriceSpec { per: None, total: Some(y), cur: None },
                6 => PriceSpec { per: None, total: None, cur: None },
                _ => PriceSpec { per: None, total: None, cur: Some("EUR") },
            });
        }
    }
    p.meta = meta(sx::choice(2) * 4);
    let mut dirs = base();
    dirs.push(txn(D2, vec![p, auto(E)]));
    exported(b"", &dirs);
}

fn exp_cost() {
    let mut p = post(A, num::any("x"), "XYZ");
    let mut c = CostSpec { merge: sx::flip(), rev: sx::flip(), ..CostSpec::default() };
    match sx::choice(5) {
        0 => {}
        4 => c.cur = Some("USD"),
        1 => {
            c.per = Some(num::any("per"));
            c.cur = Some("USD");
        }
        2 => {
            c.total = Some(num::any("total"));
            c.cur = Some("USD");
        }
        _ => {
            c.per = Some(num::pos("per", 1, 2));
            c.total = Some(num::pos("total", 2, 1));
            c.cur = Some("USD");
        }
    }
    if sx::flip() {
        c.date = Some(day_name(sx::var("day", 1, 9)));
    }
    if sx::flip() {
        c.label = Some(text(&TN, sx::choice(3)));
    }
    p.cost = Some(c);
    if sx::flip() {
        p.price = Some(PriceSpec { per: Some(Amt::c(3, 0)), total: None, cur: Some("USD") });
    }
    exported(b"", &[txn(D2, vec![p, auto(E)])]);
}

/// names with any letters
fn exp_names() {
    let up = |n: &str| sx::var(n, 65, 90) as u8;
    let any = |n: &str| {
        let c = sx::var(n, 45, 122) as u8;
        sx::assume((c == b'-') | ((c >= b'0') & (c <= b'9')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'a') & (c <= b'z')));
        c
    };
    let mut acc = b"Assets:".to_vec();
    acc.push(up("a0"));
    acc.push(any("a1"));
    if sx::flip() {
        acc.push(b':');
        acc.push(up("b0"));
        acc.push(any("b1"));
    }
    let acc = name(acc);
    let d = match sx::choice(5) {
        0 => open(D1, acc),
        1 => close(D1, acc),
        2 => pad(D1, acc, acc),
        3 => bal(D1, acc, Amt::c(1, 0), "USD"),
        _ => txn(D1, vec![auto(acc)]),
    };
    exported(b"", &[d]);
}

/// every day of some months
fn exp_dates() {
    let (y, m) = sx::pick(&[("2020", "02"), ("2023", "02"), ("1999", "12"), ("2024", "07")]);
    let hi = match (y, m) {
        ("2020", _) => 29,
        ("2023", _) => 28,
        _ => 31,
    };
    let day = sx::var("day", 1, hi);
    let mut t = y.as_bytes().to_vec();
    let sep = if sx::flip() { b'-' } else { b'/' };
    t.push(sep);
    t.extend(m.as_bytes());
    t.push(sep);
    t.push(b'0' + (day / 10) as u8);
    t.push(b'0' + (day % 10) as u8);
    let mut iso = t.clone();
    iso[4] = b'-';
    iso[7] = b'-';
    let (wrote, iso) = (name(t), name(iso));
    let tx = beanfile(b"", &[dir(wrote, V::Commodity { cur: "XYZ" })]);
    let a = ask(&tx.b, &[DIRECTIVES.to_vec()]);
    match a[0].get("result").and_then(|r| r.get("directives")) {
        Some(v) if v.arr().len() == 1 => exported_one(&dir(iso, V::Commodity { cur: "XYZ" }), &v.arr()[0]),
        _ => sx::fail("the directives of a valid beanfile are exported"),
    }
}

/// by date, whatever the order in the file
fn exp_order() {
    let n = 3;
    let kinds = [1, 3, 7, 0, 4, 9];
    let dirs: Vec<Dir> = (0..n)
        .map(|i| {
            let k = kinds[sx::choice(3) + if i == 1 { 3 } else { 0 }];
            let x = vec![b'a' + i as u8];
            let mut d = sample(k, D1, &x, &x);
            d.date = day_name(sx::var(["d0", "d1", "d2"][i], 1, 9));
            d
        })
        .collect();
    exported(b"", &dirs);
}

const MK: usize = 10;
fn mval(k: usize) -> Mv {
    match k {
        0 => Mv::Amount(num::any("m"), "USD"),
        1 => Mv::Str(text(&["s0", "s1"], 2)),
        2 => Mv::Cur(sx::pick(&["USD", "X-1"])),
        3 => Mv::Acc(AB),
        4 => Mv::Tag("some-tag"),
        5 => Mv::Link("some/link"),
        6 => Mv::Date(day_name(sx::var("day", 1, 9))),
        7 => Mv::Bool(sx::flip()),
        8 => Mv::Num(num::any("m")),
        _ => Mv::Null,
    }
}

/// every pair of kinds of metadata on a directive and its posting
fn exp_meta() {
    let k = sx::choice(MK);
    let l = sx::choice(MK);
    let mut d = txn(D2, vec![auto(A), auto(E)]);
    d.meta.kv = vec![("one", mval(k))];
    if let V::Txn { posts, .. } = &mut d.v {
        let v = match l {
            0 => Mv::Amount(Amt::c(5, 1), "GBP"),
            1 => Mv::Str(word("x")),
            6 => Mv::Date(D5),
            8 => Mv::Num(Amt::c(-3, 0)),
            _ => mval(l),
        };
        posts[sx::choice(2)].meta.kv = vec![("two", v), ("three", Mv::Null)];
    }
    exported(b"", &[d]);
}

// ---- C12 ----

fn book_kinds() {
    let k = sx::choice(KINDS);
    let mut d = sample(k, D2, &text(&TN, 2), &text(&UN, 1));
    d.meta = kind_meta(k);
    let mut dirs = base();
    dirs.push(d);
    if k == 4 {
        dirs.push(bal(D3, AX, num::pos("padded", 2, 2), "USD"));
    }
    dirs.push(dir(D4, V::Commodity { cur: "END" }));
    kept(b"", &dirs);
}

fn book_text() {
    let k = [0, 7, 8, 9, 10, 11][sx::choice(6)];
    let mut dirs = base();
    dirs.push(sample(k, D2, &special(&TN), &special(&UN)));
    kept(b"", &dirs);
}

fn book_txn() {
    let x = num::pos("x", 2, 2);
    let strings = sx::choice(3);
    let mut d = txn(D2, vec![post(A, x.clone(), "USD"), post(E, x.neg(), "USD"), post(AB, x.clone(), "USD"), auto(E)]);
    d.meta = meta(sx::choice(8));
    let at = sx::choice(4);
    let f = a_flag(false);
    if let V::Txn { flag, payee, narr, posts } = &mut d.v {
        *flag = f;
        *narr = if strings > 0 { Some(text(&TN, 1)) } else { None };
        *payee = if strings > 1 { Some(text(&UN, 1)) } else { None };
        posts[at].flag = Some(sx::pick(&["!", "'P"]));
        posts[at].meta.kv = vec![("one", Mv::Str(word("v"))), ("two", Mv::Acc(AB))];
        posts[(at + 1) % 4].meta.kv = vec![("one", Mv::Num(x.clone()))];
    }
    let mut dirs = base();
    dirs.push(d);
    kept(b"", &dirs);
}

/// every order of dates
fn book_order() {
    let mut dirs = base();
    let kinds = [0, 4, 7];
    for i in 0..3 {
        let x = vec![b'a' + i as u8];
        let mut d = sample(kinds[i], D1, &x, &x);
        d.date = day_name(sx::var(["d0", "d1", "d2"][i], 2, 5));
        dirs.push(d);
    }
    if sx::flip() {
        dirs.reverse();
    }
    dirs.push(bal(DAYS[5], AX, Amt::c(7, 0), "USD"));
    kept(b"", &dirs);
}

/// a posting split over lots keeps its attributes on every part
fn book_lots() {
    let a = num::sym_range("a", 1, 9, 1, 0);
    let s = num::sym_range("sold", 1, 9, 1, 0);
    let buy = |date: N, u: &Amt, c: i64| {
        let mut p = post(A, u.clone(), "XYZ");
        p.cost = Some(CostSpec { per: Some(Amt::c(c, 0)), cur: Some("USD"), ..CostSpec::default() });
        txn(date, vec![p, auto(E)])
    };
    let mut p = post(A, s.neg(), "XYZ");
    p.cost = Some(CostSpec::default());
    p.flag = Some("!");
    p.meta.kv = vec![("lot", Mv::Str(word("v")))];
    let mut q = auto(E);
    q.meta.kv = vec![("cash", Mv::Bool(true))];
    let mut ps = vec![q, p];
    if sx::flip() {
        ps.reverse();
    }
    let mut t = txn(D4, ps);
    t.meta = meta(7);
    let dirs = vec![
        open_method(D1, A, Some(sx::pick(&["fifo", "lifo"]))),
        open(D1, E),
        buy(D2, &a, 10),
        buy(D3, &Amt::c(9, 0), 20),
        t,
    ];
    kept(b"", &dirs);
}

fn book_meta() {
    let k = sx::choice(MK);
    let on = sx::choice(KINDS + 2);
    let m = Meta { tags: vec![], links: vec![], kv: vec![("one", mval(k)), ("null", Mv::Null)] };
    let mut dirs = base();
    if on < KINDS {
        let mut d = sample(on, D2, &word("x"), &word("y"));
        d.meta = m;
        dirs.push(d);
        if on == 4 {
            dirs.push(bal(D3, AX, Amt::c(1, 0), "USD"));
        }
    } else {
        let mut d = txn(D2, vec![post(A, Amt::c(1, 0), "USD"), auto(E)]);
        if let V::Txn { posts, .. } = &mut d.v {
            posts[on - KINDS].meta = m;
        }
        dirs.push(d);
    }
    kept(b"", &dirs);
}

// ---- C15 ----

const NPOS: usize = 11;

/// a directive with the number in the chosen place
fn with_number(at: usize, x: &Amt) -> Dir {
    let p = |cost: Option<CostSpec>, price: Option<PriceSpec>| {
        let mut p = post(A, Amt::c(2, 0), "XYZ");
        p.cost = cost;
        p.price = price;
        txn(D2, vec![p, auto(E)])
    };
    let x = x.clone();
    match at {
        0 => txn(D2, vec![post(A, x, "USD"), auto(E)]),
        1 => p(Some(CostSpec { per: Some(x), cur: Some("USD"), ..CostSpec::default() }), None),
        2 => p(Some(CostSpec { total: Some(x), cur: Some("USD"), ..CostSpec::default() }), None),
        3 => p(None, Some(PriceSpec { per: Some(x), total: None, cur: Some("USD") })),
        4 => p(None, Some(PriceSpec { per: None, total: Some(x), cur: Some("USD") })),
        5 => bal_tol(D2, A, x, "USD", Some(Amt::c(999999999, 0))),
        6 => bal_tol(D2, A, Amt::c(0, 0), "USD", Some(x)),
        7 => dir(D2, V::Price { cur: "XYZ", per: x, pcur: "USD" }),
        8 | 9 => {
            let mut d = dir(D2, V::Commodity { cur: "XYZ" });
            d.meta.kv = vec![("nn", if at == 8 { Mv::Num(x) } else { Mv::Amount(x, "USD") })];
            d
        }
        _ => dir(D2, V::Custom { ty: word("t"), vals: vec![Mv::Amount(x.clone(), "USD"), Mv::Num(x)] }),
    }
}

/// the number in a booked directive
fn booked_number(d: &Dir, at: usize, x: &Amt, b: &J) {
    const W: &str = "a booked number is as written";
    let exact = |j: Option<&J>| match j.and_then(|j| j.num()) {
        Some(n) => {
            sx::check(n.eq(x.n), W);
            sx::check(n.s == x.n.s, "the number of decimals is kept in booking");
        }
        None => sx::fail(W),
    };
    let first = list(b, "postings").first();
    let part = |k: &str, f: &'static str| first.and_then(|p| p.get(k)).and_then(|c| c.get(f)).cloned();
    match at {
        0 => {
            exact(first.and_then(|p| p.get("units")));
            if let Some(n) = list(b, "postings").get(1).and_then(|p| p.get_num("units")) {
                sx::check(n.eq(x.n.neg()), "the missing amount is the exact negation");
            }
        }
        1 => exact(part("cost", "per-unit").as_ref()),
        2 => exact(part("cost", "total").as_ref()),
        3 => exact(part("price", "per-unit").as_ref()),
        4 => exact(part("price", "total").as_ref()),
        _ => {
            let e = written(d);
            fields(&e, b, &["postings"], &["idx"], W);
        }
    }
}

fn number_in(at: usize, x: &Amt) {
    let d = with_number(at, x);
    let dirs = vec![open(D1, A), open(D1, E), d.clone()];
    let t = beanfile(b"", &dirs);
    let a = ask(&t.b, &[DIRECTIVES.to_vec(), BOOK.to_vec(), request("book", &params(dirs.iter()))]);
    match a[0].get("result").and_then(|r| r.get("directives")).and_then(|d| d.arr().get(2)) {
        Some(j) => exported_one(&d, j),
        None => sx::fail("the directives of a valid beanfile are exported"),
    }
    for x_ in &a[1..] {
        match x_.get("result").and_then(|r| r.get("directives")).and_then(|d| d.arr().get(2)) {
            Some(j) => booked_number(&d, at, x, j),
            None => sx::fail("a valid ledger is booked"),
        }
    }
    sx::reach(100);
}

/// any digits, several shapes, every place
fn num_file() {
    let at = sx::choice(NPOS);
    // a total is divided by the units
    let shapes = [(1, 0), (1, 2), (4, 0), (3, 2), (1, 5), (6, 3)];
    let (i, s) = sx::pick(if at == 2 || at == 4 { &shapes[..2] } else { &shapes });
    // zero is among them only where it has one digit
    let x = num::sym_range("x", if i > 1 { p10(i + s - 1) } else { 1 }, p10(i + s) - 1, i, s);
    let x = if (at == 0 || at >= 7) && sx::flip() { x.neg() } else { x };
    number_in(at, &x);
}

/// trailing zeros and zeros
fn num_params() {
    let at = sx::choice(NPOS);
    let s = 1 + sx::choice(6) as u32;
    if at == 0 || at >= 5 {
        let m = sx::choice(2) as i64;
        number_in(at, &of(m * p10(s), 1, s));
    } else {
        number_in(at, &of(p10(s), 1, s));
    }
}

/// other ways to write numbers in a beanfile
fn num_forms() {
    let x = num::sym_range("x", 1000, 9999, 4, 0);
    let d = |i: usize| x.text[i];
    let (txt, n): (Vec<u8>, num::Num) = match sx::choice(7) {
        0 => (vec![d(0), b',', d(1), d(2), d(3)], x.n),
        1 => (vec![b'0', b'0', d(0), d(1), d(2), d(3)], x.n),
        2 => (vec![d(0), b',', d(1), d(2), d(3), b'.', b'5', b'0'], num::Num { m: x.n.m * 100 + 50, s: 2 }),
        3 => (vec![b'-', d(0), d(1), d(2), d(3), b'.', b'0'], num::Num { m: 0 - x.n.m * 10, s: 1 }),
        4 => (vec![b'+', d(0), d(1), d(2), d(3)], x.n),
        5 => (vec![b'(', d(0), d(1), d(2), d(3), b')'], x.n),
        _ => (vec![b'-', b' ', d(0), d(1), d(2), d(3)], x.n.neg()),
    };
    let at = sx::pick(&[0, 7, 8, 9]);
    let canonical = |n: num::Num| {
        let a = of(if n.m < 0 { 0 - n.m } else { n.m }, 4, n.s);
        if n.m < 0 {
            a.neg()
        } else {
            a
        }
    };
    let d_ = with_number(at, &Amt { n, text: txt });
    let want = with_number(at, &canonical(n));
    let t = beanfile(b"", &[d_]);
    let a = ask(&t.b, &[DIRECTIVES.to_vec()]);
    match a[0].get("result").and_then(|r| r.get("directives")).and_then(|d| d.arr().first()) {
        Some(j) => exported_one(&want, j),
        None => sx::fail("the directives of a valid beanfile are exported"),
    }
}

/// up to 28 digits
fn num_wide() {
    let at = sx::choice(NPOS);
    // a cost or a price is multiplied by the units, a tolerance is compared
    let shapes = [(2, 18), (10, 10), (18, 2), (2, 24), (1, 27), (28, 0)];
    let (i, s) = sx::pick(if (1..=4).contains(&at) || at == 6 { &shapes[..3] } else { &shapes[1..] });
    let k = i + s;
    // any one of the digits
    let at_digit = sx::choice(k);
    let digit = sx::var("digit", if at_digit == 0 && i > 1 { 1 } else { 0 }, if at_digit == 0 && k == 29 { 7 } else { 9 });
    let mut txt = vec![];
    for j in 0..k {
        if j == i {
            txt.push(b'.');
        }
        let d = if j == at_digit { digit } else { 1 + (j as u64 * 5 + 2) % 9 };
        txt.push(b'0' + d as u8);
    }
    let d = with_number(at, &Amt { n: num::n(1, 0), text: txt });
    let dirs = vec![open(D1, A), open(D1, E), d.clone()];
    let t = beanfile(b"", &dirs);
    let a = ask(&t.b, &[DIRECTIVES.to_vec(), BOOK.to_vec(), request("book", &params(dirs.iter()))]);
    let third = |a: &J| a.get("result").and_then(|r| r.get("directives")).and_then(|d| d.arr().get(2)).cloned();
    match third(&a[0]) {
        Some(j) => exported_one(&d, &j),
        None => sx::fail("the directives of a valid beanfile are exported"),
    }
    if at >= 7 {
        for x in &a[1..] {
            match third(x) {
                Some(j) => fields(&written(&d), &j, &[], &["idx"], "a booked number is as written"),
                None => sx::fail("a valid ledger is booked"),
            }
        }
    } else if at == 0 {
        for x in &a[1..] {
            let want = written(&d);
            let w = list(&want, "postings")[0].get("units").cloned();
            let got = third(x).and_then(|j| list(&j, "postings").first().and_then(|p| p.get("units")).cloned());
            match (w, got) {
                (Some(w), Some(g)) => sx::check(w.same(&g), "a booked number is as written"),
                _ => sx::fail("a valid ledger is booked"),
            }
        }
    } else if at <= 4 {
        let (k, f) = [("cost", "per-unit"), ("cost", "total"), ("price", "per-unit"), ("price", "total")][at - 1];
        let spec = if at <= 2 { "cost-spec" } else { "price-spec" };
        let w = list(&written(&d), "postings")[0].get(spec).and_then(|c| c.get(f)).cloned();
        for x in &a[1..] {
            let got = third(x).and_then(|j| list(&j, "postings").first().and_then(|p| p.get(k)).and_then(|c| c.get(f)).cloned());
            match (&w, got) {
                (Some(w), Some(g)) => sx::check(w.same(&g), "a booked number is as written"),
                _ => sx::fail("a valid ledger is booked"),
            }
        }
    } else if at == 6 {
        for x in &a[1..] {
            let want = written(&d);
            match (want.get("tolerance"), third(x)) {
                (Some(w), Some(j)) => match j.get("tolerance") {
                    Some(g) => sx::check(w.same(g), "a booked number is as written"),
                    None => sx::fail("a booked number is as written"),
                },
                _ => sx::fail("a valid ledger is booked"),
            }
        }
    }
}

// ---- C16 ----

/// book parameters holding metadata in the given encoding
fn echo(d: &Dir, raw: Option<(&[u8], &[u8])>) {
    let dirs = vec![open(D1, A), open(D1, E), d.clone()];
    let mut p = params(dirs.iter());
    if let Some((from, to)) = raw {
        // the same value written differently
        let mut out = vec![];
        let mut i = 0;
        while i < p.len() {
            if i + from.len() <= p.len() && json::same(&p[i..i + from.len()], from) {
                out.extend(to);
                i += from.len();
            } else {
                out.push(p[i]);
                i += 1;
            }
        }
        p = out;
    }
    let t = beanfile(b"", &[]);
    let a = ask(&t.b, &[request("book", &p)]);
    kept_one(&dirs, &a[0]);
}

fn meta_dir(v: Mv, on_posting: bool) -> Dir {
    let mut d = txn(D2, vec![post(A, Amt::c(1, 0), "USD"), auto(E)]);
    if on_posting {
        if let V::Txn { posts, .. } = &mut d.v {
            posts[sx::choice(2)].meta.kv = vec![("kk", v)];
        }
    } else {
        d.meta.kv = vec![("kk", v)];
    }
    d
}

fn meta_values() {
    let k = sx::choice(MK);
    let v = mval(k);
    let posting = sx::flip();
    let d = meta_dir(v, posting);
    let mut dirs = vec![open(D1, A), open(D1, E)];
    dirs.push(d.clone());
    // from the file
    exported(b"", &dirs);
    kept(b"", &dirs);
}

fn meta_posting() {
    // an amount with its fields in the other order
    let x = num::any("m");
    let d = meta_dir(Mv::Amount(x.clone(), "USD"), sx::flip());
    if sx::flip() {
        echo(&d, None);
        return;
    }
    let mut from = b"{\"units\":".to_vec();
    from.extend(&x.text);
    from.extend(b",\"cur\":\"USD\"}");
    let mut to = b"{\"cur\":\"USD\",\"units\":".to_vec();
    to.extend(&x.text);
    to.extend(b"}");
    echo(&d, Some((&from, &to)));
}

fn meta_custom() {
    let n = 1 + sx::choice(2);
    let mut vals = vec![];
    vals.push(mval(sx::choice(MK - 1)));
    if n > 1 {
        vals.push(match sx::choice(4) {
            0 => Mv::Null,
            1 => Mv::Amount(Amt::c(125, 2), "GBP"),
            2 => Mv::Str(word("s")),
            _ => Mv::Bool(false),
        });
    }
    let d = dir(D2, V::Custom { ty: text(&TN, 1), vals });
    let dirs = vec![open(D1, A), d];
    exported(b"", &dirs);
    kept(b"", &dirs);
}

/// strings that look like something else
fn meta_strings() {
    let s: &str = sx::pick(&["", "TRUE", "NULL", "2020-01-01", "12.50", "USD", "#tag", "^link", "Assets:A", "a\"b\\c", "\u{e9}"]);
    let d = meta_dir(Mv::Str(word(s)), sx::flip());
    let dirs = vec![open(D1, A), open(D1, E), d.clone()];
    exported(b"", &dirs);
    kept(b"", &dirs);
    echo(&d, None);
}

// ---- C14 ----

/// the text of the exported directives in a response line
fn export_text(l: &[u8]) -> Option<Vec<u8>> {
    const A: &[u8] = b"\"directives\":";
    const B: &[u8] = b",\"warnings\":null";
    let i = l.windows(A.len()).position(|w| json::same(w, A))? + A.len();
    let k = l.windows(B.len()).rposition(|w| json::same(w, B))?;
    Some(l[i..k].to_vec())
}

fn reasons(a: &J) -> Vec<J> {
    a.get("error")
        .and_then(|e| e.get("data"))
        .map_or(vec![], |d| d.arr().iter().map(|x| x.get("reason").cloned().unwrap_or(J::Null)).collect())
}

/// booking what was exported is booking the ledger
pub(crate) fn roundtrip(header: &[u8], dirs: &[Dir]) {
    let t = beanfile(header, dirs);
    let l = serve(&t.b, &[DIRECTIVES.to_vec()]);
    sx::check(l.len() == 1, "one answer per request");
    let e = match export_text(&l[0]) {
        Some(e) => e,
        None => {
            sx::fail("the directives of a valid beanfile are exported");
            return;
        }
    };
    let a = ask(&t.b, &[BOOK.to_vec(), request("book", &e), DIRECTIVES.to_vec(), BOOK.to_vec()]);
    match (a[0].get("result"), a[1].get("result")) {
        (Some(x), Some(y)) => {
            sx::reach(100);
            let (x, y) = (list(x, "directives"), list(y, "directives"));
            sx::check(x.len() == y.len(), "the exported directives book to as many as the ledger");
            for (p, q) in x.iter().zip(y) {
                fields(p, q, &[], &[], "the exported directives book to the same as the ledger");
            }
        }
        (None, None) => {
            sx::reach(101);
            let (x, y) = (reasons(&a[0]), reasons(&a[1]));
            sx::check(x.len() == y.len(), "the exported directives fail as often as the ledger");
            for (p, q) in x.iter().zip(&y) {
                sx::check(p.same(q), "the exported directives fail for the same reasons in the same order");
            }
        }
        _ => sx::fail("the exported directives book exactly when the ledger does"),
    }
    fields(&a[0], &a[3], &[], &[], "booking again gives the same answer");
}

/// booking some of the exported directives is booking a ledger of just those
fn part() {
    let x = num::sym_range("x", 100, 109, 3, 0);
    let mut dirs = vec![open(D1, A), open(D1, E)];
    match sx::choice(3) {
        0 => dirs.push(move_(D2, A, E, &x, "USD")),
        1 => dirs.push(txn(D2, vec![post(A, x.clone(), "USD"), auto(E)])),
        _ => {}
    }
    if sx::flip() {
        dirs.push(bal(D3, A, Amt::c(100, 0), "USD"));
    }
    let n = sx::choice(dirs.len() + 1);
    let from = sx::choice(n + 1);
    let some = dirs[from..n].to_vec();
    let whole = beanfile(b"", &dirs);
    let less = beanfile(b"", &some);
    let p = params(some.iter());
    let a = ask(&whole.b, &[request("book", &p), request("book", &p)]);
    let b = ask(&less.b, &[BOOK.to_vec()]);
    match (a[0].get("result"), b[0].get("result")) {
        (Some(x), Some(y)) => {
            sx::reach(100);
            let (x, y) = (list(x, "directives"), list(y, "directives"));
            sx::check(x.len() == y.len(), "the directives given are those booked");
            for (p, q) in x.iter().zip(y) {
                fields(p, q, &[], &[], "the directives given are those booked");
            }
        }
        (None, None) => {
            sx::reach(101);
            let (x, y) = (reasons(&a[0]), reasons(&b[0]));
            sx::check(x.len() == y.len(), "the directives given fail as often as in a ledger");
            for (p, q) in x.iter().zip(&y) {
                sx::check(p.same(q), "the directives given fail for the same reasons as in a ledger");
            }
        }
        _ => sx::fail("the directives given book exactly when the ledger of just those does"),
    }
    fields(&a[0], &a[1], &[], &[], "booking again gives the same answer");
}

fn round_mix(k: usize) {
    let mut dirs = vec![open(D1, A), open(D1, E), open(D1, AX), close(D1, AX)];
    for i in 0..k {
        let date = DAYS[i + 1];
        let x = num::sym_range(["x0", "x1", "x2", "x3"][i], 100, 109, 3, 0);
        dirs.push(match sx::choice(6) {
            0 => move_(date, A, E, &x, "USD"),
            1 => txn(date, vec![post(A, x, "USD"), auto(E)]),
            2 => txn(date, vec![post(A, x.clone(), "USD"), post("Assets:Nowhere", x.neg(), "USD")]),
            3 => bal(date, A, x, "USD"),
            4 => pad(date, A, E),
            _ => txn(date, vec![post(A, x, "USD"), post(E, Amt::c(-50, 0), "USD")]),
        });
    }
    roundtrip(b"", &dirs);
}

fn round_kinds() {
    let k = sx::choice(KINDS);
    let mut d = sample(k, D2, &text(&TN, 1), &text(&UN, 1));
    d.meta = kind_meta(k);
    if d.meta.kv.len() > 1 {
        d.meta.kv.push(("third", mval(sx::choice(MK))));
    }
    let mut dirs = base();
    dirs.push(d);
    dirs.push(bal(D4, AX, Amt::c(7, 0), "USD"));
    roundtrip(b"", &dirs);
}

fn round_lots() {
    let a = num::sym_range("a", 1, 9, 1, 0);
    let s = num::sym_range("sold", 1, 9, 1, 0);
    let buy = |date: N, u: &Amt, c: i64, l: Option<T>| {
        let mut p = post(A, u.clone(), "XYZ");
        p.cost = Some(CostSpec { per: Some(Amt::c(c, 0)), cur: Some("USD"), label: l, ..CostSpec::default() });
        txn(date, vec![p, auto(E)])
    };
    let mut p = post(A, s.neg(), "XYZ");
    p.cost = Some(match sx::choice(3) {
        0 => CostSpec::default(),
        1 => CostSpec { date: Some(D2), ..CostSpec::default() },
        _ => CostSpec { label: Some(word("l")), ..CostSpec::default() },
    });
    if sx::flip() {
        p.price = Some(PriceSpec { per: Some(Amt::c(30, 0)), total: None, cur: Some("USD") });
    }
    let dirs = vec![
        open_method(D1, A, Some(sx::pick(&["fifo", "strict", "hifo"]))),
        open(D1, E),
        buy(D2, &a, 10, Some(word("l"))),
        buy(D3, &Amt::c(9, 0), 20, None),
        txn(D4, vec![p, auto(E)]),
    ];
    roundtrip(b"", &dirs);
}

/// every shape of posting
fn round_txn() {
    let price = sx::choice(4);
    let sc = sx::choice(3) as u32;
    // a total price is divided by the units
    let x = if price == 2 { of(12 * p10(sc), 2, sc) } else { num::pos("x", 2, sc) };
    let mut p = auto(A);
    let shape = sx::choice(4);
    if shape & 1 != 0 {
        p.units = Some(if sx::flip() { x.neg() } else { x.clone() });
    }
    if shape & 2 != 0 {
        p.cur = Some("USD");
    }
    match price {
        1 => p.price = Some(PriceSpec { per: Some(Amt::c(2, 0)), total: None, cur: Some("EUR") }),
        2 => p.price = Some(PriceSpec { per: None, total: Some(Amt::c(20, 0)), cur: Some("EUR") }),
        3 => p.price = Some(PriceSpec { per: Some(Amt::c(2, 0)), total: None, cur: None }),
        _ => {}
    }
    p.flag = if sx::flip() { Some("!") } else { None };
    let q = match sx::choice(3) {
        0 => auto(E),
        1 => post(E, x, "USD"),
        _ => post(E, Amt::c(-20, 0), "EUR"),
    };
    let h = match sx::choice(3) {
        0 => vec![],
        1 => option("inferred_tolerance_default", b"*:5"),
        _ => option("booking_method", b"FIFO"),
    };
    let mut d = txn(D2, vec![p, q]);
    d.meta = meta(7);
    let mut dirs = base();
    dirs.push(d);
    roundtrip(&h, &dirs);
}

/// requests in between change nothing
fn repeat() {
    let x = num::sym_range("x", 10, 19, 2, 0);
    let y = num::sym_range("y", 10, 19, 2, 0);
    let dirs = vec![open(D1, A), open(D1, E), move_(D2, A, E, &x, "USD"), pad(D2, A, E), bal(D3, A, y.clone(), "USD")];
    let other = vec![open(D1, A), open(D1, E), move_(D2, A, E, &y, "USD"), bal(D3, A, x, "USD")];
    let t = beanfile(b"", &dirs);
    let p = request("book", &params(dirs.iter()));
    let mut between: Vec<Vec<u8>> = vec![];
    for _ in 0..2 {
        between.push(match sx::choice(5) {
            0 => DIRECTIVES.to_vec(),
            1 => OPTIONS.to_vec(),
            2 => request("book", &params(other.iter())),
            3 => b"not json".to_vec(),
            _ => request("parser.create-synthetic-spans", br#"[{"name":"n","content":"c"}]"#),
        });
    }
    let mut reqs = vec![BOOK.to_vec(), p.clone()];
    reqs.extend(between);
    reqs.extend([BOOK.to_vec(), p]);
    let a = ask(&t.b, &reqs);
    fields(&a[0], &a[4], &[], &[], "booking again gives the same answer");
    fields(&a[1], &a[5], &[], &[], "booking again gives the same answer");
    let m = Model::run(&dirs, &Opts::default());
    sx::check(a[0].get("result").is_some() == m.errs.is_empty(), "a valid ledger is booked");
}

/// the answers do not depend on how hash tables happen to be seeded
fn seeds() {
    const NAMES: [N; 4] = [A, AX, AB, "Assets:Z"];
    let x = num::sym_range("x", 10, 19, 2, 0);
    let y = num::sym_range("y", 10, 19, 2, 0);
    let mut dirs = vec![open(D1, E)];
    for a in NAMES {
        dirs.push(open(D1, a));
    }
    let in_ = |a: N, x: &Amt, c: N| post(a, x.clone(), c);
    match sx::choice(5) {
        // several pads in use or not
        0 => {
            for a in NAMES {
                dirs.push(pad(D2, a, E));
            }
            if sx::flip() {
                for (i, a) in NAMES.iter().enumerate() {
                    dirs.push(bal(D3, a, if i == 1 { x.clone() } else { y.clone() }, "USD"));
                }
            }
        }
        // several currencies without balance
        1 => dirs.push(txn(D2, vec![in_(A, &x, "USD"), in_(A, &y, "EUR"), in_(A, &x, "GBP"), in_(A, &y, "CHF")])),
        // the missing amounts of several currencies
        2 => dirs.push(txn(
            D2,
            vec![in_(A, &x, "USD"), in_(A, &y, "EUR"), in_(AX, &x, "GBP"), in_(AX, &y, "CHF"), auto(E)],
        )),
        // pad of several currencies
        3 => {
            let c = ["USD", "EUR", "GBP", "CHF"];
            dirs.push(pad(D2, A, E));
            for c in c {
                dirs.push(bal(D3, A, x.clone(), c));
            }
            dirs.push(txn(D3, c.iter().map(|c| in_(AB, &y, c)).chain([auto(E)]).collect()));
            dirs.push(bal(D4, A, y.clone(), "EUR"));
        }
        // one sale of several lots
        _ => {
            let lot = |u: &Amt, per: i64, c: N| {
                let mut p = post(A, u.clone(), c);
                p.cost = Some(CostSpec { per: Some(Amt::c(per, 0)), cur: Some("USD"), ..CostSpec::default() });
                p
            };
            dirs[1] = open_method(D1, A, Some("fifo"));
            dirs.push(txn(D2, vec![lot(&x, 10, "X"), lot(&y, 11, "Y"), lot(&x, 12, "X"), auto(E)]));
            let sell = |u: i64, c: N| {
                let mut p = post(A, Amt::c(u, 0), c);
                p.cost = Some(CostSpec::default());
                p
            };
            dirs.push(txn(D3, vec![sell(-20, "X"), sell(-5, "Y"), auto(E)]));
        }
    }
    let t = beanfile(b"", &dirs);
    let r = [BOOK.to_vec(), request("book", &params(dirs.iter())), DIRECTIVES.to_vec()];
    let first = serve_seeded(&t.b, &r, 0);
    for k in 1..SEEDS {
        let l = serve_seeded(&t.b, &r, k);
        sx::check(first.len() == l.len(), "one answer per request");
        for (x, y) in first.iter().zip(&l) {
            match (json::parse(x), json::parse(y)) {
                (Some(x), Some(y)) => same_answer(&x, &y),
                _ => sx::fail("an answer is JSON"),
            }
        }
    }
    sx::reach(102);
}
const SEEDS: u8 = 5;

fn same_answer(x: &J, y: &J) {
    const W: &str = "the answers are the same however hash tables are seeded";
    const MULTI: &str = "can't have auto-post with multiple currencies ";
    match (x.get("error").and_then(|e| e.get("data")), y.get("error").and_then(|e| e.get("data"))) {
        (Some(x), Some(y)) => {
            let (x, y) = (x.arr(), y.arr());
            sx::check(x.len() == y.len(), W);
            for (p, q) in x.iter().zip(y) {
                fields(p, q, &["reason"], &[], W);
                match (p.get("reason"), q.get("reason")) {
                    (Some(J::Str(a)), Some(J::Str(b))) => {
                        let m = MULTI.as_bytes();
                        if a.len() == b.len() && a.starts_with(m) && b.starts_with(m) {
                            // the same currencies, and in the same order
                            let names = |t: &[u8]| {
                                let mut v: Vec<Vec<u8>> = t[m.len()..].split(|c| *c == b',').map(|c| c.to_vec()).collect();
                                v.sort();
                                v
                            };
                            sx::check(names(a) == names(b), W);
                            sx::check(a == b, "[currency-order] the currencies of an error are named in the same order");
                        } else {
                            sx::check(json::same(a, b), W);
                        }
                    }
                    _ => sx::fail(W),
                }
            }
        }
        _ => fields(x, y, &[], &[], W),
    }
}
