//! Long ledgers: many of everything, with a few symbolic amounts deciding whether they are valid.
use crate::led::*;
use crate::model::*;
use crate::num::{self, of, Amt};
use crate::rpc::*;
use crate::scen::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "many.errors" => errors(),
        "many.txns" => txns(),
        "many.posts" => posts(),
        "many.lots" => lots(),
        "many.accounts" => accounts(),
        "many.deep" => deep(),
        "many.curs" => curs(),
        "many.pads" => pads(),
        "many.texts" => texts(),
        "many.failing" => failing(),
        "any.balance" => balances(),
        "any.free" => free(),
        "any.context" => contexts(),
        _ => return false,
    }
    true
}

const ALL: u32 = WHERE | POST | RELATED | DIFF | UNITS | PADS | COST | SEQ;

fn at(i: usize) -> N {
    // 2020-02-01 to 2020-09-28
    name(format!("2020-{:02}-{:02}", 2 + i / 28, 1 + i % 28).into_bytes())
}

/// many invalid directives, and one which may be
fn errors() {
    let n = sx::pick(&[9, 17, 34, 70]);
    let kind = sx::choice(5);
    let d = sx::var("d", 0, 3) as i64;
    let k = sx::pick(&[0, n / 2, n]);
    let mut dirs = vec![open(D1, A), open(D1, E), open_curs(D1, AB, &["GBP"])];
    for i in 0..=n {
        if i == k {
            dirs.push(txn(at(i), vec![post(A, of(20 + d, 2, 0), "USD"), post(E, Amt::c(-20, 0), "USD")]));
            if i == n {
                break;
            }
        }
        let x = Amt::c(100 + i as i64, 0);
        dirs.push(match (kind, i % 4) {
            (0, _) | (4, 0) => bal(at(i), F, x, "USD"),
            (1, _) | (4, 1) => move_(at(i), A, F, &x, "USD"),
            (2, _) | (4, 2) => txn(at(i), vec![post(A, x, "USD"), post(E, Amt::c(-1, 0), "USD")]),
            _ => move_(at(i), AB, E, &x, "USD"),
        });
    }
    both(b"", &Opts::default(), &dirs, ALL);
}

/// many failing balances, each localised
fn failing() {
    let n = sx::pick(&[9, 17, 33]);
    let x = num::sym_range("x", 10, 99, 2, 0);
    let mut dirs = opened(&[A, E, AB]);
    dirs.push(move_(D2, A, E, &x, "USD"));
    for i in 0..n {
        dirs.push(bal(at(i), if i % 3 == 2 { AB } else { A }, Amt::c(50 + i as i64, 0), "USD"));
    }
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// many transactions before a balance
fn txns() {
    let n = sx::pick(&[9, 17, 33, 65]);
    let x = num::sym_range("x", 10, 39, 2, 0);
    let y = num::sym_range("y", 100, 399, 2, 1);
    let d = sx::var("d", 0, 2) as i64;
    let mut dirs = opened(&[A, AB, E, F]);
    let mut sum = num::n(0, 0);
    for i in 0..n {
        let a = match i {
            0 => x.clone(),
            _ if i == n - 1 => y.clone(),
            _ => Amt::c(100 + i as i64, 0),
        };
        sum = sum.add(a.n);
        let mut t = move_(at(i), if i % 3 == 1 { AB } else { A }, if i % 2 == 0 { E } else { F }, &a, "USD");
        if let V::Txn { narr, .. } = &mut t.v {
            *narr = Some(format!("number {i}").into_bytes());
        }
        dirs.push(t);
    }
    let m = sum.at(1) + d;
    // 9: about 9·104; 17: 17·108; 33: 33·116; 65: 65·132
    let ints = match n {
        9 => 3,
        _ => 4,
    };
    dirs.push(bal(at(n), A, of(m, ints, 1), "USD"));
    both(b"", &Opts::default(), &dirs, ALL);
}

/// a transaction of many postings
fn posts() {
    let n = sx::pick(&[9usize, 17, 33]);
    let x = num::sym_range("x", 10, 99, 2, 0);
    let last = sx::choice(3);
    let k = sx::pick(&[0, n / 2, n - 1]);
    let mut ps = vec![];
    let mut sum = num::n(0, 0);
    for i in 0..n {
        let a = if i == k { x.clone() } else { Amt::c(100 + i as i64, 0) };
        sum = sum.add(a.n);
        let mut p = post(if i % 2 == 0 { A } else { AB }, a, "USD");
        p.meta.kv.push(("nn", Mv::Num(Amt::c(i as i64, 0))));
        if i % 5 == 4 {
            p.flag = Some("!");
        }
        ps.push(p);
    }
    let ints = if n == 9 { 3 } else { 4 };
    match last {
        0 => ps.insert(k, auto(E)),
        1 => ps.push(post(E, of(sum.m, ints, 0).neg(), "USD")),
        _ => ps.push(post(E, of(sum.m + sx::var("d", 0, 2) as i64, ints, 0).neg(), "USD")),
    }
    let mut dirs = opened(&[A, AB, E]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | UNITS | POST);
}

/// a sale from many lots
fn lots() {
    let n = sx::pick(&[6usize, 12]);
    let m: N = sx::pick(&["fifo", "lifo", "hifo"]);
    let first = sx::choice(3);
    let mut dirs = vec![open_method(D1, A, Some(m)), open(D1, E), open(D1, F)];
    for i in 0..n {
        // the costs go up and down
        let per = 10 + ((i * 5 + first) % n) as i64;
        let mut p = post(A, Amt::c(2, 0), "STK");
        p.cost = Some(CostSpec { per: Some(Amt::c(per, 0)), cur: Some("USD"), ..Default::default() });
        dirs.push(txn(at(i), vec![p, post(E, Amt::c(-2 * per, 0), "USD")]));
    }
    let s = num::sym_range("s", 10, 25, 2, 0);
    sx::assume(s.n.m <= 2 * n as i64 + 1);
    let mut p = post(A, s.neg(), "STK");
    p.cost = Some(CostSpec::default());
    p.meta.kv.push(("sold", Mv::Bool(true)));
    dirs.push(txn(at(n), vec![p, auto(F)]));
    dirs.push(bal(at(n + 1), A, Amt::c(0, 0), "GBP"));
    both(b"", &Opts::default(), &dirs, WHERE | UNITS | COST);
}

/// many accounts below the asserted one
fn accounts() {
    let n = sx::pick(&[9usize, 17, 40]);
    let x = num::sym_range("x", 10, 49, 2, 0);
    let d = sx::var("d", 0, 2) as i64;
    let k = sx::pick(&[0, 1, n / 2, n - 1]);
    let names: Vec<N> = (0..n).map(|i| name(format!("Assets:A:S{i}").into_bytes())).collect();
    let mut dirs = opened(&[A, AX, E]);
    for a in &names {
        dirs.push(open(D1, a));
    }
    for i in 0..n {
        let a = if i == k { x.clone() } else { Amt::c(10 + i as i64, 0) };
        dirs.push(move_(D2, names[i], E, &a, "USD"));
    }
    dirs.push(move_(D2, AX, E, &x, "USD"));
    // S1 has nothing to do with S10
    dirs.push(bal(D3, names[1], if k == 1 { x.clone() } else { Amt::c(11, 0) }, "USD"));
    let rest: i64 = (0..n).filter(|i| *i != k).map(|i| 10 + i as i64).sum();
    let m = rest + x.n.m + d;
    let ints = if n == 40 { 4 } else { 3 };
    sx::assume(m >= num::p10(ints - 1) && m < num::p10(ints));
    dirs.push(bal(D3, A, of(m, ints, 0), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// deeply nested accounts
fn deep() {
    let n = sx::pick(&[6usize, 10, 20]);
    let mut names: Vec<N> = vec!["Assets:A"];
    for i in 1..n {
        names.push(name(format!("{}:L{}", names[i - 1], i % 3).into_bytes()));
    }
    let x = num::sym_range("x", 10, 99, 2, 0);
    let y = num::sym_range("y", 10, 99, 2, 0);
    let mut dirs: Vec<Dir> = names.iter().map(|a| open(D1, a)).collect();
    dirs.push(open(D1, E));
    let k = sx::choice(n);
    let from = sx::pick(&[0, n / 2, n - 1]);
    dirs.push(move_(D2, names[n - 1], E, &x, "USD"));
    if sx::flip() {
        dirs.push(pad(D2, names[from], E));
    }
    dirs.push(bal(D3, names[k], y, "USD"));
    dirs.push(bal(D4, names[from], x, "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | DIFF | SEQ | PADS);
}

/// many currencies, allowed and held
fn curs() {
    let n = sx::pick(&[5usize, 9, 20]);
    let names: Vec<N> = (0..n).map(|i| name(format!("CUR{}", (b'A' + i as u8) as char).into_bytes())).collect();
    let k = sx::choice(n);
    let left = sx::choice(n);
    let x = num::sym_range("x", 10, 99, 2, 0);
    let y = num::sym_range("y", 10, 99, 2, 0);
    let allowed: Vec<N> = (0..n).filter(|i| *i != left).map(|i| names[i]).collect();
    let mut dirs = vec![open(D1, E), open_curs(D1, A, &allowed)];
    let mut ps = vec![];
    for (i, c) in names.iter().enumerate() {
        if i != left {
            ps.push(post(A, if i == k { x.clone() } else { Amt::c(1, 0) }, c));
        }
    }
    ps.push(auto(E));
    dirs.push(txn(D2, ps));
    dirs.push(bal(D3, A, y, names[k]));
    dirs.push(bal(D3, A, Amt::c(1, 0), names[(k + 1) % n]));
    both(b"", &Opts::default(), &dirs, ALL);
}

/// many pads, each for the next balance on its own account
fn pads() {
    let n = sx::pick(&[5usize, 9, 17]);
    let names: Vec<N> = (0..n).map(|i| name(format!("Assets:S{i}").into_bytes())).collect();
    let x = num::sym_range("x", 30, 33, 2, 0);
    let y = num::sym_range("y", 30, 36, 2, 0);
    let k = sx::pick(&[0, n / 2, n - 1]);
    let mut dirs = opened(&[E]);
    for a in &names {
        dirs.push(open(D1, a));
    }
    dirs.push(move_(D2, names[k], E, &x, "USD"));
    for a in &names {
        dirs.push(pad(D3, a, E));
    }
    for (i, a) in names.iter().enumerate() {
        dirs.push(bal(D4, a, if i == k { y.clone() } else { Amt::c(7 + i as i64, 0) }, "USD"));
    }
    // once more, where it is all gone
    if sx::flip() {
        dirs.push(bal(D5, names[(k + 1) % n], x, "USD"));
    }
    both(b"", &Opts::default(), &dirs, ALL);
}

/// long texts and lists
fn texts() {
    let n = sx::pick(&[9usize, 40, 130]);
    let c = sx::var("c", 0x20, 0x7e) as u8;
    sx::assume((c != b'"') & (c != b'\\'));
    let k = sx::pick(&[0, n / 2, n - 1]);
    let long: Vec<u8> = (0..n).map(|i| if i == k { c } else { b'a' + (i % 26) as u8 }).collect();
    sx::assume(c != b' ');
    let mut t = move_(D2, A, E, &Amt::c(5, 0), "USD");
    if let V::Txn { payee, narr, .. } = &mut t.v {
        *payee = Some(long.clone());
        *narr = Some(long.clone());
    }
    for i in 0..n.min(40) {
        t.meta.tags.push(name(format!("tag{i}").into_bytes()));
        t.meta.links.push(name(format!("link{i}").into_bytes()));
        t.meta.kv.push((name(format!("key{i}").into_bytes()), if i == 5 { Mv::Str(long.clone()) } else { Mv::Num(Amt::c(i as i64, 0)) }));
    }
    if let V::Txn { posts, .. } = &mut t.v {
        posts[0].meta = Meta { tags: vec![], links: vec![], kv: t.meta.kv.clone() };
    }
    let mut dirs = opened(&[A, E]);
    dirs.push(t);
    dirs.push(dir(D3, V::Note { acc: A, text: long.clone() }));
    dirs.push(dir(D3, V::Event { ty: long.clone(), text: long.clone() }));
    dirs.push(dir(D3, V::Query { name: long.clone(), text: long.clone() }));
    dirs.push(dir(D3, V::Custom { ty: long.clone(), vals: (0..n.min(40)).map(|i| Mv::Num(Amt::c(i as i64, 0))).collect() }));
    both(b"", &Opts::default(), &dirs, ALL);
}

fn opened(a: &[N]) -> Vec<Dir> {
    a.iter().map(|a| open(D1, a)).collect()
}

/// a balance with every kind of tolerance
fn balances() {
    let x = num::any("x");
    // zero is written without a sign
    sx::assume((x.text[0] != b'-') | !x.n.is_zero());
    let tol = match sx::choice(6) {
        0 => None,
        1 => Some(Amt::c(0, 0)),
        2 => Some(Amt::c(0, 2)),
        3 => Some(num::sym("t", 1, 0)),
        4 => Some(num::sym("t", 1, 2)),
        _ => Some(num::pos("t", 3, 1)),
    };
    let mut dirs = opened(&[A, E]);
    dirs.push(move_(D2, A, E, &x, "USD"));
    let y = match sx::choice(3) {
        0 => x.clone(),
        1 => Amt::c(0, 2),
        _ => Amt::c(-12, 1),
    };
    dirs.push(bal_tol(D3, A, y, "USD", tol));
    both(b"", &Opts::default(), &dirs, ALL);
}

/// lots which cost nothing
fn free() {
    let a = num::sym_range("a", 1, 9, 1, 0);
    let s = num::sym_range("sold", 1, 9, 1, 0);
    let zero = Some(Amt::c(0, sx::pick(&[0, 2])));
    let mut c = CostSpec { cur: Some("USD"), ..Default::default() };
    if sx::flip() {
        c.per = zero;
    } else {
        c.total = zero;
    }
    let lot = |u: Amt, c: CostSpec| {
        let mut p = post(A, u, "STK");
        p.cost = Some(c);
        p
    };
    let m: N = sx::pick(&["strict", "fifo", "none"]);
    let mut dirs = vec![open_method(D1, A, Some(m)), open(D1, E)];
    let mut ps = vec![lot(a, c.clone())];
    if sx::flip() {
        ps.push(post(E, Amt::c(0, 0), "USD"));
    }
    dirs.push(txn(D2, ps));
    if sx::flip() {
        // and one which does
        let paid = CostSpec { per: Some(Amt::c(5, 0)), cur: Some("USD"), ..Default::default() };
        dirs.push(txn(D3, vec![lot(Amt::c(2, 0), paid), post(E, Amt::c(-10, 0), "USD")]));
    }
    let back = if m != "none" && sx::flip() { CostSpec::default() } else { CostSpec { total: None, per: Some(Amt::c(0, 0)), ..c } };
    dirs.push(txn(D4, vec![lot(s.neg(), back)]));
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | UNITS | COST);
}

/// one posting of several at fault, in transactions of every shape
fn contexts() {
    let n = 1 + sx::choice(4);
    let k = sx::choice(n + 1);
    let x = num::sym_range("x", 10, 99, 2, 0);
    let bad = sx::choice(3);
    let ps = (0..n)
        .map(|i| {
            let (acc, cur) = if i == k { [(F, "USD"), (AB, "GBP"), (AX, "USD")][bad] } else { ([A, E][i % 2], "USD") };
            let mut p = post(acc, if i % 2 == 0 { x.clone() } else { x.neg() }, cur);
            if i == 1 {
                p.flag = Some("!");
            }
            p
        })
        .collect();
    let mut t = txn(D3, ps);
    if let V::Txn { payee, .. } = &mut t.v {
        if sx::flip() {
            *payee = Some(b"who".to_vec());
        }
    }
    let mut dirs = vec![open(D1, A), open(D1, E), open_curs(D1, AB, &["USD"]), open(D1, AX), close(D2, AX), t];
    if sx::flip() {
        dirs.push(close(D4, F));
    }
    if sx::flip() {
        dirs.insert(0, dir(D1, V::Event { ty: b"a".to_vec(), text: b"b".to_vec() }));
    }
    both(b"", &Opts::default(), &dirs, ALL);
}
