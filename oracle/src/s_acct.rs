//! C06, C07, C13: accounts, currencies, and how errors are reported.
use crate::led::*;
use crate::model::*;
use crate::num::{self, of, Amt};
use crate::rpc::*;
use crate::scen::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C06.seq" => seq(4),
        "C06.seq5" => seq(5),
        "C06.dates" => dates(),
        "C06.posts" => posts(),
        "C06.pad" => pads(),
        "C07.txn" => cur_txn(),
        "C07.inferred" => cur_inferred(),
        "C07.other" => cur_other(),
        "C13.mix" => mix(3),
        "C13.mix4" => mix(4),
        "C13.order" => err_order(),
        "C07.pad" => cur_pad(),
        "C13.effect" => no_effect(),
        "C13.post" => post_errors(),
        _ => return false,
    }
    true
}

const ALL: u32 = WHERE | POST | RELATED;

/// sequences of everything an account can be used for
fn seq(k: usize) {
    let mut dirs = vec![open(D1, E)];
    let mut held = 0i64;
    for i in 0..k {
        let date = DAYS[i + 1];
        match sx::choice(7) {
            0 => dirs.push(open(date, A)),
            6 => dirs.push(dir(date, V::Open { acc: A, curs: vec!["USD"], booking: Some("fifo") })),
            1 => dirs.push(close(date, A)),
            2 => {
                let x = num::sym_range(["x0", "x1", "x2", "x3", "x4"][i], 100, 199, 3, 0);
                held += x.n.m;
                dirs.push(move_(date, A, E, &x, "USD"));
            }
            3 => dirs.push(bal(date, A, Amt::c(0, 0), "USD")),
            4 => dirs.push(pad(date, A, E)),
            _ => dirs.push(close(date, E)),
        }
    }
    let _ = held;
    both(b"", &Opts::default(), &dirs, ALL | SEQ);
}

/// symbolic dates: what counts is the order of dates, not of the file
fn dates() {
    let day = |n: &str| sx::var(n, 2, 7);
    let (o, c, t) = (day("opened"), day("closed"), day("used"));
    let x = num::sym_range("x", 1, 9, 1, 0);
    let use_ = match sx::choice(4) {
        0 => move_(D1, A, E, &x, "USD").v,
        1 => bal(D1, A, Amt::c(0, 0), "USD").v,
        2 => pad(D1, A, E).v,
        _ => pad(D1, E, A).v,
    };
    let mut ds = vec![dir_on(o, V::Open { acc: A, curs: vec![], booking: None }), dir_on(c, V::Close { acc: A }), dir_on(t, use_)];
    match sx::choice(3) {
        0 => {}
        1 => ds.reverse(),
        _ => ds.swap(0, 2),
    }
    let mut dirs = vec![open(D1, E)];
    dirs.extend(ds);
    both(b"", &Opts::default(), &dirs, ALL | SEQ);
}

/// every posting of a transaction
fn posts() {
    // open throughout, closed before, opened after, never opened, sub-account of an open one
    const S: [N; 5] = ["Assets:Open", "Assets:Closed", "Assets:Later", "Assets:Never", "Assets:Open:Sub"];
    let x = num::sym_range("x", 10, 19, 2, 0);
    let y = num::sym_range("y", 10, 19, 2, 0);
    let x = if sx::flip() { Amt::c(0, 0) } else { x };
    let a: Vec<N> = (0..3).map(|_| sx::pick(&S)).collect();
    let last = match sx::choice(2) {
        0 => auto(a[2]),
        _ => post(a[2], of(x.n.m + y.n.m, 2, 0).neg(), "USD"),
    };
    let dirs = vec![
        open(D1, S[0]),
        open(D1, S[1]),
        close(D2, S[1]),
        txn(D3, vec![post(a[0], x, "USD"), post(a[1], y, "USD"), last]),
        open(D4, S[2]),
    ];
    both(b"", &Opts::default(), &dirs, ALL | SEQ | UNITS);
}

/// pads whose accounts come and go between the pad and its balance
fn pads() {
    let d = sx::var("d", 0, 9) as i64;
    let mut dirs = vec![open(D1, A), open(D1, E)];
    let before = sx::choice(3);
    match before {
        1 => dirs.push(close(D1, E)),
        2 => dirs.push(close(D1, A)),
        _ => {}
    }
    dirs.push(pad(D2, A, E));
    match sx::choice(4) {
        1 => dirs.push(close(D2, E)),
        2 => dirs.push(close(D2, A)),
        3 => dirs.push(open(D2, A)),
        _ => {}
    }
    dirs.push(bal(D3, A, of(d, 1, 0), "USD"));
    if sx::flip() {
        dirs.push(move_(D3, A, E, &Amt::c(1, 0), "USD"));
    }
    both(b"", &Opts::default(), &dirs, ALL | SEQ | PADS);
}

const LISTS: [&[N]; 5] = [&[], &["USD"], &["GBP", "USD"], &["USDX", "US"], &["USX", "GB", "EUR"]];

/// written currencies in restricted accounts
fn cur_txn() {
    let zero = sx::flip();
    let x = if zero { Amt::c(0, 0) } else { num::sym_range("x", 50, 99, 2, 0) };
    let la = sx::pick(&LISTS);
    let le = sx::pick(&LISTS);
    let cur: N = sx::pick(&["USD", "GBP", "US"]);
    let mut dirs = vec![open_curs(D1, A, la), open_curs(D1, E, le), open(D1, F)];
    match sx::choice(3) {
        0 => dirs.push(move_(D2, A, E, &x, cur)),
        1 => {
            // two currencies in one transaction
            dirs.push(txn(
                D2,
                vec![post(A, x.clone(), "USD"), post(F, x.neg(), "USD"), post(E, x.clone(), cur), post(F, x.neg(), cur)],
            ))
        }
        _ => {
            // a price or cost in another currency is no posting in that currency
            let mut p = post(A, x.clone(), cur);
            p.price = Some(PriceSpec { per: Some(Amt::c(2, 0)), total: None, cur: Some("EUR") });
            let w = if zero { x } else { of(x.n.m * 2, 3, 0).neg() };
            dirs.push(txn(D2, vec![p, post(F, w, "EUR")]));
        }
    }
    both(b"", &Opts::default(), &dirs, ALL | SEQ);
}

/// currencies filled in by booking
fn cur_inferred() {
    let x = num::sym_range("x", 10, 99, 2, 0);
    let la = sx::pick(&LISTS);
    let cur: N = sx::pick(&["USD", "GBP", "US"]);
    let dirs = match sx::choice(3) {
        0 => vec![open_curs(D1, A, la), open(D1, E), txn(D2, vec![post(E, x, cur), auto(A)])],
        1 => {
            let mut p = post(A, x.neg(), cur);
            p.cur = None;
            vec![open_curs(D1, A, la), open(D1, E), txn(D2, vec![post(E, x, cur), p])]
        }
        _ => {
            let mut p = auto(A);
            p.cur = Some(cur);
            vec![open_curs(D1, A, la), open(D1, E), txn(D2, vec![post(E, x, cur), p])]
        }
    };
    both(b"", &Opts::default(), &dirs, ALL | SEQ | UNITS);
}

/// balances and pads
fn cur_other() {
    let d = sx::var("d", 0, 9) as i64;
    let la = sx::pick(&LISTS);
    let cur: N = sx::pick(&["USD", "GBP", "US"]);
    let sub = sx::flip(); // the list is that of the account alone
    let mut dirs = vec![open_curs(D1, A, la), open(D1, AB), open(D1, E)];
    if sub {
        dirs.push(move_(D2, AB, E, &Amt::c(1, 0), cur));
    }
    if sx::flip() {
        dirs.push(pad(D2, A, E));
    }
    dirs.push(bal(D3, A, of(d, 1, 0), cur));
    dirs.push(bal(D4, if sx::flip() { A } else { AB }, of(d, 1, 0), "USD"));
    both(b"", &Opts::default(), &dirs, ALL | SEQ | DIFF);
}

/// pads whose source or target admits some currencies only, and balances they do not admit
fn cur_pad() {
    let d = sx::var("d", 0, 9) as i64;
    let la = sx::pick(&LISTS);
    let le = sx::pick(&LISTS);
    let cur: N = sx::pick(&["USD", "GBP", "US"]);
    let other: N = sx::pick(&["USD", "GBP"]);
    let mut dirs = vec![open_curs(D1, A, la), open_curs(D1, E, le), pad(D2, A, E)];
    dirs.push(bal(D3, A, of(d, 1, 0), cur));
    dirs.push(bal(D4, A, of(d, 1, 0), other));
    dirs.push(bal(D4, E, of(d, 1, 0).neg(), other));
    both(b"", &Opts::default(), &dirs, ALL | SEQ | DIFF | PADS);
}

/// a directive that failed leaves everything as it was
fn no_effect() {
    let x = num::sym_range("x", 100, 199, 3, 0);
    let u = num::sym_range("u", 2, 5, 1, 0);
    let d = sx::var("d", 0, 2) as i64;
    let cost = |c: i64| Some(CostSpec { per: Some(Amt::c(c, 0)), cur: Some("USD"), ..CostSpec::default() });
    let held = |units: Amt, c: Option<CostSpec>| {
        let mut p = post(A, units, "XYZ");
        p.cost = c;
        p
    };
    let nowhere = "Assets:Nowhere";
    let dist = CostSpec::default();
    let bad: Dir = match sx::choice(14) {
        0 => txn(D4, vec![post(A, x.clone(), "USD"), post(nowhere, x.neg(), "USD")]),
        1 => txn(D4, vec![post(A, x.clone(), "USD"), post(E, x.clone(), "USD")]),
        2 => txn(D4, vec![post(E, x.neg(), "GBP"), post(A, x.clone(), "GBP")]),
        3 => txn(D4, vec![held(u.neg(), Some(dist.clone())), auto(nowhere)]),
        4 => txn(D4, vec![held(Amt::c(-9, 0), Some(dist.clone())), auto(E)]),
        5 => txn(D4, vec![held(u.neg(), cost(10)), auto(E), auto(F)]),
        6 => txn(D4, vec![held(u.neg(), cost(10)), post(E, Amt::c(1, 0), "USD")]),
        7 => bal(D4, A, Amt::c(1, 0), "GBP"),
        8 => bal(D4, nowhere, Amt::c(1, 0), "USD"),
        9 => pad(D4, nowhere, A),
        10 => dir(D4, V::Open { acc: A, curs: vec!["GBP"], booking: Some("lifo") }),
        11 => dir(D4, V::Open { acc: AX, curs: vec![], booking: None }),
        12 => close(D4, nowhere),
        _ => close(D4, AX),
    };
    let mut dirs = vec![
        dir(D1, V::Open { acc: A, curs: vec!["USD", "XYZ"], booking: Some("fifo") }),
        open(D1, E),
        open(D1, F),
        open(D1, AX),
        close(D1, AX),
        move_(D2, A, E, &x, "USD"),
        txn(D2, vec![held(Amt::c(3, 0), cost(10)), auto(F)]),
        txn(D2, vec![held(Amt::c(5, 0), cost(20)), auto(F)]),
    ];
    let padded = sx::flip();
    if padded {
        dirs.push(pad(D3, A, E));
    }
    dirs.push(bad);
    // as though it had not been there
    dirs.push(bal(DAYS[4], A, if padded { of(x.n.m + d + 1, 3, 0) } else { of(x.n.m + d, 3, 0) }, "USD"));
    dirs.push(bal(DAYS[4], A, Amt::c(8, 0), "XYZ"));
    dirs.push(txn(DAYS[5], vec![held(Amt::c(-4, 0), Some(dist)), auto(F)]));
    dirs.push(bal(DAYS[6], F, Amt::c(-80, 0), "USD"));
    dirs.push(close(DAYS[7], A));
    both(b"", &Opts::default(), &dirs, ALL | SEQ | DIFF | UNITS);
}

/// valid and invalid directives in every arrangement
fn mix(k: usize) {
    let mut dirs = vec![open(D1, A), open(D1, E), open(D1, AX), close(D1, AX)];
    let mut held = 0i64;
    for i in 0..k {
        let date = DAYS[i + 1];
        let x = num::sym_range(["x0", "x1", "x2", "x3"][i], 1000, 1999, 4, 0);
        match sx::choice(7) {
            0 => {
                held += x.n.m;
                dirs.push(move_(date, A, E, &x, "USD"));
            }
            1 => {
                // balanced or not
                let d = sx::var(["d0", "d1", "d2", "d3"][i], 0, 2) as i64;
                if d == 0 {
                    held += x.n.m;
                }
                dirs.push(txn(date, vec![post(A, x.clone(), "USD"), post(E, of(x.n.m + d, 4, 0).neg(), "USD")]));
            }
            2 => dirs.push(txn(date, vec![post(A, x.clone(), "USD"), post("Assets:Nowhere", x.neg(), "USD")])),
            3 => dirs.push(open(date, A)),
            4 => {
                let d = sx::var(["d0", "d1", "d2", "d3"][i], 0, 2) as i64;
                let y = held + d;
                dirs.push(bal(date, A, if held == 0 { of(y, 1, 0) } else { of(y, 4, 0) }, "USD"));
                held = y;
                if d != 0 && held < 10 {
                    // keep to four digits
                    dirs.push(move_(date, A, E, &Amt::c(1000, 0), "USD"));
                    held += 1000;
                }
            }
            5 => dirs.push(move_(date, AX, E, &x, "USD")),
            _ => dirs.push(pad(date, E, A)),
        }
    }
    both(b"", &Opts::default(), &dirs, ALL | SEQ | DIFF);
}

/// errors found late or out of order in the file are still reported in directive order
fn err_order() {
    let d = sx::var("d", 0, 3) as i64;
    let day = |n: &str| sx::var(n, 2, 6);
    let (p, b) = (day("pad"), day("balance"));
    let dirs = vec![
        dir_on(b, bal(D1, A, of(d, 1, 0), "USD").v),
        dir_on(p, pad(D1, A, E).v),
        dir_on(4, open(D1, A).v),
        dir_on(4, move_(D1, "Assets:Nowhere", E, &Amt::c(1, 0), "USD").v),
        open(D1, A),
        open(D1, E),
    ];
    both(b"", &Opts::default(), &dirs, ALL | SEQ | DIFF);
}

/// the posting at fault
fn post_errors() {
    let x = num::sym_range("x", 10, 99, 2, 0);
    let at = sx::choice(4);
    let how = sx::choice(3);
    let mut ps = vec![post(A, x.clone(), "USD"), post(E, x.neg(), "USD"), post(A, x.clone(), "USD"), post(E, x.neg(), "USD")];
    match how {
        0 => ps[at].acc = "Assets:Nowhere",
        1 => ps[at].acc = AX,
        _ => {
            ps[at].acc = F;
        }
    }
    let flagged = sx::flip();
    if flagged {
        ps[at].flag = Some("!");
    }
    let dirs = vec![
        open(D1, A),
        open(D1, E),
        open(D1, AX),
        close(D1, AX),
        open_curs(D1, F, &["GBP"]),
        move_(D2, A, E, &x, "USD"),
        txn(D2, ps),
        move_(D3, A, E, &x, "USD"),
    ];
    both(b"", &Opts::default(), &dirs, ALL | SEQ);
}
