//! C01-C05: balances and pads.
use crate::led::*;
use crate::model::*;
use crate::num::{self, n, of, p10, Amt};
use crate::rpc::*;
use crate::scen::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C01.one" => one(),
        "C01.mult" => mult(),
        "C01.sum" => sum(),
        "C01.none" => none(),
        "C01.fine" => fine(),
        "C02.cost" => held_at_cost(),
        "C02.subtree" => subtree(),
        "C02.currency" => currency(),
        "C02.dates" => dates(),
        "C03.chain" => chain(),
        "C03.subtree" => chain_subtree(),
        "C03.currency" => chain_currency(),
        "C04.simple" => pad_simple(),
        "C04.subtree" => pad_subtree(),
        "C04.after" => pad_after(),
        "C04.currency" => pad_currency(),
        "C04.self" => pad_self(),
        "C05.seq" => pad_seq(4),
        "C05.seq5" => pad_seq(5),
        "C05.two" => pad_two(),
        "C05.source" => pad_source(),
        "C25.seq" => why(3),
        "C25.seq4" => why(4),
        "C25.text" => why_text(),
        "C25.amounts" => why_amounts(),
        "C25.pad" => why_pad(),
        _ => return false,
    }
    true
}

fn tolerance() -> Option<Amt> {
    match sx::choice(4) {
        0 => None,
        1 => Some(num::sym("tol", 1, 2)),
        2 => Some(num::sym("tol", 1, 0)),
        _ => Some(num::sym("tol", 1, 4)),
    }
}

fn one() {
    let sx_ = sx::choice(3) as u32;
    let sy = sx::choice(4) as u32;
    let (mut x, mut y) = num::pair("x", sx_, sy);
    match sx::choice(3) {
        0 => {}
        1 => {
            x = x.neg();
            y = y.neg();
        }
        _ => y = y.neg(),
    }
    let dirs = vec![open(D1, A), open(D1, E), move_(D2, A, E, &x, "USD"), bal_tol(D3, A, y, "USD", tolerance())];
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// the inferred tolerance with a multiplier option
fn mult() {
    let sy = sx::choice(4) as u32;
    let (x, y) = num::pair("x", sx::choice(2) as u32 * 2, sy);
    let m = num::sym("multiplier", 1, sx::choice(3) as u32);
    let opts = Opts { mult: Some(m.n), ..Opts::default() };
    let h = option("inferred_tolerance_multiplier", &m.text);
    let dirs = vec![open(D1, A), open(D1, E), move_(D2, A, E, &x, "USD"), bal(D3, A, y, "USD")];
    both(&h, &opts, &dirs, WHERE | DIFF);
}

/// several postings of different precision and sign
fn sum() {
    let s = [0, 2, 1];
    let a = num::pos("a", 3, s[sx::choice(3)]);
    let b = num::pos("b", 2, s[sx::choice(3)]);
    let c = num::pos("c", 2, sx::choice(2) as u32);
    let mut held = a.n.add(b.n);
    let third = sx::choice(3);
    let mut dirs = vec![open(D1, A), open(D1, E), move_(D2, A, E, &a, "USD"), move_(D2, E, A, &b.neg(), "USD")];
    if third == 1 {
        held = held.add(c.n);
        dirs.push(txn(D2, vec![post(A, c.clone(), "USD"), post(E, c.neg(), "USD")]));
    } else if third == 2 {
        held = held.sub(c.n);
        dirs.push(txn(D2, vec![post(E, c.clone(), "USD"), post(A, c.neg(), "USD")]));
    }
    let sy = held.s.max(sx::choice(2) as u32);
    let d = sx::var("distance", 0, 11) as i64;
    // held is below 1100; asserted amounts have four digits
    let y = of(held.at(sy) + 1000 * p10(sy) + if sx::flip() { d } else { 0 - d }, 4, sy);
    let shift = Amt::c(1000, 0);
    dirs.push(move_(D2, A, E, &shift, "USD"));
    dirs.push(bal_tol(D3, A, y, "USD", if sx::flip() { Some(num::sym("tol", 1, 1)) } else { None }));
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// nothing was ever posted
fn none() {
    let y = num::sym("y", 1, sx::choice(3) as u32);
    let y = if sx::flip() { y.neg() } else { y };
    let dirs = vec![open(D1, A), bal_tol(D3, A, y, "USD", tolerance())];
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// asserted: the sum of those of `xs` that count, each within 1000..=1999, and a little more or less
fn near(held: Num2, d: i64) -> Amt {
    match held.1 {
        0 => of(d, 1, 0),
        _ => of(held.0 + d, 4, 0),
    }
}
/// (sum, number of amounts)
type Num2 = (i64, usize);

fn big(name: &str) -> Amt {
    num::sym_range(name, 1000, 1999, 4, 0)
}

/// which accounts count
fn subtree() {
    const ALL: [N; 5] = [A, AB, ABC, AX, P];
    let x = [big("x0"), big("x1"), big("x2"), big("x3"), big("x4")];
    let target = ALL[sx::choice(5)];
    let skip = sx::choice(6); // one account without postings, or all of them posted to
    let mut dirs = vec![open(D1, E)];
    let mut held = (0i64, 0);
    for (i, acc) in ALL.iter().enumerate() {
        dirs.push(open(D1, acc));
        if i == skip {
            continue;
        }
        dirs.push(move_(D2, acc, E, &x[i], "USD"));
        if under(target, acc) {
            held = (held.0 + x[i].n.m, held.1 + 1);
        }
    }
    let d = sx::var("distance", 0, 9) as i64;
    // what an account held when it was closed still counts
    if let Some(shut) = [None, Some(ABC), Some(AX), Some(AB)][sx::choice(4)] {
        dirs.push(close(D3, shut));
    }
    dirs.push(bal(D4, target, near(held, d), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// units held at cost count as any others
fn held_at_cost() {
    let method = sx::pick(&["strict", "fifo", "none"]);
    let mut dirs = vec![open_method(D1, A, Some(method)), open_method(D1, AB, Some(method)), open(D1, E)];
    let mut held = (0i64, 0);
    let buy = |date: N, acc: N, u: &Amt, c: i64| {
        let mut p = post(acc, u.clone(), "XYZ");
        p.cost = Some(CostSpec { per: Some(Amt::c(c, 0)), cur: Some("USD"), ..CostSpec::default() });
        txn(date, vec![p, auto(E)])
    };
    for (i, c) in [10, 20].iter().enumerate() {
        let x = big(["x0", "x1"][i]);
        let acc = if sx::flip() { A } else { AB };
        dirs.push(buy(D2, acc, &x, *c));
        held = (held.0 + x.n.m, held.1 + 1);
    }
    match sx::choice(4) {
        0 => {}
        1 => {
            let x = big("x2");
            dirs.push(move_(D2, A, E, &x, "XYZ"));
            held = (held.0 + x.n.m, held.1 + 1);
        }
        2 => {
            // bought at a price
            let x = big("x2");
            let mut p = post(A, x.clone(), "XYZ");
            p.price = Some(PriceSpec { per: Some(Amt::c(3, 0)), total: None, cur: Some("USD") });
            dirs.push(txn(D2, vec![p, auto(E)]));
            held = (held.0 + x.n.m, held.1 + 1);
        }
        _ => {
            let s = sx::var("sold", 1, 9) as i64;
            dirs.push(buy(D3, A, &of(s, 1, 0).neg(), 10));
            held = (held.0 - s, held.1);
        }
    }
    let d = sx::var("distance", 0, 9) as i64;
    let padded = sx::flip();
    if padded {
        dirs.push(pad(D3, A, E));
    }
    dirs.push(bal(D4, A, near(held, d), "XYZ"));
    dirs.push(bal(D5, A, near(held, d), "XYZ"));
    dirs.push(bal(D5, A, Amt::c(0, 0), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// many decimals: a holding known to its last place, and an assertion close by
fn fine() {
    let (s, m, ints) = sx::pick(&[(6u32, 1_234_567i64, 1), (7, 999_999_900, 2), (8, 123_456_789, 1), (9, 55, 1), (10, 10_000_000_000, 1)]);
    let t = s + sx::pick(&[0u32, 1, 3]);
    let x = n(m, s);
    let d = sx::var("distance", 0, 25) as i64;
    let y = of(x.at(t) + if sx::flip() { d } else { 0 - d }, ints, t);
    let dirs = vec![open(D1, A), open(D1, E), move_(D2, A, E, &Amt::c(m, s), "USD"), bal(D3, A, y, "USD")];
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// which currencies count
fn currency() {
    let x = [big("x0"), big("x1"), big("x2"), big("x3")];
    let cur: [N; 3] = ["USD", "GBP", "US"];
    let target = cur[sx::choice(3)];
    let mut dirs = vec![open(D1, A), open(D1, AB), open(D1, E)];
    let mut held = (0i64, 0);
    for (i, x) in x.iter().enumerate() {
        let c = cur[[0, 1, 2, 0][i]];
        let acc = if sx::flip() { A } else { AB };
        if i == 3 {
            // one transaction over two currencies and both accounts
            dirs.push(txn(
                D2,
                vec![
                    post(acc, x.clone(), "USD"),
                    post(A, x.clone(), "GBP"),
                    post(E, x.neg(), "USD"),
                    post(E, x.neg(), "GBP"),
                ],
            ));
            if target != "US" {
                held = (held.0 + x.n.m, held.1 + 1);
            }
        } else {
            dirs.push(move_(D2, acc, E, x, c));
            if c == target {
                held = (held.0 + x.n.m, held.1 + 1);
            }
        }
    }
    let d = sx::var("distance", 0, 9) as i64;
    dirs.push(bal(D3, A, near(held, d), target));
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// any dates: what is ordered before the balance counts
fn dates() {
    let x = [big("x0"), big("x1")];
    let t: Vec<u64> = (0..2).map(|i| sx::var(if i == 0 { "day0" } else { "day1" }, 2, 9)).collect();
    let tb = sx::var("day of balance", 2, 9);
    let first = sx::choice(3); // where the balance stands in the file
    let mut held = (0i64, 0);
    let mut body: Vec<Dir> = vec![];
    for i in 0..2 {
        if i == first {
            body.push(dir_on(tb, V::Close { acc: "" }));
        }
        body.push(dir_on(t[i], move_(D2, A, E, &x[i], "USD").v));
        // on the same day balances come first
        if t[i] < tb {
            held = (held.0 + x[i].n.m, held.1 + 1);
        }
    }
    let d = sx::var("distance", 0, 9) as i64;
    let b = dir_on(tb, bal(D3, A, near(held, d), "USD").v);
    if first == 2 {
        body.push(b);
    } else {
        body[first] = b;
    }
    let mut dirs = vec![open(D1, A), open(D1, E)];
    dirs.extend(body);
    both(b"", &Opts::default(), &dirs, WHERE | DIFF | SEQ);
}

/// post, assert, post, assert, ...; every assertion may be wrong
fn chain() {
    let s = sx::choice(2) as u32 * 2;
    let x = num::sym_range("x", 130 * p10(s), 199 * p10(s), 3, s);
    let z = num::sym_range("z", 100 * p10(s), 199 * p10(s), 3, s);
    let mut dirs = vec![open(D1, A), open(D1, E), move_(D2, A, E, &x, "USD")];
    let mut cur = x.n.m;
    for i in 0..3 {
        let d = sx::var(["d0", "d1", "d2"][i], 0, 9) as i64;
        cur += if sx::flip() { d } else { 0 - d };
        dirs.push(bal([D3, D4, D5][i], A, of(cur, 3, s), "USD"));
        if i == 0 {
            dirs.push(move_(D3, A, E, &z, "USD"));
            cur += z.n.m;
        }
    }
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// assertions on an account and on one below it
fn chain_subtree() {
    let x = big("x");
    let z = big("z");
    let mut dirs = vec![open(D1, A), open(D1, AB), open(D1, E)];
    // either may hold nothing, or another currency only
    let posted = sx::choice(4);
    let (mut a, mut ab) = (0, 0);
    if posted != 1 {
        dirs.push(move_(D2, A, E, &x, if posted == 3 { "GBP" } else { "USD" }));
        a = if posted == 3 { 0 } else { x.n.m };
    }
    if posted != 2 {
        dirs.push(move_(D2, AB, E, &z, "USD"));
        ab = z.n.m;
    }
    let ab_big = posted != 2;
    for i in 0..3 {
        let d = sx::var(["d0", "d1", "d2"][i], 0, 9) as i64;
        let on_sub = sx::flip();
        if on_sub {
            ab += d;
            dirs.push(bal([D3, D4, D5][i], AB, if ab_big { of(ab, 4, 0) } else { of(ab, 2, 0).strip() }, "USD"));
        } else {
            a += d;
            dirs.push(bal([D3, D4, D5][i], A, of(a + ab, 4, 0), "USD"));
        }
    }
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// a failure in one currency leaves the other alone, and other accounts
fn chain_currency() {
    let x = big("x");
    let z = big("z");
    let mut dirs = vec![
        open(D1, A),
        open(D1, E),
        open(D1, AX),
        move_(D2, A, E, &x, "USD"),
        move_(D2, A, E, &z, "GBP"),
        move_(D2, AX, E, &z, "USD"),
    ];
    let mut held = [x.n.m, z.n.m, z.n.m, 0 - x.n.m - z.n.m];
    for i in 0..3 {
        let d = sx::var(["d0", "d1", "d2"][i], 0, 9) as i64;
        let k = sx::choice(4);
        let (acc, cur) = [(A, "USD"), (A, "GBP"), (AX, "USD"), (E, "USD")][k];
        if k == 3 {
            held[3] -= d;
            dirs.push(bal([D3, D4, D5][i], acc, of(0 - held[3], 4, 0).neg(), cur));
        } else {
            held[k] += d;
            dirs.push(bal([D3, D4, D5][i], acc, of(held[k], 4, 0), cur));
        }
    }
    both(b"", &Opts::default(), &dirs, WHERE | DIFF);
}

/// a pad and the balance it serves, with or without anything held before
fn pad_simple() {
    let sx_ = sx::pick(&[0, 2, 4]);
    let sy = sx::pick(&[0, 1, 3]);
    let (mut x, mut y) = num::pair("x", sx_, sy);
    let before = sx::flip();
    match sx::choice(3) {
        0 => {}
        1 => {
            x = x.neg();
            y = y.neg();
        }
        _ => y = y.neg(),
    }
    let tol = if sx::flip() { Some(num::sym("tol", 1, 1)) } else { None };
    let mut dirs = vec![open(D1, A), open(D1, E), open(D1, F)];
    if before {
        dirs.push(move_(D2, A, F, &x, "USD"));
    }
    dirs.push(pad(D2, A, E));
    if !before && sx::flip() {
        dirs.push(move_(D3, A, F, &x, "USD"));
    }
    dirs.push(bal_tol(D4, A, y, "USD", tol));
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | PADS);
}

/// padding an account with accounts below it
fn pad_subtree() {
    let x = big("x");
    let z = num::sym_range("z", 1100, 1999, 4, 0);
    let d = sx::var("shortfall", 0, 99) as i64;
    let target = sx::pick(&[A, AB]);
    let source = sx::pick(&[E, AX]);
    let held = if target == A { x.n.m + z.n.m } else { z.n.m };
    let y = of(held + if sx::flip() { d } else { 0 - d }, 4, 0);
    let mut dirs = vec![open(D1, A), open(D1, AB), open(D1, AX), open(D1, E), open(D1, F)];
    dirs.push(move_(D2, A, F, &x, "USD"));
    dirs.push(move_(D2, AB, F, &z, "USD"));
    dirs.push(pad(D3, target, source));
    dirs.push(bal(D4, target, y.clone(), "USD"));
    let e = sx::var("distance", 0, 9) as i64;
    // the whole tree again
    let all = x.n.m + z.n.m + y.n.m - held;
    dirs.push(bal(D5, A, of(all + e, 4, 0), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | PADS | DIFF);
}

/// what is padded counts for later balances on both accounts
fn pad_after() {
    let x = big("x");
    let d = sx::var("shortfall", 1, 900) as i64;
    let y = of(x.n.m + d, 4, 0);
    let e = sx::var("distance", 0, 9) as i64;
    let mut dirs = vec![open(D1, A), open(D1, E), open(D1, F)];
    dirs.push(move_(D2, A, F, &x, "USD"));
    let w = num::sym_range("w", 5000, 5999, 4, 0);
    dirs.push(move_(D2, E, F, &w, "USD"));
    dirs.push(pad(D3, A, E));
    dirs.push(bal(D4, A, y.clone(), "USD"));
    let z = big("z");
    let more = sx::flip();
    if more {
        dirs.push(move_(D4, A, E, &z, "USD"));
    }
    let zm = if more { z.n.m } else { 0 };
    if sx::flip() {
        dirs.push(bal(D5, A, of(y.n.m + zm + e, 4, 0), "USD"));
    } else {
        dirs.push(bal(D5, E, of(w.n.m - d - zm + e, 4, 0), "USD"));
    }
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | PADS | DIFF);
}

/// accounts padded from themselves, from below or from above
fn pad_self() {
    let x = big("x");
    let d = sx::var("shortfall", 0, 99) as i64;
    let e = sx::var("distance", 0, 9) as i64;
    let target = sx::pick(&[A, AB]);
    let source = sx::pick(&[A, AB]);
    let y = x.n.m + d;
    let mut dirs = vec![open(D1, A), open(D1, AB), open(D1, F)];
    dirs.push(move_(D2, target, F, &x, "USD"));
    dirs.push(pad(D3, target, source));
    dirs.push(bal(D4, target, of(y, 4, 0), "USD"));
    dirs.push(bal(D5, A, of(x.n.m + e, 4, 0), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | PADS | DIFF);
}

/// a pad serves the currency asserted, whatever else is held
fn pad_currency() {
    let x = big("x");
    let z = big("z");
    let c = sx::pick(&["USD", "GBP"]);
    let held = if c == "USD" { x.n.m } else { z.n.m };
    let d = sx::var("shortfall", 0, 99) as i64;
    let mut dirs = vec![open(D1, A), open(D1, E), open(D1, F)];
    dirs.push(move_(D2, A, F, &x, "USD"));
    dirs.push(pad(D3, A, E));
    dirs.push(move_(D3, A, F, &z, "GBP"));
    dirs.push(bal(D4, A, of(held + d, 4, 0), c));
    let o = if c == "USD" { "GBP" } else { "USD" };
    let oheld = x.n.m + z.n.m - held;
    let e = sx::var("distance", 0, 9) as i64;
    dirs.push(bal(D5, A, of(oheld + e, 4, 0), o));
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | PADS | DIFF);
}

/// sequences of pads, balances and transfers on two accounts
fn pad_seq(k: usize) {
    let x = big("x");
    let mut dirs = vec![open(D1, A), open(D1, AB), open(D1, E), open(D1, F), move_(D1, A, F, &x, "USD")];
    let (mut a, mut ab) = (x.n.m, 0i64);
    let mut n_ab = 0;
    for i in 0..k {
        let date = DAYS[i + 1];
        match sx::choice(6) {
            0 => dirs.push(pad(date, A, E)),
            1 => dirs.push(pad(date, AB, E)),
            2 => {
                let d = sx::var(["d0", "d1", "d2", "d3", "d4"][i], 0, 9) as i64;
                a += d;
                dirs.push(bal(date, A, of(a + ab, 4, 0), "USD"));
            }
            3 => {
                let d = sx::var(["d0", "d1", "d2", "d3", "d4"][i], 0, 9) as i64;
                ab += d;
                dirs.push(bal(date, AB, if n_ab > 0 { of(ab, 4, 0) } else { of(ab, 2, 0).strip() }, "USD"));
            }
            4 => {
                if n_ab == 0 {
                    ab += 1000;
                    n_ab = 1;
                    dirs.push(move_(date, AB, F, &Amt::c(1000, 0), "USD"));
                } else {
                    dirs.push(close(date, E));
                }
            }
            _ => {
                // other currency
                let d = sx::var(["e0", "e1", "e2", "e3", "e4"][i], 0, 9);
                dirs.push(bal(date, A, of(d as i64, 1, 0), "GBP"));
            }
        }
    }
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | PADS | DIFF | RELATED);
}

/// two pads on two accounts, several balances
fn pad_two() {
    let d = [sx::var("d0", 0, 9) as i64, sx::var("d1", 0, 9) as i64, sx::var("d2", 0, 9) as i64];
    let mut dirs = vec![open(D1, A), open(D1, AX), open(D1, E)];
    let o = sx::choice(4);
    dirs.push(pad(D2, A, E));
    if o & 1 == 0 {
        dirs.push(pad(D2, AX, E));
    } else {
        dirs.push(pad(D2, AX, A));
    }
    dirs.push(bal(D3, A, of(d[0], 1, 0), "USD"));
    if o & 2 == 0 {
        dirs.push(bal(D3, AX, of(d[1], 1, 0), "USD"));
        dirs.push(bal(D4, A, of(d[2], 1, 0), "USD"));
    } else {
        dirs.push(bal(D4, A, of(d[2], 1, 0), "USD"));
        dirs.push(bal(D4, AX, of(d[1], 1, 0), "USD"));
    }
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | PADS | DIFF | RELATED);
}

/// the source of the pad: unopened, closed, not yet open, restricted, the account itself
fn pad_source() {
    let d = sx::var("d", 0, 9) as i64;
    let k = sx::choice(5);
    let mut dirs = vec![open(D1, A)];
    match k {
        0 => {}
        1 => dirs.push(open(D1, E)),
        2 => {
            dirs.push(open(D1, E));
            dirs.push(close(D3, E));
        }
        3 => dirs.push(open(D3, E)),
        _ => dirs.push(open_curs(D1, E, &["GBP"])),
    }
    dirs.push(pad(D2, A, E));
    dirs.push(bal(D4, A, of(d, 1, 0), "USD"));
    let e = sx::var("e", 0, 9) as i64;
    dirs.push(bal(D5, A, of(d + e, 2, 0).strip(), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | SEQ | PADS | DIFF | RELATED);
}

/// what led to a failed balance, after any sequence
fn why(k: usize) {
    let mut dirs: Vec<Dir> = [A, AB, AX, E].iter().map(|a| open(D1, a)).collect();
    dirs.insert(0, open(D1, F));
    const X: [&str; 4] = ["x0", "x1", "x2", "x3"];
    // negative balances, so that every one fails
    let short = |i: usize| of(100 + 10 * i as i64, 3, 0).neg();
    for i in 0..k {
        let date = DAYS[i + 1];
        let x = of((i as i64 + 2) * 1000 + sx::var(X[i], 0, 99) as i64, 4, 0);
        match sx::choice(8) {
            0 => dirs.push(move_(date, A, E, &x, "USD")),
            1 => dirs.push(move_(date, AB, E, &x, "USD")),
            2 => dirs.push(move_(date, AX, E, &x, "USD")),
            3 => dirs.push(move_(date, A, E, &x, "GBP")),
            4 => dirs.push(move_(date, A, AB, &x, "USD")),
            5 => dirs.push(bal(date, A, short(i), "USD")),
            6 => dirs.push(bal(date, AB, short(i), "USD")),
            _ => dirs.push(bal(date, A, short(i), "GBP")),
        }
    }
    let last = DAYS[k + 1];
    match sx::choice(3) {
        0 => dirs.push(bal(last, A, short(4), "USD")),
        1 => dirs.push(bal(last, AB, short(4), "USD")),
        _ => dirs.push(bal(last, A, short(4), "GBP")),
    }
    both(b"", &Opts::default(), &dirs, WHERE | DIFF | WHY);
}

/// as described in the transaction
fn why_text() {
    let w = |n: &'static str| {
        let c = sx::var(n, 33, 126) as u8;
        sx::assume((c != b'"') & (c != b'\\'));
        vec![b'w', c, b'x']
    };
    let t = |n: &'static str| match sx::choice(4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(w(n)),
        _ => Some([&b"two "[..], &w(n)].concat()),
    };
    let x = big("x");
    let y = num::sym("y", 1, 2);
    let mut d = move_(D2, A, E, &x, "USD");
    let (p, n) = (t("p"), t("n"));
    // a payee needs a narration after it
    sx::assume(p.is_none() || n.is_some() && p != Some(vec![]));
    if let V::Txn { payee, narr, .. } = &mut d.v {
        *payee = p;
        *narr = n;
    }
    let mut dirs = vec![open(D1, A), open(D1, AB), open(D1, E), d];
    if sx::flip() {
        dirs.push(move_(D3, AB, E, &y, "USD"));
    }
    dirs.push(bal(D4, A, Amt::c(1, 0), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | WHY);
}

/// amounts of any precision and sign
fn why_amounts() {
    let sc = sx::choice(3) as u32;
    let a = of(sx::var("a", 200, 899) as i64 * p10(sc), 3, sc);
    let sc = sx::choice(3) as u32;
    let b = of(sx::var("b", 10, 99) as i64, 2 - sc.min(1), sc);
    let c = of(sx::var("c", 4000, 4999) as i64, 3, 1);
    let m = |d: N, x: Amt| move_(d, A, E, &x, "USD");
    let a = if sx::flip() { a.neg() } else { a };
    let b = if sx::flip() { b.neg() } else { b };
    let mut dirs = vec![open(D1, A), open(D1, E), m(D2, a)];
    if sx::flip() {
        dirs.push(bal(D2, E, Amt::c(500, 0), "USD"));
        dirs.push(bal(D3, A, c, "USD"));
    }
    dirs.push(m(D3, b));
    dirs.push(bal(D4, A, Amt::c(2000, 0), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | WHY | DIFF);
}

/// what a pad made up counts
fn why_pad() {
    let x = big("x");
    let y = num::sym_range("y", 2000, 2999, 4, 0);
    let target = sx::pick(&[A, AB]);
    let source = sx::pick(&[E, AX, ABC]);
    let mut dirs: Vec<Dir> = [F, A, AB, ABC, AX, E].iter().map(|a| open(D1, a)).collect();
    dirs.push(move_(D2, target, F, &x, "USD"));
    if sx::flip() {
        dirs.push(bal(D2, A, Amt::c(1, 0), "USD"));
    }
    dirs.push(pad(D3, target, source));
    dirs.push(bal(D4, target, y, "USD"));
    dirs.push(bal(D5, sx::pick(&[A, AB, E, AX]), Amt::c(9000, 0), "USD"));
    both(b"", &Opts::default(), &dirs, WHERE | WHY);
}

#[allow(dead_code)]
fn unused() {
    let _ = n(0, 0);
}
