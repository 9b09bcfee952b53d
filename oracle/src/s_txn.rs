//! C08 to C11: how transactions are booked.
use crate::led::*;
use crate::model::*;
use crate::num::{self, of, p10, Amt, Num};
use crate::rpc::*;
use crate::scen::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C08.two" => two(),
        "C08.mult" => mult(),
        "C08.default" => default_tol(),
        "C08.three" => three(),
        "C08.currencies" => currencies(),
        "C08.same" => same_account(),
        "C08.few" => few(),
        "C08.zero" => zero(),
        "C09.auto" => auto_one(),
        "C09.near" => auto_near(),
        "C09.currency" => auto_currency(),
        "C09.weights" => auto_weights(),
        "C09.many" => auto_many(),
        "C09.held" => auto_held(),
        "C10.price" => price(),
        "C10.total" => total(),
        "C10.cost" => cost(),
        "C10.lot" => cost_lot(),
        "C10.nothing" => nothing(),
        "C10.thirds" => thirds(),
        "C26.amount" => missing_amount(),
        "C26.units" => missing_units(),
        "C10.mixed" => mixed(),
        "C10.sign" => total_sign(),
        "C11.lots" => lots(),
        "C11.three" => three_lots(false),
        "C11.three-all" => three_lots(true),
        "C11.spec" => lot_spec(),
        "C11.method" => lot_method(),
        "C11.again" => lot_again(),
        "C11.same" => lot_same(),
        "C11.near" => lot_near(),
        "C11.other" => lot_other(),
        _ => return false,
    }
    true
}

const B8: u32 = WHERE | SEQ | UNITS;

fn opened(accts: &[N]) -> Vec<Dir> {
    accts.iter().map(|a| open(D1, a)).collect()
}

// ---- C08 ----

/// two postings of any precision, any distance apart
fn two() {
    let (x, y) = num::pair("x", sx::choice(4) as u32, sx::choice(4) as u32);
    let mut ps = vec![post(A, x, "USD"), post(E, y.neg(), "USD")];
    if sx::flip() {
        ps.reverse();
    }
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B8);
}

/// every multiplier
fn mult() {
    let (x, y) = num::pair("x", sx::choice(3) as u32, sx::choice(4) as u32);
    let m = num::sym("multiplier", 1, sx::choice(3) as u32);
    let opts = Opts { mult: Some(m.n), ..Opts::default() };
    let h = option("inferred_tolerance_multiplier", &m.text);
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![post(A, x, "USD"), post(E, y.neg(), "USD")]));
    both(&h, &opts, &dirs, B8);
}

/// whole amounts are judged by the default tolerances
fn default_tol() {
    let s = sx::choice(2) as u32; // decimals make the defaults irrelevant
    let (x, y) = num::pair("x", s, s);
    let t = num::sym("usd", 1, 1);
    let f = num::sym("any", 1, 1);
    let mut h = vec![];
    let mut opts = Opts::default();
    let which = sx::choice(4);
    let line = |c: &str, a: &Amt| {
        let mut v = c.as_bytes().to_vec();
        v.push(b':');
        v.extend(&a.text);
        option("inferred_tolerance_default", &v)
    };
    if which & 1 != 0 {
        h.extend(line("USD", &t));
        opts.defaults.push(("USD", t.n));
    }
    if which & 2 != 0 {
        h.extend(line("*", &f));
        opts.fallback = Some(f.n);
    }
    let other = sx::flip();
    if other {
        h.extend(line("GBP", &Amt::c(9, 0)));
        opts.defaults.push(("GBP", num::n(9, 0)));
    }
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![post(A, x, "USD"), post(E, y.neg(), "USD")]));
    both(&h, &opts, &dirs, B8);
}

/// three or four postings: the coarsest decimals count
fn three() {
    const S: [u32; 3] = [0, 1, 3];
    let a = num::sym_range("a", 20, 29, 2, 0);
    let sa = sx::pick(&S);
    let a = of(a.n.m * p10(sa), 2, sa);
    let sb = sx::pick(&S);
    let b = num::pos("b", 1, sb);
    let sc = sx::pick(&S);
    // what is left over, in the last decimal of all
    let s = sa.max(sb).max(sc);
    let d = sx::var("residual", 0, 120) as i64;
    let d = Num { m: if sx::flip() { d } else { 0 - d }, s: 3 };
    let four = sx::flip();
    let last = a.n.add(b.n).add(num::n(3, 0)).sub(num::n(1, 0));
    let last = if s < 3 { last } else { last.add(d) };
    // the last posting has scale sc, so whatever does not fit goes to the others
    let last = Num { m: last.at(3), s: 3 };
    if sc < 3 {
        sx::assume(last.m % p10(3 - sc) == 0);
    }
    let z = of(last.m / p10(3 - sc), 2, sc);
    let mut ps = vec![post(A, a, "USD"), post(E, b, "USD"), post(F, z.neg(), "USD"), post(A, Amt::c(3, 0), "USD")];
    if four {
        ps.push(post(E, Amt::c(-1, 0), "USD"));
    } else {
        ps[3] = post(A, Amt::c(2, 0), "USD");
    }
    ps.rotate_left(sx::choice(3));
    let mut dirs = opened(&[A, E, F]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B8);
}

/// each currency balances by itself
fn currencies() {
    let x = num::sym_range("x", 100, 899, 1, 2);
    let (d1, d2) = (sx::var("d1", 0, 2) as i64, sx::var("d2", 0, 2) as i64);
    let c2: N = sx::pick(&["GBP", "USDX", "USD"]);
    let s2 = sx::choice(2) as u32 * 2;
    let y = of((20 + d2) * if s2 == 0 { 1 } else { 10 }, if s2 == 0 { 2 } else { 1 }, s2);
    let w = of(20 * if s2 == 0 { 1 } else { 10 }, if s2 == 0 { 2 } else { 1 }, s2);
    let mut ps = vec![
        post(A, x.clone(), "USD"),
        post(A, y, c2),
        post(E, of(x.n.m + d1, 1, 2).neg(), "USD"),
        post(E, w.neg(), c2),
    ];
    if sx::flip() {
        ps.swap(0, 1);
    }
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B8);
}

/// both sides on one account, and a failed transaction leaves nothing behind
fn same_account() {
    let x = num::sym_range("x", 10, 99, 2, 0);
    let y = num::sym_range("y", 10, 99, 2, 0);
    let other: N = sx::pick(&[A, E]);
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![post(A, x.clone(), "USD"), post(other, y.neg(), "USD")]));
    dirs.push(move_(D2, A, E, &x, "USD"));
    dirs.push(txn(D2, vec![post(A, y, "USD"), post(other, x.neg(), "USD")]));
    both(b"", &Opts::default(), &dirs, B8);
}

/// zeros, of any scale and sign, count as amounts
/// transactions of no or one posting
fn few() {
    let x = num::sym_range("x", 0, 1, 1, 0);
    let mut t = txn(
        D2,
        match sx::choice(5) {
            0 => vec![],
            1 => vec![post(A, Amt::c(0, 0), "USD")],
            2 => vec![post(A, x, "USD")],
            3 => vec![auto(A)],
            _ => vec![post(A, Amt::c(0, 0), "USD"), post(E, Amt::c(0, 2), "GBP")],
        },
    );
    if let V::Txn { flag, payee, narr, .. } = &mut t.v {
        *flag = sx::pick(&["*", "!", "txn"]);
        if sx::flip() {
            *payee = Some(b"who".to_vec());
            *narr = Some(b"what".to_vec());
        }
    }
    let mut dirs = opened(&[A, E]);
    dirs.push(t);
    dirs.push(bal(D3, A, Amt::c(0, 0), "USD"));
    both(b"", &Opts::default(), &dirs, B8);
}

fn zero() {
    let x = num::sym("x", 1, sx::choice(3) as u32);
    let zs = sx::choice(3) as u32;
    let mut z = Amt::c(0, zs);
    if sx::flip() {
        z = z.neg();
    }
    let mut dirs = opened(&[A, E]);
    let mut ps = vec![post(A, x.clone(), "USD"), post(E, z, "USD")];
    if sx::flip() {
        ps.push(post(E, x.neg(), "USD"));
    }
    dirs.push(txn(D2, ps));
    if sx::flip() {
        dirs.push(txn(D2, vec![]));
    }
    both(b"", &Opts::default(), &dirs, B8);
}

// ---- C09 ----

/// the missing amount among up to three others
fn auto_one() {
    const S: [u32; 3] = [0, 2, 3];
    let a = num::pos("a", 2, sx::pick(&S));
    let b = match sx::choice(3) {
        0 => num::pos("b", 2, sx::pick(&S)),
        1 => num::pos("b", 2, sx::pick(&S)).neg(),
        // an amount of nothing is not one missing
        _ => Amt::c(0, sx::pick(&[0, 2])),
    };
    // a difference within tolerance is the subject of C09.near
    if b.n.m < 0 || b.text[0] == b'-' {
        let s = a.n.add(b.n);
        sx::assume(!s.strictly_within(num::n(5, 1)) | s.is_zero());
    }
    let mut ps = vec![post(A, a, "USD"), post(E, b, "USD")];
    if sx::flip() {
        ps.push(post(AB, Amt::c(25, 1), "GBP"));
        ps.push(post(E, Amt::c(-25, 1), "GBP"));
        let mut p = auto(F);
        p.cur = Some("USD");
        ps.insert(sx::choice(3), p);
    } else {
        ps.insert(sx::choice(3), auto(F));
    }
    let mut dirs = opened(&[A, E, F, AB]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B8);
}

/// the others nearly balance
fn auto_near() {
    let (x, y) = num::pair("x", 2, 2 + sx::choice(2) as u32);
    let mut dirs = opened(&[A, E, F]);
    dirs.push(txn(D2, vec![post(A, x, "USD"), post(E, y.neg(), "USD"), auto(F)]));
    both(b"", &Opts::default(), &dirs, B8 | NEAR);
}

/// several currencies: the one with the gap is written
fn auto_currency() {
    let x = num::pos("x", 1, 2);
    let y = num::pos("y", 2, 1);
    let c: N = sx::pick(&["USD", "GBP", "EUR"]);
    let mut gap = auto(F);
    if sx::flip() {
        gap.cur = Some(c);
    }
    let mut ps = vec![post(A, x, "USD"), post(A, y, "GBP")];
    match sx::choice(3) {
        0 => ps.push(post(E, ps[0].units.clone().unwrap().neg(), "USD")),
        1 => ps.push(post(E, ps[1].units.clone().unwrap().neg(), "GBP")),
        _ => {
            // a gap in each currency
            let mut other = auto(E);
            other.cur = Some(sx::pick(&["USD", "GBP"]));
            ps.push(other);
        }
    }
    ps.push(gap);
    let mut dirs = opened(&[A, E, F]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B8);
}

/// the missing amount is the negated sum of weights, not of units
fn auto_weights() {
    let u = num::pos("units", 2, sx::choice(2) as u32 * 2);
    let per = sx::pick(&[(3i64, 0u32), (125, 2), (15, 1)]);
    let per = Amt::c(per.0, per.1);
    let neg = sx::flip();
    let mut p = post(A, if neg { u.neg() } else { u.clone() }, "XYZ");
    match sx::choice(2) {
        0 => p.price = Some(PriceSpec { per: Some(per), total: None, cur: Some("USD") }),
        _ => {
            if neg {
                p.units = Some(u.clone());
            }
            p.cost = Some(CostSpec { per: Some(per), cur: Some("USD"), ..CostSpec::default() })
        }
    }
    let mut ps = vec![p];
    if sx::flip() {
        ps.push(post(E, num::pos("fee", 1, 2), "USD"));
    }
    let mut gap = auto(F);
    if sx::flip() {
        gap.cur = Some("USD");
    }
    ps.push(gap);
    if ps.len() == 3 {
        // within tolerance: C09.near
        let m = Model::run(&[open(D1, A), open(D1, E), open(D1, F), txn(D2, ps.clone())], &Opts::default());
        if let Some(Booked { posts: Some(b), .. }) = m.booked.last() {
            sx::assume(!b.iter().any(|b| b.or_zero && !b.units.is_zero()));
        }
    }
    let mut dirs = opened(&[A, E, F]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B8);
}

/// more than one gap
fn auto_many() {
    let x = num::pos("x", 2, sx::choice(2) as u32);
    let mut ps = vec![post(A, x.clone(), "USD")];
    if sx::flip() {
        ps.push(post(A, x, "GBP"));
    }
    for acc in [E, F] {
        let mut p = auto(acc);
        match sx::choice(3) {
            0 => {}
            1 => p.cur = Some("USD"),
            _ => p.cur = Some("GBP"),
        }
        ps.push(p);
    }
    let mut dirs = opened(&[A, E, F]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B8);
}

/// interpolated amounts are held from then on
fn auto_held() {
    let x = num::sym_range("x", 10, 48, 2, 0);
    let y = num::sym_range("y", 10, 49, 2, 0);
    let d = sx::var("d", 0, 2) as i64;
    let mut dirs = opened(&[A, E, F]);
    dirs.push(txn(D2, vec![post(E, x.neg(), "USD"), auto(A)]));
    dirs.push(txn(D2, vec![auto(A), post(E, y.neg(), "USD"), post(F, Amt::c(-1, 0), "USD")]));
    dirs.push(bal(D3, A, of(x.n.m + y.n.m + d, 2, 0), "USD"));
    both(b"", &Opts::default(), &dirs, B8);
}

// ---- C10 ----

const B10: u32 = WHERE | SEQ | UNITS | COST;

/// an amount written with as many digits as it takes (it is below 10000)
fn amt(n: Num) -> Amt {
    for k in 1..5 {
        if k == 4 || n.m < p10(k + n.s) {
            return of(n.m, k, n.s);
        }
    }
    of(n.m, 4, n.s)
}

fn off(name: &str, hi: u64) -> i64 {
    let d = sx::var(name, 0, hi) as i64;
    if sx::flip() {
        d
    } else {
        0 - d
    }
}

/// a price per unit, either sign
fn price() {
    let us = sx::choice(3) as u32;
    let u = num::sym_range("units", 40 * p10(us), 79 * p10(us), 2, us);
    let per = sx::pick(&[(3i64, 0u32), (25, 1), (125, 2), (1501, 3)]);
    let per = Amt::c(per.0, per.1);
    let w = weight(u.n, per.n);
    let d = off("d", 12);
    let s = w.s + sx::choice(2) as u32;
    let y = Num { m: w.at(s) + d, s };
    sx::assume(y.m >= p10(s));
    let y = amt(y);
    let sell = sx::flip();
    let mut p = post(A, if sell { u.neg() } else { u }, "XYZ");
    p.price = Some(PriceSpec { per: Some(per), total: None, cur: Some("USD") });
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![p, post(E, if sell { y } else { y.neg() }, "USD")]));
    both(b"", &Opts::default(), &dirs, B10);
}

/// a total price
fn total() {
    let u = sx::pick(&[(2i64, 0u32), (40, 1), (125, 2), (10, 0)]);
    let u = Amt::c(u.0, u.1);
    let s = sx::choice(3) as u32;
    let t = num::sym_range("total", 30 * p10(s), 80 * p10(s), 2, s);
    let hi = s + sx::choice(2) as u32;
    let y = of(t.n.at(hi) + off("d", 12), 2, hi);
    let mut p = post(A, u, "XYZ");
    if sx::flip() {
        p.price = Some(PriceSpec { per: None, total: Some(t), cur: Some("USD") });
    } else {
        p.cost = Some(CostSpec { total: Some(t), cur: Some("USD"), ..CostSpec::default() });
    }
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![p, post(E, y.neg(), "USD")]));
    both(b"", &Opts::default(), &dirs, B10);
}

/// a cost per unit
fn cost() {
    let us = sx::choice(2) as u32 * 2;
    let u = num::sym_range("units", 40 * p10(us), 79 * p10(us), 2, us);
    let per = sx::pick(&[(3i64, 0u32), (25, 1), (125, 2)]);
    let per = Amt::c(per.0, per.1);
    let w = weight(u.n, per.n);
    let s = w.s + sx::choice(2) as u32;
    let y = Num { m: w.at(s) + off("d", 12), s };
    sx::assume(y.m >= p10(s));
    let mut p = post(A, u, "XYZ");
    p.cost = Some(CostSpec {
        per: Some(per),
        cur: Some("USD"),
        date: if sx::flip() { Some("2019-05-06") } else { None },
        label: if sx::flip() { Some(b"lot a".to_vec()) } else { None },
        merge: sx::flip(),
        ..CostSpec::default()
    });
    if sx::flip() {
        // what counts is the cost
        p.price = Some(PriceSpec { per: Some(Amt::c(7, 0)), total: None, cur: Some(sx::pick(&["USD", "EUR"])) });
    }
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![p, post(E, amt(y).neg(), "USD")]));
    both(b"", &Opts::default(), &dirs, B10);
}

/// nothing paid, or nothing bought
fn nothing() {
    let total = sx::flip();
    let u = sx::pick(&[(3i64, 0u32), (25, 1), (0, 0), (-3, 0)][..if total { 2 } else { 4 }]);
    let v = sx::pick(&[(0i64, 0u32), (0, 2), (5, 0)][..if total { 2 } else { 3 }]);
    let (u, v) = (Amt::c(u.0, u.1), Amt::c(v.0, v.1));
    let w = if total { v.n } else { weight(u.n, v.n) };
    let mut p = post(A, u.clone(), "XYZ");
    let (per, all) = if total { (None, Some(v)) } else { (Some(v), None) };
    if u.n.m >= 0 && sx::flip() {
        p.cost = Some(CostSpec { per, total: all, cur: Some("USD"), ..CostSpec::default() });
    } else {
        p.price = Some(PriceSpec { per, total: all, cur: Some("USD") });
    }
    let y = w.add(num::n(sx::choice(2) as i64, 0)).neg();
    let mut dirs = opened(&[A, E]);
    let mut ps = vec![p];
    if y.m != 0 || sx::flip() {
        ps.push(post(E, Amt::c(y.m, y.s), "USD"));
    }
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B10);
}

/// totals over units that do not divide them
fn thirds() {
    const CASES: [((i64, u32), (i64, u32), &[u8]); 4] = [
        ((3, 0), (100, 0), b"33.3333333333"),
        ((7, 0), (2200, 2), b"3.14285714285"),
        ((600, 2), (10, 0), b"1.66666666666"),
        ((9, 1), (1, 1), b"0.11111111111"),
    ];
    let (u, t, digits) = sx::pick(&CASES);
    let (u, t) = (Amt::c(u.0, u.1), Amt::c(t.0, t.1));
    let d = sx::var("d", 0, 9) as i64;
    let held = sx::flip();
    let mut p = post(A, u, "XYZ");
    if held {
        p.cost = Some(CostSpec { total: Some(t.clone()), cur: Some("USD"), ..CostSpec::default() });
    } else {
        p.price = Some(PriceSpec { per: None, total: Some(t.clone()), cur: Some("USD") });
    }
    let y = t.n.add(num::n(d, 3));
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![p, post(E, amt(y).neg(), "USD")]));
    let tx = beanfile(b"", &dirs);
    let a = ask(&tx.b, &[BOOK.to_vec(), request("book", &params(dirs.iter()))]);
    // half the last place of the coarsest weight with decimals
    let s = if t.n.s == 0 { 3 } else { t.n.s };
    let ok = num::n(d, 3).strictly_within(num::n(5, s + 1));
    for x in &a {
        let ds = x.get("result").and_then(|r| r.get("directives")).map(|d| d.arr());
        sx::check(ds.is_some() == ok, "a transaction with a total balances by the total");
        if let Some(ds) = ds {
            let c = ds[2].get("postings").and_then(|p| p.arr()[0].get(if held { "cost" } else { "price" }));
            match c {
                Some(c) => {
                    sx::check(c.get_num("total").is_some_and(|n| n.eq(t.n)), "the total is as written");
                    sx::check(c.has("cur", b"USD"), "the currency is as written");
                    sx::check(matches!(c.get("per-unit"), Some(crate::json::J::Num(n)) if n.starts_with(digits)), "the amount per unit is the total divided by the units");
                }
                None => sx::fail("a posting with a price or cost states it"),
            }
            sx::reach(100);
        }
    }
}

/// all that is written about a lot, symbolic costs
fn cost_lot() {
    let u = sx::pick(&[(1i64, 0u32), (7, 0), (25, 1)]);
    let u = Amt::c(u.0, u.1);
    let per = num::pos("cost", 1, sx::choice(3) as u32);
    let w = weight(u.n, per.n);
    let mut label = vec![];
    for i in 0..sx::choice(3) {
        label.push(sx::var(["l0", "l1"][i], 97, 122) as u8);
    }
    let day = sx::choice(3);
    let mut p = post(A, u, "XYZ");
    let date = match day {
        0 => None,
        1 => Some(D1),
        _ => Some(day_name(sx::var("day", 1, 9))),
    };
    p.cost = Some(CostSpec {
        per: Some(per),
        cur: Some("USD"),
        date,
        label: if label.is_empty() { None } else { Some(label) },
        ..CostSpec::default()
    });
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![p, post(E, amt(w).neg(), "USD")]));
    both(b"", &Opts::default(), &dirs, B10);
}

/// several priced postings in several currencies
fn mixed() {
    let u = num::sym_range("u", 1, 8, 1, 0);
    let v = num::sym_range("v", 1, 8, 1, 0);
    let (d1, d2) = (sx::var("d1", 0, 2) as i64, sx::var("d2", 0, 2) as i64);
    let c: N = sx::pick(&["USD", "EUR", "XYZ"]);
    let mut p = post(A, u.clone(), "XYZ");
    p.price = Some(PriceSpec { per: Some(Amt::c(111, 0)), total: None, cur: Some("USD") });
    let mut q = post(AB, v.clone(), "ABC");
    q.cost = Some(CostSpec { per: Some(Amt::c(112, 0)), cur: Some(c), ..CostSpec::default() });
    let ps = vec![
        p,
        post(E, of(u.n.m * 111 + d1, 3, 0).neg(), "USD"),
        q,
        post(E, of(v.n.m * 112 + d2, 3, 0).neg(), c),
    ];
    let mut dirs = opened(&[A, AB, E]);
    dirs.push(txn(D2, ps));
    both(b"", &Opts::default(), &dirs, B10);
}

/// a total with negative units has their sign
fn total_sign() {
    let t = num::sym_range("total", 200, 800, 2, 1);
    let y = of(t.n.m + off("d", 12), 2, 1);
    let pay = sx::flip(); // the right side of the transaction, or the wrong one
    let mut p = post(A, Amt::c(-4, 0), "XYZ");
    if sx::flip() {
        p.price = Some(PriceSpec { per: None, total: Some(t.clone()), cur: Some("USD") });
    } else {
        p.cost = Some(CostSpec { total: Some(t.clone()), cur: Some("USD"), ..CostSpec::default() });
    }
    let z = if pay { y.clone() } else { y.neg() };
    let mut dirs = opened(&[A, E]);
    dirs.push(txn(D2, vec![p, post(E, z.clone(), "USD")]));
    let tx = beanfile(b"", &dirs);
    let a = ask(&tx.b, &[BOOK.to_vec(), request("book", &params(dirs.iter()))]);
    let right = z.n.sub(t.n).strictly_within(num::n(5, 2));
    let known = z.n.add(t.n).strictly_within(num::n(5, 2));
    for x in &a {
        let ok = x.get("result").is_some();
        sx::check(((ok == right) | (ok == known)) != false, "a transaction with a total balances by the total");
        sx::check(ok == right, "[total-sign] a total weighs with the sign of the units");
    }
}

// ---- C11 ----

const B11: u32 = WHERE | SEQ | UNITS | COST;
const XYZ: N = "XYZ";

fn per(m: i64) -> CostSpec {
    CostSpec { per: Some(Amt::c(m, 0)), cur: Some("USD"), ..CostSpec::default() }
}

/// buy `u` at `c` on `date`
fn buy(date: N, u: &Amt, c: CostSpec) -> Dir {
    let mut p = post(A, u.clone(), XYZ);
    p.cost = Some(c);
    txn(date, vec![p, auto(E)])
}

fn sell(date: N, u: &Amt, c: CostSpec) -> Dir {
    let mut p = post(A, u.neg(), XYZ);
    p.cost = Some(c);
    txn(date, vec![p, auto(F)])
}

const METHODS: [N; 6] = ["strict", "fifo", "lifo", "hifo", "strict-with-size", "none"];

fn start(method: N, by_option: bool) -> (Vec<u8>, Opts, Vec<Dir>) {
    let mut opts = Opts::default();
    let mut h = vec![];
    if by_option {
        h = option("booking_method", method.to_uppercase().replace('-', "_").as_bytes());
        opts.booking = Some(method);
    }
    let dirs = vec![
        open_method(D1, A, if by_option { None } else { Some(method) }),
        open(D1, E),
        open(D1, F),
    ];
    (h, opts, dirs)
}

/// two lots and one sale
fn lots() {
    let m = sx::pick(&METHODS);
    let (h, opts, mut dirs) = start(m, false);
    let a = num::sym_range("a", 1, 9, 1, 0);
    let b = num::sym_range("b", 1, 9, 1, 0);
    let s = num::sym_range("sold", 1, 9, 1, 0);
    let (c1, c2) = sx::pick(&[(10, 20), (20, 10), (10, 10)]);
    dirs.push(buy(D2, &a, per(c1)));
    dirs.push(buy(D3, &b, per(c2)));
    dirs.push(sell(D4, &s, CostSpec::default()));
    both(&h, &opts, &dirs, B11);
}

/// three lots, bought in any order of cost and date
fn three_lots(all: bool) {
    let m: N = sx::pick(&["fifo", "lifo", "hifo"]);
    let (h, opts, mut dirs) = start(m, false);
    const CS: [[i64; 3]; 5] = [[30, 10, 20], [20, 10, 10], [20, 30, 10], [10, 10, 20], [10, 20, 30]];
    let cs = sx::pick(if all { &CS } else { &CS[..2] });
    const DS: [[N; 3]; 3] = [
        ["2019-01-03", "2019-01-01", "2019-01-02"],
        ["2019-01-02", "2019-01-03", "2019-01-01"],
        ["2019-01-01", "2019-01-02", "2019-01-03"],
    ];
    let ds: [N; 3] = sx::pick(if all { &DS } else { &DS[..1] });
    let u: Vec<Amt> = ["a", "b", "c"].iter().map(|n| num::sym_range(n, 1, 9, 1, 0)).collect();
    for i in 0..3 {
        dirs.push(buy(DAYS[i + 1], &u[i], CostSpec { date: Some(ds[i]), ..per(cs[i]) }));
    }
    let s = num::sym_range("sold", 10, 29, 2, 0);
    dirs.push(sell(D5, &s, CostSpec::default()));
    both(&h, &opts, &dirs, B11);
}

/// lots picked by date, cost, label
fn lot_spec() {
    let m: N = sx::pick(&["strict", "fifo"]);
    let (h, opts, mut dirs) = start(m, false);
    let a = num::sym_range("a", 3, 9, 1, 0);
    let b = num::sym_range("b", 3, 9, 1, 0);
    let s = num::sym_range("sold", 1, 9, 1, 0);
    let label = |n: u8| Some(vec![b'l', n]);
    dirs.push(buy(D2, &a, CostSpec { label: label(b'1'), ..per(10) }));
    dirs.push(buy(D3, &b, CostSpec { label: label(b'2'), ..per(20) }));
    let mut c = CostSpec::default();
    if sx::flip() {
        c.date = Some(sx::pick(&[D2, D3, D4]));
    }
    match sx::choice(4) {
        0 => {}
        k => {
            c.per = Some(Amt::c([10, 20, 30][k - 1], 0));
            c.cur = Some("USD");
        }
    }
    match sx::choice(3) {
        0 => {}
        1 => c.label = label(b'1'),
        _ => c.label = label(b'3'),
    }
    dirs.push(sell(D5, &s, c));
    both(&h, &opts, &dirs, B11);
}

/// where the method comes from
fn lot_method() {
    let ledger = sx::choice(5);
    let account = sx::choice(5);
    const M: [N; 4] = ["strict", "fifo", "lifo", "hifo"];
    let mut h = vec![];
    let mut opts = Opts::default();
    if ledger > 0 {
        h = option("booking_method", M[ledger - 1].to_uppercase().as_bytes());
        opts.booking = Some(M[ledger - 1]);
    }
    let mut dirs = vec![
        open_method(D1, A, if account > 0 { Some(M[account - 1]) } else { None }),
        open_method(D1, E, None),
        open_method(D1, F, Some("lifo")),
    ];
    let a = num::sym_range("a", 5, 9, 1, 0);
    let s = num::sym_range("sold", 1, 4, 1, 0);
    dirs.push(buy(D2, &a, per(10)));
    dirs.push(buy(D3, &a, per(30)));
    dirs.push(buy(D4, &a, per(20)));
    dirs.push(sell(D5, &s, CostSpec::default()));
    both(&h, &opts, &dirs, B11);
}

/// later sales see what is left
fn lot_again() {
    let m: N = sx::pick(&["fifo", "lifo", "hifo", "strict"]);
    let (h, opts, mut dirs) = start(m, true);
    let a = num::sym_range("a", 1, 5, 1, 0);
    let b = num::sym_range("b", 1, 5, 1, 0);
    dirs.push(buy(D2, &a, per(10)));
    dirs.push(buy(D2, &b, per(20)));
    let s1 = num::sym_range("first", 1, 9, 1, 0);
    let s2 = num::sym_range("second", 1, 9, 1, 0);
    dirs.push(sell(D3, &s1, CostSpec::default()));
    if sx::flip() {
        // a failed sale takes nothing
        dirs.push(sell(D3, &Amt::c(99, 0), CostSpec::default()));
    }
    dirs.push(sell(D4, &s2, CostSpec::default()));
    both(&h, &opts, &dirs, B11);
}

/// lots alike in everything are one; lots in other accounts are left alone
fn lot_same() {
    let m: N = sx::pick(&["fifo", "strict"]);
    let (h, opts, mut dirs) = start(m, false);
    dirs.push(open_method(D1, AB, Some(m)));
    let a = num::sym_range("a", 1, 9, 1, 0);
    let b = num::sym_range("b", 1, 9, 1, 0);
    let s = num::sym_range("sold", 1, 9, 1, 0);
    dirs.push(buy(D2, &a, per(10)));
    let mut second = buy(D2, &b, per(10));
    match sx::choice(3) {
        0 => {}
        1 => {
            if let V::Txn { posts, .. } = &mut second.v {
                posts[0].acc = AB;
            }
        }
        _ => {
            if let V::Txn { posts, .. } = &mut second.v {
                posts[0].cost.as_mut().unwrap().label = Some(b"x".to_vec());
            }
        }
    }
    dirs.push(second);
    dirs.push(sell(D4, &s, CostSpec::default()));
    both(&h, &opts, &dirs, B11);
}

fn sold(x: &crate::json::J) -> Option<Num> {
    // the units of the last transaction in A
    let d = x.get("result")?.get("directives")?.arr();
    let mut t = Num::ZERO;
    for p in d.last()?.get("postings")?.arr() {
        if p.has("acc", A.as_bytes()) {
            t = t.add(p.get_num("units")?);
        }
    }
    Some(t)
}

/// a sale of nearly everything sells what is written
fn lot_near() {
    let (h, _, mut dirs) = start("fifo", false);
    let s = num::sym_range("sold", 300, 309, 1, 2);
    dirs.push(buy(D2, &Amt::c(10, 1), per(10)));
    dirs.push(buy(D3, &Amt::c(205, 2), per(20)));
    dirs.push(sell(D4, &s, CostSpec::default()));
    let a = ask(&beanfile(&h, &dirs).b, &[BOOK.to_vec()]);
    let all = num::n(305, 2);
    match sold(&a[0]) {
        Some(t) => {
            let t = t.neg();
            sx::check(t.eq(s.n) | t.eq(all), "the booked units add up to those written");
            sx::check(t.eq(s.n) & !s.n.gt(all), "[sell-all] the booked units add up to those written");
        }
        None => sx::check(s.n.gt(all), "a sale of what is held is booked"),
    }
}

/// another commodity in the account is not touched
fn lot_other() {
    let m: N = sx::pick(&["fifo", "lifo", "hifo"]);
    let (h, _, mut dirs) = start(m, false);
    let a = num::sym_range("a", 4, 9, 1, 0);
    let g = num::sym_range("g", 1, 9, 1, 0);
    let other: N = sx::pick(&["ABC", "ZZZ"]);
    let mut buy_other = buy(D2, &g, per(7));
    let mut sell_other = sell(D5, &g, CostSpec::default());
    for d in [&mut buy_other, &mut sell_other] {
        if let V::Txn { posts, .. } = &mut d.v {
            posts[0].cur = Some(other);
        }
    }
    dirs.push(buy(D2, &a, per(10)));
    dirs.push(buy(D3, &a, per(20)));
    dirs.push(buy_other);
    dirs.push(sell(D4, &Amt::c(3, 0), CostSpec::default()));
    dirs.push(sell_other);
    let n = dirs.len();
    let t = beanfile(&h, &dirs);
    let a = ask(&t.b, &[BOOK.to_vec()]);
    if let Some(e) = a[0].get("error") {
        let place = Place { text: &t, order: &order(&dirs) };
        if let Ans::Errs(v) = answer(&a[0], Some(&place)) {
            sx::check(v.len() == 1 && v[0].dir == n - 1, "no other directive is in error");
        }
        let _ = e;
        sx::fail("[other-commodity] a commodity held beside the lots sold can be sold");
    } else {
        sx::check(sold(&a[0]).is_some_and(|x| x.eq(g.n.neg())), "the other commodity is sold");
    }
}

// ---- C26 ----

/// the answers to a transaction whose first posting is worked out, with the postings booked
fn worked_out(ps: Vec<Post>, at: usize, judge: impl Fn(&crate::json::J)) {
    let n = ps.len();
    let mut dirs = opened(&[A, E, F]);
    dirs.push(txn(D2, ps.clone()));
    let tx = beanfile(b"", &dirs);
    let a = ask(&tx.b, &[BOOK.to_vec(), request("book", &params(dirs.iter()))]);
    for x in &a {
        let posts = match x.get("result").and_then(|r| r.get("directives")).and_then(|d| d.arr().last()).and_then(|d| d.get("postings")) {
            Some(p) => p.arr(),
            None => {
                sx::fail("what is missing is worked out");
                return;
            }
        };
        sx::check(posts.len() == n, "the transaction has its postings");
        for (k, p) in posts.iter().enumerate() {
            sx::check(p.get("idx").and_then(|i| i.int()) == Some(k as i64), "the postings are in order");
            sx::check(p.has("acc", ps[k].acc.as_bytes()), "the account is as written");
            if k != at {
                sx::check(p.get_num("units").is_some_and(|n| n.eq(ps[k].units.as_ref().unwrap().n)), "the other postings are unchanged");
                sx::check(p.has("cur", b"USD"), "the other postings are unchanged");
            }
        }
        judge(&posts[at]);
        sx::reach(100);
    }
}

/// the others: one or two postings, and what they add up to
fn others(scale: u32) -> (Vec<Post>, Num) {
    let x = num::sym_range("x", 20 * p10(scale), 20 * p10(scale) + 39, 2, scale);
    let x = if sx::flip() { x } else { x.neg() };
    let mut ps = vec![post(E, x.clone(), "USD")];
    let mut sum = x.n;
    match sx::choice(3) {
        0 => {}
        1 => {
            let z = Amt::c(-5, 1);
            sum = sum.add(z.n);
            ps.push(post(F, z, "USD"));
        }
        _ => {
            let z = Amt::c(125, 2);
            sum = sum.add(z.n);
            ps.push(post(F, z, "USD"));
        }
    }
    (ps, sum)
}

/// the amount of a price or cost is missing
fn missing_amount() {
    let u = sx::pick(&[(4i64, 0u32), (-4, 0), (25, 1), (-80, 1), (1, 0)]);
    let u = Amt::c(u.0, u.1);
    let s = sx::choice(3) as u32;
    let (mut ps, sum) = others(s);
    let cur = if sx::flip() { Some("USD") } else { None };
    let held = sx::flip();
    let mut p = post(A, u.clone(), "XYZ");
    if held {
        sx::assume(u.n.m > 0);
        p.cost = Some(CostSpec { cur, date: if sx::flip() { Some("2019-05-06") } else { None }, ..CostSpec::default() });
    } else {
        p.price = Some(PriceSpec { per: None, total: None, cur });
    }
    let date: &[u8] = p.cost.as_ref().and_then(|c| c.date).unwrap_or(D2).as_bytes();
    let at = sx::choice(ps.len() + 1);
    ps.insert(at, p);
    worked_out(ps, at, |p| {
        sx::check(p.get_num("units").is_some_and(|n| n.eq(u.n)), "the units are as written");
        sx::check(p.has("cur", b"XYZ"), "the currency is as written");
        match p.get(if held { "cost" } else { "price" }) {
            Some(c) => {
                sx::check(c.has("cur", b"USD"), "the price or cost is in the currency of the others");
                match (c.get_num("total"), c.get_num("per-unit")) {
                    (Some(t), Some(q)) => {
                        sx::check(t.eq(sum.neg()), "the total is the exact negation of the sum of the others");
                        sx::check(q.mul(u.n.abs()).eq(t.abs()), "the amount per unit is the total divided by the units");
                    }
                    _ => sx::fail("the missing price or cost is worked out"),
                }
                if held {
                    sx::check(c.has("date", date), "the date of the lot is as written");
                }
            }
            None => sx::fail("the missing price or cost is worked out"),
        }
        sx::check(p.get(if held { "price" } else { "cost" }).is_none(), "nothing else was written");
    });
}

/// the units of a priced posting are missing
fn missing_units() {
    let per = sx::pick(&[(4i64, 0u32), (25, 1), (3, 0), (125, 2), (11, 1)]);
    let per = Amt::c(per.0, per.1);
    let s = sx::choice(3) as u32;
    let (mut ps, sum) = others(s);
    let cur = if sx::flip() { Some("USD") } else { None };
    let held = sx::flip();
    let mut p = auto(A);
    p.cur = Some("XYZ");
    if held {
        p.cost = Some(CostSpec { per: Some(per.clone()), cur, ..CostSpec::default() });
    } else {
        p.price = Some(PriceSpec { per: Some(per.clone()), total: None, cur });
    }
    let at = sx::choice(ps.len() + 1);
    ps.insert(at, p);
    worked_out(ps, at, |p| {
        sx::check(p.has("cur", b"XYZ"), "the currency is as written");
        match p.get_num("units") {
            Some(n) => {
                // the nearest of as many decimals as the sum
                let e = n.mul(per.n).add(sum);
                sx::check(e.abs().mul(num::n(2, 0)).sub(per.n.mul(num::n(1, sum.s))).m <= 0, "the units are the sum divided by the amount per unit");
                sx::check(n.s <= sum.s, "the units have the decimals of the sum");
            }
            None => sx::fail("the missing units are worked out"),
        }
        match p.get(if held { "cost" } else { "price" }) {
            Some(c) => {
                sx::check(c.has("cur", b"USD"), "the price or cost is in the currency of the others");
                sx::check(c.get_num("per-unit").is_some_and(|q| q.eq(per.n)), "the amount per unit is as written");
                match (c.get_num("total"), p.get_num("units")) {
                    (Some(t), Some(n)) => sx::check(t.eq(n.mul(per.n)), "the total is units times amount per unit"),
                    _ => sx::fail("a price has its amounts"),
                }
            }
            None => sx::fail("a posting with a price or cost states it"),
        }
    });
}
