//! Options and plugins (C19).
use crate::json::{self, J};
use crate::led::*;
use crate::model::Opts;
use crate::num;
use crate::rpc::*;
use crate::s_io::{special, text, TN, UN};
use crate::scen::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C19.each" => each(),
        "C19.pairs" => pairs(2),
        "C19.triples" => pairs(3),
        "C19.many" => many(),
        "C19.bad" => bad(),
        "C19.plugins" => plugins(),
        "C19.names" => names(),
        "C19.lots" => lots(),
        "C19.include" => include(),
        _ => return false,
    }
    true
}

type Pairs = Vec<(Vec<u8>, J)>;

fn js(t: &[u8]) -> J {
    J::Str(t.to_vec())
}

/// what is reported where nothing is set
fn defaults() -> Pairs {
    [("name-assets", "Assets"), ("name-liabilities", "Liabilities"), ("name-equity", "Equity"), ("name-income", "Income"), ("name-expenses", "Expenses")]
        .iter()
        .map(|(k, v)| (k.as_bytes().to_vec(), js(v.as_bytes())))
        .collect()
}

/// options are reported exactly as expected
fn reported(a: &J, want: &Pairs) {
    let o = match a.get("result") {
        Some(J::Obj(o)) => o,
        _ => {
            sx::fail("the options of a valid beanfile are reported");
            return;
        }
    };
    for (k, v) in want {
        match o.iter().find(|(l, _)| l == k) {
            Some((_, w)) => sx::check(alike(v, w), "an option is reported as it was set"),
            None => sx::fail("every option set is reported"),
        }
    }
    for (k, _) in o {
        sx::check(want.iter().any(|(l, _)| l == k), "an option not set is absent");
    }
}

/// lists stand for sets
fn alike(e: &J, a: &J) -> bool {
    match (e, a) {
        (J::Arr(x), J::Arr(y)) => {
            x.len() == y.len() && x.iter().fold(true, |r, v| r & y.iter().fold(false, |s, w| s | alike(v, w)))
        }
        (J::Obj(x), J::Obj(y)) => {
            x.len() == y.len()
                && x.iter().fold(true, |r, (k, v)| {
                    r & y.iter().fold(false, |s, (l, w)| s | (k.len() == l.len() && json::same(k, l) & alike(v, w)))
                })
        }
        (J::Num(x), J::Num(y)) => match (num::parse(x), num::parse(y)) {
            (Some(x), Some(y)) => x.eq(y) & (x.s == y.s),
            _ => false,
        },
        _ => e.same(a),
    }
}

fn put(w: &mut Pairs, k: &str, v: J) {
    let k = k.as_bytes().to_vec();
    match w.iter_mut().find(|(l, _)| *l == k) {
        Some((_, x)) => *x = v,
        None => w.push((k, v)),
    }
}

const OPTS: usize = 24;
const ACCS: [&str; 7] = [
    "account_previous_balances",
    "account_previous_earnings",
    "account_previous_conversions",
    "account_current_earnings",
    "account_current_conversions",
    "account_unrealized_gains",
    "account_rounding",
];
const METHODS: [(&str, &str); 7] = [
    ("STRICT", "strict"),
    ("STRICT_WITH_SIZE", "strict-with-size"),
    ("NONE", "none"),
    ("AVERAGE", "average"),
    ("FIFO", "fifo"),
    ("LIFO", "lifo"),
    ("HIFO", "hifo"),
];

fn upper(n: &str) -> u8 {
    sx::var(n, b'A' as u64, b'Z' as u64) as u8
}
fn lower(n: &str) -> u8 {
    sx::var(n, b'a' as u64, b'z' as u64) as u8
}
fn kebab(s: &str) -> String {
    s.replace('_', "-")
}
/// a letter in a name which the code looks up by its hash: every one in turn
fn each_upper(n: &str) -> u8 {
    sx::concrete(upper(n) as u64) as u8
}
fn each_lower(n: &str) -> u8 {
    sx::concrete(lower(n) as u64) as u8
}
/// true or false in any case
fn truth(names: &[&str; 5]) -> (Vec<u8>, bool) {
    let b = sx::flip();
    let w: &[u8] = if b { b"true" } else { b"false" };
    (w.iter().enumerate().map(|(i, c)| c - 32 * sx::var(names[i], 0, 1) as u8).collect(), b)
}

/// one option with a value of its kind; what is then reported
fn one(k: usize, w: &mut Pairs, t: &mut Vec<u8>) {
    match k {
        0 => {
            let x = special(&TN);
            t.extend(option("title", &json::quote(&x)[1..json::quote(&x).len() - 1]));
            put(w, "title", js(&x));
        }
        1..=5 => {
            let n = ["assets", "liabilities", "equity", "income", "expenses"][k - 1];
            let v = [&[each_upper("n0")][..], &[b'x', b'0' + k as u8, b'-', b'Z']].concat();
            t.extend(option(&format(&["name_", n]), &v));
            put(w, &format(&["name-", n]), js(&v));
        }
        6..=12 => {
            let v = [&[upper("a0"), lower("a1")][..], sx::pick(&[&b""[..], b":Sub-2", b":B:C"])].concat();
            t.extend(option(ACCS[k - 6], &v));
            put(w, &kebab(ACCS[k - 6]), js(&v));
        }
        13 => {
            let v = [upper("c0"), b'B', upper("c1")].to_vec();
            t.extend(option("conversion_currency", &v));
            put(w, "conversion-currency", js(&v));
        }
        14 => {
            let d = num::sym("tol", 1, 3);
            t.extend(option("inferred_tolerance_default", &[b"USD:", &d.text[..]].concat()));
            put(w, "inferred-tolerance-default", J::Obj(vec![(b"USD".to_vec(), J::Num(d.text))]));
        }
        15 => {
            let d = num::sym("any", 1, 2);
            t.extend(option("inferred_tolerance_default", &[b"*:", &d.text[..]].concat()));
            put(w, "inferred-tolerance-default-fallback", J::Num(d.text));
        }
        16 => {
            let d = num::sym("mult", 1, sx::choice(3) as u32);
            t.extend(option("inferred_tolerance_multiplier", &d.text));
            put(w, "inferred-tolerance-multiplier", J::Num(d.text));
        }
        17 => {
            let (v, b) = truth(&["b0", "b1", "b2", "b3", "b4"]);
            t.extend(option("infer_tolerance_from_cost", &v));
            put(w, "infer-tolerance-from-cost", J::Bool(b));
        }
        18 => {
            let v = [&b"docs/"[..], &[each_lower("d")]].concat();
            t.extend(option("documents", &v));
            put(w, "documents", J::Arr(vec![js(&[&b"/v/"[..], &v].concat())]));
        }
        19 => {
            let v = [b'C', each_upper("o")].to_vec();
            t.extend(option("operating_currency", &v));
            put(w, "operating-currency", J::Arr(vec![js(&v)]));
        }
        20 => {
            let (v, b) = match sx::choice(3) {
                0 => (b"0".to_vec(), false),
                1 => (b"1".to_vec(), true),
                _ => truth(&["r0", "r1", "r2", "r3", "r4"]),
            };
            t.extend(option("render_commas", &v));
            put(w, "render-commas", J::Bool(b));
        }
        21 => {
            let (v, r) = sx::pick(&METHODS);
            t.extend(option("booking_method", v.as_bytes()));
            put(w, "booking-method", js(r.as_bytes()));
        }
        22 => {
            let (v, r) = sx::pick(&[("DEFAULT", "default"), ("RAW", "raw")]);
            t.extend(option("plugin_processing_mode", v.as_bytes()));
            put(w, "plugin-processing-mode", js(r.as_bytes()));
        }
        _ => {
            // this one is for the parser only
            t.extend(option("long_string_maxlines", b"99"));
        }
    }
}

fn format(s: &[&str]) -> String {
    s.concat()
}

/// each option by itself, or none
fn each() {
    let k = sx::choice(OPTS + 1);
    let (mut t, mut w) = (vec![], defaults());
    if k < OPTS {
        one(k, &mut w, &mut t);
    }
    let d: &[u8] = b"2020-01-01 event \"a\" \"b\"\n";
    let t = if sx::flip() { [d, &t].concat() } else { [&t, d].concat() };
    let a = ask(&t, &[OPTIONS.to_vec(), DIRECTIVES.to_vec(), OPTIONS.to_vec()]);
    reported(&a[0], &w);
    reported(&a[2], &w);
    sx::check(list_len(&a[1]) == Some(1), "options are no directives");
    sx::reach(100);
}
fn list_len(a: &J) -> Option<usize> {
    a.get("result").and_then(|r| r.get("directives")).map(|d| d.arr().len())
}

/// different options together
fn pairs(n: usize) {
    const SOME: [usize; 12] = [0, 1, 5, 6, 12, 13, 15, 16, 17, 19, 20, 21];
    let (mut t, mut w) = (vec![], defaults());
    let mut used = vec![];
    for _ in 0..n {
        let k = SOME[sx::choice(if n > 2 { 12 } else { SOME.len() })];
        if used.contains(&k) {
            return;
        }
        used.push(k);
        simple(k, &mut w, &mut t);
    }
    let a = ask(&t, &[OPTIONS.to_vec()]);
    reported(&a[0], &w);
    sx::reach(100);
}
/// as `one` with a value of one form only
fn simple(k: usize, w: &mut Pairs, t: &mut Vec<u8>) {
    let mut o = |n: &str, v: &[u8], j: J| {
        t.extend(option(n, v));
        put(w, &kebab(n), j);
    };
    match k {
        0 => {
            let v = text(&TN, 1);
            o("title", &json::quote(&v)[1..json::quote(&v).len() - 1], js(&v))
        }
        1 => o("name_assets", b"Own-9", js(b"Own-9")),
        5 => o("name_expenses", b"Out", js(b"Out")),
        19 => o("operating_currency", b"C_D", J::Arr(vec![js(b"C_D")])),
        6 => o("account_previous_balances", b"P:Q", js(b"P:Q")),
        12 => o("account_rounding", b"Rounding", js(b"Rounding")),
        16 => o("inferred_tolerance_multiplier", b"0.75", J::Num(b"0.75".to_vec())),
        17 => o("infer_tolerance_from_cost", b"TRUE", J::Bool(true)),
        20 => o("render_commas", b"FALSE", J::Bool(false)),
        21 => o("booking_method", b"LIFO", js(b"lifo")),
        _ => one(k, w, t),
    }
}

/// options which may be given more than once
fn many() {
    let (mut t, mut w) = (vec![], defaults());
    let n = 1 + sx::choice(3);
    match sx::choice(3) {
        0 => {
            let v: Vec<Vec<u8>> = (0..n).map(|i| [[b'C', b'D', b'E'][i], if i == n - 1 { each_upper("o") } else { b'X' }].to_vec()).collect();
            for x in &v {
                t.extend(option("operating_currency", x));
            }
            put(&mut w, "operating-currency", J::Arr(v.iter().map(|x| js(x)).collect()));
        }
        1 => {
            let v: Vec<Vec<u8>> = (0..n).map(|i| [&b"d"[..], &[b'0' + i as u8], &[if i == n - 1 { each_lower("d") } else { b'x' }]].concat()).collect();
            let v: Vec<Vec<u8>> = if sx::flip() { v } else { v.iter().map(|x| [&x[..], b"/"].concat()).collect() };
            for x in &v {
                t.extend(option("documents", x));
            }
            put(&mut w, "documents", J::Arr(v.iter().map(|x| js(&[&b"/v/"[..], x].concat())).collect()));
        }
        _ => {
            let mut o = vec![];
            for i in 0..n {
                let d = num::sym(["t0", "t1", "t2"][i], 1, 3 - i as u32);
                let c: &[u8] = [&b"USD"[..], b"*", b"EUR"][i];
                t.extend(option("inferred_tolerance_default", &[c, b":", &d.text].concat()));
                if c == b"*" {
                    put(&mut w, "inferred-tolerance-default-fallback", J::Num(d.text));
                } else {
                    o.push((c.to_vec(), J::Num(d.text)));
                }
            }
            put(&mut w, "inferred-tolerance-default", J::Obj(o));
        }
    }
    let a = ask(&t, &[OPTIONS.to_vec()]);
    reported(&a[0], &w);
    sx::reach(100);
}

/// options that are refused
fn bad() {
    let (n, v): (&str, &[u8]) = sx::pick(&[
        ("titel", &b"x"[..]),
        ("name_assets", b"1x"),
        ("name_assets", b"Equity"),
        ("account_rounding", b"a b"),
        ("conversion_currency", b"us"),
        ("inferred_tolerance_default", b"USD"),
        ("inferred_tolerance_default", b"USD:1:2"),
        ("inferred_tolerance_default", b"USD:x"),
        ("inferred_tolerance_multiplier", b"half"),
        ("infer_tolerance_from_cost", b"1"),
        ("operating_currency", b"$"),
        ("render_commas", b"2"),
        ("booking_method", b"BEST"),
        ("plugin_processing_mode", b"cooked"),
        ("long_string_maxlines", b"-1"),
        ("title", b"twice"),
        ("operating_currency", b"USD"),
    ]);
    let h: &[u8] = if n == "title" || v == b"USD" && n == "operating_currency" { b"option \"title\" \"once\"\noption \"operating_currency\" \"USD\"\n" } else { b"" };
    let lead = [b"; ", &text(&TN, 1)[..], b"\n"].concat();
    let t = [&lead, h, &option(n, v), b"2020-01-01 event \"a\" \"b\"\n"].concat();
    let at = (lead.len() + h.len()) as i64;
    let end = at + option(n, v).len() as i64;
    let a = ask(&t, &[OPTIONS.to_vec(), BOOK.to_vec()]);
    for x in &a {
        let e = x.get("error");
        sx::check(e.and_then(|e| e.get("code")).and_then(|c| c.int()) == Some(2), "an option which cannot be is an error");
        let d = e.and_then(|e| e.get("data")).map_or(&[][..], |d| d.arr());
        sx::check(d.len() == 1, "an option which cannot be is one error");
        for r in d {
            let s = r.get("span").and_then(|s| s.arr().get(1)).and_then(|s| s.int()).unwrap_or(-1);
            sx::check((s >= at) & (s < end), "an option which cannot be is reported where it is");
        }
    }
    sx::reach(100);
}

fn plugins() {
    let n = sx::choice(4);
    let (mut t, mut want) = (vec![], vec![]);
    for i in 0..n {
        // one of them of any form
        let w = [TN, UN, ["v0", "v1", "v2", "v3"]][i];
        let name = if i == 0 { special(&w) } else { [b"p.", &text(&w, 1)[..]].concat() };
        let config = match sx::choice(3) {
            0 => None,
            1 => Some([&b"{ 'a': \"b\" }\\"[..], &[b'0' + i as u8]].concat()),
            _ => Some(if i == 1 { special(&["c0", "c1", "c2", "c3"]) } else { vec![] }),
        };
        t.extend(b"plugin ");
        t.extend(json::quote(&name));
        let mut o = vec![(b"name".to_vec(), js(&name))];
        if let Some(c) = &config {
            t.push(b' ');
            t.extend(json::quote(c));
            o.push((b"config".to_vec(), js(c)));
        }
        t.push(b'\n');
        want.push(J::Obj(o));
        if i == 1 {
            t.extend(b"2020-01-01 event \"a\" \"b\"\n");
        }
    }
    let a = ask(&t, &[PLUGINS.to_vec()]);
    listed(&a[0], &want);
    sx::reach(100);
}

fn listed(a: &J, want: &[J]) {
    let n = want.len();
    match a.get("result") {
        Some(J::Arr(r)) => {
            sx::check(r.len() == n, "every plugin is reported once");
            for (x, y) in want.iter().zip(r) {
                let y = match y {
                    J::Obj(o) => &J::Obj(o.iter().filter(|(_, v)| !matches!(v, J::Null)).cloned().collect()),
                    _ => y,
                };
                sx::check(alike(x, y), "plugins are reported as declared, in order");
            }
        }
        _ => sx::fail("the plugins of a valid beanfile are reported"),
    }
}

/// options and plugins of included files
fn include() {
    let k = [0, 7, 13, 15, 18, 19, 21][sx::choice(7)];
    let (mut t, mut w) = (vec![], defaults());
    one(k, &mut w, &mut t);
    if k == 18 {
        // as seen from the file which has it
        let d = t[t.len() - 3];
        w.retain(|(k, _)| k != b"documents");
        put(&mut w, "documents", J::Arr(vec![js(&[&b"/v/sub/docs/"[..], &[d]].concat())]));
    }
    t.extend(b"plugin \"p.sub\"\n");
    let c: N = name(t);
    sx::file("/v/sub/x.bean", c.as_bytes());
    let main: &[u8] = b"include \"sub/x.bean\"\noption \"account_rounding\" \"Rest\"\noption \"operating_currency\" \"GBP\"\n";
    let gbp = js(b"GBP");
    match w.iter_mut().find(|(k, _)| k == b"operating-currency") {
        Some((_, J::Arr(v))) => v.push(gbp),
        _ => put(&mut w, "operating-currency", J::Arr(vec![gbp])),
    }
    put(&mut w, "account-rounding", js(b"Rest"));
    let a = ask(main, &[OPTIONS.to_vec(), PLUGINS.to_vec()]);
    reported(&a[0], &w);
    listed(&a[1], &[J::Obj(vec![(b"name".to_vec(), js(b"p.sub"))])]);
    sx::reach(100);
}

/// accounts go by the names chosen for their types
fn names() {
    let v = [each_upper("n"), b'i', b'9'];
    let k = sx::choice(5);
    let n = ["assets", "liabilities", "equity", "income", "expenses"][k];
    let old = ["Assets", "Liabilities", "Equity", "Income", "Expenses"][k];
    let acc: N = name([&v[..], b":A"].concat());
    let x = num::sym("x", 2, 2);
    let other: N = if k == 2 { "Assets:B" } else { "Equity:E" };
    let dirs = vec![open(D1, acc), open(D1, other), move_(D2, acc, other, &x, "USD"), bal(D3, acc, x.clone(), "USD")];
    let h = option(&format(&["name_", n]), &v);
    both(&h, &Opts::default(), &dirs, WHERE | SEQ | UNITS);
    // the old name is none
    let t = [&h, format(&["2020-01-01 open ", old, ":A\n"]).as_bytes()].concat();
    let a = ask(&t, &[BOOK.to_vec()]);
    sx::check(
        a[0].get("error").and_then(|e| e.get("code")).and_then(|c| c.int()) == Some(2),
        "an account type goes by its chosen name only",
    );
}

/// every booking method there is, as the option
fn lots() {
    let (v, m) = METHODS[[0, 1, 3, 4, 5, 6][sx::choice(6)]];
    let h = option("booking_method", v.as_bytes());
    // a method which is not supported is as none given
    let opts = Opts { booking: if m == "average" { None } else { Some(m) }, ..Opts::default() };
    let a = num::sym_range("a", 5, 9, 1, 0);
    let s = num::sym_range("sold", 1, 4, 1, 0);
    let per = |p: i64| CostSpec { per: Some(crate::num::Amt::c(p, 0)), cur: Some("USD"), ..CostSpec::default() };
    let lot = |d: N, x: &crate::num::Amt, c: CostSpec| {
        let mut p = post(A, x.clone(), "XYZ");
        p.cost = Some(c);
        txn(d, vec![p, auto(E)])
    };
    let dirs = vec![
        open(D1, A),
        open(D1, E),
        lot(D2, &a, per(10)),
        lot(D3, &a, per(30)),
        lot(D4, &a, per(20)),
        lot(D5, &s.neg(), CostSpec::default()),
    ];
    both(&h, &opts, &dirs, WHERE | SEQ | UNITS | COST);
}
