//! Ledgers which cannot be parsed or read (C28).
use crate::json::{self, J};
use crate::led::*;
use crate::rpc::*;
use crate::s_io::{text, TN, UN};
use crate::s_span::{formatted, reports, wire};
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C28.each" => each(),
        "C28.two" => two(),
        "C28.broken" => broken(),
        "C28.corrupt" => corrupt(),
        "C28.include" => include(),
        "C28.unread" => unread(),
        "C28.options" => options(),
        _ => return false,
    }
    true
}

/// lines which are not Beancount, each on its own
const BAD: [&[u8]; 26] = [
    b"2020-01-01 open Assets\n",
    b"2020-01-01 open assets:A\n",
    b"2020-01-01 open Assets:A USD EUR\n",
    b"2020-01-01 opne Assets:A\n",
    b"2020-13-01 open Assets:A\n",
    b"2020-02-30 open Assets:A\n",
    b"2020-01-01 balance Assets:A 1\n",
    b"2020-01-01 balance Assets:A 1 ~ USD\n",
    b"2020-01-01 pad Assets:A\n",
    b"2020-01-01 event \"a\"\n",
    b"2020-01-01 commodity usd\n",
    b"2020-01-01 price USD 1 / EUR\n",
    b"2020-01-01 * \"x\"\n  Assets:A 1 USD {1 USD\n",
    b"2020-01-01 * \"x\"\n  Assets:A 1..2 USD\n",
    b"2020-01-01 * \"x\"\n  Assets:A 1 USD @@@ 2 EUR\n",
    b"poptag #a\n",
    b"popmeta one:\n",
    b"pushtag #t\n",
    b"option \"x\" 1\n",
    b"option \"unknown\" \"x\"\n",
    b"option \"booking_method\" \"NONSENSE\"\n",
    b"option \"operating_currency\" \"usd\"\n",
    b"include 1\n",
    b"include \"nowhere.bean\"\n",
    b"plugin x\n",
    b"@\n",
];

fn code(x: &J) -> Option<i64> {
    x.get("error").and_then(|e| e.get("code")).and_then(|c| c.int())
}

/// every request about the ledger; booking given directives among them
fn about() -> Vec<Vec<u8>> {
    let given = b"[{\"date\":\"2020-01-01\",\"dct\":\"open\",\"acc\":\"Assets:A\"}]";
    let mut v = vec![DIRECTIVES.to_vec(), OPTIONS.to_vec(), PLUGINS.to_vec(), BOOK.to_vec(), request("book", given)];
    // in any place
    v.rotate_left(sx::choice(5));
    v
}

/// the reports of a ledger with errors, the same whatever is asked
fn refused(a: &[J]) -> Vec<J> {
    for x in a {
        sx::check(code(x) == Some(2), "a ledger with errors is answered with reports");
        sx::check(x.get("result").is_none(), "nothing is answered from a ledger with errors");
    }
    let first = reports(&a[0]);
    sx::check(!first.is_empty(), "a ledger with errors is answered with reports");
    for x in &a[1..] {
        let r = reports(x);
        sx::check(r.len() == first.len(), "the reports are the same whatever is asked");
        for (p, q) in first.iter().zip(&r) {
            sx::check(p.same(q), "the reports are the same whatever is asked");
        }
    }
    for r in &first {
        for k in ["message", "reason"] {
            sx::check(r.get_str(k).is_some_and(|m| !m.is_empty()), "a report has a message and a reason");
        }
    }
    first
}

/// where a report is: source, start and end
fn place(r: &J) -> (i64, i64, i64) {
    let s = match r.get("span") {
        Some(s) => s,
        None => {
            sx::fail("a report has a span");
            return (0, 0, 0);
        }
    };
    let n = |i: usize| s.arr().get(i).and_then(|v| v.int()).unwrap_or(-1);
    sx::check(s.arr().len() == 3, "a span is a source, a start and an end");
    sx::check((n(0) >= 0) & (n(1) >= 0) & (n(1) <= n(2)), "a span is a source, a start and an end");
    (n(0), n(1), n(2))
}

/// each report lies on one of these lines (of the beanfile), and each line has one
fn located(reports: &[J], lines: &[(usize, usize)], all: bool) {
    let at: Vec<_> = reports.iter().map(place).collect();
    for &(f, s, e) in &at {
        let r = lines.iter().fold(false, |r, &(a, b)| r | ((f == 0) & (s >= a as i64) & (s < b as i64) & (e <= b as i64 + 1)));
        sx::check(r, "a report is on the line at fault");
    }
    if all {
        for &(a, b) in lines {
            let r = at.iter().fold(false, |r, &(_, s, _)| r | ((s >= a as i64) & (s < b as i64)));
            sx::check(r, "every line at fault is reported");
        }
    }
}

fn good(names: &[&'static str]) -> T {
    [b"2020-01-01 event \"a\" \"", &text(names, 1)[..], b"\"\n"].concat()
}

fn each() {
    let bad = sx::pick(&BAD);
    let mut t = vec![];
    if sx::flip() {
        t.extend(good(&TN));
    }
    let from = t.len();
    t.extend(bad);
    let to = t.len();
    if sx::flip() {
        t.extend(good(&UN));
    }
    let a = ask(&t, &about());
    let r = refused(&a);
    located(&r, &[(from, to)], true);
    formatted(&t, &r);
}

fn two() {
    let (i, j) = (sx::choice(BAD.len()), sx::choice(BAD.len()));
    let mut t = good(&TN);
    let a0 = t.len();
    t.extend(BAD[i]);
    let a1 = t.len();
    t.extend(good(&UN));
    let b0 = t.len();
    t.extend(BAD[j]);
    let b1 = t.len();
    t.extend(good(&TN));
    let a = ask(&t, &[DIRECTIVES.to_vec(), BOOK.to_vec()]);
    let r = refused(&a);
    located(&r, &[(a0, a1), (b0, b1)], true);
    sx::reach(100);
}

/// lines which are wrong whatever stands in a place of theirs
fn broken() {
    let d = |n: &'static str, lo: u8, hi: u8| sx::var(n, lo as u64, hi as u64) as u8;
    let bad: T = match sx::choice(7) {
        // months and days out of range
        0 => {
            let m = [d("m0", b'1', b'9'), d("m1", b'0', b'9')];
            sx::assume((m[0] != b'1') | (m[1] > b'2'));
            [b"2020-", &m[..], b"-01 open Assets:A\n"].concat()
        }
        1 => {
            let m = [d("m0", b'3', b'9'), d("m1", b'0', b'9')];
            sx::assume((m[0] != b'3') | (m[1] > b'1'));
            [b"2020-01-", &m[..], b" open Assets:A\n"].concat()
        }
        // accounts and currencies in lower case
        2 => [b"2020-01-01 open Assets:", &[d("c", b'a', b'z')][..], b"\n"].concat(),
        3 => [b"2020-01-01 commodity US", &[d("c", b'a', b'z')][..], b"\n"].concat(),
        // no such directive
        4 => {
            let c = d("c", b'a', b'z');
            sx::assume(c != b'n');
            [b"2020-01-01 ope", &[c][..], b" Assets:A\n"].concat()
        }
        // no such option
        5 => [b"option \"titl", &[d("c", b'f', b'z')][..], b"\" \"x\"\n"].concat(),
        _ => [b"2020-01-01 note Assets:A ", &[d("c", b'0', b'9')][..], b"\n"].concat(),
    };
    let mut t = good(&TN);
    let from = t.len();
    t.extend(bad);
    let to = t.len();
    t.extend(b"2020-01-01 open Assets:Z\n");
    let a = ask(&t, &[BOOK.to_vec(), PLUGINS.to_vec(), DIRECTIVES.to_vec()]);
    let r = refused(&a);
    located(&r, &[(from, to)], true);
    sx::reach(100);
}

/// any byte on a line replaced: if it is refused, then by all, and there
fn corrupt() {
    let line: &[u8] = sx::pick(&[&b"2020-01-01 open Assets:A USD\n"[..], b"option \"title\" \"x\"\n", b"2020-01-01 price EUR 1.5 USD\n"]);
    let mut t = good(&TN);
    let from = t.len();
    let at = sx::choice(line.len() - 1);
    let mut l = line.to_vec();
    l[at] = sx::var("byte", 32, 126) as u8;
    t.extend(&l);
    t.extend(b"2020-01-01 open Assets:Z\n");
    let a = ask(&t, &[PLUGINS.to_vec(), DIRECTIVES.to_vec(), BOOK.to_vec(), OPTIONS.to_vec()]);
    if code(&a[0]).is_none() {
        sx::reach(101);
        for i in [0, 1, 3] {
            sx::check(a[i].get("result").is_some(), "what is parsed is answered from");
        }
        return;
    }
    let r = refused(&a);
    // a quote may take in the lines that follow
    for x in &r {
        let (f, s, _) = place(x);
        sx::check((f == 0) & (s >= from as i64), "a report is on the line at fault");
    }
    sx::reach(100);
}

/// errors in a file that is included
fn include() {
    let bad = BAD[[0, 3, 4, 6, 9, 12, 15, 20][sx::choice(8)]];
    let inner = sx::flip();
    let mut t = b"include \"sub/in.bean\"\n".to_vec();
    let mut u = vec![];
    u.extend(good(&TN));
    t.extend(good(&UN));
    let from = if inner { u.len() } else { t.len() };
    let (x, y) = if inner { (&mut u, &mut t) } else { (&mut t, &mut u) };
    x.extend(bad);
    let to = x.len();
    y.extend(b"2020-01-01 open Assets:Z\n");
    sx::file("/v/sub/in.bean", &u);
    let a = ask(&t, &about());
    let r = refused(&a);
    for e in &r {
        let (f, s, _) = place(e);
        sx::check((f == 0) != inner, "a report is of the file at fault");
        sx::check((s >= from as i64) & (s < to as i64), "a report is on the line at fault");
    }
    let mut p = vec![];
    wire(&J::Arr(r), &mut p);
    let a = ask(&t, &[request("parser.format-errors", &p)]);
    let o = a[0].get_str("result").unwrap_or(b"");
    let name: &[u8] = if inner { b"/v/sub/in.bean" } else { b"/v/l.bean" };
    sx::check((0..(o.len() + 1).saturating_sub(name.len())).any(|i| json::same(&o[i..i + name.len()], name)), "a formatted report names the file");
    sx::reach(100);
}

/// a beanfile which is missing, is a directory, or is not text
fn unread() {
    let k = sx::choice(4);
    match k {
        0 => {}
        1 => sx::file("/v/l.bean/x", b"y"),
        2 => sx::file("/v/l.bean", &[b"2020-01-01 open Assets:A\n; ", &[sx::var("byte", 128, 255) as u8][..], b"\n"].concat()),
        _ => {
            sx::file("/v/l.bean", b"include \"in.bean\"\n");
            sx::file("/v/in.bean", &[b"; ", &[sx::var("byte", 128, 255) as u8][..], b"\n"].concat());
        }
    }
    let mut reqs = about();
    reqs.push(request("parser.resolve-spans", b"[]"));
    let input = reqs.join(&b'\n');
    sx::args(&[b"limabean-pod", b"serve", b"/v/l.bean"]);
    sx::stdin(&[&input[..], b"\n"].concat());
    let r = sx::run(0);
    sx::check(r == 0, "the server ends by itself");
    let o = sx::out(1);
    let a: Vec<J> = o.split(|c| *c == b'\n').filter(|l| !l.is_empty()).filter_map(json::parse).collect();
    sx::check(a.len() == reqs.len(), "one answer per request");
    for (i, x) in a.iter().enumerate() {
        if k < 3 {
            sx::check(code(x) == Some(1), "an unreadable beanfile is error 1");
            let m = x.get("error").and_then(|e| e.get_str("message")).unwrap_or(b"");
            let name = b"/v/l.bean";
            sx::check((0..(m.len() + 1).saturating_sub(name.len())).any(|i| &m[i..i + name.len()] == name), "an unreadable beanfile is named");
        } else if i < 5 {
            sx::check(matches!(code(x), Some(1) | Some(2)), "an unreadable file is an error");
        }
    }
    sx::reach(100);
}

/// what does not concern the ledger is answered all the same
fn options() {
    let bad = BAD[[0, 3, 12, 17, 20, 23][sx::choice(6)]];
    let t = [&good(&TN)[..], bad].concat();
    let frag = [b"[{\"name\":\"n\",\"content\":", &json::jquote(&good(&UN))[..], b"}]"].concat();
    let mut reqs = vec![
        br#"{"jsonrpc":"2.0","id":9,"method":"status"}"#.to_vec(),
        request("parser.create-synthetic-spans", &frag),
        request("parser.resolve-spans", b"[[0,0,4]]"),
        BOOK.to_vec(),
    ];
    reqs.rotate_left(sx::choice(4));
    let a = ask(&t, &reqs);
    let mut refusals = 0;
    for x in &a {
        match code(x) {
            Some(2) => refusals += 1,
            Some(_) => sx::fail("what does not concern the ledger is answered"),
            None => {}
        }
    }
    sx::check(refusals == 1, "what does not concern the ledger is answered");
    sx::reach(100);
}
