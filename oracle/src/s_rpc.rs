//! The protocol (C17), options and plugins (C19).
use crate::json::{self, J};
use crate::num;
use crate::rpc::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C17.ids" => ids(),
        "C17.methods" => methods(),
        "C17.sequence" => sequence(3),
        "C17.sequence4" => sequence(4),
        "C17.corrupt" => corrupt(),
        "C17.params" => corrupt_params(),
        "C17.bytes" => bytes(),
        "C17.ends" => ends(),
        "C17.ledger" => corrupt_ledger(),
        "C17.around" => around(),
        "C17.many" => many(),
        "C17.long" => long(),
        "C17.schedule" => scheduled(),
        _ => return false,
    }
    true
}

// ---- C17 ----

const HEALTHY: &[u8] = b"2020-01-01 open Assets:A\n";

/// a request; the id is JSON, none if empty
fn line(version: &[u8], id: &[u8], method: &str, params: &[u8]) -> Vec<u8> {
    let mut v = b"{\"jsonrpc\":".to_vec();
    v.extend(json::quote(version));
    if !id.is_empty() {
        v.extend(b",\"id\":");
        v.extend(id);
    }
    v.extend(b",\"method\":");
    v.extend(json::quote(method.as_bytes()));
    if !params.is_empty() {
        v.extend(b",\"params\":");
        v.extend(params);
    }
    v.push(b'}');
    v
}

/// the answers of the server, which must end at the end of input
fn talk(path: &[u8], file: Option<&[u8]>, input: &[u8]) -> Vec<J> {
    if let Some(f) = file {
        sx::file("/v/l.bean", f);
    }
    sx::stdin(input);
    sx::args(&[b"limabean-pod", b"serve", path]);
    sx::env(&[]);
    sx::check(sx::run(0) == 0, "the server ends with status 0 at the end of input");
    let out = sx::out(1);
    sx::check(out.is_empty() || out[out.len() - 1] == b'\n', "every answer ends its line");
    lines(&out)
        .iter()
        .map(|l| match json::parse(l) {
            Some(j) => j,
            None => {
                sx::fail("an answer is JSON");
                J::Null
            }
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Want {
    Result,
    Code(i64),
    Either,
}

fn same_id(got: &J, id: &J) -> bool {
    match (got, id) {
        (J::Num(a), J::Num(b)) => json::same(a, b),
        _ => got.same(id),
    }
}

/// what every answer has to be
fn form(a: &J, want: Want) {
    let n = match a {
        J::Obj(o) => o.len(),
        _ => 0,
    };
    sx::check(n == 3, "an answer has version, id and a result or an error");
    sx::check(a.has("jsonrpc", b"2.0"), "an answer is JSON-RPC 2.0");
    let (r, e) = (a.get("result"), a.get("error"));
    sx::check(r.is_some() != e.is_some(), "an answer is either a result or an error");
    match want {
        Want::Result => sx::check(r.is_some(), "a good request has a result"),
        Want::Code(c) => match e.and_then(|e| e.get("code")).and_then(|c| c.int()) {
            Some(x) => {
                sx::check(x == c, "the error has the code for its kind");
                sx::check(e.and_then(|e| e.get_str("message")).is_some(), "an error has a message");
            }
            None => sx::fail("a bad request has an error"),
        },
        Want::Either => {}
    }
}
fn expect(a: &J, id: &J, want: Want) {
    form(a, want);
    match a.get("id") {
        Some(x) => sx::check(same_id(x, id), "an answer bears the id of its request"),
        None => sx::fail("an answer bears the id of its request"),
    }
}

const METHODS: [(&str, &[u8]); 9] = [
    ("status", b""),
    ("parser.plugins", b""),
    ("parser.directives", b""),
    ("parser.options", b""),
    ("book", b""),
    ("parser.format-errors", b"[]"),
    ("parser.format-warnings", b"[]"),
    ("parser.resolve-spans", b"[]"),
    ("parser.create-synthetic-spans", b"[]"),
];

/// every kind of id
fn ids() {
    let v = |n: &'static str, lo, hi| sx::var(n, lo, hi) as u8;
    // as sent and as answered
    let (sent, id): (Vec<u8>, J) = match sx::choice(14) {
        0 => {
            let t = num::sym_range("id", 0, 9, 1, 0).text;
            (t.clone(), J::Num(t))
        }
        1 => {
            let t = num::sym_range("id", 100, 999, 3, 0).text;
            (t.clone(), J::Num(t))
        }
        2 => {
            let d = num::sym_range("id", 10, 99, 2, 0).text;
            let t = if sx::flip() { [b"-", &d[..], b"83648"].concat() } else { [b"-21474836", &d[..]].concat() };
            (t.clone(), J::Num(t))
        }
        k @ (3 | 4) => {
            // to the ends of 64 bits
            let mut t = if k == 3 { b"922337203685477580".to_vec() } else { b"-922337203685477580".to_vec() };
            t.extend(num::sym_range("id", 0, if k == 3 { 7 } else { 8 }, 1, 0).text);
            (t.clone(), J::Num(t))
        }
        5 => {
            let t = vec![v("s0", 1, 127)];
            (json::jquote(&t), J::Str(t))
        }
        6 => {
            let t = vec![b'a', v("s0", 1, 127), v("s1", 1, 127)];
            (json::jquote(&t), J::Str(t))
        }
        7 => {
            let t = vec![v("s0", 0xc2, 0xdf), v("s1", 0x80, 0xbf), b'x'];
            (json::jquote(&t), J::Str(t))
        }
        8 => {
            let t = vec![v("s0", 0xe1, 0xec), v("s1", 0x80, 0xbf), v("s2", 0x80, 0xbf)];
            (json::jquote(&t), J::Str(t))
        }
        9 => (b"\"\"".to_vec(), J::Str(vec![])),
        10 => (b"null".to_vec(), J::Null),
        11 => (vec![], J::Null),
        12 => {
            // an escaped letter
            let c = v("s0", b'A' as u64, b'O' as u64);
            let h = c - b'@';
            let h = if h < 10 { b'0' + h } else { b'a' + h - 10 };
            ([b"\"\\u004", &[h][..], b"\\/\\b\""].concat(), J::Str(vec![c, b'/', 8]))
        }
        _ => (b"\"\\ud83d\\ude00\"".to_vec(), J::Str("\u{1f600}".as_bytes().to_vec())),
    };
    let (m, p) = sx::pick(&[METHODS[0], METHODS[2], METHODS[4], METHODS[5], ("nonesuch", b"")]);
    let mut input = line(b"2.0", &sent, m, p);
    input.push(b'\n');
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    sx::check(a.len() == 1, "one answer per request");
    if m == "nonesuch" {
        // may not be able to read the id
        form(&a[0], Want::Code(-32700));
        match a[0].get("id") {
            Some(x) => sx::check(x.is_null() || same_id(x, &id), "an answer bears the id of its request or none"),
            None => sx::fail("an answer bears the id of its request or none"),
        }
    } else {
        expect(&a[0], &id, Want::Result);
    }
    sx::reach(100);
}

/// every method, version and condition of the beanfile
fn methods() {
    let (name, p) = sx::pick(&[
        METHODS[0], METHODS[1], METHODS[2], METHODS[3], METHODS[4], METHODS[5], METHODS[6], METHODS[7], METHODS[8],
        ("Status", b""), ("", b""), ("parser", b""), ("parser.directive", b""),
    ]);
    let known = METHODS.iter().any(|m| m.0 == name);
    let digit = sx::var("version", 0, 9);
    let version: Vec<u8> = match sx::choice(4) {
        0 => b"2.0".to_vec(),
        1 => vec![b'2', b'.', b'0' + digit as u8],
        2 => vec![b'0' + digit as u8],
        _ => vec![b'2', b'.', b'0', b'0' + digit as u8],
    };
    let state = sx::choice(5);
    let (path, file): (&[u8], &[u8]) = match state {
        0 => (b"/v/l.bean", HEALTHY),
        1 => (b"/v/l.bean", b"2020-01-01 open\n"),
        2 => (b"/v/l.bean", b"2020-01-02 close Assets:A\n"),
        3 => (b"/v/l.bean", b"2020-01-01 open Assets:\xff\n"),
        _ => (b"/v/none.bean", HEALTHY),
    };
    let id = num::sym_range("id", 0, 9, 1, 0).text;
    let mut input = line(&version, &id, name, p);
    input.push(b'\n');
    let a = talk(path, Some(file), &input);
    sx::check(a.len() == 1, "one answer per request");
    let id = J::Num(id);
    if !known {
        form(&a[0], Want::Code(-32700));
    } else if version != b"2.0" {
        expect(&a[0], &id, Want::Code(-32600));
    } else if state >= 3 {
        expect(&a[0], &id, Want::Code(1));
    } else {
        let parsed = matches!(name, "parser.plugins" | "parser.directives" | "parser.options" | "book");
        let w = match state {
            1 if parsed => Want::Code(2),
            2 if name == "book" => Want::Code(2),
            _ => Want::Result,
        };
        expect(&a[0], &id, w);
        if name == "status" {
            sx::check(a[0].get("result").is_some_and(|r| r.is_null()), "the status is null");
        }
    }
    sx::reach(100 + state as u64);
}

/// requests of all kinds, one after another
fn sequence(n: usize) {
    let mut input = vec![];
    let mut want = vec![];
    for i in 0..n {
        let id = num::sym_range(["id0", "id1", "id2", "id3"][i], 0, 99, 2, 0).text;
        // two digits, where the first is not zero
        sx::assume(id[0] != b'0');
        let j = J::Num(id.clone());
        match sx::choice(7) {
            0 => {
                input.extend(line(b"2.0", &id, "status", b""));
                want.push((Some(j), Want::Result));
            }
            1 => {
                input.extend(line(b"2.0", &id, "book", b""));
                want.push((Some(j), Want::Result));
            }
            2 => {
                input.extend(line(b"2.0", &id, "book", b"[{\"date\":\"2020-01-01\",\"dct\":\"close\",\"acc\":\"Assets:A\"}]"));
                want.push((Some(j), Want::Code(3)));
            }
            3 => {
                input.extend(line(b"1.0", &id, "parser.directives", b""));
                want.push((Some(j), Want::Code(-32600)));
            }
            4 => {
                input.extend(b"{\"id\":");
                input.extend(&id);
                input.extend(b",\"method\":");
                want.push((None, Want::Code(-32700)));
            }
            5 => {
                input.extend([b"\xff\xfe", &id[..]].concat());
                want.push((None, Want::Code(-32700)));
            }
            _ => {
                input.extend(line(b"2.0", &json::quote(&id), "parser.options", b""));
                want.push((Some(J::Str(id)), Want::Result));
            }
        }
        input.push(b'\n');
    }
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    sx::check(a.len() == n, "one answer per request");
    for (x, (id, w)) in a.iter().zip(&want) {
        match id {
            Some(id) => expect(x, id, *w),
            None => expect(x, &J::Null, *w),
        }
    }
    sx::reach(100);
}

/// what a status request with one byte changed has become
fn verdict(l: &[u8]) -> (J, Want) {
    let bad = (J::Null, Want::Code(-32700));
    if l.iter().any(|&c| (c >= 128) | (c < 32)) {
        return bad;
    }
    let j = match json::parse(l) {
        Some(j) => j,
        None => return bad,
    };
    let id = match j.get("id") {
        None => J::Null,
        Some(J::Num(t)) if t.iter().all(|c| c.is_ascii_digit()) => J::Num(t.clone()),
        Some(_) => return bad,
    };
    match (j.get_str("jsonrpc"), j.has("method", b"status")) {
        (Some(v), true) if json::same(v, b"2.0") => (id, Want::Result),
        (Some(_), true) => (id, Want::Code(-32600)),
        _ => bad,
    }
}

/// any byte at any place of a request
fn corrupt() {
    let mut l = line(b"2.0", b"7", "status", b"");
    let at = sx::choice(l.len());
    let c = sx::var("byte", 0, 255) as u8;
    l[at] = c;
    let mut input = l.clone();
    input.push(b'\n');
    let good = line(b"2.0", b"8", "status", b"");
    input.extend(&good);
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    if c == b'\n' {
        sx::check(a.len() == 3, "one answer per request");
        for x in &a[..2] {
            expect(x, &J::Null, Want::Code(-32700));
        }
    } else {
        sx::check(a.len() == 2, "one answer per request");
        let (id, w) = verdict(&l);
        expect(&a[0], &id, w);
    }
    expect(&a[a.len() - 1], &J::Num(vec![b'8']), Want::Result);
    sx::reach(100);
}

/// any byte at any place of the parameters of a request
fn corrupt_params() {
    let (m, p): (&str, &[u8]) = sx::pick(&[
        ("book", &b"[{\"date\":\"2020-01-01\",\"dct\":\"open\",\"acc\":\"Assets:A\"}]"[..]),
        ("book", b"[{\"date\":\"2020-01-01\",\"dct\":\"balance\",\"acc\":\"Assets:A\",\"units\":1.5,\"cur\":\"USD\"}]"),
        ("parser.create-synthetic-spans", b"[{\"name\":\"n\",\"content\":\"c\"}]"),
        ("parser.resolve-spans", b"[[0,0,24],[0,5,9]]"),
        ("parser.format-errors", b"[{\"message\":\"m\",\"reason\":\"r\",\"span\":[0,0,4]}]"),
    ]);
    let mut p = p.to_vec();
    let at = sx::choice(p.len());
    let c = sx::var("byte", 0, 255) as u8;
    p[at] = c;
    let mut input = line(b"2.0", b"7", m, &p);
    input.push(b'\n');
    input.extend(line(b"2.0", b"8", "status", b""));
    input.push(b'\n');
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    sx::check(a.len() == if c == b'\n' { 3 } else { 2 }, "one answer per request");
    for x in &a[..a.len() - 1] {
        form(x, Want::Either);
        let id = x.get("id").cloned().unwrap_or(J::Bool(false));
        let unread = x.get("error").and_then(|e| e.get("code")).and_then(|c| c.int()) == Some(-32700);
        sx::check(if unread { id.is_null() } else { same_id(&id, &J::Num(vec![b'7'])) }, "an answer bears the id of its request");
    }
    expect(&a[a.len() - 1], &J::Num(vec![b'8']), Want::Result);
    sx::reach(100);
}

/// short lines of arbitrary bytes
fn bytes() {
    let n = 1 + sx::choice(3);
    let mut input = vec![];
    for i in 0..n {
        let c = sx::var(["b0", "b1", "b2"][i], 0, 255) as u8;
        sx::assume(c != b'\n');
        input.push(c);
    }
    input.push(b'\n');
    input.extend(line(b"2.0", b"8", "status", b""));
    input.push(b'\n');
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    sx::check(a.len() == 2, "one answer per request");
    expect(&a[0], &J::Null, Want::Code(-32700));
    expect(&a[1], &J::Num(vec![b'8']), Want::Result);
    sx::reach(100);
}

/// ends of lines and of the input
fn ends() {
    let id = num::sym_range("id", 10, 99, 2, 0).text;
    let l = line(b"2.0", &id, "status", b"");
    let id = J::Num(id);
    let white = sx::pick(&[&b""[..], b" ", b"\t", b"  \t "]);
    let mut input = vec![];
    let lead = sx::flip();
    if lead {
        input.extend(white);
    }
    input.extend(&l);
    if !lead {
        input.extend(white);
    }
    let mut n = 1;
    match sx::choice(6) {
        0 => {}
        1 => input.push(b'\n'),
        2 => input.extend(b"\r\n"),
        3 => {
            // an empty request line
            input.extend(b"\n\n");
            n = 2;
        }
        4 => {
            input.push(b'\n');
            input.extend(&l);
            n = 2;
        }
        _ => {
            // two requests on one line
            input.extend(&l);
            input.push(b'\n');
            n = 3;
        }
    }
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    if n == 3 {
        sx::check(a.len() == 1, "one answer per request");
        expect(&a[0], &J::Null, Want::Code(-32700));
        return;
    }
    sx::check(a.len() == n, "one answer per request");
    expect(&a[0], &id, Want::Result);
    if n == 2 {
        form(&a[1], Want::Either);
    }
    sx::reach(100);
}

/// any byte before or after a request
fn around() {
    let c = sx::var("byte", 0, 255) as u8;
    sx::assume(c != b'\n');
    let l = line(b"2.0", b"7", "status", b"");
    let before = sx::flip();
    let mut input = if before { [&[c][..], &l].concat() } else { [&l[..], &[c]].concat() };
    input.push(b'\n');
    input.extend(line(b"2.0", b"8", "status", b""));
    if sx::flip() {
        input.push(b'\n');
    }
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    sx::check(a.len() == 2, "one answer per request");
    if (c == b' ') | (c == b'\t') | (c == b'\r') {
        expect(&a[0], &J::Num(vec![b'7']), Want::Result);
    } else if (c == 0x0b) | (c == 0x0c) {
        // not white space to JSON, but to some
        form(&a[0], Want::Either);
    } else {
        expect(&a[0], &J::Null, Want::Code(-32700));
    }
    expect(&a[1], &J::Num(vec![b'8']), Want::Result);
    sx::reach(100);
}

/// many requests, in one go
fn many() {
    let n = sx::pick(&[10usize, 70, 300]);
    let mut input = vec![];
    let k = sx::pick(&[0, n / 2, n - 1]);
    let id = num::sym_range("id", 1000, 9999, 4, 0).text;
    let ids: Vec<Vec<u8>> = (0..n).map(|i| if i == k { id.clone() } else { format!("{}", 7 * i).into_bytes() }).collect();
    let mixed = sx::flip();
    let want: Vec<Want> = (0..n)
        .map(|i| match (mixed, i % 5) {
            (true, 1) => Want::Code(-32600),
            (true, 2) => Want::Code(-32700),
            (true, 3) => Want::Code(3),
            _ => Want::Result,
        })
        .collect();
    for (id, w) in ids.iter().zip(&want) {
        match w {
            Want::Code(-32600) => input.extend(line(b"1.0", id, "status", b"")),
            Want::Code(-32700) => input.extend(b"{}"),
            Want::Code(_) => input.extend(line(b"2.0", id, "book", b"[{\"date\":\"2020-01-01\",\"dct\":\"close\",\"acc\":\"Assets:A\"}]")),
            _ => input.extend(line(b"2.0", id, ["status", "parser.options", "book"][id.len() % 3], b"")),
        }
        input.push(b'\n');
    }
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    sx::check(a.len() == n, "one answer per request");
    for ((x, id), w) in a.iter().zip(&ids).zip(want) {
        let id = if w == Want::Code(-32700) { J::Null } else { J::Num(id.clone()) };
        expect(x, &id, w);
    }
    sx::reach(100);
}

/// long lines, around the sizes of buffers
fn long() {
    let n = sx::pick(&[1000usize, 8192, 70000]);
    // where the line ends, relative to that size
    let end = sx::choice(5);
    let c = sx::var("char", 0x20, 0x7e) as u8;
    sx::assume((c != b'"') & (c != b'\\'));
    let frame = line(b"2.0", b"\"\"", "status", b"").len();
    let len = n + end - 2 - frame;
    let k = sx::pick(&[0, len / 2, len - 1]);
    let text: Vec<u8> = (0..len).map(|i| if i == k { c } else { b'a' + (i % 26) as u8 }).collect();
    let mut input = line(b"2.0", &json::quote(&text), "status", b"");
    input.push(b'\n');
    input.extend(line(b"2.0", b"8", "status", b""));
    input.push(b'\n');
    let a = talk(b"/v/l.bean", Some(HEALTHY), &input);
    sx::check(a.len() == 2, "one answer per request");
    expect(&a[0], &J::Str(text), Want::Result);
    expect(&a[1], &J::Num(vec![b'8']), Want::Result);
    sx::reach(100);
}

/// input that arrives in pieces, output that leaves in pieces, and interruptions of either
fn scheduled() {
    let c = sx::var("s1", 0x80, 0xbf) as u8;
    let file = [b"2020-01-01 open Assets:A\n2020-01-02 note Assets:A \"\xc3", &[c][..], b"\"\n"].concat();
    let id = num::sym_range("id", 10, 99, 2, 0).text;
    let reqs = [line(b"2.0", &id, "book", b""), b"{".to_vec(), line(b"2.0", b"\"\xe2\x82\xac\"", "parser.directives", b"")];
    const R: [u8; 5] = [b'1', b'2', b'7', b'i', b'0'];
    const W: [u8; 4] = [b'1', b'5', b'i', b'0'];
    let reads = [sx::pick(&R), sx::pick(&R), sx::pick(&R)];
    let writes = [sx::pick(&W), sx::pick(&W)];
    if reads == [b'i'; 3] || writes == [b'i'; 2] {
        // never makes progress
        return;
    }
    let a = serve_scheduled(&file, &reqs, &reads, &writes);
    let b = serve(&file, &reqs);
    sx::check(a.len() == 3 && b.len() == 3, "one answer per request");
    for (x, y) in a.iter().zip(&b) {
        sx::check(json::same(x, y), "answers do not depend on how the input arrives");
    }
    sx::reach(100);
}

/// any byte at any place of a beanfile
fn corrupt_ledger() {
    let mut f = b"2020-01-02 * \"p\" \"n\" #t\n  Assets:A  -1.50 USD\n  Equity:E\n".to_vec();
    let at = sx::choice(f.len());
    f[at] = sx::var("byte", 0, 255) as u8;
    let mut input = vec![];
    for (i, m) in [2, 4, 0].iter().enumerate() {
        input.extend(line(b"2.0", &[b'0' + i as u8], METHODS[*m].0, b""));
        input.push(b'\n');
    }
    let a = talk(b"/v/l.bean", Some(&f), &input);
    sx::check(a.len() == 3, "one answer per request");
    let code = |j: &J| j.get("error").and_then(|e| e.get("code")).and_then(|c| c.int());
    for (i, x) in a.iter().enumerate() {
        expect(x, &J::Num(vec![b'0' + i as u8]), Want::Either);
    }
    let utf8 = f[at] < 128;
    if utf8 {
        expect(&a[2], &J::Num(vec![b'2']), Want::Result);
        match code(&a[0]) {
            Some(c) => sx::check(c == 2, "an invalid beanfile is error 2"),
            None => sx::reach(101),
        }
        sx::check(code(&a[1]) == Some(2), "an invalid beanfile is error 2");
    } else {
        for x in &a {
            sx::check(code(x) == Some(1), "an unreadable beanfile is error 1");
        }
    }
    sx::reach(100);
}

