//! Spans and reports (C18).
use crate::json::{self, J};
use crate::led::*;
use crate::num::{self, Amt};
use crate::rpc::*;
use crate::s_io::{base, meta, sample, special, text, TN, UN};
use crate::scen::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C18.kinds" => kinds(),
        "C18.txn" => postings(),
        "C18.any" => any(),
        "C18.synthetic" => synthetic(2),
        "C18.synthetic3" => synthetic(3),
        "C18.include" => include(),
        "C18.format" => format(),
        "C18.errors" => errors(),
        "C18.parse" => parse_errors(),
        "C18.fsynth" => format_synthetic(),
        "C18.many" => many(),
        "C18.again" => again(),
        _ => return false,
    }
    true
}

const FILE: &[u8] = b"/v/l.bean";

/// the bytes of a number which is concrete
fn dec(n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut n = n;
    loop {
        v.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return v;
        }
    }
}

/// JSON again
pub fn wire(j: &J, o: &mut Vec<u8>) {
    match j {
        J::Null => o.extend(b"null"),
        J::Bool(b) => o.extend(if *b { &b"true"[..] } else { b"false" }),
        J::Num(n) => o.extend(n),
        J::Str(s) => o.extend(json::jquote(s)),
        J::Arr(a) => {
            o.push(b'[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(b',');
                }
                wire(x, o);
            }
            o.push(b']');
        }
        J::Obj(a) => {
            o.push(b'{');
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 {
                    o.push(b',');
                }
                o.extend(json::jquote(k));
                o.push(b':');
                wire(x, o);
            }
            o.push(b'}');
        }
    }
}

fn is_space(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | b'\r')
}
fn trim(t: &[u8]) -> &[u8] {
    let mut n = t.len();
    while n > 0 && is_space(t[n - 1]) {
        n -= 1;
    }
    &t[..n]
}
fn breaks(t: &[u8]) -> usize {
    t.iter().filter(|c| **c == b'\n').count()
}
fn contains(t: &[u8], w: &[u8]) -> bool {
    (0..(t.len() + 1).saturating_sub(w.len())).fold(w.is_empty(), |r, i| r | json::same(&t[i..i + w.len()], w))
}

/// what a place resolves to
struct Src {
    file: Vec<u8>,
    /// 1 + the line breaks before
    line: usize,
    text: Vec<u8>,
    /// comments may follow
    more: bool,
    /// such a comment ends in a character of several bytes
    wide: bool,
}

fn src(t: &[u8], from: usize, to: usize, more: bool) -> Src {
    Src { file: FILE.to_vec(), line: 1 + breaks(&t[..from]), text: trim(&t[from..to]).to_vec(), more, wide: false }
}

fn check_src(a: &J, e: &Src) {
    sx::check(a.has("file-name", &e.file), "a span resolves to the name of its source");
    let c = match a.get_str("content") {
        Some(c) => c,
        None => {
            sx::fail("a span resolves to text");
            return;
        }
    };
    if e.more && e.wide {
        let ok = c.len() >= e.text.len() && json::same(&c[..e.text.len()], &e.text);
        sx::check(ok, "[wide-end] a span resolves to the text it was taken from");
        return;
    }
    let ok = if e.more { c.len() >= e.text.len() && json::same(&c[..e.text.len()], &e.text) } else { json::same(c, &e.text) };
    sx::check(ok, "a span resolves to the text it was taken from");
    if e.more && ok {
        // only comments and blanks beyond
        let mut comment = false;
        for &b in &c[e.text.len()..] {
            comment = (comment | (b == b';')) & (b != b'\n');
            sx::check(comment | is_space(b), "a span resolves to the text it was taken from");
        }
    }
    let n = breaks(c);
    let int = |k: &str| a.get(k).and_then(|x| x.int());
    sx::check(int("start-line") == Some(e.line as i64), "a span resolves to its first line");
    sx::check(int("end-line") == Some((e.line + n) as i64), "a span resolves to its last line");
}

fn resolve(spans: &[&J]) -> Vec<u8> {
    let mut p = vec![b'['];
    for (i, s) in spans.iter().enumerate() {
        if i > 0 {
            p.push(b',');
        }
        wire(s, &mut p);
    }
    p.push(b']');
    request("parser.resolve-spans", &p)
}

/// the spans of all directives and postings of an exported ledger
fn spans(a: &J) -> Vec<&J> {
    let mut v = vec![];
    let ds = a.get("result").and_then(|r| r.get("directives")).map_or(&[][..], |d| d.arr());
    for d in ds {
        match d.get("span") {
            Some(s) => v.push(s),
            None => sx::fail("a directive has a span"),
        }
        for p in d.get("postings").map_or(&[][..], |p| p.arr()) {
            match p.get("span") {
                Some(s) => v.push(s),
                None => sx::fail("a posting has a span"),
            }
        }
    }
    v
}

/// every span of the file resolves to one of the sources given, in order
fn resolves(t: &[u8], want: &[Src]) {
    let first = ask(t, &[DIRECTIVES.to_vec()]);
    let s = spans(&first[0]);
    sx::check(s.len() == want.len(), "every directive and posting has a span");
    if s.len() != want.len() {
        return;
    }
    let a = ask(t, &[DIRECTIVES.to_vec(), resolve(&s)]);
    let r = a[1].get("result").map_or(&[][..], |r| r.arr());
    sx::check(r.len() == want.len(), "every span is resolved");
    for (x, w) in r.iter().zip(want) {
        check_src(x, w);
    }
    sx::reach(100);
}

/// what may come before a directive
fn lead() -> Vec<u8> {
    match sx::choice(6) {
        0 => vec![],
        1 => {
            let t = special(&UN);
            for &c in &t {
                sx::assume((c != b'\n') & (c != b'\r'));
            }
            [b"; ", &t[..], b"\n"].concat()
        }
        2 => vec![b'\n'; 1 + sx::choice(3)],
        3 => [b"option \"title\" ", &json::quote(&special(&UN))[..], b"\n"].concat(),
        4 => b"2020-01-01 note Assets:A \"1\n2\n\"\n".to_vec(),
        _ => b"\n;; a\n\n  \n".to_vec(),
    }
}
/// what may come after it
fn tail() -> &'static [u8] {
    sx::pick(&[&b""[..], b"; c\n", b"\n\n", b"  ; c\n\n;d\n", "; caf\u{e9}\n".as_bytes()])
}

fn kinds() {
    let k = sx::choice(12);
    let mut d = sample(k, D2, &text(&TN, 2), &text(&UN[2..], 1));
    if sx::flip() {
        d.meta = meta(4);
    }
    let h = lead();
    let mut t = h.clone();
    let body = beanfile(b"", &[d]);
    let at = t.len();
    t.extend(&body.b);
    let end = t.len();
    let tail = tail();
    t.extend(tail);
    let next = t.len();
    t.extend(b"2020-01-03 event \"a\" \"b\"\n");
    let mut want = vec![];
    if h.starts_with(b"2020") {
        want.push(src(&t, 0, h.len(), false));
    }
    let mut w = src(&t, at, end, true);
    w.wide = trim(tail).last().map_or(false, |c| *c >= 128);
    want.push(w);
    for &p in &body.posts[0] {
        want.push(line_at(&t, at + p));
    }
    want.push(src(&t, next, t.len(), false));
    resolves(&t, &want);
}

/// the rest of a line
fn line_at(t: &[u8], from: usize) -> Src {
    let n = t[from..].iter().position(|c| *c == b'\n').unwrap_or(t.len() - from);
    src(t, from, from + n, false)
}

/// postings of every shape, in a file where the transaction comes anywhere
fn postings() {
    let n = 1 + sx::choice(3);
    let mut d = txn(D2, vec![]);
    d.meta = meta(sx::choice(2) * 7);
    let mut ps = vec![];
    for i in 0..n {
        let mut p = post([A, E, AB][i], num::sym(["x", "y", "z"][i], 2, 1), "USD");
        if i == 0 {
            match sx::choice(6) {
                0 => {}
                1 => p.flag = Some("!"),
                2 => p.price = Some(PriceSpec { per: Some(num::pos("p", 1, 2)), total: None, cur: Some("EUR") }),
                3 => p.cost = Some(CostSpec { per: Some(num::pos("p", 1, 2)), cur: Some("EUR"), ..CostSpec::default() }),
                4 => p.meta = meta(4),
                _ => p = auto(A),
            }
        }
        ps.push(p);
    }
    if let V::Txn { posts, narr, .. } = &mut d.v {
        *posts = ps;
        *narr = Some(text(&TN, 1));
    }
    let h = lead();
    let body = beanfile(b"", &[d]);
    let mut t = h.clone();
    t.extend(&body.b);
    let mut want = vec![];
    if h.starts_with(b"2020") {
        want.push(src(&t, 0, h.len(), false));
    }
    want.push(src(&t, h.len(), t.len(), false));
    for &p in &body.posts[0] {
        want.push(line_at(&t, h.len() + p));
    }
    resolves(&t, &want);
}

/// any span at all
fn any() {
    let t = "; h\u{e9}\n2020-01-01 open Assets:A\n".as_bytes();
    let place = |names: [&'static str; 2]| {
        let d = sx::var(names[1], 0, 9);
        match sx::choice(4) {
            0 => d,
            k => 10 * k as u64 + d,
        }
    };
    let (s, e) = (place(["s1", "s0"]), sx::concrete(place(["e1", "e0"])));
    let source = sx::choice(3);
    let form = |x: u64| if x < 10 { vec![b'0' + x as u8] } else { vec![b'0' + (x / 10) as u8, b'0' + (x % 10) as u8] };
    let mut p = b"[[".to_vec();
    p.extend(dec(source));
    p.push(b',');
    p.extend(form(s));
    p.push(b',');
    p.extend(form(e));
    p.extend(b"]]");
    let a = ask(t, &[request("parser.resolve-spans", &p), STATUS.to_vec()]);
    sx::check(a[1].get("result").is_some(), "the server serves on after any span");
    let r = match a[0].get("result") {
        Some(r) => r.arr(),
        None => {
            sx::fail("any span is resolved");
            return;
        }
    };
    sx::check(r.len() == 1, "every span is resolved");
    let (s, e) = (s as usize, e as usize);
    let bound = |i: usize| i <= t.len() && (i == t.len() || t[i] & 0xc0 != 0x80);
    if source == 0 && s <= e && bound(s) && bound(e) {
        let w = trim(&t[s..e]);
        // what is left of blanks is nothing anywhere
        if w.is_empty() {
        } else if w[w.len() - 1] >= 128 {
            sx::check(r[0].has("content", w), "[wide-end] a span resolves to the text it was taken from");
        } else {
            check_src(&r[0], &src(t, s, e, false));
        }
    } else {
        sx::check(r[0].has("content", b""), "a span outside the sources resolves to no text");
    }
    sx::reach(100);
}

const STATUS: &[u8] = br#"{"jsonrpc":"2.0","id":9,"method":"status"}"#;

/// fragments under a few names
fn fragment(i: usize) -> (Vec<u8>, Vec<u8>) {
    let name = sx::pick(&[&b"plugin-a"[..], b"b c", b"/v/l.bean"]).to_vec();
    let w = [["f0", "f1", "f2", "f3"], ["g0", "g1", "g2", "g3"], ["h0", "h1", "h2", "h3"]][i];
    let content = match sx::choice(5) {
        0 => [b"one\ntwo ", &text(&w, 1)[..], b"\n"].concat(),
        1 if i == 0 => [b"x", &special(&w)[..], b"\ny"].concat(),
        1 => "x\u{20ac}\ny".as_bytes().to_vec(),
        2 => [b"y", &text(&w, 1)[..]].concat(),
        3 => ["z\u{e9}".as_bytes(), sx::pick(&[&b""[..], b"\n"])].concat(),
        _ => b"a\r\n\tb\n\n".to_vec(),
    };
    (name, content)
}
fn creation(f: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut p = vec![b'['];
    for (i, (n, c)) in f.iter().enumerate() {
        if i > 0 {
            p.push(b',');
        }
        p.extend(b"{\"name\":");
        p.extend(json::jquote(n));
        p.extend(b",\"content\":");
        p.extend(json::jquote(c));
        p.push(b'}');
    }
    p.push(b']');
    request("parser.create-synthetic-spans", &p)
}
fn synthetic(n: usize) {
    let f: Vec<_> = (0..n).map(fragment).collect();
    // in one request or in one each
    let reqs: Vec<Vec<u8>> =
        if sx::flip() { vec![creation(&f)] } else { f.iter().map(|x| creation(std::slice::from_ref(x))).collect() };
    let t = b"2020-01-01 open Assets:A\n";
    let first = ask(t, &reqs);
    let mut s: Vec<&J> = vec![];
    for a in &first {
        s.extend(a.get("result").map_or(&[][..], |r| r.arr()));
    }
    sx::check(s.len() == n, "every synthetic span is created");
    if s.len() != n {
        return;
    }
    let mut reqs = reqs;
    reqs.push(resolve(&s));
    let a = ask(t, &reqs);
    let r = a[reqs.len() - 1].get("result").map_or(&[][..], |r| r.arr());
    sx::check(r.len() == n, "every span is resolved");
    for (i, x) in r.iter().enumerate() {
        let (name, c) = &f[i];
        let before: Vec<&[u8]> = f[..i].iter().filter(|g| g.0 == *name).map(|g| &g.1[..]).collect();
        let before = before.concat();
        let wide = before.iter().any(|b| *b >= 128);
        sx::check(x.has("file-name", name), "a synthetic span resolves to the name it was created with");
        let e = trim(c);
        if e[e.len() - 1] >= 128 {
            sx::check(x.has("content", e), "[wide-end] a synthetic span resolves to the content it was created with");
            continue;
        }
        sx::check(x.has("content", e), "a synthetic span resolves to the content it was created with");
        let line = 1 + breaks(&before);
        let int = |k: &str| x.get(k).and_then(|x| x.int());
        let ok = (int("start-line") == Some(line as i64)) & (int("end-line") == Some((line + breaks(trim(c))) as i64));
        if wide {
            sx::check(ok, "[wide-fragments] a synthetic span resolves to its lines");
        } else {
            sx::check(ok, "a synthetic span resolves to its lines");
        }
    }
    sx::reach(100);
}

/// every order of some spans, in one request or more
fn orders(n: usize) -> Vec<usize> {
    match sx::choice(4) {
        0 => (0..n).rev().collect(),
        // each again
        1 => (0..n).chain(0..n).collect(),
        2 => (0..n).flat_map(|i| [i, i, n - 1 - i]).collect(),
        _ => (0..n).map(|i| (i + n / 2) % n).collect(),
    }
}

/// many directives, their spans in any order and again
fn many() {
    let n = sx::pick(&[9usize, 40, 130]);
    let k = sx::pick(&[0, n / 2, n - 1]);
    let w = text(&UN, 1);
    let mut t = vec![];
    let mut want = vec![];
    for i in 0..n {
        let at = t.len();
        if i == k {
            t.extend([b"2020-01-01 note Assets:A \"a\n", &json::quote(&w)[1..], b"\n"].concat());
            want.push((at, t.len()));
        } else if i % 7 == 3 {
            t.extend(format!("2020-01-01 * \"{i}\"\n  Assets:A 1 USD\n").as_bytes());
            want.push((at, t.len()));
            want.push((at + format!("2020-01-01 * \"{i}\"\n  ").len(), t.len()));
        } else {
            t.extend(format!("2020-01-01 event \"{i}\" \"x\"\n").as_bytes());
            want.push((at, t.len()));
        }
    }
    let first = ask(&t, &[DIRECTIVES.to_vec()]);
    let s = spans(&first[0]);
    sx::check(s.len() == want.len(), "every directive and posting has a span");
    if s.len() != want.len() {
        return;
    }
    let o = orders(s.len());
    let os: Vec<&J> = o.iter().map(|i| s[*i]).collect();
    let half = if sx::flip() { os.len() / 3 } else { 0 };
    let a = ask(&t, &[resolve(&os[..half]), resolve(&os[half..])]);
    let r: Vec<&J> = a.iter().flat_map(|a| a.get("result").map_or(&[][..], |r| r.arr())).collect();
    sx::check(r.len() == o.len(), "every span is resolved");
    for (x, i) in r.iter().zip(&o) {
        check_src(x, &src(&t, want[*i].0, want[*i].1, false));
    }
    sx::reach(100);
}

/// spans of the file and of many fragments, resolved in any order and again
fn again() {
    let t = b"2020-01-01 open Assets:A\n2020-01-02 event \"a\" \"b\"\n";
    let n = sx::pick(&[3usize, 12, 40]);
    let c = sx::var("c", 33, 126) as u8;
    let k = sx::pick(&[0, n - 1]);
    let f: Vec<(Vec<u8>, Vec<u8>)> = (0..n)
        .map(|i| {
            let text = if i == k { vec![b'f', c] } else { format!("fragment {i}").into_bytes() };
            // of one name, of two, or each its own
            (format!("n{}", i % [1, 2, n][n % 3]).into_bytes(), text)
        })
        .collect();
    let reqs = vec![creation(&f), DIRECTIVES.to_vec()];
    let first = ask(t, &reqs);
    let mut s: Vec<&J> = first[0].get("result").map_or(&[][..], |r| r.arr()).iter().collect();
    sx::check(s.len() == n, "every synthetic span is created");
    if s.len() != n {
        return;
    }
    s.extend(spans(&first[1]));
    let o = orders(s.len());
    let os: Vec<&J> = o.iter().map(|i| s[*i]).collect();
    let a = ask(t, &[creation(&f), resolve(&os), resolve(&s)]);
    for (r, o) in [(&a[1], o), (&a[2], (0..s.len()).collect())] {
        let r = r.get("result").map_or(&[][..], |r| r.arr());
        sx::check(r.len() == o.len(), "every span is resolved");
        for (x, i) in r.iter().zip(&o) {
            if *i < n {
                sx::check(x.has("file-name", &f[*i].0), "a synthetic span resolves to the name it was created with");
                sx::check(x.has("content", &f[*i].1), "a synthetic span resolves to the content it was created with");
            } else {
                let (from, to) = [(0, 25), (25, t.len())][*i - n];
                check_src(x, &src(t, from, to, false));
            }
        }
    }
    sx::reach(100);
}

/// directives of an included file
fn include() {
    let d = sample(sx::choice(12), D3, &text(&TN, 2), &text(&UN[2..], 1));
    let h = sx::pick(&[&b""[..], b"; x\n\n", "; h\u{e9}\n".as_bytes()]);
    let body = beanfile(h, &[d]);
    sx::file("/v/inc.bean", &body.b);
    let first = sx::flip();
    let mut t = vec![];
    let inc: &[u8] = b"include \"inc.bean\"\n";
    if first {
        t.extend(inc);
    }
    let at = t.len();
    t.extend(b"2020-01-02 event \"a\" \"b\"\n");
    let end = t.len();
    if !first {
        t.extend(inc);
    }
    let mut want = vec![src(&t, at, end, false)];
    let mut w = src(&body.b, h.len(), body.b.len(), false);
    w.file = b"/v/inc.bean".to_vec();
    want.push(w);
    for &p in &body.posts[0] {
        let mut w = line_at(&body.b, p);
        w.file = b"/v/inc.bean".to_vec();
        want.push(w);
    }
    resolves(&t, &want);
}

/// text without the sequences that colour it
fn plain(t: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut esc = false;
    for &c in t {
        if c == 27 {
            esc = true;
        }
        if !esc {
            v.push(c);
        }
        if c == b'm' {
            esc = false;
        }
    }
    v
}

fn place(t: &[u8], at: usize) -> Vec<u8> {
    let start = t[..at].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    let column = 1 + t[start..at].iter().filter(|c| **c & 0xc0 != 0x80).count();
    [FILE, b":", &dec(1 + breaks(&t[..at])), b":", &dec(column)].concat()
}
fn line_of(t: &[u8], at: usize) -> &[u8] {
    let start = t[..at].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
    let n = t[start..].iter().position(|c| *c == b'\n').unwrap_or(t.len() - start);
    &t[start..start + n]
}

/// a report on any of the directives and postings of a file
fn format() {
    let h = sx::pick(&[&b""[..], b"; x\n\n", "; h\u{e9}\n".as_bytes()]);
    let dirs = [
        open(D1, A),
        txn(D2, vec![post(A, num::pos("x", 2, 1), "USD"), auto(E)]),
        dir(D2, V::Note { acc: A, text: "p\u{e4}y".as_bytes().to_vec() }),
    ];
    let t = beanfile(h, &dirs);
    let spots: [(usize, usize); 5] = [
        (t.dirs[0], t.ends[0]),
        (t.dirs[1], t.ends[1]),
        (t.posts[1][0], t.posts[1][1] - 1),
        (t.posts[1][1], t.ends[1]),
        (t.dirs[2], t.ends[2]),
    ];
    let span = |s: (usize, usize)| [b"[0,", &dec(s.0)[..], b",", &dec(s.1), b"]"].concat();
    let main = spots[sx::choice(5)];
    let (context, related) = (sx::flip(), sx::flip());
    let other = spots[sx::choice(if context || related { 5 } else { 1 })];
    let m = text(&TN, 2);
    let r = text(&UN, 2);
    let annotation = sx::flip();
    let mut p = b"[{\"message\":".to_vec();
    p.extend(json::jquote(&m));
    p.extend(b",\"reason\":");
    p.extend(json::jquote(&r));
    p.extend(b",\"span\":");
    p.extend(span(main));
    if context {
        p.extend(b",\"contexts\":[[\"whole\",");
        p.extend(span(other));
        p.extend(b"]]");
    }
    if related {
        p.extend(b",\"related\":[[\"kin\",");
        p.extend(span(other));
        p.extend(b"]]");
    }
    if annotation {
        p.extend(b",\"annotation\":\"ann\"");
    }
    p.extend(b"}]");
    let warn = sx::flip();
    let a = ask(&t.b, &[request(if warn { "parser.format-warnings" } else { "parser.format-errors" }, &p)]);
    let o = match a[0].get_str("result") {
        Some(o) => plain(o),
        None => {
            sx::fail("a report is formatted");
            return;
        }
    };
    sx::check(contains(&o, if warn { b"Warning:" } else { b"Error:" }), "a formatted report shows its kind");
    sx::check(contains(&o, &m), "a formatted report shows its message");
    sx::check(contains(&o, &r), "a formatted report shows its reason");
    sx::check(contains(&o, &place(&t.b, main.0)), "a formatted report shows its place");
    sx::check(contains(&o, line_of(&t.b, main.0)), "a formatted report shows the line");
    if context | related {
        sx::check(contains(&o, line_of(&t.b, other.0)), "a formatted report shows the lines related");
    }
    if context {
        sx::check(contains(&o, b"in this whole"), "a formatted report shows its context");
    }
    if related {
        sx::check(contains(&o, b"kin"), "a formatted report shows what is related");
    }
    if annotation {
        sx::check(contains(&o, b"\nann\n"), "a formatted report shows its annotation");
    }
    sx::reach(100);
}

/// every report among the answers is formatted, with the line it is about
pub(crate) fn formatted(t: &[u8], reports: &[J]) {
    let mut p = vec![];
    wire(&J::Arr(reports.to_vec()), &mut p);
    let a = ask(t, &[request("parser.format-errors", &p)]);
    let o = match a[0].get_str("result") {
        Some(o) => plain(o),
        None => {
            sx::fail("reports are formatted");
            return;
        }
    };
    for r in reports {
        for k in ["message", "reason"] {
            let m = r.get_str(k).unwrap_or(b"");
            // of several lines the first will do
            let n = m.iter().position(|c| *c == b'\n').unwrap_or(m.len());
            sx::check(contains(&o, &m[..n]), "a formatted report shows its message and reason");
        }
        if let Some(m) = r.get_str("annotation") {
            sx::check(contains(&o, m), "a formatted report shows its annotation");
        }
        match r.get("span").and_then(|s| s.arr().get(1)).and_then(|s| s.int()) {
            Some(at) if (at as usize) < t.len() => {
                sx::check(contains(&o, &place(t, at as usize)), "a formatted report shows its place");
                sx::check(contains(&o, line_of(t, at as usize)), "a formatted report shows the line");
            }
            _ => {}
        }
    }
    sx::reach(100);
}
pub(crate) fn reports(a: &J) -> Vec<J> {
    a.get("error").and_then(|e| e.get("data")).map_or(vec![], |d| d.arr().to_vec())
}

/// reports of booking, sent back to be formatted
fn errors() {
    let x = num::pos("x", 2, 1);
    let mut dirs = base();
    dirs.push(move_(D2, A, E, &x, "USD"));
    match sx::choice(6) {
        0 => dirs.push(bal(D3, A, Amt::c(105, 1), "USD")),
        1 => dirs.push(open(D3, A)),
        2 => dirs.push(move_(D3, "Assets:Unknown", E, &x, "USD")),
        3 => {
            dirs.push(close(D3, A));
            dirs.push(move_("2020-01-04", A, E, &x, "USD"));
        }
        4 => dirs.push(txn(D3, vec![post(A, x, "USD"), post(E, Amt::c(1, 0), "USD")])),
        _ => {
            dirs.push(bal(D3, A, Amt::c(105, 1), "USD"));
            dirs.push(open(D3, E));
        }
    }
    let t = beanfile(sx::pick(&[&b""[..], "; h\u{e9}\n".as_bytes()]), &dirs).b;
    let a = ask(&t, &[BOOK.to_vec()]);
    let r = reports(&a[0]);
    if !r.is_empty() {
        formatted(&t, &r);
    }
}

/// reports of parsing, sent back to be formatted
fn parse_errors() {
    let bad: &[u8] = sx::pick(&[
        &b"2020-01-01 open Assets\n"[..],
        b"2020-13-01 open Assets:A\n",
        b"2020-01-01 * \"x\n",
        b"2020-01-01 balance Assets:A 1\n",
        b"option \"booking_method\" \"NONSENSE\"\n",
        b"poptag #a\n",
    ]);
    let c = sx::var("c", b'a' as u64, b'z' as u64) as u8;
    let h = [b"; ", &[c][..], "\u{e9}\n".as_bytes()].concat();
    let mut t = if sx::flip() { h } else { vec![] };
    let before = t.len();
    if sx::flip() {
        t.extend(b"2020-01-01 event \"a\" \"b\"\n");
    }
    t.extend(bad);
    let a = ask(&t, &[DIRECTIVES.to_vec(), BOOK.to_vec()]);
    for x in &a {
        let r = reports(x);
        sx::check(!r.is_empty(), "an invalid beanfile is reported");
        for e in &r {
            let at = e.get("span").and_then(|s| s.arr().get(1)).and_then(|s| s.int()).unwrap_or(-1);
            sx::check(at >= before as i64, "an error of parsing is reported where it is");
        }
        formatted(&t, &r);
    }
}

/// a report on a fragment
fn format_synthetic() {
    let f: Vec<_> = (0..2).map(|i| (sx::pick(&[&b"plugin-a"[..], b"b"]).to_vec(), [b"2020-01-01 event ", &text(&[TN, UN][i], 2)[..], b"\n"].concat())).collect();
    let t = b"2020-01-01 open Assets:A\n";
    let first = ask(t, &[creation(&f)]);
    let k = sx::choice(2);
    let s = match first[0].get("result").and_then(|r| r.arr().get(k).cloned()) {
        Some(s) => s,
        None => {
            sx::fail("every synthetic span is created");
            return;
        }
    };
    let mut p = b"[{\"message\":\"mm\",\"reason\":\"rr\",\"span\":".to_vec();
    wire(&s, &mut p);
    p.extend(b"}]");
    let a = ask(t, &[creation(&f), request("parser.format-errors", &p)]);
    let o = plain(a[1].get_str("result").unwrap_or(b""));
    sx::check(contains(&o, b"mm"), "a formatted report shows its message");
    sx::check(contains(&o, b"rr"), "a formatted report shows its reason");
    let line = if k == 1 && f[0].0 == f[1].0 { 2 } else { 1 };
    sx::check(contains(&o, &[&f[k].0[..], b":", &dec(line), b":1"].concat()), "a formatted report shows its place");
    sx::check(contains(&o, trim(&f[k].1)), "a formatted report shows the line");
    sx::reach(100);
}
