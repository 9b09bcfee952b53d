//! The launcher (C21) and the tabulate command (C22).
use crate::json::{self, J};
use crate::led::*;
use crate::sx;

pub fn run(name: &str) -> bool {
    match name {
        "C21.config" => config(),
        "C21.args" => args(3, 2),
        "C21.args4" => args(4, 2),
        "C21.bytes" => bytes(),
        "C21.flags" => flags(),
        "C21.fail" => failed(),
        "C21.long" => long(),
        "C21.health" => not_health(),
        "C27.clojure" => clojure_health(),
        "C27.java" => java_health(),
        "C27.which" => which_health(),
        "C27.none" => no_health(),
        "C27.jar" => any_jar(),
        "C27.text" => health_text(),
        "C22.grid" => grid(2, 2, 1),
        "C22.grid3" => grid(3, 2, 0),
        "C22.wide" => grid(2, 3, 0),
        "C22.column" => column(),
        "C22.text" => texts(),
        "C22.numbers" => numbers(),
        "C22.nest" => nest(),
        "C22.mixed" => mixed(),
        "C22.bad" => bad(),
        "C22.corrupt" => corrupt(),
        "C22.around" => around(),
        "C22.many" => many(),
        "C22.control" => control(),
        "C22.schedule" => scheduled(),
        _ => return false,
    }
    true
}

// ---- C21 ----

#[derive(Default)]
struct Conf {
    root: Option<T>,
    jar: Option<T>,
    deps: Option<T>,
}

/// run the launcher with these; exit status and the calls it made
fn launch(c: &Conf, args: &[T], extra: &[&[u8]]) -> (u64, Vec<u8>) {
    let mut env: Vec<T> = extra.iter().map(|e| e.to_vec()).collect();
    for (n, v) in [("LIMABEAN_CLJ_LOCAL_ROOT", &c.root), ("LIMABEAN_UBERJAR", &c.jar), ("LIMABEAN_CLJ_DEPS", &c.deps)] {
        if let Some(v) = v {
            env.push([n.as_bytes(), b"=", v].concat());
        }
    }
    if env.is_empty() {
        env.push(b"LANG=C".to_vec());
    }
    sx::env(&env.iter().map(|e| &e[..]).collect::<Vec<_>>());
    let mut a: Vec<&[u8]> = vec![b"limabean"];
    a.extend(args.iter().map(|x| &x[..]));
    sx::args(&a);
    let r = sx::run(1);
    (r, sx::log())
}

fn is(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && json::same(a, b)
}

/// the call is of the program configured, with these arguments
fn called(c: &Conf, args: &[T], log: &[u8]) {
    // every argument ends with a NUL
    let mut v: Vec<&[u8]> = log.split(|b| *b == 0).collect();
    v.pop();
    // the program's name, then its arguments
    if v.is_empty() {
        sx::fail("a program is started");
        return;
    }
    let prog = v[0];
    let rest = &v[1..];
    let n = args.len();
    if rest.len() < n {
        sx::fail("every argument is passed on");
        return;
    }
    let (own, theirs) = rest.split_at(rest.len() - n);
    sx::check(
        args.iter().zip(theirs).fold(true, |r, (x, y)| r & is(x, y)),
        "arguments are passed on unchanged and in order",
    );
    if c.root.is_some() || c.jar.is_none() {
        sx::check(is(prog, b"clojure"), "Clojure runs unless a jar is configured and no local root");
        let k = own.len().wrapping_sub(5);
        if k > own.len() {
            sx::fail("Clojure is told what to run");
            return;
        }
        sx::check(
            is(own[k], b"-Sdeps") & is(own[k + 2], b"-M") & is(own[k + 3], b"-m") & is(own[k + 4], b"limabean.main"),
            "Clojure runs the main program and nothing else is passed to it",
        );
        sx::check(own[..k].iter().all(|o| o.starts_with(b"-J")), "only options precede what is run");
        coordinates(c, own[k + 1]);
    } else {
        sx::check(is(prog, b"java"), "Java runs if a jar is configured and no local root");
        let k = own.len().wrapping_sub(2);
        if k > own.len() {
            sx::fail("Java is told what to run");
            return;
        }
        sx::check(is(own[k], b"-jar") & is(own[k + 1], c.jar.as_ref().unwrap()), "Java runs the jar configured");
        sx::check(own[..k].iter().all(|o| o.starts_with(b"-")), "only options precede the jar");
    }
}

/// `{:deps {name {:local/root "path"} more}}`
fn coordinates(c: &Conf, d: &[u8]) {
    let lead = b"{:deps {io.github.tesujimath/limabean {";
    if d.len() < lead.len() || !is(&d[..lead.len()], lead) {
        sx::fail("Clojure is given a coordinate");
        return;
    }
    let d = &d[lead.len()..];
    let kind: &[u8] = if c.root.is_some() { b":local/root \"" } else { b":mvn/version \"" };
    if d.len() < kind.len() || !is(&d[..kind.len()], kind) {
        sx::fail("the coordinate is of its kind");
        return;
    }
    let d = &d[kind.len()..];
    // a string, as Clojure reads it
    let mut i = 0;
    let mut s = vec![];
    loop {
        if i >= d.len() {
            sx::fail("the coordinate is complete");
            return;
        }
        if d[i] == b'"' {
            break;
        }
        if d[i] == b'\\' {
            i += 1;
            if i >= d.len() || !((d[i] == b'\\') | (d[i] == b'"')) {
                sx::fail("the coordinate can be read");
                return;
            }
        }
        s.push(d[i]);
        i += 1;
    }
    match &c.root {
        Some(r) => sx::check(is(&s, r), "the coordinate is the local root"),
        None => sx::check(!s.is_empty() && s.iter().all(|b| b.is_ascii_digit() || *b == b'.'), "the coordinate is a version"),
    }
    let end = match &c.deps {
        Some(e) => [b"\"} ", &e[..], b"}}"].concat(),
        None => b"\"}}}".to_vec(),
    };
    sx::check(is(&d[i..], &end), "further dependencies are added");
}

/// a text of n bytes, as an environment variable or argument may hold
fn word(names: &[&'static str], n: usize) -> T {
    (0..n).map(|i| sx::var(names[i], 1, 127) as u8).collect()
}
const W: [[&str; 2]; 4] = [["a0", "a1"], ["b0", "b1"], ["c0", "c1"], ["d0", "d1"]];

fn config() {
    let mut c = Conf::default();
    if sx::flip() {
        c.root = Some([b"/r", &word(&["r0", "r1"], 2)[..]].concat());
    }
    if sx::flip() {
        c.jar = Some([&word(&["j0", "j1"], 1 + sx::choice(2))[..], b".jar"].concat());
    }
    if sx::flip() {
        c.deps = Some(word(&["e0", "e1"], 1 + sx::choice(2)));
    }
    let a = vec![word(&["x"], 1), b"--beanfile".to_vec()];
    let (r, log) = launch(&c, &a, &[]);
    called(&c, &a, &log);
    sx::check((r == 200) | (r == 0), "a program takes over");
    sx::reach(100);
}

fn conf() -> Conf {
    match sx::choice(3) {
        0 => Conf::default(),
        1 => Conf { root: Some(b"/src/clj".to_vec()), ..Conf::default() },
        _ => Conf { jar: Some(b"/x/y.jar".to_vec()), deps: Some(b"a/b {:mvn/version \"1\"}".to_vec()), ..Conf::default() },
    }
}

fn args(n: usize, m: usize) {
    let c = conf();
    let k = sx::choice(n + 1);
    let a: Vec<T> = (0..k).map(|i| word(&W[i], sx::choice(m + 1))).collect();
    let (_, log) = launch(&c, &a, &[]);
    called(&c, &a, &log);
    sx::reach(100);
}

/// arguments are bytes
fn bytes() {
    let c = conf();
    let b: T = match sx::choice(4) {
        0 => vec![sx::var("b0", 1, 255) as u8],
        1 => vec![b'/', sx::var("b0", 128, 255) as u8, b'.', b'b'],
        2 => vec![sx::var("b0", 128, 255) as u8, sx::var("b1", 1, 255) as u8],
        _ => vec![sx::var("b0", 0xe1, 0xec) as u8, sx::var("b1", 0x80, 0xbf) as u8, sx::var("b2", 0x80, 0xbf) as u8],
    };
    let a = if sx::flip() { vec![b] } else { vec![b"--beanfile".to_vec(), b, b"x".to_vec()] };
    let (_, log) = launch(&c, &a, &[]);
    called(&c, &a, &log);
    sx::reach(100);
}

/// what the launcher itself looks for is passed on too
fn flags() {
    let c = conf();
    let f: &[u8] = sx::pick(&[&b"-v"[..], b"--verbose", b"--version", b"--help", b"health"]);
    let mut a = vec![b"one".to_vec(), word(&W[0], 1)];
    let at = sx::choice(3);
    sx::assume(f != b"health" || at > 0);
    a.insert(at, f.to_vec());
    if sx::flip() {
        a.push(sx::pick(&[&b"-v"[..], b"--version"]).to_vec());
    }
    let (_, log) = launch(&c, &a, &[]);
    called(&c, &a, &log);
    sx::reach(100);
}

/// many arguments, and long ones
fn long() {
    let n = sx::pick(&[12usize, 70]);
    let m = sx::pick(&[40usize, 300, 5000]);
    let k = sx::pick(&[0, n / 2, n - 1]);
    let c = word(&W[0], 1)[0];
    let text: T = (0..m).map(|i| if i == m - 1 { c } else { b'a' + (i % 26) as u8 }).collect();
    let a: Vec<T> = (0..n).map(|i| if i == k { text.clone() } else { format!("{i}").into_bytes() }).collect();
    let conf = match sx::choice(3) {
        0 => conf(),
        1 => Conf { root: Some([b"/r", &text[..]].concat()), deps: Some(text.clone()), ..Conf::default() },
        _ => Conf { jar: Some(text.clone()), ..Conf::default() },
    };
    let (_, log) = launch(&conf, &a, &[]);
    called(&conf, &a, &log);
    sx::reach(100);
}

/// no such program
fn failed() {
    let c = conf();
    let a = vec![word(&W[0], 1), if sx::flip() { b"-v".to_vec() } else { b"x".to_vec() }];
    let (r, log) = launch(&c, &a, &[b"PATH=/none"]);
    sx::check(log.is_empty(), "nothing runs where nothing is found");
    sx::check((r != 0) & (r != 134) & (r != 200) & (r < 256), "a failure to start is an error status");
    sx::check(!sx::out(2).is_empty(), "a failure to start is reported");
    sx::reach(100);
}

/// only the first argument asks for health, and only the whole word
fn not_health() {
    let c = conf();
    let w: T = (0..6).map(|i| sx::var(["h0", "h1", "h2", "h3", "h4", "h5"][i], 1, 127) as u8).collect();
    let a = match sx::choice(4) {
        0 => {
            sx::assume(!is(&w, b"health"));
            vec![w]
        }
        1 => vec![[b"health", &w[..1]].concat()],
        2 => vec![w[..1].to_vec(), b"health".to_vec()],
        _ => vec![b"healt".to_vec(), w],
    };
    let (_, log) = launch(&c, &a, &[]);
    called(&c, &a, &log);
    sx::reach(100);
}

// ---- C27 ----

fn holds(text: &[u8], part: &[u8]) -> bool {
    let n = part.len();
    (0..(text.len() + 1).saturating_sub(n)).fold(false, |r, i| r | is(&text[i..i + n], part))
}

/// ask for health, and see that the program asked is the one configured
fn health(c: &Conf, found: bool, more: &[T]) -> (u64, T) {
    let mut a = vec![b"health".to_vec()];
    a.extend(more.iter().cloned());
    let (r, log) = launch(c, &a, if found { &[] } else { &[b"PATH=/none"] });
    let prog: &[u8] = if c.root.is_some() || c.jar.is_none() { b"clojure" } else { b"java" };
    let want = if found { [prog, b"\0--version\0"].concat() } else { vec![] };
    sx::check(is(&log, &want), "the program configured is asked for its version, and nothing else runs");
    (r, sx::out(2))
}

fn judged(r: u64, said: &[u8], good: bool) {
    sx::check((r == 0) == good, "the exit status says whether the program can be run");
    sx::check((r < 128) | (r == 200), "the health command ends by itself");
    sx::check(!said.is_empty(), "health is reported");
}

fn version() -> T {
    [b"v", &(0..2).map(|i| sx::var(["v0", "v1"][i], 33, 126) as u8).collect::<T>()[..], b"z"].concat()
}

fn clojure_health() {
    let mut c = Conf::default();
    if sx::flip() {
        c.root = Some(b"/v/here".to_vec());
    }
    if sx::flip() {
        c.deps = Some(b"x/y {}".to_vec());
    }
    let v = version();
    let k = sx::var("status", 0, 255);
    sx::program("clojure", &[&v[..], b"\n"].concat(), b"", k);
    sx::program("java", b"no", b"", 1);
    let (r, said) = health(&c, true, &[]);
    judged(r, &said, k == 0);
    if r == 0 {
        sx::check(holds(&said, &v), "the version is reported");
    }
    sx::reach(100);
}

fn java_health() {
    let jar = sx::pick(&["/v/app.jar", "/v/dir", "/v/dir/app.jar", "/v/other.jar", "/v/app.jar/x"]);
    sx::file("/v/app.jar", b"PK");
    sx::file("/v/dir/app.jar", b"");
    let there = matches!(jar, "/v/app.jar" | "/v/dir" | "/v/dir/app.jar");
    let c = Conf { jar: Some(jar.as_bytes().to_vec()), deps: if sx::flip() { Some(b"x/y {}".to_vec()) } else { None }, root: None };
    let v = version();
    let e = [b"e", &v[..]].concat();
    let k = sx::var("status", 0, 255);
    sx::program("java", &[&v[..], b"\n"].concat(), &e, k);
    sx::program("clojure", b"no", b"", 1);
    let (r, said) = health(&c, true, &[]);
    judged(r, &said, (k == 0) & there);
    if r == 0 {
        sx::check(holds(&said, &v), "the version is reported");
    }
    if k == 0 && !there {
        sx::check(holds(&said, jar.as_bytes()), "the jar which is missing is named");
    }
    if k != 0 {
        sx::check(holds(&said, &e), "what the program said in failing is reported");
    }
    sx::reach(100);
}

/// the program which is asked is the one which would be run, whatever else is there
fn which_health() {
    sx::file("/v/app.jar", b"PK");
    let c = Conf {
        root: if sx::flip() { Some([b"/v/", &word(&["r0", "r1"], 1)[..]].concat()) } else { None },
        jar: if sx::flip() { Some(b"/v/app.jar".to_vec()) } else { None },
        deps: if sx::flip() { Some(word(&["d0", "d1"], 1)) } else { None },
    };
    let (j, k) = (sx::var("java", 0, 255), sx::var("clojure", 0, 255));
    sx::program("java", b"jvm\n", b"", j);
    sx::program("clojure", b"clj\n", b"", k);
    let java = c.root.is_none() && c.jar.is_some();
    // further arguments change nothing
    let more = match sx::choice(3) {
        0 => vec![],
        1 => vec![word(&["m0", "m1"], 1)],
        _ => vec![b"-v".to_vec(), b"health".to_vec()],
    };
    let (r, said) = health(&c, true, &more);
    judged(r, &said, if java { j == 0 } else { k == 0 });
    sx::reach(100);
}

fn no_health() {
    sx::file("/v/app.jar", b"PK");
    let c = match sx::choice(3) {
        0 => conf(),
        1 => Conf { jar: Some(b"/v/app.jar".to_vec()), ..Conf::default() },
        _ => Conf::default(),
    };
    let (r, said) = health(&c, false, &[]);
    judged(r, &said, false);
    sx::reach(100);
}

/// a jar by any short name
fn any_jar() {
    sx::file("/v/q", b"PK");
    let c = word(&["j0", "j1"], 1)[0];
    let (jar, there): (T, bool) = match sx::choice(3) {
        0 => ([b"/v/", &[c][..]].concat(), (c == b'q') | (c == b'.') | (c == b'/')),
        1 => ([b"/v/q", &[c][..]].concat(), false),
        _ => ([b"/v/", &[c][..], b"q"].concat(), c == b'/'),
    };
    let conf = Conf { jar: Some(jar.clone()), ..Conf::default() };
    let k = sx::var("status", 0, 255);
    sx::program("java", b"jvm\n", b"bad\n", k);
    let (r, said) = health(&conf, true, &[]);
    judged(r, &said, (k == 0) & there);
    sx::reach(100);
}

/// versions of several lines, of none, and not in UTF-8
fn health_text() {
    sx::file("/v/app.jar", b"PK");
    let jar = sx::flip();
    let c = Conf { jar: if jar { Some(b"/v/app.jar".to_vec()) } else { None }, ..Conf::default() };
    let a = sx::var("a", 1, 255) as u8;
    let b = sx::var("b", 1, 127) as u8;
    let v: T = match sx::choice(5) {
        0 => vec![],
        1 => b"one\ntwo\nthree\n".to_vec(),
        2 => vec![b'q', a, b],
        3 => [&vec![b'k'; 5000][..], &[b]].concat(),
        _ => vec![b'\n', b'\n', b],
    };
    let k = sx::var("status", 0, 3);
    sx::program(if jar { "java" } else { "clojure" }, &v, &v, k);
    let (r, said) = health(&c, true, &[]);
    judged(r, &said, k == 0);
    for line in v.split(|x| *x == b'\n').filter(|l| l.len() > 2 && l[0] != b'q') {
        sx::check(holds(&said, line), "every line is reported");
    }
    sx::reach(100);
}

// ---- C22 ----

#[derive(Clone)]
enum C {
    Empty,
    Al(T, usize),
    /// the text and the character which is aligned
    An(T, usize),
    Row(Vec<C>, T),
    Stack(Vec<C>),
}

const ALIGN: [&str; 3] = ["left", "right", "centre"];

fn width(s: &[u8]) -> usize {
    // wide characters appear in a few fixed texts only
    let mut n = 0;
    let mut i = 0;
    while i < s.len() {
        let (l, w) = match s[i] {
            0..=0x7f => (1, 1),
            0x80..=0xdf => (2, 1),
            // CJK
            0xe4..=0xe9 => (3, 2),
            0xe0..=0xef => (3, 1),
            _ => (4, 2),
        };
        n += w;
        i += l;
    }
    n
}

impl C {
    fn json(&self, o: &mut T) {
        match self {
            C::Empty => o.extend(b"\"empty\""),
            C::Al(t, a) => {
                o.extend(b"{\"aligned\":[");
                o.extend(json::jquote(t));
                o.extend(b",\"");
                o.extend(ALIGN[*a].as_bytes());
                o.extend(b"\"]}");
            }
            C::An(t, i) => {
                o.extend(b"{\"anchored\":[");
                o.extend(json::jquote(t));
                o.push(b',');
                o.extend(i.to_string().as_bytes());
                o.extend(b"]}");
            }
            C::Row(c, g) => {
                o.extend(b"{\"row\":[");
                list(c, o);
                o.push(b',');
                o.extend(json::jquote(g));
                o.extend(b"]}");
            }
            C::Stack(c) => {
                o.extend(b"{\"stack\":");
                list(c, o);
                o.push(b'}');
            }
        }
    }
    fn shape(&self) -> G {
        match self {
            C::Empty => G::default(),
            C::Al(t, _) => G { w: width(t), ..G::default() },
            C::An(t, i) => G { before: *i, after: width(t) - i, anchored: true, ..G::default() },
            C::Row(c, g) => {
                let mut r = G { cols: c.iter().map(|x| x.shape()).collect(), gutter: g.clone(), row: true, ..G::default() };
                r.fit();
                r
            }
            C::Stack(c) => c.iter().fold(G::default(), |a, b| a.over(b.shape())),
        }
    }
    /// the lines of this, each as wide as it should be
    fn lines(&self, g: &G) -> Vec<T> {
        let sp = |n: usize| vec![b' '; n];
        match self {
            C::Empty => vec![sp(g.w)],
            C::Al(t, a) => {
                let p = g.w - width(t);
                let l = [0, p, p / 2][*a];
                vec![[sp(l), t.clone(), sp(p - l)].concat()]
            }
            C::An(t, i) => {
                let l = g.before - i;
                vec![[sp(l), t.clone(), sp(g.w - l - width(t))].concat()]
            }
            C::Row(c, _) => {
                let cols: Vec<Vec<T>> =
                    g.cols.iter().enumerate().map(|(i, h)| c.get(i).unwrap_or(&C::Empty).lines(h)).collect();
                let n = if c.is_empty() { 1 } else { cols.iter().map(|x| x.len()).max().unwrap_or(1) };
                let mut r = vec![];
                for k in 0..n {
                    let l: Vec<T> =
                        cols.iter().zip(&g.cols).map(|(x, h)| x.get(k).cloned().unwrap_or_else(|| sp(h.w))).collect();
                    let mut t = l.join(&g.gutter[..]);
                    if t.len() == 0 {
                        t = sp(g.w);
                    }
                    r.push(t);
                }
                r
            }
            C::Stack(c) => {
                if c.is_empty() {
                    return vec![sp(g.w)];
                }
                c.iter().flat_map(|x| x.lines(g)).collect()
            }
        }
    }
}
fn list(c: &[C], o: &mut T) {
    o.push(b'[');
    for (i, x) in c.iter().enumerate() {
        if i > 0 {
            o.push(b',');
        }
        x.json(o);
    }
    o.push(b']');
}

/// the room a cell takes
#[derive(Clone, Default)]
struct G {
    w: usize,
    before: usize,
    after: usize,
    anchored: bool,
    row: bool,
    cols: Vec<G>,
    gutter: T,
}
impl G {
    fn fit(&mut self) {
        if self.anchored {
            self.w = self.w.max(self.before + self.after);
        }
        if self.row {
            for c in &mut self.cols {
                c.fit();
            }
            let n = self.cols.len();
            let w = self.cols.iter().map(|c| c.w).sum::<usize>() + if n > 1 { (n - 1) * width(&self.gutter) } else { 0 };
            self.w = self.w.max(w);
        }
    }
    fn over(self, o: G) -> G {
        let mut cols = vec![];
        for i in 0..self.cols.len().max(o.cols.len()) {
            cols.push(match (self.cols.get(i), o.cols.get(i)) {
                (Some(a), Some(b)) => a.clone().over(b.clone()),
                (a, b) => a.or(b).unwrap().clone(),
            });
        }
        let mut r = G {
            w: self.w.max(o.w),
            before: self.before.max(o.before),
            after: self.after.max(o.after),
            anchored: self.anchored | o.anchored,
            row: self.row | o.row,
            cols,
            gutter: if width(&o.gutter) > width(&self.gutter) { o.gutter } else { self.gutter },
        };
        r.fit();
        r
    }
}

fn tabulate(input: &[u8]) -> (u64, T) {
    sx::args(&[b"limabean-pod", b"tabulate"]);
    sx::stdin(input);
    let r = sx::run(0);
    (r, sx::out(1))
}

/// the output for the cell is as laid out here
fn shown(c: &C) {
    let mut t = vec![];
    c.json(&mut t);
    let (r, out) = tabulate(&t);
    sx::check(r == 0, "a cell is tabulated");
    let mut g = c.shape();
    g.fit();
    let mut want: Vec<T> = c.lines(&g);
    // blank lines at the end may be dropped
    let mut got: Vec<&[u8]> = out.split(|b| *b == b'\n').collect();
    sx::check(got.pop() == Some(&b""[..]), "the output ends its last line");
    let blank = |l: &[u8]| l.iter().all(|b| !sx::is_sym(*b as u64) && *b == b' ');
    while want.len() > 1 && want.last().map_or(false, |l| blank(l)) {
        want.pop();
    }
    while got.len() > want.len() && got.last().map_or(false, |l| blank(l)) {
        got.pop();
    }
    if got.len() == 1 && want.len() == 1 && blank(got[0]) && blank(&want[0]) {
        sx::reach(100);
        return;
    }
    sx::check(got.len() == want.len(), "every cell is on a line of its own stack");
    sx::check(
        got.iter().zip(&want).fold(true, |r, (x, y)| r & is(x, y)),
        "every cell is in its column, aligned and padded",
    );
    sx::reach(100);
}

/// n printable characters
fn chars(names: &[&'static str], n: usize) -> T {
    (0..n)
        .map(|i| {
            let c = sx::var(names[i], 33, 126) as u8;
            sx::assume((c != b'"') & (c != b'\\'));
            c
        })
        .collect()
}
const CN: [[&str; 4]; 6] = [
    ["p0", "p1", "p2", "p3"],
    ["q0", "q1", "q2", "q3"],
    ["r0", "r1", "r2", "r3"],
    ["s0", "s1", "s2", "s3"],
    ["u0", "u1", "u2", "u3"],
    ["w0", "w1", "w2", "w3"],
];

/// a cell of any kind
fn leaf(k: usize, wide: usize) -> C {
    let n = if wide == 0 { [1, 3, 2, 2, 1, 3][k] } else { 1 + sx::choice(1 + wide) };
    match sx::choice(5) {
        0 => C::Empty,
        a @ 1..=3 => C::Al(chars(&CN[k], n + wide), a - 1),
        _ => C::An(chars(&CN[k], n + wide), if wide == 0 { n / 2 } else { sx::choice(n) }),
    }
}

/// whether a column holds anchored cells and others, or ones which reach out on both sides
fn uneven(rows: &[Vec<C>]) -> bool {
    let n = rows.iter().map(|r| r.len()).max().unwrap_or(0);
    (0..n).any(|i| {
        let g = rows.iter().filter_map(|r| r.get(i)).map(|c| c.shape()).fold(G::default(), G::over);
        let own = rows.iter().filter_map(|r| r.get(i)).map(|c| match c {
            C::An(t, _) | C::Al(t, _) => width(t),
            _ => 0,
        });
        let all = rows.iter().all(|r| matches!(r.get(i), Some(C::An(..))));
        g.anchored && !(all && rows.len() > 0) && own.max().unwrap_or(0) < g.before + g.after
            || g.anchored && g.before + g.after < rows.iter().filter_map(|r| r.get(i)).map(|c| match c { C::Al(t, _) => width(t), _ => 0 }).max().unwrap_or(0)
    })
}

fn grid(n: usize, m: usize, wide: usize) {
    let gut: T = sx::pick(&[&b" "[..], b" | "]).to_vec();
    let mut k = 0;
    let rows: Vec<Vec<C>> = (0..n)
        .map(|i| {
            let m = if i == 1 && sx::flip() { m - 1 } else { m };
            (0..m)
                .map(|_| {
                    k += 1;
                    leaf(k - 1, wide)
                })
                .collect()
        })
        .collect();
    sx::assume(!uneven(&rows));
    shown(&C::Stack(rows.into_iter().map(|r| C::Row(r, gut.clone())).collect()));
}

/// one column of any length
fn column() {
    let n = sx::choice(4);
    let v: Vec<C> = (0..n).map(|i| leaf(i, 1)).collect();
    sx::assume(!uneven(&v.iter().map(|c| vec![c.clone()]).collect::<Vec<_>>()));
    shown(&C::Stack(v));
}

/// contents of any kind
fn texts() {
    let t: T = match sx::choice(7) {
        0 => vec![],
        1 => vec![sx::var("t0", 32, 126) as u8],
        2 => vec![b'a', sx::var("t0", 32, 126) as u8, sx::var("t1", 32, 126) as u8],
        3 => vec![sx::var("t0", 0xc3, 0xc9) as u8, sx::var("t1", 0x80, 0xbf) as u8],
        4 => "日本".as_bytes().to_vec(),
        5 => "€ ½".as_bytes().to_vec(),
        _ => vec![b' ', sx::var("t0", 32, 126) as u8, b' '],
    };
    let a = sx::choice(3);
    let row = |c: C| C::Row(vec![c, C::Al(b"|".to_vec(), 0)], b" ".to_vec());
    shown(&C::Stack(vec![row(C::Al(t, a)), row(C::Al(b"wider".to_vec(), 1))]));
}

/// numbers align at the point and keep every digit
fn numbers() {
    let ints = [1 + sx::choice(3), 1 + sx::choice(3), 2];
    let decs = [sx::choice(3), sx::choice(3), 1];
    let n = 2 + sx::choice(2);
    let rows = (0..n)
        .map(|i| {
            let d = |k: usize| {
                let names = ["d0", "d1", "d2", "d3", "d4", "d5", "e0", "e1", "e2", "e3", "e4", "e5", "f0", "f1", "f2", "f3", "f4", "f5"];
                sx::var(names[6 * i + k], b'0' as u64, b'9' as u64) as u8
            };
            let mut t: T = vec![];
            let neg = i == 1 && sx::flip();
            if neg {
                t.push(b'-');
            }
            t.extend((0..ints[i]).map(|k| d(k)));
            let at = t.len() - 1;
            if decs[i] > 0 {
                t.push(b'.');
                t.extend((0..decs[i]).map(|k| d(3 + k)));
            }
            C::Row(vec![C::Al([&b"Assets:"[..], &[b'A' + i as u8; 3][..i + 1]].concat(), 0), C::An(t, at), C::Al(b"USD".to_vec(), 0)], b"  ".to_vec())
        })
        .collect();
    shown(&C::Stack(rows));
}

/// cells within cells
fn nest() {
    let x = |i: usize, n: usize| C::Al(chars(&CN[i], n), sx::choice(3));
    let g = b" ".to_vec();
    let c = match sx::choice(7) {
        // a column of several lines beside others
        0 => C::Row(vec![C::Stack(vec![x(0, 1), x(1, 2), x(2, 1)]), x(3, 1), C::Stack(vec![x(4, 2), x(5, 1)])], g),
        1 => C::Stack(vec![C::Stack(vec![x(0, 1), x(1, 3)]), C::Stack(vec![x(2, 2)])]),
        2 => C::Stack(vec![
            C::Row(vec![C::Stack(vec![x(0, 1), x(1, 2)]), x(2, 1)], g.clone()),
            C::Row(vec![x(3, 3), C::Stack(vec![x(4, 1), x(5, 2)])], g),
        ]),
        3 => C::Row(vec![C::Row(vec![x(0, 1), x(1, 2)], b"/".to_vec()), x(2, 1), C::Row(vec![x(3, 1)], b"!".to_vec())], g),
        4 => C::Stack(vec![
            C::Row(vec![C::Row(vec![x(0, 1), x(1, 2)], b"/".to_vec()), x(2, 2)], g.clone()),
            C::Row(vec![C::Row(vec![x(3, 3), x(4, 1)], b"/".to_vec()), x(5, 1)], g),
        ]),
        5 => x(0, 3),
        _ => {
            // rows of a stack need not be of one length
            let row = |a: Vec<C>| C::Row(a, b"--".to_vec());
            let a: Vec<C> = (0..1 + sx::choice(3)).map(|i| x(i, 1 + i)).collect();
            let b: Vec<C> = (0..1 + sx::choice(3)).map(|i| x(3 + i, 2)).collect();
            C::Stack(vec![row(a), row(b)])
        }
    };
    shown(&c);
}

/// columns which hold numbers and other cells
fn mixed() {
    let g = b" ".to_vec();
    let num = |i: usize, a: usize, b: usize| {
        let mut t = chars(&CN[i], a);
        if b > 0 {
            t.push(b'.');
            t.extend(chars(&["m0", "m1", "m2"], b));
        }
        C::An(t, a - 1)
    };
    let end = |i: usize| C::Al(chars(&CN[i], 1), 0);
    let first = match sx::choice(3) {
        0 => C::Empty,
        1 => C::Al(chars(&CN[0], 1 + sx::choice(4)), sx::choice(3)),
        _ => num(0, 2, 0),
    };
    let rows = vec![vec![first, end(1)], vec![num(2, 1, sx::choice(2)), end(3)], vec![num(4, 3, 0), end(5)]];
    let odd = uneven(&rows);
    let c = C::Stack(rows.into_iter().map(|r| C::Row(r, g.clone())).collect());
    if !odd {
        shown(&c);
        return;
    }
    let mut t = vec![];
    c.json(&mut t);
    let (r, out) = tabulate(&t);
    sx::check(r == 0, "a cell is tabulated");
    let mut h = c.shape();
    h.fit();
    let want = [&c.lines(&h).join(&b'\n')[..], b"\n"].concat();
    sx::check(is(&out, &want), "[mixed] columns of numbers and other cells are of equal width");
    sx::reach(101);
}

/// input which is no cell
fn bad() {
    let t: &[u8] = sx::pick(&[
        &b""[..],
        b"{}",
        b"null",
        b"[]",
        b"1",
        b"\"full\"",
        b"{\"aligned\":[\"a\"]}",
        b"{\"aligned\":[\"a\",\"up\"]}",
        b"{\"aligned\":[\"a\",\"left\",1]}",
        b"{\"aligned\":[1,\"left\"]}",
        b"{\"anchored\":[\"a\",-1]}",
        b"{\"anchored\":[\"a\",\"0\"]}",
        b"{\"row\":[[\"empty\"]]}",
        b"{\"row\":[\"empty\",\" \"]}",
        b"{\"stack\":\"empty\"}",
        b"{\"stack\":[\"empty\",{}]}",
        b"{\"stack\":[{\"aligned\":[\"a\",\"left\"]},{\"aligned\":[\"b\",\"lef\"]}]}",
        b"\"empty\" \"empty\"",
        b"{\"aligned\":[\"a\",\"left\"],\"stack\":[]}",
        b"{\"aligned\":[\"\xff\",\"left\"]}",
        b"\xef\xbb\xbf\"empty\"",
        b"\xff\xfe\"empty\"",
        b"\"empty\"\0",
        b"{\"aligned\":[\"a\",\"left\"]},",
        b"{\"aligned\":[\"a\",\"left\"],}",
        b"// c\n\"empty\"",
    ]);
    let (r, out) = tabulate(t);
    refused(r, &out);
    sx::reach(100);
}
fn refused(r: u64, out: &[u8]) {
    sx::check((r != 0) & (r < 128), "input which is no cell is an error status");
    sx::check(out.is_empty(), "input which is no cell has no output");
    sx::check(!sx::out(2).is_empty(), "input which is no cell is reported");
}

/// a cell with one byte replaced, or cut short
fn corrupt() {
    let t: &[u8] = sx::pick(&[
        &b"{\"row\":[[\"empty\",{\"aligned\":[\"ab\",\"left\"]}],\" \"]}"[..],
        b"{\"stack\":[{\"anchored\":[\"1.5\",0]},{\"aligned\":[\"b\",\"centre\"]}]}",
    ]);
    let i = sx::choice(t.len());
    let t = if sx::flip() {
        t[..i].to_vec()
    } else {
        let mut t = t.to_vec();
        t[i] = sx::var("byte", 0, 127) as u8;
        t
    };
    let c = json::parse(&t).and_then(|j| cell(&j));
    match c {
        Some(c) if sane(&c) => {
            let (r, out) = tabulate(&t);
            sx::check(r == 0, "a cell is tabulated");
            let mut g = c.shape();
            g.fit();
            let want = [&c.lines(&g).join(&b'\n')[..], b"\n"].concat();
            sx::check(is(&out, &want), "a cell is shown");
        }
        Some(_) => {}
        None => {
            let (r, out) = tabulate(&t);
            refused(r, &out);
        }
    }
    sx::reach(100);
}
/// any byte before or after a cell
fn around() {
    let c = sx::var("byte", 0, 255) as u8;
    let t = b"{\"stack\":[{\"aligned\":[\"ab\",\"left\"]},{\"anchored\":[\"1.5\",0]}]}";
    let t = if sx::flip() { [&[c][..], t].concat() } else { [&t[..], &[c]].concat() };
    let (r, out) = tabulate(&t);
    if (c == b' ') | (c == b'\t') | (c == b'\r') | (c == b'\n') {
        sx::check((r == 0) & is(&out, b"ab \n1.5\n"), "a cell is shown");
    } else if (c != 0x0b) & (c != 0x0c) {
        refused(r, &out);
    }
    sx::reach(100);
}

/// large tables
fn many() {
    let (n, m) = sx::pick(&[(2, 12), (10, 3), (40, 2), (3, 40), (130, 1)]);
    let (i, j) = (sx::pick(&[0, n / 2, n - 1]), sx::pick(&[0, m - 1]));
    let long = sx::pick(&[2usize, 90]);
    let rows: Vec<C> = (0..n)
        .map(|r| {
            let cells = (0..m)
                .map(|c| {
                    let mut t: T = if r == i && c == j { chars(&CN[0], 2) } else { format!("{}", r * m + c).into_bytes() };
                    if r == i && c == j {
                        t.extend(vec![b'x'; long]);
                    }
                    match c % 3 {
                        0 => C::Al(t, r % 3),
                        1 => C::Al(t, 1),
                        _ => C::An(t.clone(), t.len() - 1),
                    }
                })
                .collect();
            C::Row(cells, b" ".to_vec())
        })
        .collect();
    // and within many others
    let mut c = C::Stack(rows);
    let deep = sx::pick(&[0, 20]);
    for k in 0..deep {
        c = if k % 2 == 0 { C::Row(vec![c], b"|".to_vec()) } else { C::Stack(vec![c]) };
    }
    shown(&c);
}

/// characters that are not printable are given as they are
fn control() {
    let c = sx::var("char", 1, 31) as u8;
    let t = vec![b'a', c, b'b'];
    let below = C::Al(b"wide enough".to_vec(), 0);
    let mut j = vec![];
    C::Stack(vec![C::Al(t.clone(), 0), below]).json(&mut j);
    let (r, out) = tabulate(&j);
    sx::check(r == 0, "a cell is tabulated");
    sx::check(out.len() > 3 && is(&out[..3], &t), "a cell is shown");
    sx::check(out.ends_with(b"\nwide enough\n"), "a cell is shown");
    sx::reach(100);
}

/// input that arrives in pieces, output that leaves in pieces, and interruptions of either
fn scheduled() {
    const R: [u8; 5] = [b'1', b'2', b'7', b'i', b'0'];
    let reads = [sx::pick(&R), sx::pick(&R), sx::pick(&R)];
    let writes = [sx::pick(&[b'1', b'5', b'i', b'0']), sx::pick(&[b'1', b'3', b'i', b'0'])];
    if reads == [b'i'; 3] || writes == [b'i'; 2] {
        return;
    }
    sx::env(&[&[b"SX_READS=", &reads[..]].concat(), &[b"SX_WRITES=", &writes[..]].concat()]);
    let cell = |t: T| C::Row(vec![C::Al(t, 0), C::An(b"12.50".to_vec(), 1)], b" ".to_vec());
    shown(&C::Stack(vec![cell(chars(&CN[0], 2)), cell("日本".as_bytes().to_vec())]));
}

fn sane(c: &C) -> bool {
    match c {
        C::Al(t, _) => t.iter().all(|b| (*b >= 32) & (*b < 127)),
        C::An(t, i) => *i <= t.len() && t.iter().all(|b| (*b >= 32) & (*b < 127)),
        C::Row(c, g) => c.iter().all(sane) && g.iter().all(|b| (*b >= 32) & (*b < 127)),
        C::Stack(c) => c.iter().all(sane),
        C::Empty => true,
    }
}
fn cell(j: &J) -> Option<C> {
    match j {
        J::Str(s) => is(s, b"empty").then_some(C::Empty),
        J::Obj(o) if o.len() == 1 => {
            let (k, v) = &o[0];
            let two = |v: &J| match v {
                J::Arr(a) if a.len() == 2 => Some((a[0].clone(), a[1].clone())),
                _ => None,
            };
            let cells = |v: &J| match v {
                J::Arr(a) => a.iter().map(cell).collect::<Option<Vec<_>>>(),
                _ => None,
            };
            if is(k, b"empty") {
                return matches!(v, J::Null).then_some(C::Empty);
            }
            if is(k, b"aligned") {
                return match two(v)? {
                    (J::Str(t), J::Str(a)) => ALIGN.iter().position(|x| is(x.as_bytes(), &a)).map(|a| C::Al(t, a)),
                    _ => None,
                };
            }
            if is(k, b"anchored") {
                return match two(v)? {
                    (J::Str(t), J::Num(n)) => {
                        if n.iter().all(|b| b.is_ascii_digit()) {
                            Some(C::An(t, n.iter().fold(0, |r, b| 10 * r + (b - b'0') as usize)))
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
            }
            if is(k, b"row") {
                return match two(v)? {
                    (c, J::Str(g)) => Some(C::Row(cells(&c)?, g)),
                    _ => None,
                };
            }
            if is(k, b"stack") {
                return Some(C::Stack(cells(v)?));
            }
            None
        }
        _ => None,
    }
}
