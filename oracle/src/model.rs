//! Reference model of booking: what the user is promised, written down
//! directly from the property statements.
use crate::led::*;
use crate::num::{n, Num};

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub mult: Option<Num>,
    pub defaults: Vec<(N, Num)>,
    pub fallback: Option<Num>,
    pub booking: Option<N>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Balance,
    PadUnused,
    NotOpen,
    WasClosed,
    AlreadyOpen,
    Currency,
    Txn,
}

/// An error booking has to report.
#[derive(Clone, Debug)]
pub struct Er {
    pub dir: usize,
    /// where in the directive: any of these is right
    pub posts: Vec<Option<usize>>,
    pub kind: K,
    /// another directive the error has to refer to
    pub related: Option<usize>,
    pub diff: Option<(Num, N)>,
    /// the postings that led to a failed balance
    pub why: Option<Why>,
}

#[derive(Clone, Debug)]
pub struct Why {
    /// date, account, units, total so far, directive
    pub rows: Vec<(N, N, Num, Num, usize)>,
    pub base: N,
    pub total: Num,
}

#[derive(Clone, Debug)]
pub struct Lot {
    pub date: N,
    pub per: Num,
    pub cur: N,
    pub label: Option<T>,
    pub merge: bool,
    /// the total as written, if it was
    pub total: Option<Num>,
    /// false when the per-unit amount is the total divided by the units
    pub per_given: bool,
    /// units when acquired
    pub acquired: Num,
}

#[derive(Clone, Debug)]
pub struct Pos {
    pub cur: N,
    pub units: Num,
    pub lot: Option<Lot>,
}

#[derive(Clone, Debug)]
pub struct BPrice {
    pub per: Option<Num>,
    pub total: Option<Num>,
    pub cur: N,
}

#[derive(Clone, Debug)]
pub struct BPost {
    pub idx: Option<usize>,
    pub acc: N,
    pub units: Num,
    pub cur: N,
    pub lot: Option<Lot>,
    pub price: Option<BPrice>,
    /// computed by booking rather than written
    pub inferred: bool,
    /// the value 0 is a known defect here (residual within tolerance is not interpolated)
    pub or_zero: bool,
}

#[derive(Clone, Debug)]
pub struct Booked {
    pub dir: usize,
    /// postings of a transaction, written or synthesised
    pub posts: Option<Vec<BPost>>,
    pub synth: bool,
}

pub struct Outcome {
    pub errs: Vec<Er>,
    pub booked: Vec<Booked>,
    pub accts: Vec<Acct>,
}

#[derive(Clone, Debug)]
pub struct Acct {
    pub name: N,
    pub open: Option<usize>,
    pub closed: Option<usize>,
    pub opened_by: usize,
    pub curs: Vec<N>,
    pub method: N,
    pub pos: Vec<Pos>,
    pub pad: Option<usize>,
}

pub fn under(base: &str, acc: &str) -> bool {
    acc == base || (acc.len() > base.len() && acc.starts_with(base) && acc.as_bytes()[base.len()] == b':')
}

pub struct Model<'a> {
    dirs: &'a [Dir],
    opts: &'a Opts,
    accts: Vec<Acct>,
    errs: Vec<Er>,
    booked: Vec<Booked>,
}

fn er(dir: usize, kind: K) -> Er {
    Er { dir, posts: vec![None], kind, related: None, diff: None, why: None }
}

/// add to an account's holdings
fn hold(pos: &mut Vec<Pos>, cur: N, units: Num, lot: Option<Lot>, merge: bool) {
    for p in pos.iter_mut() {
        if p.cur != cur {
            continue;
        }
        let same = match (&p.lot, &lot) {
            (None, None) => true,
            (Some(a), Some(b)) => merge && a.date == b.date && a.cur == b.cur && a.label == b.label && a.merge == b.merge && a.per.eq(b.per),
            _ => false,
        };
        if same {
            p.units = p.units.add(units);
            return;
        }
    }
    pos.push(Pos { cur, units, lot });
}

impl<'a> Model<'a> {
    /// directives in booking order
    pub fn run(dirs: &'a [Dir], opts: &'a Opts) -> Outcome {
        let mut m = Model { dirs, opts, accts: vec![], errs: vec![], booked: vec![] };
        for i in 0..dirs.len() {
            m.directive(i);
        }
        for a in &m.accts {
            if let Some(p) = a.pad {
                m.errs.push(er(p, K::PadUnused));
            }
        }
        m.errs.sort_by_key(|e| e.dir);
        Outcome { errs: m.errs, booked: m.booked, accts: m.accts }
    }

    fn acct(&self, name: &str) -> Option<usize> {
        self.accts.iter().position(|a| a.name == name)
    }

    /// is the account usable now; otherwise the error to report
    fn usable(&self, name: &str, i: usize) -> Result<usize, Er> {
        match self.acct(name) {
            None => Err(er(i, K::NotOpen)),
            Some(a) => {
                if self.accts[a].open.is_some() {
                    Ok(a)
                } else {
                    Err(Er { related: self.accts[a].closed, ..er(i, K::WasClosed) })
                }
            }
        }
    }

    fn currency_ok(&self, a: usize, cur: N, i: usize) -> Result<(), Er> {
        let a = &self.accts[a];
        if a.curs.is_empty() || a.curs.contains(&cur) {
            Ok(())
        } else {
            Err(Er { related: Some(a.opened_by), ..er(i, K::Currency) })
        }
    }

    fn held(&self, base: &str, cur: N) -> Num {
        let mut t = Num::ZERO;
        for a in &self.accts {
            if under(base, a.name) {
                for p in &a.pos {
                    if p.cur == cur {
                        t = t.add(p.units);
                    }
                }
            }
        }
        t
    }

    fn directive(&mut self, i: usize) {
        let d = &self.dirs[i];
        let r = match &d.v {
            V::Open { acc, curs, booking } => self.open(i, acc, curs, *booking),
            V::Close { acc } => self.close(i, acc),
            V::Bal { acc, units, cur, tol } => self.balance(i, acc, units.n, cur, tol.as_ref().map(|t| t.n)),
            V::Pad { acc, src } => self.pad(i, acc, src),
            V::Txn { posts, .. } => self.txn(i, d.date, posts),
            _ => Ok(None),
        };
        match r {
            Err(e) => self.errs.push(e),
            Ok(posts) => {
                self.booked.push(Booked { dir: i, posts, synth: false });
                if let V::Pad { .. } = d.v {
                    self.booked.push(Booked { dir: i, posts: Some(vec![]), synth: true });
                }
            }
        }
    }

    fn open(&mut self, i: usize, acc: N, curs: &[N], booking: Option<N>) -> Result<Option<Vec<BPost>>, Er> {
        if let Some(a) = self.acct(acc) {
            let a = &self.accts[a];
            if let Some(o) = a.open {
                return Err(Er { related: Some(o), ..er(i, K::AlreadyOpen) });
            }
            return Err(Er { related: a.closed, ..er(i, K::WasClosed) });
        }
        let method = booking.or(self.opts.booking).unwrap_or("strict");
        self.accts.push(Acct {
            name: acc,
            open: Some(i),
            closed: None,
            opened_by: i,
            curs: curs.to_vec(),
            method,
            pos: vec![],
            pad: None,
        });
        Ok(None)
    }

    fn close(&mut self, i: usize, acc: N) -> Result<Option<Vec<BPost>>, Er> {
        let a = self.usable(acc, i)?;
        self.accts[a].open = None;
        self.accts[a].closed = Some(i);
        Ok(None)
    }

    fn pad(&mut self, i: usize, acc: N, _src: N) -> Result<Option<Vec<BPost>>, Er> {
        let a = self.usable(acc, i)?;
        if let Some(old) = self.accts[a].pad.replace(i) {
            // the earlier pad is at fault
            self.errs.push(Er { related: Some(i), ..er(old, K::PadUnused) });
        }
        Ok(None)
    }

    fn balance(&mut self, i: usize, acc: N, units: Num, cur: N, tol: Option<Num>) -> Result<Option<Vec<BPost>>, Er> {
        let a = self.usable(acc, i)?;
        self.currency_ok(a, cur, i)?;
        let tol = tol.unwrap_or_else(|| {
            if units.s == 0 {
                Num::ZERO
            } else {
                n(2, units.s).mul(self.opts.mult.unwrap_or(n(5, 1)))
            }
        });
        let diff = units.sub(self.held(acc, cur));
        let pad = self.accts[a].pad.take();
        if diff.within(tol) {
            if let Some(p) = pad {
                self.errs.push(er(p, K::PadUnused));
            }
            return Ok(None);
        }
        if let Some(p) = pad {
            let src = match self.dirs[p].v {
                V::Pad { src, .. } => src,
                _ => "",
            };
            let s = self.usable(src, p).and_then(|s| self.currency_ok(s, cur, p).map(|_| s));
            let s = match s {
                Ok(s) => s,
                Err(e) => {
                    // the pad cannot be applied: the pad is at fault, the holding is taken as asserted
                    hold(&mut self.accts[a].pos, cur, diff, None, true);
                    self.errs.push(e);
                    return Ok(None);
                }
            };
            hold(&mut self.accts[a].pos, cur, diff, None, true);
            hold(&mut self.accts[s].pos, cur, diff.neg(), None, true);
            let leg = |acc: N, units: Num| BPost {
                idx: None,
                acc,
                units,
                cur,
                lot: None,
                price: None,
                inferred: true,
                or_zero: false,
            };
            let legs = vec![leg(acc, diff), leg(src, diff.neg())];
            for b in self.booked.iter_mut() {
                if b.dir == p && b.synth {
                    b.posts = Some(legs);
                    break;
                }
            }
            Ok(None)
        } else {
            let why = self.why(i, acc, cur);
            // taken as asserted from here on
            hold(&mut self.accts[a].pos, cur, diff, None, true);
            Err(Er { diff: Some((diff, cur)), why: Some(why), ..er(i, K::Balance) })
        }
    }

    /// what was posted since the account's last balance
    fn why(&self, i: usize, base: N, cur: N) -> Why {
        let last = (0..i).rev().find(|&k| match &self.dirs[k].v {
            V::Bal { acc, .. } => *acc == base,
            _ => false,
        });
        let mut total = match last.map(|k| &self.dirs[k].v) {
            Some(V::Bal { units, cur: c, .. }) if *c == cur => units.n,
            _ => Num::ZERO,
        };
        let mut rows = vec![];
        for b in &self.booked {
            if last.map_or(true, |l| b.dir > l) {
                for p in b.posts.iter().flatten() {
                    if p.cur == cur && under(base, p.acc) {
                        total = total.add(p.units);
                        rows.push((self.dirs[b.dir].date, p.acc, p.units, total, b.dir));
                    }
                }
            }
        }
        Why { rows, base, total }
    }

    // ---- transactions ----

    fn txn(&mut self, i: usize, date: N, posts: &[Post]) -> Result<Option<Vec<BPost>>, Er> {
        let mut bad: Vec<(Option<usize>, K, Option<usize>)> = vec![];
        // accounts and currencies as far as they are written
        for (k, p) in posts.iter().enumerate() {
            match self.usable(p.acc, i) {
                Err(e) => bad.push((Some(k), e.kind, e.related)),
                Ok(a) => {
                    if let Some(c) = p.cur {
                        if let Err(e) = self.currency_ok(a, c, i) {
                            bad.push((Some(k), e.kind, e.related));
                        }
                    }
                }
            }
        }
        let r = self.book(date, posts);
        match &r {
            Err(_) => bad.push((None, K::Txn, None)),
            Ok((booked, _)) => {
                for b in booked {
                    let p = &posts[b.idx.unwrap()];
                    if p.cur.is_none() {
                        if let Ok(a) = self.usable(p.acc, i) {
                            if let Err(e) = self.currency_ok(a, b.cur, i) {
                                bad.push((b.idx, e.kind, e.related));
                            }
                        }
                    }
                }
            }
        }
        if let Some(first) = bad.first() {
            // when there are several reasons any of them will do
            let one = bad.len() == 1;
            return Err(Er {
                dir: i,
                posts: bad.iter().map(|b| b.0).collect(),
                kind: first.1,
                related: if one { first.2 } else { None },
                diff: None,
                why: None,
            });
        }
        let (booked, pos) = match r {
            Ok(x) => x,
            Err(()) => return Ok(None),
        };
        for (name, p) in pos {
            let a = self.acct(name).unwrap();
            self.accts[a].pos = p;
        }
        Ok(Some(booked))
    }

    fn tolerated(&self, sum: Num, scale: Option<u32>, cur: N) -> bool {
        match scale {
            Some(s) => sum.strictly_within(n(1, s).mul(self.opts.mult.unwrap_or(n(5, 1)))),
            None => {
                let d = self.opts.defaults.iter().find(|(c, _)| *c == cur).map(|(_, d)| *d).or(self.opts.fallback);
                match d {
                    Some(d) => sum.within(d),
                    None => sum.is_zero(),
                }
            }
        }
    }

    #[allow(clippy::type_complexity)]
    fn book(&self, date: N, posts: &[Post]) -> Result<(Vec<BPost>, Vec<(N, Vec<Pos>)>), ()> {
        // the currency in which each posting weighs
        let mut bucket: Vec<Option<N>> = posts
            .iter()
            .map(|p| {
                let c = p.cost.as_ref().and_then(|c| c.cur).or(p.price.as_ref().and_then(|c| c.cur));
                if p.cost.is_none() && p.price.is_none() {
                    c.or(p.cur)
                } else {
                    c
                }
            })
            .collect();
        let mut curs: Vec<N> = vec![];
        for (k, p) in posts.iter().enumerate() {
            if p.units.is_none() && p.cur.is_none() {
                continue;
            }
            if let Some(b) = bucket[k] {
                if !curs.contains(&b) {
                    curs.push(b);
                }
            }
        }
        // units without any currency: the only one around, or the one the account holds
        let unknown: Vec<usize> = (0..posts.len())
            .filter(|&k| bucket[k].is_none() && (posts[k].units.is_some() || posts[k].cur.is_some()))
            .collect();
        for &k in &unknown {
            if unknown.len() == 1 && curs.len() == 1 {
                bucket[k] = Some(curs[0]);
            } else {
                let a = self.acct(posts[k].acc).ok_or(())?;
                let mut held: Vec<N> = vec![];
                for p in &self.accts[a].pos {
                    let c = match (&posts[k].cost, &p.lot) {
                        (Some(_), Some(l)) => l.cur,
                        _ => p.cur,
                    };
                    if !held.contains(&c) {
                        held.push(c);
                    }
                }
                if held.len() != 1 {
                    return Err(());
                }
                bucket[k] = Some(held[0]);
                if !curs.contains(&held[0]) {
                    curs.push(held[0]);
                }
            }
        }
        // at most one amount may be missing altogether, per currency
        let autos: Vec<usize> = (0..posts.len()).filter(|&k| posts[k].units.is_none() && posts[k].cur.is_none()).collect();
        if autos.len() > 1 {
            return Err(());
        }
        for &k in &autos {
            if bucket[k].is_none() {
                if curs.len() != 1 {
                    return Err(());
                }
                bucket[k] = Some(curs[0]);
            }
        }

        let mut pos: Vec<(N, Vec<Pos>)> = vec![];
        for p in posts {
            if !pos.iter().any(|x| x.0 == p.acc) {
                let h = self.acct(p.acc).map(|a| self.accts[a].pos.clone()).unwrap_or_default();
                pos.push((p.acc, h));
            }
        }
        let method = |acc: N| {
            self.acct(acc).map(|a| self.accts[a].method).unwrap_or(self.opts.booking.unwrap_or("strict"))
        };

        // reductions of what is held at cost come first
        let mut done: Vec<Option<Vec<BPost>>> = vec![None; posts.len()];
        for (k, p) in posts.iter().enumerate() {
            if let (Some(c), Some(u), Some(cur)) = (&p.cost, &p.units, p.cur) {
                let m = method(p.acc);
                if m == "none" {
                    continue;
                }
                let h = &mut pos.iter_mut().find(|x| x.0 == p.acc).unwrap().1;
                done[k] = reduce(h, k, p, u.n, cur, c, m)?;
            }
        }

        let mut out: Vec<Vec<BPost>> = vec![vec![]; posts.len()];
        for c in 0..posts.len() {
            // each bucket once
            let cur = match bucket[c] {
                Some(b) => b,
                None => return Err(()),
            };
            if bucket[..c].contains(&Some(cur)) {
                continue;
            }
            let members: Vec<usize> = (0..posts.len()).filter(|&k| bucket[k] == Some(cur)).collect();
            let mut sum = Num::ZERO;
            let mut scale: Option<u32> = None;
            let mut missing: Option<usize> = None;
            for &k in &members {
                let w = match &done[k] {
                    Some(bs) => {
                        let mut t = Num::ZERO;
                        for b in bs {
                            t = t.add(weight(b.units, b.lot.as_ref().unwrap().per));
                        }
                        Some(t)
                    }
                    None => self.weight(&posts[k]),
                };
                match w {
                    None => {
                        if missing.is_some() {
                            return Err(());
                        }
                        missing = Some(k);
                    }
                    Some(w) => {
                        sum = sum.add(w);
                        if w.s > 0 {
                            scale = Some(scale.map_or(w.s, |s| s.min(w.s)));
                        }
                    }
                }
            }
            let tolerated = self.tolerated(sum, scale, cur);
            if missing.is_none() && !tolerated {
                return Err(());
            }
            for &k in &members {
                if let Some(b) = done[k].take() {
                    out[k] = b;
                    continue;
                }
                let p = &posts[k];
                let mut b = BPost {
                    idx: Some(k),
                    acc: p.acc,
                    units: p.units.as_ref().map_or(Num::ZERO, |u| u.n),
                    cur: p.cur.unwrap_or(cur),
                    lot: None,
                    price: None,
                    inferred: false,
                    or_zero: false,
                };
                if missing == Some(k) {
                    if p.cost.is_some() || p.price.is_some() {
                        return Err(()); // not modelled
                    }
                    b.units = sum.neg();
                    b.inferred = true;
                    b.or_zero = tolerated;
                } else if let Some(c) = &p.cost {
                    let per = c.per.as_ref().map(|x| x.n);
                    b.lot = Some(Lot {
                        date: c.date.unwrap_or(date),
                        per: per.unwrap_or(Num::ZERO),
                        per_given: per.is_some(),
                        total: c.total.as_ref().map(|x| x.n),
                        cur,
                        label: c.label.clone(),
                        merge: c.merge,
                        acquired: b.units,
                    });
                } else if let Some(c) = &p.price {
                    b.price = Some(BPrice {
                        per: c.per.as_ref().map(|x| x.n),
                        total: c.total.as_ref().map(|x| x.n),
                        cur,
                    });
                }
                let h = &mut pos.iter_mut().find(|x| x.0 == p.acc).unwrap().1;
                hold(h, b.cur, b.units, b.lot.clone(), method(p.acc) != "none");
                out[k] = vec![b];
            }
        }
        Ok((out.into_iter().flatten().collect(), pos))
    }

    fn weight(&self, p: &Post) -> Option<Num> {
        let (per, total) = if let Some(c) = &p.cost {
            (&c.per, &c.total)
        } else if let Some(c) = &p.price {
            (&c.per, &c.total)
        } else {
            return p.units.as_ref().map(|u| u.n);
        };
        if let Some(t) = total {
            let neg = p.units.as_ref().is_some_and(|u| u.n.m < 0);
            return Some(if neg { t.n.neg() } else { t.n });
        }
        match (per, &p.units) {
            (Some(per), Some(u)) => Some(weight(u.n, per.n)),
            _ => None,
        }
    }
}

/// units times per-unit amount, to the decimals of the units (of the per-unit amount if the units are whole)
pub fn weight(units: Num, per: Num) -> Num {
    let w = units.mul(per);
    let s = if units.s == 0 { per.s } else { units.s };
    round(w, s)
}

/// half away from zero
pub fn round(x: Num, s: u32) -> Num {
    if s >= x.s {
        return Num { m: x.at(s), s };
    }
    let d = crate::num::p10(x.s - s);
    let neg = x.m < 0;
    let a = if neg { 0 - x.m } else { x.m } as u64;
    let q = ((a + (d / 2) as u64) / d as u64) as i64;
    Num { m: if neg { 0 - q } else { q }, s }
}

fn matches(l: &Lot, c: &CostSpec) -> bool {
    if c.date.is_some_and(|d| d != l.date) {
        return false;
    }
    if c.cur.is_some_and(|d| d != l.cur) {
        return false;
    }
    if c.label.is_some() && c.label != l.label {
        return false;
    }
    match &c.per {
        Some(p) => p.n.eq(l.per),
        None => true,
    }
}

/// Take units out of lots.  None: nothing to reduce, the posting adds a lot.
fn reduce(h: &mut Vec<Pos>, k: usize, p: &Post, u: Num, cur: N, c: &CostSpec, method: N) -> Result<Option<Vec<BPost>>, ()> {
    let neg = u.m < 0;
    let opposite = |x: &Pos| if neg { x.units.m > 0 } else { x.units.m < 0 };
    if u.is_zero() {
        return Ok(None);
    }
    if !h.iter().any(|x| x.cur == cur && opposite(x)) {
        if neg && !h.iter().any(|x| x.cur == cur) {
            return Err(());
        }
        return Ok(None);
    }
    let mut m: Vec<usize> = (0..h.len()).filter(|&i| h[i].cur == cur && h[i].lot.as_ref().is_some_and(|l| matches(l, c))).collect();
    if m.is_empty() {
        return Err(());
    }
    let want = u.abs();
    let mut total = Num::ZERO;
    for &i in &m {
        total = total.add(h[i].units.abs());
    }
    if total.lt(want) {
        return Err(());
    }
    let all = total.eq(want);
    // oldest first
    m.sort_by(|&a, &b| h[a].lot.as_ref().unwrap().date.cmp(h[b].lot.as_ref().unwrap().date));
    if m.len() > 1 && !all {
        match method {
            "fifo" => {}
            "lifo" => m.reverse(),
            "hifo" => {
                // highest cost first; insertion sort, stable
                for i in 1..m.len() {
                    let mut j = i;
                    while j > 0 && h[m[j - 1]].lot.as_ref().unwrap().per.lt(h[m[j]].lot.as_ref().unwrap().per) {
                        m.swap(j - 1, j);
                        j -= 1;
                    }
                }
            }
            "strict-with-size" => {
                m.retain(|&i| h[i].units.abs().eq(want));
                if m.is_empty() {
                    return Err(());
                }
                m.truncate(1);
            }
            _ => return Err(()),
        }
    }
    let mut left = want;
    let mut out = vec![];
    for &i in &m {
        if left.is_zero() {
            break;
        }
        let have = h[i].units.abs();
        let take = if left.lt(have) { left } else { have };
        left = left.sub(take);
        let t = if neg { take.neg() } else { take };
        h[i].units = h[i].units.add(t);
        out.push(BPost {
            idx: Some(k),
            acc: p.acc,
            units: t,
            cur,
            lot: h[i].lot.clone(),
            price: None,
            inferred: false,
            or_zero: false,
        });
    }
    h.retain(|x| x.lot.is_none() || !x.units.is_zero());
    Ok(Some(out))
}
