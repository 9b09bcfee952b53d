//! Operating-system stand-ins for the program under test, and the harness API.
use crate::exec::*;
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::Res;
use std::rc::Rc;

fn zero(_: &mut Exec, _: &mut State, _: &[V]) -> R<V> {
    Ok(V::c(0))
}
const ERRNO_ADDR: u64 = GLOBAL_BASE; // reserved slot

fn errno_slot(st: &State) -> u64 {
    let _ = st;
    ERRNO_ADDR
}
fn set_errno(st: &mut State, v: u64) {
    let a = errno_slot(st);
    let _ = st.mem.write_c(a, 4, v as u128);
}
/// of functions which give an int
fn fail32(st: &mut State, e: u64) -> R<V> {
    set_errno(st, e);
    Ok(V::c(0xffff_ffff))
}
fn fail(st: &mut State, e: u64) -> R<V> {
    set_errno(st, e);
    Ok(V::c(u64::MAX))
}

fn alloc(st: &mut State, n: u64, al: u64) -> u64 {
    let al = al.max(16);
    let a = (st.heap + 16 + al - 1) / al * al;
    st.heap = a + n.max(1);
    let _ = st.mem.write_c(a - 8, 8, n as u128);
    a
}
fn b_malloc(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = x.concretise(st, a[0], "malloc")?;
    if n > 1 << 30 {
        return Ok(V::c(0));
    }
    Ok(V::c(alloc(st, n, 16)))
}
fn b_calloc(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = x.concretise(st, a[0], "calloc")?;
    let m = x.concretise(st, a[1], "calloc")?;
    Ok(V::c(alloc(st, n * m, 16)))
}
fn b_realloc(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = x.concretise(st, a[1], "realloc")?;
    let p = a[0].lo;
    if p == 0 {
        return Ok(V::c(alloc(st, n, 16)));
    }
    let old = st.mem.read_c(p - 8, 8).ok().flatten().unwrap_or(0) as u64;
    // grow in place when last
    if p + old.max(1) == st.heap && n >= old {
        st.heap = p + n;
        let _ = st.mem.write_c(p - 8, 8, n as u128);
        return Ok(V::c(p));
    }
    let q = alloc(st, n, 16);
    st.mem.copy(q, p, old.min(n)).map_err(|f| Stop::Error(format!("realloc fault {:x}", f.0)))?;
    Ok(V::c(q))
}
fn b_memalign(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let al = x.concretise(st, a[1], "align")?;
    let n = x.concretise(st, a[2], "size")?;
    let q = alloc(st, n, al);
    x.store_at(st, a[0].lo, 64, V::c(q))?;
    Ok(V::c(0))
}
fn b_mmap(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = x.concretise(st, a[1], "mmap")?;
    if (a[4].lo as i32) >= 0 {
        return fail(st, 19);
    }
    Ok(V::c(alloc(st, n + 4096, 4096)))
}

fn chunk_cmp(x: &mut Exec, st: &mut State, p: u64, q: u64, n: u64) -> R<(Vec<B>, Vec<B>)> {
    let e = |f: Fault| Stop::Error(format!("memcmp fault {:x}", f.0));
    let a = st.mem.read_bytes(p, n).map_err(e)?;
    let b = st.mem.read_bytes(q, n).map_err(e)?;
    let _ = x;
    Ok((a, b))
}
fn b_bcmp(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let p = x.concretise(st, a[0], "bcmp")?;
    let q = x.concretise(st, a[1], "bcmp")?;
    let n = x.concretise(st, a[2], "bcmp")?;
    let (u, v) = chunk_cmp(x, st, p, q, n)?;
    // any concrete difference decides
    for i in 0..u.len() {
        if (u[i] | v[i]) & SYM == 0 && u[i] != v[i] {
            return Ok(V::c(1));
        }
    }
    let mut acc = x.x.konst(1, 1);
    let mut i = 0;
    while i < u.len() {
        if u[i] == v[i] {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < u.len() && u[j] != v[j] && j - i < 8 {
            j += 1;
        }
        let (l, r) = (x.join_bytes(&u[i..j]), x.join_bytes(&v[i..j]));
        let e = x.x.bin(Op::Eq, l, r);
        acc = x.x.bin(Op::And, acc, e);
        i = j;
    }
    let ne = x.x.not(acc);
    let e = x.x.zext(ne, 32);
    Ok(x.from_e(e))
}
fn b_memcmp(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let p = x.concretise(st, a[0], "memcmp")?;
    let q = x.concretise(st, a[1], "memcmp")?;
    let n = x.concretise(st, a[2], "memcmp")?;
    let (u, v) = chunk_cmp(x, st, p, q, n)?;
    let mut i = 0;
    while i < u.len() && u[i] == v[i] {
        i += 1;
    }
    if i == u.len() {
        return Ok(V::c(0));
    }
    if (u[i] | v[i]) & SYM == 0 {
        return Ok(V::c(if u[i] < v[i] { 0xffff_ffff } else { 1 }));
    }
    let (mut acc, start) = {
        // find the first certain difference after i, nothing beyond it matters
        let mut k = i;
        while k < u.len() && ((u[k] | v[k]) & SYM != 0 || u[k] == v[k]) {
            k += 1;
        }
        if k < u.len() {
            (x.x.konst(if u[k] < v[k] { 0xffff_ffff } else { 1 }, 32), k)
        } else {
            (x.x.konst(0, 32), k)
        }
    };
    let neg = x.x.konst(0xffff_ffff, 32);
    let one = x.x.konst(1, 32);
    for k in (i..start).rev() {
        if u[k] == v[k] {
            continue;
        }
        let (l, r) = (x.byte_expr(u[k]), x.byte_expr(v[k]));
        let lt = x.x.bin(Op::Ult, l, r);
        let eq = x.x.bin(Op::Eq, l, r);
        let d = x.x.ite(lt, neg, one);
        acc = x.x.ite(eq, acc, d);
    }
    Ok(x.from_e(acc))
}
fn b_strlen(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let p = x.concretise(st, a[0], "strlen")?;
    let mut n = 0;
    loop {
        let b = st.mem.read_b(p + n).map_err(|f| Stop::Error(format!("strlen fault {:x}", f.0)))?;
        if b & SYM != 0 {
            let e = x.byte_expr(b);
            let z = x.x.konst(0, 8);
            let c = x.x.bin(Op::Eq, e, z);
            if x.decide(st, c)? {
                break;
            }
        } else if b == 0 {
            break;
        }
        n += 1;
    }
    Ok(V::c(n))
}
pub fn cstr(x: &mut Exec, st: &mut State, p: u64) -> R<String> {
    let n = b_strlen(x, st, &[V::c(p)])?.lo;
    bytes_str(x, st, p, n)
}
fn bytes_str(x: &mut Exec, st: &mut State, p: u64, n: u64) -> R<String> {
    let bs = st.mem.read_bytes(p, n).map_err(|f| Stop::Error(format!("string fault {:x}", f.0)))?;
    let mut v = vec![];
    for b in bs {
        if b & SYM != 0 {
            let e = x.byte_expr(b);
            v.push(x.concretise(st, V::s(e), "string")? as u8);
        } else {
            v.push(b as u8);
        }
    }
    Ok(String::from_utf8_lossy(&v).into_owned())
}

// ---- files ----
fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/v/{}", p) };
    let mut out: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
fn is_dir(st: &State, p: &str) -> bool {
    p == "/" || p == "/v" || st.env.files.keys().any(|k| k.starts_with(&format!("{}/", p)))
}
/// a path to or through what is not a directory
fn through_file(st: &State, p: &str) -> bool {
    let n = norm(p);
    (p.ends_with('/') && st.env.files.contains_key(&n)) || n.match_indices('/').any(|(i, _)| st.env.files.contains_key(&n[..i]))
}
fn write_stat(x: &mut Exec, st: &mut State, buf: u64, dir: bool, size: u64) -> R<()> {
    st.mem.set(buf, 0, 144).map_err(|f| Stop::Error(format!("stat fault {:x}", f.0)))?;
    x.store_at(st, buf + 16, 64, V::c(1))?; // nlink
    x.store_at(st, buf + 24, 32, V::c(if dir { 0o040755 } else { 0o100644 }))?;
    x.store_at(st, buf + 48, 64, V::c(size))?;
    Ok(())
}
fn b_stat(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let p = cstr(x, st, a[0].lo)?;
    let n = norm(&p);
    if through_file(st, &p) {
        return fail32(st, 20);
    }
    if let Some(d) = st.env.files.get(&n) {
        let l = d.len() as u64;
        write_stat(x, st, a[1].lo, false, l)?;
        return Ok(V::c(0));
    }
    if is_dir(st, &n) {
        write_stat(x, st, a[1].lo, true, 0)?;
        return Ok(V::c(0));
    }
    fail32(st, 2)
}
fn b_fstat(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let fd = a[0].lo as usize;
    match st.env.fds.get(fd) {
        Some(f) if f.kind == 4 => {
            let l = f.data.len() as u64;
            write_stat(x, st, a[1].lo, false, l)?;
            Ok(V::c(0))
        }
        Some(f) if f.kind > 0 => {
            st.mem.set(a[1].lo, 0, 144).ok();
            x.store_at(st, a[1].lo + 24, 32, V::c(0o010600))?; // a pipe
            Ok(V::c(0))
        }
        _ => fail32(st, 9),
    }
}
fn b_open(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let p = cstr(x, st, a[0].lo)?;
    let n = norm(&p);
    if through_file(st, &p) {
        return fail32(st, 20);
    }
    if n == "/dev/null" {
        st.env.fds.push(Fd { kind: 4, path: n.into(), ..Default::default() });
        return Ok(V::c(st.env.fds.len() as u64 - 1));
    }
    if a[1].lo & 3 != 0 {
        return Err(Stop::Error(format!("open for writing: {}", n)));
    }
    match st.env.files.get(&n) {
        Some(d) => {
            let d = d.clone();
            let fd = Fd { kind: 4, path: n.into(), data: d, pos: 0 };
            st.env.fds.push(fd);
            Ok(V::c(st.env.fds.len() as u64 - 1))
        }
        None => {
            if is_dir(st, &n) {
                // opening a directory read-only works; reading fails
                let fd = Fd { kind: 5, path: n.into(), data: Rc::new(vec![]), pos: 0 };
                st.env.fds.push(fd);
                return Ok(V::c(st.env.fds.len() as u64 - 1));
            }
            fail32(st, 2)
        }
    }
}
fn b_close(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    if let Some(f) = st.env.fds.get_mut(a[0].lo as usize) {
        f.kind = 0;
    }
    Ok(V::c(0))
}
/// How much of n bytes the next read (k = 0) or write (k = 1) moves, by a schedule the harness chooses:
/// a digit for that many, 0 for all, K for 4096, i for an interruption; oracle/seed.c does the same
fn schedule(st: &mut State, k: usize, n: u64) -> Option<u64> {
    let v = st.env.vars.iter().find(|v| v.0 == ["SX_READS", "SX_WRITES"][k]);
    let c = match v {
        Some(v) if st.run_depth.is_some() && !v.1.is_empty() => v.1[st.env.io[k] as usize % v.1.len()] as u8,
        _ => return Some(n),
    };
    st.env.io[k] += 1;
    match c {
        b'i' => None,
        b'0' => Some(n),
        b'K' => Some(n.min(4096)),
        _ => Some(n.min((c - b'0') as u64)),
    }
}
fn b_read(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = x.concretise(st, a[2], "read")?;
    let buf = x.concretise(st, a[1], "read")?;
    let fd = a[0].lo as usize;
    let (d, pos) = match st.env.fds.get(fd) {
        Some(f) if f.kind == 4 || f.kind == 6 => (f.data.clone(), f.pos),
        Some(f) if f.kind == 1 => (st.env.stdin.clone(), f.pos),
        Some(f) if f.kind == 5 => return fail(st, 21),
        _ => return fail(st, 9),
    };
    let n = match schedule(st, 0, n) {
        Some(n) => n,
        None => return fail(st, 4),
    };
    let k = n.min(d.len() as u64 - pos);
    for i in 0..k {
        st.mem
            .write_b(buf + i, d[(pos + i) as usize])
            .map_err(|f| Stop::Error(format!("read fault {:x}", f.0)))?;
    }
    st.env.fds[fd].pos = pos + k;
    Ok(V::c(k))
}
fn b_lseek(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let fd = a[0].lo as usize;
    match st.env.fds.get_mut(fd) {
        Some(f) if f.kind == 4 => {
            let base = match a[2].lo {
                0 => 0,
                1 => f.pos as i64,
                _ => f.data.len() as i64,
            };
            f.pos = (base + a[1].lo as i64) as u64;
            Ok(V::c(f.pos))
        }
        _ => fail(st, 29),
    }
}
fn do_write(x: &mut Exec, st: &mut State, fd: u64, p: u64, n: u64) -> R<()> {
    let _ = x;
    let bs = st.mem.read_bytes(p, n).map_err(|f| Stop::Error(format!("write fault {:x}", f.0)))?;
    let k = match fd {
        1 => 0,
        2 => 1,
        _ => return Err(Stop::Error(format!("write to fd {}", fd))),
    };
    if st.run_depth.is_none() {
        // harness diagnostics
        let s: String = bs.iter().map(|b| if b & SYM == 0 { *b as u8 as char } else { '?' }).collect();
        if std::env::var("SYMX_H").is_ok() {
            eprint!("{}", s);
        }
        return Ok(());
    }
    st.env.out[k].extend(bs);
    Ok(())
}
fn b_write(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = x.concretise(st, a[2], "write size")?;
    let n = match schedule(st, 1, n) {
        Some(n) => n,
        None => return fail(st, 4),
    };
    do_write(x, st, a[0].lo, a[1].lo, n)?;
    Ok(V::c(n))
}
fn b_writev(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let cnt = a[2].lo & 0xffff_ffff;
    let mut parts = vec![];
    for i in 0..cnt {
        let p = x.load_at(st, a[1].lo + 16 * i, 64)?;
        let n = x.load_at(st, a[1].lo + 16 * i + 8, 64)?;
        let p = x.concretise(st, p, "writev")?;
        let n = x.concretise(st, n, "writev")?;
        parts.push((p, n));
    }
    let all = parts.iter().map(|p| p.1).sum();
    let all = match schedule(st, 1, all) {
        Some(n) => n,
        None => return fail(st, 4),
    };
    let mut t = 0;
    for (p, n) in parts {
        let n = n.min(all - t);
        do_write(x, st, a[0].lo, p, n)?;
        t += n;
    }
    Ok(V::c(t))
}
fn put_str(st: &mut State, s: &[u8]) -> u64 {
    put_bytes(st, &s.iter().map(|b| *b as B).collect::<Vec<_>>())
}
fn put_bytes(st: &mut State, s: &[B]) -> u64 {
    let a = alloc(st, s.len() as u64 + 1, 16);
    for (i, b) in s.iter().enumerate() {
        let _ = st.mem.write_b(a + i as u64, *b);
    }
    let _ = st.mem.write_c(a + s.len() as u64, 1, 0);
    a
}
fn b_realpath(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let p = cstr(x, st, a[0].lo)?;
    let n = norm(&p);
    if st.env.files.contains_key(&n) || is_dir(st, &n) {
        if a[1].lo != 0 {
            st.mem.write_bytes(a[1].lo, n.as_bytes()).ok();
            st.mem.write_c(a[1].lo + n.len() as u64, 1, 0).ok();
            return Ok(a[1]);
        }
        let r = put_str(st, n.as_bytes());
        return Ok(V::c(r));
    }
    set_errno(st, 2);
    Ok(V::c(0))
}
fn b_getcwd(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    st.mem.write_bytes(a[0].lo, b"/v\0").ok();
    Ok(a[0])
}
fn b_getenv(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = cstr(x, st, a[0].lo)?;
    if st.run_depth.is_none() {
        return Ok(V::c(0));
    }
    let v = st.env.vars.iter().find(|(k, _)| *k == n).map(|(_, v)| v.clone());
    match v {
        Some(v) => Ok(V::c(put_bytes(st, &v))),
        None => Ok(V::c(0)),
    }
}
fn b_errno(_: &mut Exec, st: &mut State, _: &[V]) -> R<V> {
    Ok(V::c(errno_slot(st)))
}
fn b_strerror(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let m: &[u8] = match a[0].lo as u32 {
        2 => b"No such file or directory\0",
        13 => b"Permission denied\0",
        21 => b"Is a directory\0",
        9 => b"Bad file descriptor\0",
        38 => b"Function not implemented\0",
        _ => b"Error\0",
    };
    st.mem.write_bytes(a[1].lo, m).ok();
    Ok(V::c(0))
}
fn b_sysconf(_: &mut Exec, _: &mut State, a: &[V]) -> R<V> {
    Ok(V::c(match a[0].lo as u32 {
        30 => 4096,
        70 => 1024,
        84 | 83 => 1,
        _ => 4096,
    }))
}
fn b_getstack(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    // a large stack, so that stack-growing helpers never switch
    x.store_at(st, a[1].lo, 64, V::c(STACK_TOP - (1 << 30)))?;
    x.store_at(st, a[2].lo, 64, V::c(1 << 30))?;
    Ok(V::c(0))
}
fn b_sp(_: &mut Exec, st: &mut State, _: &[V]) -> R<V> {
    Ok(V::c(st.sp))
}
fn b_exit(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    if st.run_depth.is_none() {
        return Err(Stop::Fail("oracle exited".into()));
    }
    let c = x.concretise(st, a[0], "exit code")?;
    x.leave_program(st, c & 0xff)?;
    st.redo = true;
    Ok(V::c(0))
}
fn b_abort(x: &mut Exec, st: &mut State, _: &[V]) -> R<V> {
    if st.run_depth.is_none() {
        return Err(Stop::Fail("oracle aborted".into()));
    }
    st.notes.push("program: abort".into());
    x.leave_program(st, 134)?;
    st.redo = true;
    Ok(V::c(0))
}
/// the harness chooses among seeds of random bytes and addresses
fn seed(st: &State) -> u64 {
    let v = st.env.vars.iter().find(|v| v.0 == "SX_SEED");
    v.and_then(|v| v.1.iter().map(|b| *b as u8 as char).collect::<String>().parse().ok()).unwrap_or(0)
}
fn b_getrandom(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = x.concretise(st, a[1], "getrandom")?;
    // oracle/seed.c gives the compiled program the same
    let seed = seed(st);
    for i in 0..n {
        let b = (17 + 31 * i).wrapping_add(seed.wrapping_mul(i * i * 7 + 101 * i + 13));
        st.mem.write_b(a[0].lo + i, b as u32 & 0xff).ok();
    }
    Ok(V::c(n))
}
fn b_clock(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    x.store_at(st, a[1].lo, 64, V::c(1_700_000_000))?;
    x.store_at(st, a[1].lo + 8, 64, V::c(0))?;
    Ok(V::c(0))
}
fn b_key_create(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    x.store_at(st, a[0].lo, 32, V::c(1))?;
    Ok(V::c(0))
}
fn b_poll(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    // pipes are ready, nothing is the matter with the rest
    let mut n = 0;
    for i in 0..a[1].lo {
        let p = a[0].lo + 8 * i;
        let fd = x.load_at(st, p, 32)?.lo as usize;
        let ready = st.env.fds.get(fd).map_or(false, |f| f.kind == 6);
        if ready {
            x.store_at(st, p + 6, 16, V::c(1))?;
            n += 1;
        }
    }
    Ok(V::c(n))
}
fn b_ioctl(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    // pipes are made non-blocking
    match st.env.fds.get(a[0].lo as usize) {
        Some(f) if f.kind == 6 => Ok(V::c(0)),
        _ => fail32(st, 38),
    }
}
fn b_syscall(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    match a[0].lo {
        318 => b_getrandom(x, st, &a[1..]),
        202 => Ok(V::c(0)),
        _ => fail(st, 38),
    }
}
fn b_isatty(_: &mut Exec, st: &mut State, _: &[V]) -> R<V> {
    set_errno(st, 25);
    Ok(V::c(0))
}
fn b_readlink(_: &mut Exec, st: &mut State, _: &[V]) -> R<V> {
    fail(st, 22)
}
/// record how a program is called: its name and arguments
fn log_call(x: &mut Exec, st: &mut State, f: &str, argv: u64) -> R<()> {
    let mut rec: Vec<B> = f.bytes().map(|b| b as u32).collect();
    rec.push(0);
    let mut p = argv + 8; // past the name it goes by
    loop {
        let q = x.load_at(st, p, 64)?;
        let q = x.concretise(st, q, "arguments of a program")?;
        if q == 0 {
            break;
        }
        let mut o = q;
        loop {
            let b = st.mem.read_b(o).map_err(|f| Stop::Error(format!("argument fault {:x}", f.0)))?;
            rec.push(b);
            if b == 0 {
                break;
            }
            o += 1;
        }
        p += 8;
    }
    st.env.log.extend(rec);
    Ok(())
}
/// the harness can have no program be found
fn nowhere(st: &State) -> bool {
    st.env.vars.iter().any(|v| v.0 == "PATH" && v.1.iter().map(|b| *b as u8 as char).collect::<String>() == "/none")
}
const STANDINS: [&str; 4] = ["clojure", "clj", "java", "rlwrap"];
fn b_execvp(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let f = cstr(x, st, a[0].lo)?;
    if nowhere(st) || !STANDINS.contains(&&f[..]) {
        return fail32(st, 2);
    }
    log_call(x, st, &f, a[1].lo)?;
    if st.run_depth.is_some() {
        x.leave_program(st, 200)?;
        st.redo = true;
        return Ok(V::c(0));
    }
    Err(Stop::Error("execvp outside program".into()))
}
fn b_pipe(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let r = st.env.fds.len() as u64;
    st.env.fds.push(Fd { kind: 6, ..Default::default() });
    st.env.fds.push(Fd { kind: 7, pos: r, ..Default::default() });
    x.store_at(st, a[0].lo, 32, V::c(r))?;
    x.store_at(st, a[0].lo + 4, 32, V::c(r + 1))?;
    Ok(V::c(0))
}
fn b_glibc(_: &mut Exec, st: &mut State, _: &[V]) -> R<V> {
    Ok(V::c(put_bytes(st, &"2.39".bytes().map(|b| b as u32).collect::<Vec<_>>())))
}
fn b_dups_init(_: &mut Exec, st: &mut State, _: &[V]) -> R<V> {
    st.env.dups.clear();
    Ok(V::c(0))
}
fn b_dup(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    st.env.dups.push((a[1].lo & 0xffff_ffff, a[2].lo & 0xffff_ffff));
    Ok(V::c(0))
}
const CHILD: u64 = 4242;
/// the program runs to its end at once; what it writes waits in the pipes
fn b_spawn(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let f = cstr(x, st, a[1].lo)?;
    if nowhere(st) || !STANDINS.contains(&&f[..]) {
        return Ok(V::c(2));
    }
    log_call(x, st, &f, a[4].lo)?;
    let (out, err, status) = match st.env.programs.iter().find(|p| p.0 == f) {
        Some(p) => (p.1.clone(), p.2.clone(), p.3),
        None => (vec![], vec![], V::c(200)),
    };
    for (its, text) in [(1, out), (2, err)] {
        let ours = st.env.dups.iter().rev().find(|d| d.1 == its).map_or(its, |d| d.0) as usize;
        match st.env.fds.get(ours).map(|f| (f.kind, f.pos)) {
            Some((7, r)) => st.env.fds[r as usize].data = Rc::new(text),
            Some((2, _)) => st.env.out[0].extend(text),
            Some((3, _)) => st.env.out[1].extend(text),
            Some((4, _)) => {}
            k => return Err(Stop::Error(format!("output of a program to {:?}", k))),
        }
    }
    st.env.child = Some(status);
    x.store_at(st, a[0].lo, 32, V::c(CHILD))?;
    Ok(V::c(0))
}
fn b_waitpid(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    match st.env.child.take() {
        Some(s) if a[0].lo & 0xffff_ffff == CHILD => {
            let v = if s.e == 0 {
                V::c(s.lo << 8)
            } else {
                let t = x.x.trunc(s.e, 32);
                let k = x.x.konst(8, 32);
                let e = x.x.bin(Op::Shl, t, k);
                x.from_e(e)
            };
            x.store_at(st, a[1].lo, 32, v)?;
            Ok(V::c(CHILD))
        }
        _ => fail32(st, 10),
    }
}

// ---- harness API ----
fn sx_var(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let name = bytes_str(x, st, a[0].lo, a[1].lo)?;
    let (lo, hi) = (a[2].lo, a[3].lo);
    if lo >= hi {
        let c = x.x.konst(lo as u128, 64);
        st.inputs.push(Input::Var(c));
        return Ok(V::c(lo));
    }
    let ord = st.inputs.len() as u32;
    let next = x.var_ids.len() as u32;
    let id = *x.var_ids.entry((ord, name.clone(), lo as u128, hi as u128)).or_insert(next);
    let w = 64 - hi.leading_zeros() as u16;
    let e = x.x.var(id, &name, w, lo as u128, hi as u128);
    let z = x.x.zext(e, 64);
    st.inputs.push(Input::Var(z));
    Ok(x.from_e(z))
}
fn sx_choice(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = x.concretise(st, a[0], "choice")?;
    if n == 0 {
        return Err(Stop::Infeasible);
    }
    // siblings continue after the call with their own value
    let fr = st.frames.last().unwrap();
    let dst = match &fr.func.code[fr.pc as usize] {
        Inst::Call { dst, .. } => *dst,
        _ => unreachable!(),
    };
    let base = fr.base;
    for k in (1..n).rev() {
        let mut s = st.clone();
        s.inputs.push(Input::Choice(k));
        s.regs[(base + dst) as usize] = V::c(k);
        s.frames.last_mut().unwrap().pc += 1;
        x.work.push(s);
        if let Some(h) = x.fork_hook {
            h(x);
        }
    }
    st.inputs.push(Input::Choice(0));
    Ok(V::c(0))
}
fn cond_of(x: &mut Exec, v: V) -> Result<bool, E> {
    if v.e == 0 {
        Ok(v.lo != 0)
    } else {
        let w = x.x.w(v.e);
        let z = x.x.konst(0, w);
        let e = x.x.bin(Op::Eq, v.e, z);
        let n = x.x.not(e);
        match x.x.cval(n) {
            Some(c) => Ok(c != 0),
            None => Err(n),
        }
    }
}
fn sx_assume(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    match cond_of(x, a[0]) {
        Ok(true) => Ok(V::c(0)),
        Ok(false) => Err(Stop::End("assume".into())),
        Err(c) => {
            if x.eval(st, c) != 0 {
                st.cons.push(c);
                return Ok(V::c(0));
            }
            match x.sol.check(&x.x, &st.cons, c) {
                Res::Unsat => Err(Stop::End("assume".into())),
                Res::Sat(v) => {
                    let mut m = std::mem::take(&mut st.model);
                    x.set_model(&mut m, &v);
                    st.model = m;
                    st.cons.push(c);
                    Ok(V::c(0))
                }
                Res::Unknown => {
                    x.cnt.inconclusive += 1;
                    x.note("solver gave up on an assumption".into());
                    Err(Stop::End("assume".into()))
                }
            }
        }
    }
}
fn sx_assert(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    x.cnt.asserts += 1;
    match cond_of(x, a[0]) {
        Ok(true) => Ok(V::c(0)),
        Ok(false) => {
            let m = bytes_str(x, st, a[1].lo, a[2].lo)?;
            Err(Stop::Fail(m))
        }
        Err(c) => {
            x.cnt.asserts_sym += 1;
            let nc = x.x.not(c);
            let m = bytes_str(x, st, a[1].lo, a[2].lo)?;
            if x.eval(st, c) == 0 {
                x.report_violation(st, &m, None);
                // continue on the side where it holds, if any
                match x.sol.check(&x.x, &st.cons, c) {
                    Res::Sat(v) => {
                        let mut md = std::mem::take(&mut st.model);
                        x.set_model(&mut md, &v);
                        st.model = md;
                        st.cons.push(c);
                        return Ok(V::c(0));
                    }
                    _ => return Err(Stop::End("violated".into())),
                }
            }
            match x.sol.check(&x.x, &st.cons, nc) {
                Res::Unsat => Ok(V::c(0)),
                Res::Sat(v) => {
                    let mut md = st.model.clone();
                    x.set_model(&mut md, &v);
                    x.report_violation(st, &m, Some(md));
                    st.cons.push(c);
                    Ok(V::c(0))
                }
                Res::Unknown => {
                    x.cnt.inconclusive += 1;
                    let t = format!("solver gave up on assertion: {} {}", m, x.x.show(nc, 10));
                    x.note(t);
                    st.cons.push(c);
                    Ok(V::c(0))
                }
            }
        }
    }
}
fn sx_reach(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let k = a[0].lo as u32;
    if !st.reach.contains(&k) {
        st.reach.push(k);
    }
    Ok(V::c(0))
}
fn sx_is_sym(_: &mut Exec, _: &mut State, a: &[V]) -> R<V> {
    Ok(V::c((a[0].e != 0) as u64))
}
fn sx_concrete(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    Ok(V::c(x.concretise(st, a[0], "sx_concrete")?))
}
fn grab(x: &mut Exec, st: &mut State, p: V, n: V) -> R<Vec<B>> {
    let n = x.concretise(st, n, "harness data size")?;
    st.mem.read_bytes(p.lo, n).map_err(|f| Stop::Error(format!("harness fault {:x}", f.0)))
}
fn sx_file(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = bytes_str(x, st, a[0].lo, a[1].lo)?;
    let d = grab(x, st, a[2], a[3])?;
    st.env.files.insert(norm(&n), Rc::new(d));
    Ok(V::c(0))
}
fn sx_stdin(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let d = grab(x, st, a[0], a[1])?;
    st.env.stdin = Rc::new(d);
    Ok(V::c(0))
}
fn sx_args(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    // NUL-separated
    let d = grab(x, st, a[0], a[1])?;
    st.env.args = d.split(|b| *b == 0).map(|t| t.to_vec()).collect();
    Ok(V::c(0))
}
fn sx_env(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    // names are concrete, values need not be
    let d = grab(x, st, a[0], a[1])?;
    st.env.vars = d
        .split(|b| *b == 0)
        .filter_map(|t| {
            let i = t.iter().position(|b| *b == b'=' as u32)?;
            Some((t[..i].iter().map(|b| *b as u8 as char).collect(), t[i + 1..].to_vec()))
        })
        .collect();
    Ok(V::c(0))
}
fn sx_run(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let k = a[0].lo as usize;
    if k >= x.prog.modules.len() {
        return Err(Stop::Error("no such program".into()));
    }
    // fresh globals for the program
    for (m, addr, data) in x.images.iter() {
        if *m == k {
            st.mem.write_bytes(*addr, data).map_err(|f| Stop::Error(format!("image fault {:x}", f.0)))?;
        }
    }
    st.env.out = [vec![], vec![]];
    st.env.io = [0, 0];
    st.env.log.clear();
    st.env.child = None;
    st.env.fds = vec![
        Fd { kind: 1, ..Default::default() },
        Fd { kind: 2, ..Default::default() },
        Fd { kind: 3, ..Default::default() },
    ];
    st.prog = k;
    st.runs += 1;
    let args = st.env.args.clone();
    let argv = alloc(st, 8 * (args.len() as u64 + 1), 16);
    for (i, s) in args.iter().enumerate() {
        let p = put_bytes(st, s);
        x.store_at(st, argv + 8 * i as u64, 64, V::c(p))?;
    }
    x.store_at(st, argv + 8 * args.len() as u64, 64, V::c(0))?;
    let main = *x.prog.modules[k].funcs.get("main").ok_or_else(|| Stop::Error("no main".into()))?;
    // the harness continues after this call
    let fr = st.frames.last_mut().unwrap();
    let dst = match &fr.func.code[fr.pc as usize] {
        Inst::Call { dst, .. } => *dst,
        _ => unreachable!(),
    };
    fr.pc += 1;
    let depth = st.frames.len();
    st.run_depth = Some((depth, dst));
    st.sp -= 1040 * seed(st);
    x.call(st, main, &[V::c(args.len() as u64), V::c(argv)], 0)?;
    Ok(V::c(0))
}
fn sx_out_len(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    Ok(V::c(st.env.out[a[0].lo as usize - 1].len() as u64))
}
fn sx_out_read(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let d = st.env.out[a[0].lo as usize - 1].clone();
    for (i, b) in d.iter().enumerate() {
        st.mem.write_b(a[1].lo + i as u64, *b).map_err(|f| Stop::Error(format!("harness fault {:x}", f.0)))?;
    }
    Ok(V::c(0))
}
fn sx_log_len(_: &mut Exec, st: &mut State, _: &[V]) -> R<V> {
    Ok(V::c(st.env.log.len() as u64))
}
fn sx_log_read(_: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let d = st.env.log.clone();
    for (i, b) in d.iter().enumerate() {
        st.mem.write_b(a[0].lo + i as u64, *b).ok();
    }
    Ok(V::c(0))
}
/// what a program which may be started does
fn sx_program(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = bytes_str(x, st, a[0].lo, a[1].lo)?;
    let out = grab(x, st, a[2], a[3])?;
    let err = grab(x, st, a[4], a[5])?;
    st.env.programs.retain(|p| p.0 != n);
    st.env.programs.push((n, out, err, a[6]));
    Ok(V::c(0))
}
fn sx_debug(x: &mut Exec, st: &mut State, a: &[V]) -> R<V> {
    let n = a[1].lo;
    let bs = st.mem.read_bytes(a[0].lo, n).unwrap_or_default();
    let mut s = String::new();
    for b in bs {
        if b & SYM == 0 {
            s.push(b as u8 as char);
        } else {
            let e = x.byte_expr(b);
            s.push_str(&format!("<{}>", x.x.show(e, 5)));
        }
    }
    eprintln!("[debug] {}", s);
    Ok(V::c(0))
}
fn sx_debug_val(x: &mut Exec, _st: &mut State, a: &[V]) -> R<V> {
    if a[0].e == 0 {
        eprintln!("[val] {}", a[0].lo as i64);
    } else {
        eprintln!("[val] {} in [{}, {}]", x.x.show(a[0].e, 12), x.x.lo(a[0].e), x.x.hi(a[0].e));
    }
    Ok(V::c(0))
}

pub fn register(x: &mut Exec) {
    let t: &[(&'static str, Builtin)] = &[
        ("malloc", b_malloc),
        ("calloc", b_calloc),
        ("realloc", b_realloc),
        ("posix_memalign", b_memalign),
        ("free", zero),
        ("mmap", b_mmap),
        ("mmap64", b_mmap),
        ("munmap", zero),
        ("mprotect", zero),
        ("bcmp", b_bcmp),
        ("memcmp", b_memcmp),
        ("strlen", b_strlen),
        ("stat64", b_stat),
        ("lstat64", b_stat),
        ("fstat64", b_fstat),
        ("open64", b_open),
        ("close", b_close),
        ("read", b_read),
        ("lseek64", b_lseek),
        ("write", b_write),
        ("writev", b_writev),
        ("realpath", b_realpath),
        ("readlink", b_readlink),
        ("getcwd", b_getcwd),
        ("getenv", b_getenv),
        ("__errno_location", b_errno),
        ("__xpg_strerror_r", b_strerror),
        ("sysconf", b_sysconf),
        ("pthread_self", zero),
        ("pthread_attr_init", zero),
        ("pthread_attr_destroy", zero),
        ("pthread_getattr_np", zero),
        ("pthread_attr_getstack", b_getstack),
        ("pthread_attr_getguardsize", zero),
        ("pthread_key_create", b_key_create),
        ("pthread_key_delete", zero),
        ("pthread_setspecific", zero),
        ("pthread_getspecific", zero),
        ("__cxa_thread_atexit_impl", zero),
        ("rust_psm_stack_pointer", b_sp),
        ("rust_psm_stack_direction", |_, _, _| Ok(V::c(2))),
        ("syscall", b_syscall),
        ("getrandom", b_getrandom),
        ("clock_gettime", b_clock),
        ("poll", b_poll),
        ("fcntl", zero),
        ("getauxval", zero),
        ("sigaltstack", zero),
        ("sigaction", zero),
        ("signal", zero),
        ("sigemptyset", zero),
        ("sigaddset", zero),
        ("pthread_sigmask", zero),
        ("sched_yield", zero),
        ("isatty", b_isatty),
        ("ioctl", b_ioctl),
        ("exit", b_exit),
        ("_exit", b_exit),
        ("abort", b_abort),
        ("execvp", b_execvp),
        ("pipe2", b_pipe),
        ("gnu_get_libc_version", b_glibc),
        ("posix_spawn_file_actions_init", b_dups_init),
        ("posix_spawn_file_actions_adddup2", b_dup),
        ("posix_spawn_file_actions_destroy", zero),
        ("posix_spawnattr_init", zero),
        ("posix_spawnattr_destroy", zero),
        ("posix_spawnattr_setflags", zero),
        ("posix_spawnattr_setsigdefault", zero),
        ("posix_spawnattr_setsigmask", zero),
        ("posix_spawnp", b_spawn),
        ("waitpid", b_waitpid),
        ("_Unwind_Backtrace", zero),
        ("sx_var", sx_var),
        ("sx_choice", sx_choice),
        ("sx_assume", sx_assume),
        ("sx_assert", sx_assert),
        ("sx_reach", sx_reach),
        ("sx_is_sym", sx_is_sym),
        ("sx_concrete", sx_concrete),
        ("sx_file", sx_file),
        ("sx_stdin", sx_stdin),
        ("sx_args", sx_args),
        ("sx_env", sx_env),
        ("sx_run", sx_run),
        ("sx_program", sx_program),
        ("sx_out_len", sx_out_len),
        ("sx_out_read", sx_out_read),
        ("sx_log_len", sx_log_len),
        ("sx_log_read", sx_log_read),
        ("sx_debug", sx_debug),
        ("sx_debug_val", sx_debug_val),
    ];
    for (n, b) in t {
        x.builtins.insert(n, *b);
    }
}
