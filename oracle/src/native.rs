//! The verifier's interface on the real machine: recorded values instead of
//! symbolic ones, and the compiled program run as a process of its own.
//! Everything happens inside a scratch directory, which stands in for `/v`.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

#[derive(Default)]
pub struct Rec {
    pub inputs: VecDeque<u64>,
    pub bins: Vec<String>,
    pub dir: PathBuf,
    pub show: bool,
    files: Vec<(String, Vec<u8>)>,
    stdin: Vec<u8>,
    args: Vec<Vec<u8>>,
    env: Vec<Vec<u8>>,
    out: [Vec<u8>; 2],
    log: Vec<u8>,
    /// programs which may be started: name, output, error output, status
    programs: Vec<(String, Vec<u8>, Vec<u8>, u64)>,
}

thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

unsafe fn bytes(p: *const u8, n: usize) -> Vec<u8> {
    if n == 0 {
        vec![]
    } else {
        std::slice::from_raw_parts(p, n).to_vec()
    }
}

pub fn end(code: i32) -> ! {
    let dir = REC.with(|r| r.borrow().dir.clone());
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}

fn next(what: &str) -> u64 {
    match REC.with(|r| r.borrow_mut().inputs.pop_front()) {
        Some(v) => v,
        None => {
            println!("DIVERGED no recorded value for {}", what);
            end(3)
        }
    }
}

#[no_mangle]
unsafe extern "C" fn sx_var(p: *const u8, n: usize, lo: u64, hi: u64) -> u64 {
    let name = String::from_utf8_lossy(&bytes(p, n)).into_owned();
    let v = next(&name);
    if v < lo || v > hi {
        println!("DIVERGED {} = {} is outside {}..={}", name, v, lo, hi);
        end(3)
    }
    v
}
#[no_mangle]
unsafe extern "C" fn sx_choice(n: u64) -> u64 {
    let v = next("choice");
    if v >= n {
        println!("DIVERGED choice {} of {}", v, n);
        end(3)
    }
    v
}
#[no_mangle]
unsafe extern "C" fn sx_assume(c: u64) {
    if c & 1 == 0 {
        println!("DIVERGED assumption");
        end(3)
    }
}
#[no_mangle]
unsafe extern "C" fn sx_assert(c: u64, p: *const u8, n: usize) {
    if c & 1 == 0 {
        println!("FAIL {}", String::from_utf8_lossy(&bytes(p, n)));
        end(1)
    }
}
#[no_mangle]
unsafe extern "C" fn sx_reach(_: u64) {}
#[no_mangle]
unsafe extern "C" fn sx_is_sym(_: u64) -> u64 {
    0
}
#[no_mangle]
unsafe extern "C" fn sx_concrete(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn sx_file(p: *const u8, n: usize, d: *const u8, m: usize) {
    let name = String::from_utf8_lossy(&bytes(p, n)).into_owned();
    let d = bytes(d, m);
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.files.retain(|f| f.0 != name);
        r.files.push((name, d));
    })
}
#[no_mangle]
unsafe extern "C" fn sx_stdin(p: *const u8, n: usize) {
    let d = bytes(p, n);
    REC.with(|r| r.borrow_mut().stdin = d)
}
#[no_mangle]
unsafe extern "C" fn sx_args(p: *const u8, n: usize) {
    let d = bytes(p, n);
    REC.with(|r| r.borrow_mut().args = d.split(|b| *b == 0).map(|s| s.to_vec()).collect())
}
#[no_mangle]
unsafe extern "C" fn sx_env(p: *const u8, n: usize) {
    let d = bytes(p, n);
    REC.with(|r| r.borrow_mut().env = d.split(|b| *b == 0).filter(|s| !s.is_empty()).map(|s| s.to_vec()).collect())
}
#[no_mangle]
unsafe extern "C" fn sx_program(p: *const u8, n: usize, o: *const u8, on: usize, e: *const u8, en: usize, status: u64) {
    let name = String::from_utf8_lossy(&bytes(p, n)).into_owned();
    let (o, e) = (bytes(o, on), bytes(e, en));
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.programs.retain(|f| f.0 != name);
        r.programs.push((name, o, e, status));
    })
}

fn subst(d: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < d.len() {
        if d[i..].starts_with(from) {
            v.extend(to);
            i += from.len();
        } else {
            v.push(d[i]);
            i += 1;
        }
    }
    v
}

fn os(b: Vec<u8>) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(b)
}

#[no_mangle]
unsafe extern "C" fn sx_run(module: u64) -> u64 {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let top = r.dir.clone();
        let v = top.join("v");
        let _ = std::fs::remove_dir_all(&v);
        std::fs::create_dir_all(&v).expect("scratch directory");
        let real = format!("{}/", v.to_str().unwrap());
        for (n, d) in &r.files {
            let f = if let Some(rest) = n.strip_prefix("/v/") { v.join(rest) } else { continue };
            if let Some(p) = f.parent() {
                let _ = std::fs::create_dir_all(p);
            }
            std::fs::write(f, d).expect("scratch file");
        }
        let sub = |b: &[u8]| subst(b, b"/v/", real.as_bytes());
        if r.show {
            for (n, d) in &r.files {
                println!("--- {}\n{}", n, String::from_utf8_lossy(d));
            }
            println!("--- stdin\n{}", String::from_utf8_lossy(&r.stdin));
        }
        let mut c = Command::new(&r.bins[module as usize]);
        c.env_clear().current_dir(&v);
        c.arg0(os(r.args[0].clone()));
        for a in &r.args[1..] {
            c.arg(os(sub(a)));
        }
        for e in &r.env {
            if let Some(p) = e.iter().position(|b| *b == b'=') {
                c.env(os(e[..p].to_vec()), os(sub(&e[p + 1..])));
                if e.starts_with(b"SX_") {
                    // beside this program
                    let so = std::env::current_exe().unwrap().with_file_name("seed.so");
                    c.env("LD_PRELOAD", so);
                }
            }
        }
        // programs started by this one are stand-ins which record how they were called
        let bin = top.join("bin");
        let _ = std::fs::create_dir_all(&bin);
        let logf = top.join("log");
        let _ = std::fs::remove_file(&logf);
        for n in ["clojure", "clj", "java", "rlwrap"] {
            let f = bin.join(n);
            // with the output and status it is to have
            let (o, e) = (bin.join(format!("{n}.out")), bin.join(format!("{n}.err")));
            let p = r.programs.iter().find(|p| p.0 == n);
            std::fs::write(&o, p.map_or(&[][..], |p| &p.1)).unwrap();
            std::fs::write(&e, p.map_or(&[][..], |p| &p.2)).unwrap();
            let s = format!(
                "#!/bin/sh\nfor a in {} \"$@\"; do printf '%s\\0' \"$a\"; done >> {}\n/bin/cat {}\n/bin/cat {} >&2\nexit {}\n",
                n,
                logf.to_str().unwrap(),
                o.to_str().unwrap(),
                e.to_str().unwrap(),
                p.map_or(200, |p| p.3 & 255)
            );
            std::fs::write(&f, s).unwrap();
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755));
        }
        if !r.env.iter().any(|e| e.starts_with(b"PATH=")) {
            c.env("PATH", &bin);
        }
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut ch = c.spawn().expect("the program starts");
        let mut si = ch.stdin.take().unwrap();
        let input = sub(&r.stdin);
        let w = std::thread::spawn(move || {
            let _ = si.write_all(&input);
        });
        let mut so = ch.stdout.take().unwrap();
        let mut se = ch.stderr.take().unwrap();
        let h1 = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = so.read_to_end(&mut b);
            b
        });
        let h2 = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = se.read_to_end(&mut b);
            b
        });
        let t = std::time::Instant::now();
        let code = loop {
            match ch.try_wait().unwrap() {
                Some(s) => break s.code().unwrap_or_else(|| 128 + s.signal().unwrap_or(0)) as u64,
                None if t.elapsed().as_secs() > 30 => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break 255;
                }
                None => std::thread::sleep(std::time::Duration::from_millis(1)),
            }
        };
        let _ = w.join();
        let o = subst(&h1.join().unwrap(), real.as_bytes(), b"/v/");
        let e = subst(&h2.join().unwrap(), real.as_bytes(), b"/v/");
        if r.show {
            println!("--- stdout\n{}--- stderr\n{}", String::from_utf8_lossy(&o), String::from_utf8_lossy(&e));
        }
        r.log = subst(&std::fs::read(&logf).unwrap_or_default(), real.as_bytes(), b"/v/");
        let mut h: u64 = 0xcbf29ce484222325;
        let mut s: u64 = 0;
        for &b in o.iter().chain(&r.log) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            s = s.wrapping_add(mix(b));
        }
        println!("RUN {} {} {} {}", code, o.len() + r.log.len(), h, s);
        r.out = [o, e];
        code
    })
}

/// a hash of the bytes whatever their order: sets are written in any order
pub fn mix(b: u8) -> u64 {
    let z = (b as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
    let z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z ^ (z >> 27)
}

#[no_mangle]
unsafe extern "C" fn sx_out_len(fd: u64) -> u64 {
    REC.with(|r| r.borrow().out[fd as usize - 1].len() as u64)
}
#[no_mangle]
unsafe extern "C" fn sx_out_read(fd: u64, p: *mut u8) {
    REC.with(|r| {
        let r = r.borrow();
        let o = &r.out[fd as usize - 1];
        std::ptr::copy_nonoverlapping(o.as_ptr(), p, o.len());
    })
}
#[no_mangle]
unsafe extern "C" fn sx_log_len() -> u64 {
    REC.with(|r| r.borrow().log.len() as u64)
}
#[no_mangle]
unsafe extern "C" fn sx_log_read(p: *mut u8) {
    REC.with(|r| {
        let r = r.borrow();
        std::ptr::copy_nonoverlapping(r.log.as_ptr(), p, r.log.len());
    })
}
#[no_mangle]
unsafe extern "C" fn sx_debug(p: *const u8, n: usize) {
    eprintln!("[debug] {}", String::from_utf8_lossy(&bytes(p, n)));
}
#[no_mangle]
unsafe extern "C" fn sx_debug_val(v: u64) {
    eprintln!("[val] {}", v as i64);
}
