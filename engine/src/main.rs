mod env;
mod exec;
mod expr;
mod lin;
mod ll;
mod mem;
mod selftest;
mod solver;
mod z3;

use exec::*;
use ll::*;
use mem::*;
use std::io::Write;
use std::sync::atomic::{AtomicU32, Ordering};

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
}

struct Shared {
    live: AtomicU32,
    jobs: u32,
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut OUT: Option<std::fs::File> = None;
static mut SCEN: String = String::new();
static mut START: Option<std::time::Instant> = None;

fn shared() -> &'static Shared {
    unsafe { &*SHARED }
}

/// Hand the oldest queued path to a new process when a slot is free.
fn fork_hook(x: &mut Exec) -> bool {
    let s = shared();
    loop {
        let l = s.live.load(Ordering::SeqCst);
        if l >= s.jobs {
            return false;
        }
        if s.live.compare_exchange(l, l + 1, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            break;
        }
    }
    let item = x.work.remove(0);
    let pid = unsafe { fork() };
    if pid < 0 {
        x.work.insert(0, item);
        s.live.fetch_sub(1, Ordering::SeqCst);
        return false;
    }
    if pid > 0 {
        return true;
    }
    // child
    x.work.clear();
    x.reset_stats();
    x.explore(item);
    finish(x);
}

fn finish(x: &mut Exec) -> ! {
    write_result(x);
    shared().live.fetch_sub(1, Ordering::SeqCst);
    unsafe { _exit(0) }
}

#[allow(static_mut_refs)]
fn write_result(x: &mut Exec) {
    let c = &x.cnt;
    let s = &x.sol.stats;
    let scen = unsafe { SCEN.clone() };
    let dt = unsafe { START.map(|t| t.elapsed().as_millis()).unwrap_or(0) };
    let funcs: Vec<String> = x
        .called
        .iter()
        .enumerate()
        .filter(|(_, c)| **c)
        .filter_map(|(i, _)| {
            let f = &x.prog.funcs[i];
            if f.text.is_some() && f.module < x.mod_names.len() {
                Some(format!("{}:{}", x.mod_names[f.module], f.name))
            } else {
                None
            }
        })
        .collect();
    let mut line = format!(
        "{{\"scenario\":{},\"ms\":{},\"paths\":{},\"cut\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"asserts_sym\":{},\"sym_branches\":{},\"inconclusive\":{},\"errors\":{},\"violations\":{},\"runs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_us\":{},\"max_query_us\":{},\"int_encoded\":{}",
        jstr(&scen), dt, c.paths, c.cut, c.steps, c.forks, c.asserts, c.asserts_sym, c.sym_branches, c.inconclusive, c.errors, c.violations, c.runs,
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.time_us, s.max_us, s.int_used
    );
    line.push_str(&format!(
        ",\"reach\":{{{}}}",
        x.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")
    ));
    line.push_str(&format!(",\"msgs\":[{}]", x.msgs.iter().map(|m| jstr(m)).collect::<Vec<_>>().join(",")));
    line.push_str(&format!(",\"viol\":[{}]", x.viol.join(",")));
    line.push_str(&format!(",\"witness\":[{}]", x.witness.join(",")));
    line.push_str(&format!(",\"funcs\":[{}]}}\n", funcs.iter().map(|f| jstr(f)).collect::<Vec<_>>().join(",")));
    unsafe {
        if let Some(f) = OUT.as_mut() {
            let _ = f.write_all(line.as_bytes());
        }
    }
    if x.do_profile {
        let mut v: Vec<_> = x.profile.iter().collect();
        v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
        for (f, n) in v.iter().take(40) {
            eprintln!("{:>12} {}", n, short(&x.prog.funcs[**f as usize].name));
        }
    }
}

impl Exec {
    pub fn reset_stats(&mut self) {
        self.cnt = Counters::default();
        self.sol.stats = Default::default();
        self.reach.clear();
        self.msgs.clear();
        self.witness.clear();
        self.viol.clear();
        self.called.iter_mut().for_each(|c| *c = false);
        self.profile.clear();
    }
    pub fn initial(&mut self, module: usize, entry: &str, args: &[V]) -> State {
        let mut st = State {
            regs: vec![],
            top: 0,
            frames: vec![],
            mem: self.base_mem.clone(),
            cons: vec![],
            model: vec![],
            sp: STACK_TOP - 4096,
            heap: HEAP_BASE + 4096,
            errno: 0,
            inputs: vec![],
            env: Default::default(),
            run_depth: None,
            prog: 0,
            runs: 0,
            steps: 0,
            reach: vec![],
            notes: vec![],
            outs_hash: vec![],
            forks: 0,
            redo: false,
        };
        let id = *self.prog.modules[module].funcs.get(entry).unwrap_or_else(|| panic!("no {}", entry));
        if self.call(&mut st, id, args, 0).is_err() {
            panic!("cannot enter {}", entry);
        }
        st
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
}

#[allow(static_mut_refs)]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("selftest") => selftest::run(args.get(2).and_then(|s| s.parse().ok()).unwrap_or(200000)),
        Some("run") => run(&args),
        Some("concrete") => concrete(&args),
        Some("dump") => {
            // symx dump prog.ll substring pc
            let mut p = Program::new();
            p.load(&args[2]);
            let id = args[3].parse::<u32>().unwrap_or_else(|_| (0..p.funcs.len()).find(|&i| p.funcs[i].name.contains(&args[3])).expect("function") as u32);
            println!("{}", p.funcs[id as usize].name);
            let f = p.lower(id);
            let pc: usize = args[4].parse().unwrap();
            for i in pc.saturating_sub(25)..(pc + 5).min(f.code.len()) {
                println!("{} {:?}", i, f.code[i]);
            }
        }
        Some("z3") => println!("{}", z3::version()),
        _ => {
            eprintln!("usage: symx run|concrete|selftest");
            std::process::exit(2);
        }
    }
}

/// symx run --prog name=a.ll [--prog name=b.ll] --harness h.ll --out results --jobs N --limit SECS scenario...
#[allow(static_mut_refs)]
fn run(args: &[String]) {
    let mut p = Program::new();
    let mut names = vec![];
    let mut i = 2;
    let mut scens = vec![];
    let mut harness = None;
    let mut jobs = 8;
    let mut limit = 600u64;
    let mut out = "results.jsonl".to_string();
    let mut profile = false;
    let mut trace = false;
    let mut maxw = 40;
    while i < args.len() {
        match args[i].as_str() {
            "--prog" => {
                let (n, f) = args[i + 1].split_once('=').unwrap();
                p.load(f);
                names.push(n.to_string());
                i += 1;
            }
            "--harness" => {
                harness = Some(args[i + 1].clone());
                i += 1;
            }
            "--jobs" => {
                jobs = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--limit" => {
                limit = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--out" => {
                out = args[i + 1].clone();
                i += 1;
            }
            "--witness" => {
                maxw = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--profile" => profile = true,
            "--trace" => trace = true,
            s => scens.push(s.to_string()),
        }
        i += 1;
    }
    let h = p.load(&harness.expect("--harness"));
    names.push("oracle".into());
    let mut x = Exec::new(p);
    x.mod_names = names;
    x.do_profile = profile;
    x.trace = trace;
    x.max_witness = maxw;
    x.fork_hook = Some(fork_hook);
    x.deadline = std::time::Instant::now() + std::time::Duration::from_secs(limit);
    unsafe {
        let m = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        SHARED = m as *mut Shared;
        (*SHARED).live = AtomicU32::new(0);
        (*SHARED).jobs = jobs;
        OUT = Some(std::fs::OpenOptions::new().create(true).append(true).open(&out).expect("out"));
        START = Some(std::time::Instant::now());
        prctl(36, 1, 0, 0, 0); // collect orphaned workers
        let _ = getpid();
    }
    let mut crashed = 0;
    for s in &scens {
        // wait for a slot
        while shared().live.load(Ordering::SeqCst) >= jobs {
            let mut st = 0;
            let r = unsafe { waitpid(-1, &mut st, 1) };
            if r > 0 && st != 0 {
                crashed += 1;
                shared().live.fetch_sub(1, Ordering::SeqCst);
            }
            if r <= 0 {
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
        }
        shared().live.fetch_add(1, Ordering::SeqCst);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe {
                SCEN = s.clone();
                START = Some(std::time::Instant::now());
            }
            let n = s.clone();
            let b = n.as_bytes();
            // scenario name is handed over as a heap string
            let a = HEAP_BASE + 64;
            let mut st = x.initial(h, "h_scenario", &[V::c(a), V::c(b.len() as u64)]);
            st.mem.write_bytes(a, b).ok();
            x.explore(st);
            finish(&mut x);
        }
    }
    loop {
        let mut st = 0;
        let r = unsafe { waitpid(-1, &mut st, 0) };
        if r <= 0 {
            break;
        }
        if st != 0 {
            crashed += 1;
            shared().live.fetch_sub(1, Ordering::SeqCst);
        }
    }
    if crashed > 0 {
        let line = format!("{{\"scenario\":\"*\",\"crashed\":{}}}\n", crashed);
        unsafe {
            let _ = OUT.as_mut().unwrap().write_all(line.as_bytes());
        }
        eprintln!("{} worker(s) crashed", crashed);
    }
}

/// symx concrete prog.ll file stdin-file args... : run the program concretely
fn concrete(args: &[String]) {
    let mut p = Program::new();
    let t = std::time::Instant::now();
    p.load(&args[2]);
    eprintln!("loaded in {:?}", t.elapsed());
    let mut x = Exec::new(p);
    x.mod_names = vec!["p".into()];
    x.concrete_mode = true;
    x.do_profile = std::env::var("SYMX_PROFILE").is_ok();
    let dat = std::fs::read(&args[3]).unwrap();
    let name = std::path::Path::new(&args[3]).file_name().unwrap().to_str().unwrap().to_string();
    let stdin = std::fs::read(&args[4]).unwrap();
    let argv: Vec<Vec<u8>> = args[5..].iter().map(|a| a.as_bytes().to_vec()).collect();
    let main = *x.prog.modules[0].funcs.get("main").unwrap();
    let _ = main;
    let mut st = x.initial(0, "main", &[V::c(0), V::c(0)]);
    st.frames.clear();
    // a pseudo caller frame so that exit() has somewhere to return to
    let f = x.prog.lower(main);
    let need = f.nregs;
    st.top = need;
    st.regs.resize(need as usize + 16, V::c(0));
    st.frames.push(Frame { func: f, fid: main, pc: 0, base: 0, dst: 0, sp: st.sp });
    st.env.files.insert(format!("/v/{}", name), std::rc::Rc::new(dat.iter().map(|b| *b as u32).collect()));
    st.env.stdin = std::rc::Rc::new(stdin.iter().map(|b| *b as u32).collect());
    st.env.args = argv.iter().map(|a| a.iter().map(|b| *b as u32).collect()).collect();
    st.env.fds = vec![
        Fd { kind: 1, ..Default::default() },
        Fd { kind: 2, ..Default::default() },
        Fd { kind: 3, ..Default::default() },
    ];
    let argvp = HEAP_BASE + 1024;
    let mut sp = argvp + 8 * (argv.len() as u64 + 1);
    for (i, a) in argv.iter().enumerate() {
        st.mem.write_bytes(sp, a).ok();
        st.mem.write_c(sp + a.len() as u64, 1, 0).ok();
        st.mem.write_c(argvp + 8 * i as u64, 8, sp as u128).ok();
        sp += a.len() as u64 + 1;
    }
    st.run_depth = Some((1, 0));
    let t = std::time::Instant::now();
    let argc = argv.len() as u64;
    if x.call(&mut st, main, &[V::c(argc), V::c(argvp)], 0).is_err() {
        panic!("call");
    }
    let r = x.run_to_exit(&mut st);
    eprintln!("steps {} in {:?}", st.steps, t.elapsed());
    let o: Vec<u8> = st.env.out[0].iter().map(|b| *b as u8).collect();
    std::io::stdout().write_all(&o).unwrap();
    let o: Vec<u8> = st.env.out[1].iter().map(|b| *b as u8).collect();
    std::io::stderr().write_all(&o).unwrap();
    match r {
        Ok(c) => eprintln!("exit code {}", c),
        Err(Stop::Error(m)) | Err(Stop::Fail(m)) | Err(Stop::End(m)) => eprintln!("stopped: {}", m),
        Err(Stop::Infeasible) => eprintln!("infeasible"),
    }
    for n in &st.notes {
        eprintln!("note {}", n);
    }
    if x.do_profile {
        let mut v: Vec<_> = x.profile.iter().collect();
        v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
        for (f, n) in v.iter().take(40) {
            eprintln!("{:>12} {}", n, short(&x.prog.funcs[**f as usize].name));
        }
    }
    let _ = SYM;
}
