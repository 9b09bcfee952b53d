//! replay SCENARIO v,v,...  BIN...   runs one recorded case against the real binaries.
//! Exit 0: the property held; 1: violated (a line FAIL ...); 3: the case does not apply.
use oracle::native::{end, REC};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: replay [--show] SCENARIO v,v,... BIN...");
        std::process::exit(2);
    }
    let (show, a) = if a[1] == "--show" { (true, &a[2..]) } else { (false, &a[1..]) };
    let base = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
    let dir = std::path::PathBuf::from(format!("{}/replay.{}", base, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.inputs = a[1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("value")).collect();
        r.bins = a[2..].to_vec();
        r.dir = dir;
        r.show = show;
    });
    oracle::scen::run(&a[0]);
    println!("HELD");
    end(0)
}
