//! Scenarios: families of ledgers and requests with the property they have to show.
use crate::led::*;
use crate::sx;

pub const A: N = "Assets:A";
pub const AB: N = "Assets:A:B";
pub const ABC: N = "Assets:A:B:C";
pub const AX: N = "Assets:AX";
pub const P: N = "Assets:P:A";
pub const E: N = "Equity:E";
pub const F: N = "Equity:F";

pub const D1: N = "2020-01-01";
pub const D2: N = "2020-01-02";
pub const D3: N = "2020-01-03";
pub const D4: N = "2020-01-04";
pub const D5: N = "2020-01-05";
pub const DAYS: [N; 9] = [
    D1, D2, D3, D4, D5, "2020-01-06", "2020-01-07", "2020-01-08", "2020-01-09",
];

/// "C13:C05.seq" are the ledgers of C05.seq, judged by what C13 says of them
pub fn run(name: &str) {
    let name = match name.split_once(':') {
        Some((p, n)) => {
            crate::rpc::on_behalf(p[1..].parse().unwrap());
            n
        }
        None => {
            crate::rpc::on_behalf(0);
            name
        }
    };
    if !(crate::s_bal::run(name) || crate::s_acct::run(name) || crate::s_txn::run(name) || crate::s_io::run(name) || crate::s_rpc::run(name) || crate::s_span::run(name) || crate::s_opt::run(name) || crate::s_cli::run(name) || crate::s_many::run(name) || crate::s_err::run(name)) {
        sx::fail("no such scenario");
    }
}

/// an option line
pub fn option(name: &str, value: &[u8]) -> Vec<u8> {
    let mut v = b"option \"".to_vec();
    v.extend(name.as_bytes());
    v.extend(b"\" \"");
    v.extend(value);
    v.extend(b"\"\n");
    v
}
