#![allow(clippy::missing_safety_doc)]
pub mod json;
pub mod led;
pub mod model;
#[cfg(feature = "native")]
pub mod native;
pub mod num;
pub mod rpc;
pub mod s_acct;
pub mod s_cli;
pub mod s_io;
pub mod s_err;
pub mod s_many;
pub mod s_opt;
pub mod s_rpc;
pub mod s_span;
pub mod s_txn;
pub mod s_bal;
pub mod scen;
pub mod sx;

#[no_mangle]
pub unsafe extern "C" fn h_scenario(p: *const u8, n: usize) {
    let s = std::slice::from_raw_parts(p, n);
    scen::run(std::str::from_utf8_unchecked(s));
}
