//! The verifier's interface: symbolic variables, choices, assertions, and the
//! program under test.  Under the symbolic executor these are built in; the
//! native build (feature `native`) reads recorded values and runs the binary.

extern "C" {
    fn sx_var(name: *const u8, len: usize, lo: u64, hi: u64) -> u64;
    fn sx_choice(n: u64) -> u64;
    fn sx_assume(c: u64);
    fn sx_assert(c: u64, msg: *const u8, len: usize);
    fn sx_reach(id: u64);
    fn sx_is_sym(v: u64) -> u64;
    fn sx_concrete(v: u64) -> u64;
    fn sx_file(path: *const u8, plen: usize, data: *const u8, dlen: usize);
    fn sx_stdin(data: *const u8, len: usize);
    fn sx_args(data: *const u8, len: usize);
    fn sx_env(data: *const u8, len: usize);
    fn sx_program(name: *const u8, nlen: usize, out: *const u8, olen: usize, err: *const u8, elen: usize, status: u64);
    fn sx_run(module: u64) -> u64;
    fn sx_out_len(fd: u64) -> u64;
    fn sx_out_read(fd: u64, p: *mut u8);
    fn sx_log_len() -> u64;
    fn sx_log_read(p: *mut u8);
    fn sx_debug(p: *const u8, len: usize);
    fn sx_debug_val(v: u64);
}

/// a fresh variable, any value in lo..=hi
pub fn var(name: &str, lo: u64, hi: u64) -> u64 {
    unsafe { sx_var(name.as_ptr(), name.len(), lo, hi) }
}
/// every value 0..n is explored, one path each
pub fn choice(n: usize) -> usize {
    unsafe { sx_choice(n as u64) as usize }
}
pub fn pick<T: Copy>(a: &[T]) -> T {
    a[choice(a.len())]
}
pub fn flip() -> bool {
    choice(2) == 1
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c as u64) }
}
/// the property: violated if it can be false
pub fn check(c: bool, msg: &str) {
    unsafe { sx_assert(c as u64, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) {
    check(false, msg)
}
pub fn reach(id: u64) {
    unsafe { sx_reach(id) }
}
pub fn is_sym(v: u64) -> bool {
    unsafe { sx_is_sym(v) != 0 }
}
pub fn concrete(v: u64) -> u64 {
    unsafe { sx_concrete(v) }
}
pub fn file(path: &str, data: &[u8]) {
    unsafe { sx_file(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
}
pub fn stdin(data: &[u8]) {
    unsafe { sx_stdin(data.as_ptr(), data.len()) }
}
pub fn args(a: &[&[u8]]) {
    let v = a.join(&0u8);
    unsafe { sx_args(v.as_ptr(), v.len()) }
}
pub fn env(a: &[&[u8]]) {
    let v = a.join(&0u8);
    unsafe { sx_env(v.as_ptr(), v.len()) }
}
/// what a program does if it is started: what it writes, and its exit status
pub fn program(name: &str, out: &[u8], err: &[u8], status: u64) {
    unsafe { sx_program(name.as_ptr(), name.len(), out.as_ptr(), out.len(), err.as_ptr(), err.len(), status) }
}
pub fn run(module: u64) -> u64 {
    unsafe { sx_run(module) }
}
pub fn out(fd: u64) -> Vec<u8> {
    unsafe {
        let n = sx_out_len(fd) as usize;
        let mut v = vec![0u8; n];
        sx_out_read(fd, v.as_mut_ptr());
        v
    }
}
pub fn log() -> Vec<u8> {
    unsafe {
        let n = sx_log_len() as usize;
        let mut v = vec![0u8; n];
        sx_log_read(v.as_mut_ptr());
        v
    }
}
pub fn debug(b: &[u8]) {
    unsafe { sx_debug(b.as_ptr(), b.len()) }
}
pub fn debug_val(v: u64) {
    unsafe { sx_debug_val(v) }
}
