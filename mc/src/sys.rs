//! The few libc calls the supervisor needs (no libc crate).
#![allow(non_camel_case_types)]
pub type pid_t = i32;
extern "C" {
    pub fn fork() -> pid_t;
    pub fn waitpid(pid: pid_t, status: *mut i32, options: i32) -> pid_t;
    pub fn kill(pid: pid_t, sig: i32) -> i32;
    pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn _exit(code: i32) -> !;
    pub fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    pub fn usleep(us: u32) -> i32;
    pub fn signal(sig: i32, handler: usize) -> usize;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub const WNOHANG: i32 = 1;
pub const SIGKILL: i32 = 9;
pub const SIGXCPU: i32 = 24;
pub const RLIMIT_CPU: i32 = 0;
pub const RLIMIT_STACK: i32 = 3;
pub const RLIMIT_CORE: i32 = 4;
pub const RLIMIT_AS: i32 = 9;
pub const PR_SET_PDEATHSIG: i32 = 1;

/// Anonymous memory shared with the children forked later.
pub fn shared(len: usize) -> *mut u8 {
    let p = unsafe { mmap(core::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}
pub fn set_limit(res: i32, soft: u64, hard: u64) {
    unsafe { setrlimit(res, &[soft, hard]) };
}
/// (exited, code) or (killed, signal)
pub fn decode(status: i32) -> (bool, i32) {
    if status & 0x7f == 0 { (true, (status >> 8) & 0xff) } else { (false, status & 0x7f) }
}
