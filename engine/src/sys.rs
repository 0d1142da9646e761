use std::ffi::{c_int, c_void};
extern "C" {
    pub fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn madvise(a: *mut c_void, n: usize, adv: c_int) -> c_int;
    pub fn fork() -> c_int;
    pub fn waitpid(p: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn getpid() -> c_int;
    pub fn setpgid(p: c_int, g: c_int) -> c_int;
    pub fn kill(p: c_int, s: c_int) -> c_int;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    pub fn write(fd: c_int, p: *const c_void, n: usize) -> isize;
    pub fn usleep(us: u32) -> c_int;
}
