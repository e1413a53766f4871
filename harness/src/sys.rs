//! The few libc calls the simulator needs (std already links libc).

#![allow(non_camel_case_types, dead_code)]
use std::os::raw::{c_char, c_int, c_long, c_void};

extern "C" {
    pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, len: usize, prot: c_int) -> c_int;
    pub fn madvise(a: *mut c_void, len: usize, advice: c_int) -> c_int;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn close(fd: c_int) -> c_int;
    pub fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    pub fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    pub fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    pub fn ftruncate(fd: c_int, len: c_long) -> c_int;
    pub fn setitimer(which: c_int, new: *const itimerval, old: *mut itimerval) -> c_int;
    pub fn setrlimit(res: c_int, r: *const rlimit) -> c_int;
    pub fn signal(sig: c_int, handler: usize) -> usize;
}

#[repr(C)]
pub struct timeval {
    pub sec: c_long,
    pub usec: c_long,
}
#[repr(C)]
pub struct itimerval {
    pub interval: timeval,
    pub value: timeval,
}
#[repr(C)]
pub struct rlimit {
    pub cur: u64,
    pub max: u64,
}

pub const PROT_NONE: c_int = 0;
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_FIXED: c_int = 0x10;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;
pub const MAP_FIXED_NOREPLACE: c_int = 0x100000;
pub const MADV_DONTNEED: c_int = 4;
pub const ITIMER_PROF: c_int = 2;
pub const SIGPROF: c_int = 27;
pub const RLIMIT_CORE: c_int = 4;

/// Arms a CPU-time limit; when it expires the process dies of SIGPROF.
pub fn arm_cpu_limit(secs: i64) {
    let v = itimerval {
        interval: timeval { sec: 0, usec: 0 },
        value: timeval { sec: secs as c_long, usec: 0 },
    };
    unsafe { setitimer(ITIMER_PROF, &v, std::ptr::null_mut()) };
}

pub fn no_core() {
    let r = rlimit { cur: 0, max: 0 };
    unsafe { setrlimit(RLIMIT_CORE, &r) };
}
