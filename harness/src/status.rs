//! Memory shared between a supervisor process and the simulator processes it forks: what is running now (read when a
//! process dies), counters, and bitmaps of the distinct states and schedules reached.

use crate::alloc::host;
use crate::sys;

pub const N_COUNT: usize = 96;
pub const BITMAP_WORDS: usize = 1 << 14; // 2^20 bits each

#[repr(C)]
pub struct Shared {
    pub seed: u64,
    pub index: u64,
    pub variant: u64,
    pub step: u64,
    pub owners: u64,
    pub digest: u64,
    pub runs: u64,
    pub nontrivial: u64,
    pub counts: [u64; N_COUNT],
    pub msg_len: u64,
    pub msg: [u8; 4000],
    pub states: [u64; BITMAP_WORDS],
    pub traces: [u64; BITMAP_WORDS],
    pub nontriv: [u64; BITMAP_WORDS],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut LAST_PANIC: String = String::new();
static mut QUIET: bool = false;

pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

pub fn init() {
    unsafe {
        let n = (std::mem::size_of::<Shared>() + 4095) / 4096 * 4096;
        let p = sys::mmap(std::ptr::null_mut(), n, sys::PROT_RW, sys::MAP_SHARED | sys::MAP_ANON, -1, 0);
        if p as isize == -1 {
            eprintln!("harness: cannot map the status page");
            sys::_exit(2);
        }
        SHARED = p as *mut Shared;
    }
    std::panic::set_hook(Box::new(|info| {
        host(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let at = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()));
            #[allow(static_mut_refs)]
            unsafe {
                if !QUIET {
                    LAST_PANIC = format!("{}{}", m.replace('\n', " "), at);
                }
            }
        })
    }));
}

pub fn set_op(step: usize, owners: u32) {
    let s = shared();
    s.step = step as u64;
    s.owners = owners as u64;
}

#[allow(static_mut_refs)]
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.clone() }
}

pub fn set_quiet(q: bool) {
    unsafe { QUIET = q }
}

pub fn set_msg(m: &str) {
    let s = shared();
    let b = m.as_bytes();
    let n = b.len().min(s.msg.len());
    s.msg[..n].copy_from_slice(&b[..n]);
    s.msg_len = n as u64;
}

pub fn get_msg() -> String {
    let s = shared();
    String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned()
}

pub fn mark(map: &mut [u64; BITMAP_WORDS], h: u64) {
    let i = (h as usize) % (BITMAP_WORDS * 64);
    map[i / 64] |= 1 << (i % 64);
}
