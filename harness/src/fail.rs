//! Allocation-failure injection: the next operation is first tried in a forked copy of the whole world in which the
//! n-th allocation request fails; the copy is then examined and thrown away.

use crate::alloc;
use crate::op::*;
use crate::sys;
use crate::world::{World, P};

pub enum Tried {
    NotDelivered,
    Aborted,
    Panicked,
    Survived,
    Bad(String, String),
}

const C_NOT: i32 = 13;
const C_PANIC: i32 = 10;
const C_SURVIVED: i32 = 11;
const C_BAD: i32 = 12;

pub fn try_op(w: &mut World, op: &Op, n: u64, sticky: bool) -> Tried {
    let mut fds = [0i32; 2];
    unsafe {
        if sys::pipe(fds.as_mut_ptr()) != 0 {
            return Tried::NotDelivered;
        }
        let pid = sys::fork();
        if pid < 0 {
            sys::close(fds[0]);
            sys::close(fds[1]);
            return Tried::NotDelivered;
        }
        if pid == 0 {
            sys::close(fds[0]);
            sys::dup2(fds[1], 2);
            sys::arm_cpu_limit(10);
            child(w, op, n, sticky);
        }
        sys::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let k = sys::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if k <= 0 {
                break;
            }
            if out.len() < 100_000 {
                out.extend_from_slice(&buf[..k as usize]);
            }
        }
        sys::close(fds[0]);
        let mut st = 0i32;
        sys::waitpid(pid, &mut st, 0);
        let text = String::from_utf8_lossy(&out).replace('\n', " ");
        if st & 0x7f == 0 {
            return match (st >> 8) & 0xff {
                C_NOT => Tried::NotDelivered,
                C_PANIC => Tried::Panicked,
                C_SURVIVED => Tried::Survived,
                C_BAD => Tried::Bad("wrong-result".into(), text),
                x => Tried::Bad("exit".into(), format!("exit status {x}: {text}")),
            };
        }
        let sig = st & 0x7f;
        if sig == 6 && text.contains("memory allocation of") {
            return Tried::Aborted;
        }
        let short: String = text.chars().take(200).collect();
        Tried::Bad(format!("signal-{sig}"), format!("the process died of signal {sig} {short}"))
    }
}

fn child(w: &mut World, op: &Op, n: u64, sticky: bool) -> ! {
    w.in_child = true;
    w.focus = u32::MAX;
    w.viol = None;
    alloc::arm_failure(n, sticky);
    w.exec(op);
    let fired = alloc::disarm_failure();
    let code = if !fired {
        C_NOT
    } else {
        match &w.viol {
            Some(v) if v.class == "panic" => C_PANIC,
            Some(v) => {
                eprintln!("{}: {}", v.class, v.msg);
                C_BAD
            }
            None => {
                // it completed: everything must be right
                w.close_all();
                for s in 0..w.stores.len() {
                    if w.stores[s].is_some() {
                        w.sweep(s);
                    }
                }
                alloc::check_all();
                w.drain_alloc();
                match &w.viol {
                    None => C_SURVIVED,
                    Some(v) => {
                        eprintln!("{}: {}", v.class, v.msg);
                        C_BAD
                    }
                }
            }
        }
    };
    unsafe { sys::_exit(code) }
}

pub fn count(w: &mut World, t: &Tried) {
    match t {
        Tried::NotDelivered => {}
        Tried::Aborted => {
            w.hit(P::FailDelivered);
            w.hit(P::FailAborted)
        }
        Tried::Panicked => {
            w.hit(P::FailDelivered);
            w.hit(P::FailPanicked)
        }
        Tried::Survived => {
            w.hit(P::FailDelivered);
            w.hit(P::FailSurvived)
        }
        Tried::Bad(..) => w.hit(P::FailDelivered),
    }
}
