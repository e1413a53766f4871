//! Deterministic simulation of division_ecs. One seed is one exactly repeatable execution.
//!
//!   sim batch PROP BASE FIRST COUNT STEP SECONDS OUTDIR   run seeds; JSON lines on stdout
//!   sim record PROP BASE INDEX                            print the trace of one seed
//!   sim digest PROP BASE FIRST COUNT                      one number per run for everything it observed
//!   sim exec FILE [-v]                                    run one trace file
//!   sim min FILE OUT CLASS                                shrink a failing trace

mod alloc;
mod archs;
mod fail;
mod flow;
mod gen;
mod kinds;
mod mass;
mod throng;
mod op;
mod query;
mod res;
mod rng;
mod status;
mod sys;
mod world;

use flow::{execute, make, Trace};
use op::*;
use std::io::Write;
use std::time::{Duration, Instant};
use world::{Viol, DEBUG, P, PROBES};

#[global_allocator]
static G: alloc::SimAlloc = alloc::SimAlloc;

pub const SEED_CPU: i64 = 40;
const STACK: usize = 2 << 20;

fn seed_of(base: u64, index: u64) -> u64 {
    rng::mix2(base, index)
}

fn flavour() -> &'static str {
    if cfg!(feature = "plain") {
        "plain"
    } else if DEBUG {
        "checked"
    } else {
        "shipped"
    }
}

/// Runs `f` on a thread with the stack size of an ordinary spawned thread.
fn on_small_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or_else(|_| {
        eprintln!("harness: panic outside an operation: {}", status::last_panic());
        unsafe { sys::_exit(2) }
    })
}

#[derive(Debug, Clone)]
enum End {
    Ok,
    Viol { mask: u32, class: String, step: usize, msg: String },
    /// died: signal or exit code, step, owners
    Died { what: String, step: usize, owners: u32 },
    Harness(String),
}

fn encode(v: &Viol) -> String {
    format!("{}\t{}\t{}\t{}", v.mask, v.step, v.class, v.msg.replace(['\n', '\t'], " "))
}

fn decode(s: &str) -> End {
    let mut w = s.splitn(4, '\t');
    let mask = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let step = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let class = w.next().unwrap_or("").to_string();
    End::Viol { mask, class, step, msg: w.next().unwrap_or("").to_string() }
}

fn wait_child(pid: i32) -> End {
    let mut st = 0;
    unsafe { sys::waitpid(pid, &mut st, 0) };
    let sh = status::shared();
    if st & 0x7f == 0 {
        return match (st >> 8) & 0xff {
            0 => End::Ok,
            3 => decode(&status::get_msg()),
            97 => End::Died { what: "runaway-memory".into(), step: sh.step as usize, owners: sh.owners as u32 | C10 | C14 },
            x => End::Harness(format!("exit status {x}")),
        };
    }
    let sig = st & 0x7f;
    let what = match sig {
        27 => "hang".to_string(),
        11 | 7 => "crash-memory".to_string(),
        6 => "crash-abort".to_string(),
        x => format!("crash-signal-{x}"),
    };
    if sig == 9 {
        return End::Harness("killed".into());
    }
    let c10 = if sig == 27 { 0 } else { C10 };
    End::Died { what, step: sh.step as usize, owners: sh.owners as u32 | c10 }
}

fn in_child(tr: &Trace, only_b: bool, verbose: bool, quiet: bool) -> End {
    std::io::stdout().flush().ok();
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        sys::no_core();
        if quiet {
            silence();
        }
        let tr = tr.clone();
        sys::arm_cpu_limit(SEED_CPU);
        let r = on_small_stack(move || execute(&tr, only_b, verbose));
        let code = match r {
            Some(v) => {
                status::set_msg(&encode(&v));
                3
            }
            None => 0,
        };
        unsafe { sys::_exit(code) }
    }
    wait_child(pid)
}

/// A process death in a comparing run belongs to the property only if the comparison execution survives.
fn settle(tr: &Trace, e: End) -> End {
    let prop = 1u32 << tr.prop;
    if let End::Died { what, step, owners } = &e {
        if owners & prop == 0 && matches!(tr.prop, 11 | 13 | 15) && status::shared().variant == 0 {
            let b = in_child(tr, true, false, true);
            if let End::Ok = b {
                return End::Viol {
                    mask: prop | owners,
                    class: format!("{what}-differs"),
                    step: *step,
                    msg: format!("the process died ({what}) at step {step}; it does not in the comparison run"),
                };
            }
        } else if owners & prop == 0 && tr.prop == 15 && status::shared().variant == 1 {
            return End::Viol {
                mask: prop | owners,
                class: format!("{what}-differs"),
                step: *step,
                msg: format!("the process died ({what}) at step {step} in the second environment only"),
            };
        }
        return End::Viol { mask: *owners, class: what.clone(), step: *step, msg: format!("the process died ({what}) at step {step}") };
    }
    e
}

fn silence() {
    unsafe {
        let fd = sys::open(b"/dev/null\0".as_ptr() as *const _, 2);
        if fd >= 0 {
            sys::dup2(fd, 2);
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nontrivial(prop: u32, d: &dyn Fn(P) -> u64) -> bool {
    let g = |p: P| d(p) > 0;
    match prop {
        1 => g(P::IdReused),
        2 => g(P::Migrated) && (g(P::IdReused) || g(P::ArchEmptied)),
        3 => g(P::Migrated),
        4 => g(P::QueryItems) && g(P::Migrated),
        5 => g(P::FilterRun) || g(P::IdReused),
        6 => g(P::OrdInsertMid) && (g(P::OrdRemove) || g(P::Destroyed)),
        7 | 8 => g(P::QueryItems),
        9 => g(P::ResRelease) && g(P::ResGrew),
        10 => g(P::Migrated) || g(P::ResRelease),
        11 => g(P::Rejected),
        12 => g(P::FailDelivered),
        13 => g(P::Interleaved) || g(P::Abandoned) || g(P::LoopPanic),
        16 => g(P::SetsCompared),
        14 => g(P::Cycles) && (g(P::Destroyed) || g(P::ResRelease)),
        _ => g(P::Ops),
    }
}

fn batch(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (prop, base, first, count, stride, secs) = (n(0) as u32, n(1), n(2), n(3), n(4), n(5));
    let out = a[6].clone();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough");
    let t0 = Instant::now();
    let deadline = Duration::from_secs(secs);
    let slow = std::env::var("SIM_SLOW").is_ok();
    let mut next = 0u64;
    let mut found = 0;
    let mut foreign = 0;
    let mut sout = std::io::stdout();
    let mut harness_errors = 0;
    while next < count && t0.elapsed() < deadline {
        sout.flush().ok();
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            sys::no_core();
            if std::env::var("SIM_LOUD").is_err() {
                silence();
            }
            let r = on_small_stack(move || {
                let sh = status::shared();
                let mut k = next;
                while k < count && t0.elapsed() < deadline {
                    let index = first + k * stride;
                    let seed = seed_of(base, index);
                    sh.seed = seed;
                    sh.index = k;
                    sh.step = 0;
                    sh.owners = 0;
                    sys::arm_cpu_limit(SEED_CPU);
                    let m = make(prop, seed, thorough);
                    let before = sh.counts;
                    let t1 = Instant::now();
                    let v = execute(&m.trace, false, false);
                    if slow && t1.elapsed() > Duration::from_secs(2) {
                        let ops = m.trace.ops.len();
                        println!("{{\"kind\":\"slow\",\"seed\":{seed},\"index\":{index},\"ops\":{ops},\"secs\":{}}}", t1.elapsed().as_secs_f64());
                    }
                    let after = sh.counts;
                    sh.runs += 1;
                    for (i, x) in m.messages.iter().enumerate() {
                        sh.counts[80 + i] += x;
                    }
                    sh.counts[90] += m.trace.ops.len() as u64;
                    let sig = m.trace.sig();
                    status::mark(&mut sh.traces, sig);
                    if nontrivial(prop, &|p| after[p as usize] - before[p as usize]) {
                        sh.nontrivial += 1;
                        status::mark(&mut sh.nontriv, sig);
                    }
                    if let Some(v) = v {
                        status::set_msg(&encode(&v));
                        return 3;
                    }
                    k += 1;
                }
                sh.index = k;
                0
            });
            unsafe { sys::_exit(r) }
        }
        let e = wait_child(pid);
        let index = status::shared().index;
        let seed = status::shared().seed;
        match e {
            End::Ok => next = index.max(next + 1),
            End::Harness(w) => {
                println!("{{\"kind\":\"harness\",\"what\":{},\"seed\":{seed}}}", json_str(&w));
                harness_errors += 1;
                if harness_errors > 3 {
                    break;
                }
                next = index + 1;
            }
            e => {
                next = index + 1;
                let m = make(prop, seed, thorough);
                let e = settle(&m.trace, e);
                if let End::Viol { mask, class, step, msg } = e {
                    if mask & (1 << prop) != 0 {
                        found += 1;
                        let file = format!("{out}/{}-{}-{:016x}.trace", flavour(), prop, seed);
                        let _ = std::fs::write(&file, m.trace.to_text(flavour(), seed, "as generated"));
                        println!(
                            "{{\"kind\":\"violation\",\"seed\":{seed},\"class\":{},\"step\":{step},\"mask\":{mask},\"msg\":{},\"file\":{}}}",
                            json_str(&class),
                            json_str(&msg),
                            json_str(&file)
                        );
                        if found >= 2 {
                            break;
                        }
                    } else {
                        foreign += 1;
                        println!(
                            "{{\"kind\":\"foreign\",\"seed\":{seed},\"class\":{},\"step\":{step},\"mask\":{mask},\"msg\":{}}}",
                            json_str(&class),
                            json_str(&msg)
                        );
                    }
                }
            }
        }
    }
    let sh = status::shared();
    let bits = |m: &[u64]| m.iter().map(|x| x.count_ones() as u64).sum::<u64>();
    let mut s = format!(
        "{{\"kind\":\"stats\",\"flavour\":\"{}\",\"runs\":{},\"nontrivial\":{},\"seconds\":{:.3},\"found\":{found},\"foreign\":{foreign},\"trace_ops\":{},\"messages\":[{},{},{}],\"states\":{},\"traces\":{},\"probes\":{{",
        flavour(),
        sh.runs,
        sh.nontrivial,
        t0.elapsed().as_secs_f64(),
        sh.counts[90],
        sh.counts[80],
        sh.counts[81],
        sh.counts[82],
        bits(&sh.states),
        bits(&sh.traces),
    );
    for (i, p) in PROBES.iter().chain(flow::ALLOC_COUNTS.iter()).enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("{}:{}", json_str(p), sh.counts[i]));
    }
    s.push_str("}}");
    println!("{s}");
    let mut maps = vec![];
    for m in [&sh.states, &sh.traces, &sh.nontriv] {
        for x in m.iter() {
            maps.extend_from_slice(&x.to_le_bytes());
        }
    }
    let _ = std::fs::write(format!("{out}/maps-{}-{}-{}.bin", flavour(), prop, first), maps);
    0
}

fn load(f: &str) -> Trace {
    let t = std::fs::read_to_string(f).unwrap_or_else(|e| {
        eprintln!("harness: cannot read {f}: {e}");
        std::process::exit(2)
    });
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("flavour ") {
            if x != flavour() {
                eprintln!("harness: this trace is for the {x} build");
                std::process::exit(2);
            }
        }
    }
    Trace::from_text(&t).unwrap_or_else(|| {
        eprintln!("harness: {f} is not a trace");
        std::process::exit(2)
    })
}

fn verdict(tr: &Trace, verbose: bool) -> Option<(String, usize, String)> {
    let e = in_child(tr, false, verbose, !verbose);
    match settle(tr, e) {
        End::Viol { mask, class, step, msg } if mask & (1 << tr.prop) != 0 => Some((class, step, msg)),
        End::Viol { mask, class, step, msg } => {
            if verbose {
                eprintln!("not this property's: mask {mask:#x} {class} at {step}: {msg}");
            }
            None
        }
        End::Harness(w) => {
            eprintln!("harness: {w}");
            std::process::exit(2)
        }
        _ => None,
    }
}

/// Shrinks the operation and fault sequence while the same class of violation persists.
fn minimise(tr: &Trace, class: &str, secs: u64) -> Trace {
    let t0 = Instant::now();
    let over = || t0.elapsed() > Duration::from_secs(secs);
    let fails = |t: &Trace| verdict(t, false).map_or(false, |v| v.0 == class);
    let mut cur = tr.clone();
    // nothing after the failing step matters in a single execution
    if let (flow::Flow::Std, Some(v)) = (cur.flow, verdict(&cur, false)) {
        if v.1 + 1 < cur.ops.len() {
            let mut c = cur.clone();
            c.ops.truncate(v.1 + 1);
            if fails(&c) {
                cur = c;
            }
        }
    }
    let mut chunk = (cur.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < cur.ops.len() && !over() {
            let mut c = cur.clone();
            let end = (i + chunk).min(c.ops.len());
            c.ops.drain(i..end);
            if fails(&c) {
                cur = c;
                any = true;
            } else {
                i = end;
            }
        }
        if over() || (chunk == 1 && !any) {
            break;
        }
        if chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    // smaller counts
    for i in 0..cur.ops.len() {
        let idx = match cur.ops[i].k {
            K::Bulk | K::Pages | K::Sets | K::Churn | K::Spin | K::Mass | K::Throng | K::RBulk | K::RChurn | K::RBulkRelease | K::BulkDestroy | K::BulkTag | K::BulkOrd => 2,
            K::QNext | K::QPanic | K::RSpin => 1,
            K::Fail => 0,
            K::NewStore => 1,
            _ => continue,
        };
        let mut lo = 0;
        let mut hi = cur.ops[i].a[idx];
        while lo + 1 < hi && !over() {
            let mid = lo + (hi - lo) / 2;
            let mut c = cur.clone();
            c.ops[i].a[idx] = mid;
            if fails(&c) {
                cur = c;
                hi = mid;
            } else {
                lo = mid;
            }
        }
    }
    // shorter lists
    for i in 0..cur.ops.len() {
        if cur.ops[i].k == K::QOpen {
            let mut j = 8;
            while j < cur.ops[i].a.len() && !over() {
                let mut c = cur.clone();
                c.ops[i].a.remove(j);
                if fails(&c) {
                    cur = c;
                } else {
                    j += 1;
                }
            }
        }
    }
    // a plainer environment
    if !over() {
        let mut c = cur.clone();
        c.alloc = alloc::AllocCfg::plain(1);
        if fails(&c) {
            cur = c;
        }
        let mut c = cur.clone();
        c.noise = 0;
        if c.noise != cur.noise && fails(&c) {
            cur = c;
        }
    }
    cur
}

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    status::init();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|x| x.as_str()) {
        Some("batch") => batch(&a[1..]),
        Some("record") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            let seed = seed_of(n(2), n(3));
            let m = make(n(1) as u32, seed, std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough"));
            print!("{}", m.trace.to_text(flavour(), seed, "as generated"));
            0
        }
        Some("exec") => {
            let tr = load(&a[1]);
            match verdict(&tr, a.iter().any(|x| x == "-v")) {
                Some((class, step, msg)) => {
                    println!("{{\"kind\":\"violation\",\"class\":{},\"step\":{step},\"msg\":{}}}", json_str(&class), json_str(&msg));
                    1
                }
                None => {
                    println!("{{\"kind\":\"ok\"}}");
                    0
                }
            }
        }
        Some("digest") => {
            // everything observed in each of these runs, as one number per run
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            for k in 0..n(4) {
                let seed = seed_of(n(2), n(3) + k);
                let m = make(n(1) as u32, seed, false);
                let sh = status::shared();
                sh.digest = rng::mix2(seed, m.trace.sig());
                sh.counts = [0; status::N_COUNT];
                let e = in_child(&m.trace, false, false, true);
                println!("{seed:016x} {:016x} {} {e:?}", status::shared().digest, m.trace.ops.len());
            }
            0
        }
        Some("min") => {
            let tr = load(&a[1]);
            let secs = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(60);
            let out = minimise(&tr, &a[3], secs);
            let seed = std::fs::read_to_string(&a[1])
                .unwrap_or_default()
                .lines()
                .find_map(|l| l.strip_prefix("seed ").and_then(|x| x.parse().ok()))
                .unwrap_or(0);
            let note = format!("minimised from {} operations to {}", tr.ops.len(), out.ops.len());
            if std::fs::write(&a[2], out.to_text(flavour(), seed, &note)).is_err() {
                2
            } else {
                0
            }
        }
        _ => {
            eprintln!("usage: sim batch|record|exec|min ...");
            2
        }
    };
    std::process::exit(code);
}
