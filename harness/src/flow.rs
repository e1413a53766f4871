//! What one simulated run consists of, per property.

use crate::alloc::{self, AllocCfg};
use crate::gen::{Gen, Profile};
use crate::op::*;
use crate::rng::{mix2, Rng};
use crate::status;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flow {
    /// one execution against the models
    Std,
    /// rejected calls injected; compared with the same trace without them
    Rejected,
    /// read phases; compared with the same trace without them
    Phases,
    /// one workload repeated
    Cycles,
    /// the same trace in two environments
    Twin,
}

const FLOWS: [(&str, Flow); 5] =
    [("std", Flow::Std), ("rejected", Flow::Rejected), ("phases", Flow::Phases), ("cycles", Flow::Cycles), ("twin", Flow::Twin)];

#[derive(Clone)]
pub struct Trace {
    pub prop: u32,
    pub flow: Flow,
    pub alloc: AllocCfg,
    pub alloc2: AllocCfg,
    pub noise: u64,
    /// for cycles: labels from here on belong to one cycle
    pub base_label: u64,
    pub order: u64,
    pub ops: Vec<Op>,
}

impl Trace {
    pub fn to_text(&self, flavour: &str, seed: u64, note: &str) -> String {
        let f = FLOWS.iter().find(|x| x.1 == self.flow).unwrap().0;
        let mut s = String::new();
        s += &format!("# {note}\n");
        s += &format!("flavour {flavour}\nseed {seed}\nprop {}\nflow {f}\n", self.prop);
        s += &format!("alloc {}\nalloc2 {}\nnoise {}\nbase {}\norder {}\n", self.alloc.to_text(), self.alloc2.to_text(), self.noise, self.base_label, self.order);
        s += "ops\n";
        for o in &self.ops {
            s += &o.to_text();
            s.push('\n');
        }
        s
    }

    pub fn from_text(t: &str) -> Option<Trace> {
        let z = AllocCfg::plain(1);
        let mut tr = Trace { prop: 0, flow: Flow::Std, alloc: z, alloc2: z, noise: 0, base_label: 0, order: 0, ops: vec![] };
        let mut in_ops = false;
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            if in_ops {
                tr.ops.push(Op::from_text(l)?);
                continue;
            }
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "ops" => in_ops = true,
                "prop" => tr.prop = v.parse().ok()?,
                "flow" => tr.flow = FLOWS.iter().find(|x| x.0 == v)?.1,
                "alloc" => tr.alloc = AllocCfg::from_text(v),
                "alloc2" => tr.alloc2 = AllocCfg::from_text(v),
                "noise" => tr.noise = v.parse().ok()?,
                "base" => tr.base_label = v.parse().ok()?,
                "order" => tr.order = v.parse().ok()?,
                _ => {}
            }
        }
        Some(tr)
    }

    /// Hash of the schedule: which operations, on which entities, in which order.
    pub fn sig(&self) -> u64 {
        let mut h = 0;
        for o in &self.ops {
            h = mix2(h, o.k as u64);
            for x in o.a.iter().take(3) {
                h = mix2(h, *x);
            }
        }
        h
    }
}

pub struct Made {
    pub trace: Trace,
    pub messages: [u64; 3],
}

pub fn make(prop: u32, seed: u64, thorough: bool) -> Made {
    let debug = DEBUG;
    let mut r = Rng::new(mix2(seed, 0xF10));
    let flow = match prop {
        11 => Flow::Rejected,
        13 => Flow::Phases,
        14 => Flow::Cycles,
        15 => Flow::Twin,
        _ => Flow::Std,
    };
    let mut p = Profile { prop, store_ops: true, res_ops: false, arch_ops: false, bad: false, fail: false, debug };
    match prop {
        16 => p.arch_ops = true,
        9 => {
            p.store_ops = false;
            p.res_ops = true;
        }
        6 => p.bad = debug && r.chance(1, 2),
        10 | 12 | 15 => {
            p.res_ops = r.chance(1, 3);
            p.arch_ops = r.chance(1, 4);
        }
        11 => {
            p.bad = true;
            p.res_ops = debug && r.chance(1, 3);
        }
        14 => {
            p.res_ops = r.chance(1, 4);
            if p.res_ops && r.chance(1, 2) {
                p.store_ops = false;
            }
        }
        _ => {}
    }
    p.fail = prop == 12;
    let mut alloc = AllocCfg::random(&mut r);
    if prop == 14 && alloc.reuse == alloc::Reuse::Never {
        alloc.reuse = alloc::Reuse::Random;
    }
    let mut alloc2 = AllocCfg::random(&mut r);
    if alloc2.junk == alloc.junk {
        alloc2.junk = (alloc.junk + 1 + r.below(4) as u8) % 5;
    }
    let noise = if prop == 15 && r.chance(2, 3) { r.next() | 1 } else { 0 };
    let mut g = Gen::new(mix2(seed, 0x6E), p);
    let steps = match prop {
        12 => *r.pick(&[15usize, 30, 60]),
        14 => *r.pick(&[6usize, 12, 25, 40, 80]),
        _ => *r.pick(&[12usize, 30, 60, 60, 120, 120, 250, 400]),
    };
    let steps = if thorough && prop != 14 && r.chance(1, 5) { steps * 4 } else { steps };
    let mut base_label = 0;
    if flow == Flow::Cycles {
        // some entities live throughout; everything made after them is taken down at the end of each cycle
        let pre = if p.store_ops { r.below(12) } else { 0 };
        g.prelude(pre);
        base_label = g.start_cycle();
    }
    g.run(steps);
    if g.out.iter().any(|o| o.k == K::Pages) {
        // far more memory is asked for than should be touched
        alloc = AllocCfg { fence: 0, redzone: 0, min_align: false, junk: 4, ..alloc };
    }
    if prop == 14 && g.out.iter().any(|o| matches!(o.k, K::Bulk | K::RBulk) && o.u(2) > 1000) {
        // guard pages would cost more than everything else
        alloc.fence = 0;
    }
    let messages = g.messages;
    Made {
        trace: Trace { prop, flow, alloc, alloc2, noise, base_label, order: if r.chance(1, 3) { r.below(2) as u64 } else { 2 + r.below(998) as u64 }, ops: std::mem::take(&mut g.out) },
        messages,
    }
}

fn push_stats(w: &World) {
    let s = status::shared();
    for (i, x) in w.probes.iter().enumerate() {
        s.counts[i] += x;
    }
    let b = P::Count as usize;
    let a = alloc::stats();
    for (i, x) in [a.allocs, a.frees, a.fenced, a.min_aligned, a.reused, a.moved_reallocs, a.junk_filled, a.failed].iter().enumerate() {
        s.counts[b + i] += x;
    }
    s.counts[b + 8] = s.counts[b + 8].max(a.peak_bytes as u64);
    s.counts[b + 9] += w.foreign;
    for x in &w.state_sigs {
        status::mark(&mut s.states, *x);
        s.digest = mix2(s.digest, *x);
    }
    for x in &w.log {
        s.digest = mix2(s.digest, *x);
    }
    for x in s.counts {
        s.digest = mix2(s.digest, x);
    }
}

pub const ALLOC_COUNTS: [&str; 10] = [
    "allocations served",
    "blocks freed",
    "blocks beside a guard page",
    "blocks placed at the minimal alignment",
    "freed memory handed out again",
    "reallocations that moved",
    "fresh blocks filled with junk",
    "allocation requests failed",
    "peak simulated heap bytes",
    "mismatches that concern other properties",
];

/// Executes the operations in order; noise operations on stores of their own come in between.
fn run_ops(w: &mut World, ops: &[Op], noise: u64) -> bool {
    let mut other = if noise != 0 { Some((World::new(0), Gen::noise(noise), 0usize, Rng::new(noise))) } else { None };
    let mut ok = true;
    for op in ops {
        if let Some((nw, nops, at, r)) = &mut other {
            while *at < nops.len() && r.chance(1, 2) {
                let go = nw.exec(&nops[*at]);
                *at += 1;
                w.hit(P::NoiseOps);
                if !go {
                    *at = nops.len();
                }
            }
        }
        if !w.exec(op) {
            ok = false;
            break;
        }
    }
    if let Some((mut nw, ..)) = other {
        if ok {
            nw.teardown();
        }
    }
    ok
}

fn final_sweep(w: &mut World) {
    w.close_all();
    for s in 0..w.stores.len() {
        if w.stores[s].is_some() {
            status::set_op(w.step, C01 | C02 | C03);
            w.exec(&Op::new(K::Sweep, &[s as u64]));
            if w.stopped() {
                return;
            }
        }
    }
    for r in 0..w.res.len() {
        if w.res[r].is_some() {
            w.exec(&Op::new(K::RSweep, &[r as u64]));
        }
    }
}

/// One world from start to finish: operations, a last look at everything, teardown, leak check.
fn whole(focus: u32, cfg: AllocCfg, ops: &[Op], noise: u64) -> World {
    alloc::reset(cfg);
    let mut w = World::new(focus);
    let ok = run_ops(&mut w, ops, noise);
    if ok && !w.stopped() {
        final_sweep(&mut w);
    }
    if ok && !w.stopped() {
        status::set_op(w.step, C09 | C10);
        w.finish();
        w.drain_alloc();
        if w.probes[P::Rejected as usize] == 0 && w.probes[P::ResPanicDrop as usize] == 0 && !w.stopped() && noise == 0 {
            let (n, bytes, biggest) = alloc::leaks();
            if n > 0 {
                w.report(C10, "leak", format!("{n} blocks ({bytes} bytes, the largest {biggest}) are still allocated after everything was dropped"));
            }
        }
    }
    push_stats(&w);
    w
}

fn diff(a: &[u64], ops_a: &[Op], b: &[u64]) -> Option<(usize, String)> {
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            let o = ops_a.get(i).map_or("the last look at everything".to_string(), |o| format!("`{}`", o.to_text()));
            return Some((i, o));
        }
    }
    None
}

fn viol(prop: u32, class: &str, msg: String, step: usize) -> Option<Viol> {
    Some(Viol { mask: 1 << prop, class: class.into(), msg, step })
}

/// Read-only operations, as the phases comparison leaves them out.
fn is_read_phase(o: &Op) -> bool {
    o.is_reading() && !(o.is_query() && o.u(0) >= WRITE_SLOT)
}

/// The comparison trace, for flows that compare.
pub fn reduced(tr: &Trace) -> Vec<Op> {
    match tr.flow {
        Flow::Rejected => {
            let left_out = |o: &Op| if matches!(o.k, K::Bad | K::RBad) { Op::new(K::Pause, &[]) } else { o.clone() };
            tr.ops.iter().map(left_out).collect()
        }
        Flow::Phases => tr.ops.iter().filter(|o| !is_read_phase(o)).cloned().collect(),
        _ => tr.ops.clone(),
    }
}

/// `only_b`: run just the comparison execution (to tell whose crash it is).
pub fn execute(tr: &Trace, only_b: bool, verbose: bool) -> Option<Viol> {
    let focus = 1u32 << tr.prop;
    status::shared().variant = only_b as u64;
    match tr.flow {
        Flow::Std => {
            let mut w = whole_v(focus, tr.alloc, &tr.ops, 0, verbose);
            w.viol.take()
        }
        Flow::Cycles => cycles(tr, verbose),
        Flow::Rejected | Flow::Phases | Flow::Twin => {
            let rb = reduced(tr);
            let skip = |o: &Op| match tr.flow {
                Flow::Rejected => matches!(o.k, K::Bad | K::RBad),
                Flow::Phases => is_read_phase(o),
                _ => false,
            };
            let mut a_log = vec![];
            let mut kept: Vec<Op> = vec![];
            let mut a_foreign = None;
            if !only_b {
                let mut a = whole_v(focus, tr.alloc, &tr.ops, 0, verbose);
                if a.viol.is_some() {
                    return a.viol.take();
                }
                a_foreign = a.foreign_first.take();
                for (i, x) in a.log.iter().enumerate() {
                    match tr.ops.get(i) {
                        Some(o) if skip(o) => {}
                        Some(o) => {
                            kept.push(o.clone());
                            a_log.push(*x)
                        }
                        None => a_log.push(*x),
                    }
                }
            }
            status::shared().variant = 1;
            let (cfg, noise) = if tr.flow == Flow::Twin { (tr.alloc2, tr.noise) } else { (tr.alloc, 0) };
            let mut b = whole_v(focus, cfg, &rb, noise, verbose);
            if only_b {
                return None;
            }
            if b.viol.is_some() {
                return b.viol.take();
            }
            let b_log: Vec<u64> = match tr.flow {
                Flow::Rejected => {
                    b.log.iter().enumerate().filter(|(i, _)| !tr.ops.get(*i).map_or(false, |o| skip(o))).map(|x| *x.1).collect()
                }
                _ => b.log.clone(),
            };
            if let Some((i, o)) = diff(&a_log, &kept, &b_log) {
                let (class, what) = match tr.flow {
                    Flow::Rejected => ("differs-without", "once the rejected calls are left out"),
                    Flow::Phases => ("differs-without", "once the read-only queries and lookups are left out"),
                    _ => ("differs-elsewhere", "in another environment (allocator behaviour, fresh memory, other stores)"),
                };
                let extra = match (&a_foreign, &b.foreign_first) {
                    (Some(v), _) => format!(" ({}: {})", v.class, v.msg),
                    (_, Some(v)) => format!(" (there, {}: {})", v.class, v.msg),
                    _ => String::new(),
                };
                return viol(tr.prop, class, format!("{o} is observed differently {what}{extra}"), i);
            }
            None
        }
    }
}

fn whole_v(focus: u32, cfg: AllocCfg, ops: &[Op], noise: u64, verbose: bool) -> World {
    VERBOSE.with(|v| v.set(verbose));
    whole(focus, cfg, ops, noise)
}

thread_local! {
    pub static VERBOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

// ---------------------------------------------------------------- cycles

const WARM: usize = 48;
const LONG: [usize; 5] = [100, 200, 400, 800, 1600];
/// Operations a footprint run may cost.
const BUDGET: usize = 1_200_000;
/// More than any workload of the generator can need.
const ENOUGH: usize = 400 << 20;

fn shift(op: &Op, base: u64, off: u64) -> Op {
    let mut o = op.clone();
    let mut s = |i: usize| {
        if let Some(x) = o.a.get_mut(i) {
            if *x >= base {
                *x += off;
            }
        }
    };
    match op.k {
        K::OrdNext | K::OrdPrev => {
            s(1);
            s(2);
        }
        K::QOpen => {
            for i in 8..op.a.len() {
                s(i);
            }
        }
        K::OrdScan | K::Sweep | K::QNext | K::QAll | K::QDrop | K::QPanic | K::NewStore | K::Fail | K::RNew | K::RDrop | K::RSweep | K::RSpin => {}
        K::BNew | K::BInc | K::BExc | K::BBuild | K::AWith | K::AClone | K::ADrop | K::ACmp => {}
        K::RBad => s(2),
        K::Bad => {
            s(2);
            s(3);
        }
        _ => s(1),
    }
    o
}

fn cycles(tr: &Trace, verbose: bool) -> Option<Viol> {
    VERBOSE.with(|v| v.set(verbose));
    crate::sys::arm_cpu_limit(3 * crate::SEED_CPU);
    alloc::reset(tr.alloc);
    let mut w = World::new(1 << tr.prop);
    w.sweep_cap = 60;
    // everything before the first operation on a cycle label is done once
    let base = tr.base_label;
    let span = 1u64 << 34;
    let split = tr.ops.iter().position(|o| o.k == K::Sweep && o.u(0) == 77).unwrap_or(0);
    for o in &tr.ops[..split] {
        if !w.exec(o) {
            push_stats(&w);
            return w.viol.take();
        }
    }
    let cyc = &tr.ops[split..];
    // heavy workloads are repeated less often
    let bytes = |o: &Op, i: usize| -> usize {
        let sh = crate::kinds::t().shapes.get(o.u(i));
        sh.map_or(0, |s| s.kinds.iter().map(|k| crate::kinds::t().kinds[*k].size).sum())
    };
    let weigh = |o: &Op| match o.k {
        K::Bulk => o.u(2) * (6 + bytes(o, 3) / 100),
        K::Sets => o.u(2) * 40,
        K::RBulk => o.u(2) * 6,
        K::BulkTag => o.u(2) / o.u(3).max(1),
        K::Add => 4 + bytes(o, 2) / 100,
        _ => 6,
    };
    let cost: usize = cyc.iter().map(weigh).sum::<usize>().max(1);
    let shrink = (0..3).find(|k| cost * (LONG[4] >> k) <= BUDGET).unwrap_or(3);
    let mut long: Vec<usize> = LONG.iter().map(|x| x >> shrink).collect();
    let mut f: Vec<usize> = vec![];
    let mut c = 0usize;
    let mut limit = WARM;
    let mut heavy = false;
    let r = loop {
        if c == limit {
            if c == WARM {
                let m1 = *f[WARM / 2..WARM * 3 / 4].iter().max().unwrap();
                let m2 = *f[WARM * 3 / 4..].iter().max().unwrap();
                if m2 <= m1 {
                    break None;
                }
                limit = long[4].max(WARM);
                heavy = true;
                continue;
            }
            // still growing, and proportionally to the history?
            let at: Vec<usize> = long.iter().map(|x| *f[x * 9 / 10..*x].iter().max().unwrap()).collect();
            let d: Vec<usize> = at.windows(2).map(|x| x[1].saturating_sub(x[0])).collect();
            if (1..d.len()).all(|i| d[i - 1] > 0 && d[i] * 2 >= d[i - 1] * 3) {
                let n = long.len();
                if n == LONG.len() && at[n - 1] < ENOUGH {
                    // it may still settle: pages end up as large as the largest set that ever used them
                    long.extend([c * 2, c * 4]);
                    limit = c * 4;
                    crate::sys::arm_cpu_limit(4 * crate::SEED_CPU);
                    continue;
                }
                break viol(
                    tr.prop,
                    "footprint-grows",
                    format!(
                        "the same workload repeated keeps more and more memory: {} bytes after {} rounds, {} after {}, {} after {}, {} after {}",
                        at[n - 4], long[n - 4], at[n - 3], long[n - 3], at[n - 2], long[n - 2], at[n - 1], long[n - 1]
                    ),
                    c,
                );
            }
            break None;
        }
        let off = span * c as u64;
        w.log.clear();
        w.state_sigs.truncate(200);
        let mut ok = true;
        for o in cyc {
            if heavy && matches!(o.k, K::Sweep) {
                continue;
            }
            if !w.exec(&shift(o, base, off)) {
                ok = false;
                break;
            }
        }
        w.close_all();
        if ok {
            // back to the same population
            for s in 0..w.stores.len() {
                let mut left: Vec<u64> = match &w.stores[s] {
                    Some(sb) => sb.m.ents.iter().filter(|e| e.alive && e.label >= base).map(|e| e.label).collect(),
                    None => continue,
                };
                match tr.order {
                    0 => {}
                    1 => left.reverse(),
                    x => Rng::new(x).shuffle(&mut left),
                }
                for l in left {
                    if !w.exec(&Op::new(K::Destroy, &[s as u64, l])) {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    w.stores[s].as_mut().unwrap().m.forget_dead();
                }
            }
            for r in 0..w.res.len() {
                let left = match &w.res[r] {
                    Some(x) => x.live_labels(),
                    None => continue,
                };
                for l in left.into_iter().filter(|l| *l >= base) {
                    if !w.exec(&Op::new(K::RRelease, &[r as u64, l])) {
                        ok = false;
                        break;
                    }
                }
                if let (true, Some(x)) = (ok, &mut w.res[r]) {
                    x.forget_dead();
                }
            }
        }
        if !ok {
            break w.viol.take();
        }
        w.hit(P::Cycles);
        f.push(alloc::live_bytes());
        c += 1;
    };
    push_stats(&w);
    r
}
