//! Resource stores: element types with a drop ledger, the model of one store, and its oracle.

use crate::alloc::{host, sut};
use crate::op::*;
use crate::rng::{mix, mix2, Rng};
use crate::world::{hkey, spin, FMap};
use division_ecs::{Entity, ResourceStore};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const N_RES_TYPES: usize = 7;

#[derive(Default)]
struct Ledger {
    /// tokens dropped since the last `take`
    events: Vec<u64>,
    /// panic in the n-th drop from now (0 = never), then every `every`
    every: u64,
    count: u64,
    panics: u64,
}

static mut LEDGER: Option<Ledger> = None;

#[allow(static_mut_refs)]
fn ledger() -> &'static mut Ledger {
    unsafe { LEDGER.get_or_insert_with(Default::default) }
}

fn dropped(tok: u64) {
    let boom = host(|| {
        let l = ledger();
        l.events.push(tok);
        if l.every > 0 {
            l.count += 1;
            if l.count % l.every == 0 {
                l.panics += 1;
                return true;
            }
        }
        false
    });
    if boom && !std::thread::panicking() {
        host(|| std::panic::panic_any("destructor"));
    }
}

fn take_events() -> Vec<u64> {
    std::mem::take(&mut ledger().events)
}

pub trait Res: Sized + 'static {
    const DROPS: bool;
    fn make(tok: u64) -> Self;
    fn tok(&self) -> u64;
    fn as_seen(tok: u64) -> u64 {
        tok
    }
}

pub struct Tracked(u64, u64);
pub struct Zst;
pub struct Boxed(Box<u64>);
pub struct Large([u64; 200]);
#[repr(align(64))]
pub struct Al(u64);
pub struct Text(String, u64);

macro_rules! tracked {
    ($t:ident, $mk:expr, $tok:expr) => {
        impl Res for $t {
            const DROPS: bool = true;
            fn make(tok: u64) -> Self {
                let f: fn(u64) -> Self = $mk;
                f(tok)
            }
            fn tok(&self) -> u64 {
                let f: fn(&Self) -> u64 = $tok;
                f(self)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                dropped(self.tok())
            }
        }
    };
}

tracked!(Tracked, |t| Tracked(t, mix(t)), |x| if x.1 == mix(x.0) { x.0 } else { !x.0 });
tracked!(Boxed, |t| Boxed(Box::new(t)), |x| *x.0);
tracked!(
    Large,
    |t| {
        let mut a = [0; 200];
        for (i, x) in a.iter_mut().enumerate() {
            *x = t.wrapping_mul(i as u64 + 1);
        }
        Large(a)
    },
    |x| if (0..200).all(|i| x.0[i] == x.0[0].wrapping_mul(i as u64 + 1)) { x.0[0] } else { !x.0[0] }
);
tracked!(Al, |t| Al(t), |x| x.0);
tracked!(Text, |t| Text(format!("{t:x}"), t), |x| if x.0 == format!("{:x}", x.1) { x.1 } else { !x.1 });

impl Res for Zst {
    const DROPS: bool = true;
    fn make(_: u64) -> Self {
        Zst
    }
    fn tok(&self) -> u64 {
        0
    }
    fn as_seen(_: u64) -> u64 {
        0
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        dropped(0)
    }
}
impl Res for u8 {
    const DROPS: bool = false;
    fn make(t: u64) -> u8 {
        t as u8
    }
    fn tok(&self) -> u64 {
        *self as u64
    }
    fn as_seen(t: u64) -> u64 {
        t as u8 as u64
    }
}

pub struct Seen {
    pub tok: u64,
    pub addr: usize,
    pub align: usize,
}

pub trait ResObj {
    fn create(&mut self, tok: u64) -> Entity;
    fn read(&self, e: Entity) -> Seen;
    fn write(&mut self, e: Entity, tok: u64);
    fn replace(&mut self, e: Entity, tok: u64) -> u64;
    /// Creates a resource and releases it at once.
    fn pass(&mut self, tok: u64) -> Entity;
    /// the moved-out resource's token; the resource is then dropped
    fn release(&mut self, e: Entity) -> (u64, Vec<u64>);
    fn seen(&self, tok: u64) -> u64;
    fn drops(&self) -> bool;
}

impl<T: Res> ResObj for ResourceStore<T> {
    fn create(&mut self, tok: u64) -> Entity {
        let x = T::make(tok);
        sut(|| ResourceStore::create(self, x))
    }
    fn read(&self, e: Entity) -> Seen {
        let r: &T = sut(|| &self[e]);
        let addr = std::hint::black_box(r as *const T as usize);
        Seen { tok: r.tok(), addr, align: std::mem::align_of::<T>() }
    }
    fn write(&mut self, e: Entity, tok: u64) {
        let x = T::make(tok);
        let r: &mut T = sut(|| &mut self[e]);
        *r = x;
    }
    fn replace(&mut self, e: Entity, tok: u64) -> u64 {
        let x = T::make(tok);
        let r: &mut T = sut(|| &mut self[e]);
        let old = std::mem::replace(r, x);
        let t = old.tok();
        drop(old);
        t
    }
    fn pass(&mut self, tok: u64) -> Entity {
        let x = T::make(tok);
        let (e, x) = sut(|| {
            let e = ResourceStore::create(self, x);
            (e, ResourceStore::release(self, e))
        });
        drop(x);
        ledger().events.clear();
        e
    }
    fn release(&mut self, e: Entity) -> (u64, Vec<u64>) {
        let x = sut(|| ResourceStore::release(self, e));
        let ev = take_events();
        let t = x.tok();
        drop(x);
        (t, ev)
    }
    fn seen(&self, tok: u64) -> u64 {
        T::as_seen(tok)
    }
    fn drops(&self) -> bool {
        T::DROPS
    }
}

fn make_store<T: Res>(cap: usize) -> Box<dyn ResObj> {
    Box::new(if cap == usize::MAX { sut(|| ResourceStore::<T>::new()) } else { sut(|| ResourceStore::<T>::with_capacity(cap)) })
}

struct REnt {
    label: u64,
    h: Entity,
    alive: bool,
    tok: u64,
}

pub struct ResSlot {
    pub obj: Option<Box<dyn ResObj>>,
    ents: Vec<REnt>,
    by_label: FMap<u64, u32>,
    by_handle: FMap<u64, u32>,
    live_ids: FMap<u32, u32>,
    alive: usize,
    peak: usize,
    init: usize,
    max_id: u32,
    ty: usize,
}

#[derive(Default)]
pub struct Out {
    pub released: u64,
    pub panics: u64,
    pub reused: u64,
    pub rejected: u64,
    pub caught: u64,
    pub applied: bool,
    pub hash: u64,
}

impl Out {
    fn add(&mut self, o: Out) {
        self.released += o.released;
        self.panics += o.panics;
        self.reused += o.reused;
        self.rejected += o.rejected;
        self.caught += o.caught;
        self.applied |= o.applied;
        self.hash = mix2(self.hash, o.hash);
    }
}

type Rep = Vec<(u32, &'static str, String)>;

/// In `RNew`, this capacity stands for `ResourceStore::new()`.
pub const CAP_NEW: u64 = 999_999;

impl ResSlot {
    pub fn new(ty: usize, cap: usize) -> ResSlot {
        let c = if cap as u64 == CAP_NEW { usize::MAX } else { cap };
        let obj = match ty % N_RES_TYPES {
            0 => make_store::<Tracked>(c),
            1 => make_store::<Zst>(c),
            2 => make_store::<Boxed>(c),
            3 => make_store::<Large>(c),
            4 => make_store::<u8>(c),
            5 => make_store::<Al>(c),
            _ => make_store::<Text>(c),
        };
        take_events();
        ResSlot {
            obj: Some(obj),
            ents: vec![],
            by_label: Default::default(),
            by_handle: Default::default(),
            live_ids: Default::default(),
            alive: 0,
            peak: 0,
            init: if c == usize::MAX { 0 } else { c },
            max_id: 0,
            ty: ty % N_RES_TYPES,
        }
    }

    pub fn live_labels(&self) -> Vec<u64> {
        self.ents.iter().filter(|e| e.alive).map(|e| e.label).collect()
    }

    pub fn forget_dead(&mut self) {
        let old = std::mem::take(&mut self.ents);
        self.by_label.clear();
        self.by_handle.clear();
        self.live_ids.clear();
        for e in old {
            if e.alive {
                let i = self.ents.len() as u32;
                self.live_ids.insert(e.h.id(), i);
                self.by_label.insert(e.label, i);
                self.by_handle.insert((e.h.id() as u64) << 32 | e.h.version() as u64, i);
                self.ents.push(e);
            }
        }
    }

    fn events(&self, rep: &mut Rep, mut got: Vec<u64>, mut want: Vec<u64>, what: &str) {
        let o = self.obj.as_ref();
        if let Some(o) = o {
            if !o.drops() {
                return;
            }
            want = want.into_iter().map(|t| o.seen(t)).collect();
        }
        got.sort_unstable();
        want.sort_unstable();
        if got != want {
            let extra = got.iter().find(|x| !want.contains(x));
            rep.push((
                C09,
                "drops",
                format!("{what}: {} resources were dropped, expected {} ({})", got.len(), want.len(), match extra {
                    Some(x) => format!("an unexpected one is {x:#x}"),
                    None => "each as often as it should not be".to_string(),
                }),
            ));
        }
    }

    pub fn exec(&mut self, op: &Op, rep: &mut Rep) -> Out {
        let mut out = Out::default();
        take_events();
        if op.k == K::RNew {
            out.applied = true;
            return out;
        }
        if op.k == K::RDrop {
            let (p, h) = self.drop_store(op.u(1) as u64, op.u(2) as u64, rep);
            out.panics = p;
            out.caught = (p > 0) as u64;
            out.applied = true;
            out.hash = h;
            return out;
        }
        if op.k == K::RSweep {
            out.applied = true;
            for i in 0..self.ents.len() {
                if self.ents[i].alive {
                    self.check(i, rep, &mut out);
                }
            }
            return out;
        }
        if let K::RBulk | K::RChurn = op.k {
            let (l0, n, v) = (op.a[1], op.u(2), op.a[3]);
            let mut sum = Out { applied: true, ..Out::default() };
            for j in 0..n as u64 {
                let o = self.exec(&Op::new(K::RCreate, &[op.a[0], l0 + j, mix2(v, j)]), rep);
                sum.add(o);
                if op.k == K::RChurn {
                    sum.add(self.exec(&Op::new(K::RRelease, &[op.a[0], l0 + j]), rep));
                }
                if !rep.is_empty() {
                    break;
                }
            }
            return sum;
        }
        if op.k == K::RBulkRelease {
            let (l0, n, stride, phase, order) = (op.a[1], op.u(2), op.u(3).max(1), op.u(4), op.a[5]);
            let mut v: Vec<u64> = (0..n)
                .filter(|j| j % stride == phase % stride)
                .map(|j| l0 + j as u64)
                .filter(|l| self.by_label.get(l).map_or(false, |i| self.ents[*i as usize].alive))
                .collect();
            match order {
                0 => {}
                1 => v.reverse(),
                x => Rng::new(x).shuffle(&mut v),
            }
            let mut sum = Out::default();
            for l in v {
                let o = self.exec(&Op::new(K::RRelease, &[op.a[0], l]), rep);
                sum.add(o);
                if !rep.is_empty() {
                    break;
                }
            }
            return sum;
        }
        if op.k == K::RSpin {
            crate::sys::arm_cpu_limit(crate::SEED_CPU + (op.a[1] >> 22) as i64);
            let h = self.obj.as_mut().unwrap().pass(op.a[2]);
            let known: Vec<u64> = self.live_ids.values().map(|i| hkey(self.ents[*i as usize].h)).take(5).collect();
            let o = self.obj.as_mut().unwrap();
            let mut many = 0;
            let again = spin(op.u(1), h, || {
                let h = o.pass(op.a[2]);
                many += known.contains(&hkey(h)) as u64;
                h
            });
            take_events();
            self.by_handle.entry(hkey(h)).or_insert(u32::MAX);
            if let Some((h, j)) = again {
                rep.push((C09, "handle-reissued", format!("handle ({},{}) was returned again after {j} resources", h.id(), h.version())));
            }
            if many > 0 {
                rep.push((C09, "id-shared", "the handle of a live resource was returned again".into()));
            }
            out.applied = true;
            return out;
        }
        if op.k == K::RCreate {
            let (label, tok) = (op.a[1], op.a[2]);
            if self.by_label.contains_key(&label) {
                return out;
            }
            let h = self.obj.as_mut().unwrap().create(tok);
            let ev = take_events();
            self.events(rep, ev, vec![], "creating a resource");
            let key = (h.id() as u64) << 32 | h.version() as u64;
            if self.by_handle.contains_key(&key) {
                rep.push((C09, "handle-reissued", format!("handle ({},{}) was returned before", h.id(), h.version())));
            }
            if self.live_ids.insert(h.id(), self.ents.len() as u32).is_some() {
                rep.push((C09, "id-shared", format!("id {} belongs to a live resource", h.id())));
            }
            let i = self.ents.len() as u32;
            self.ents.push(REnt { label, h, alive: true, tok });
            self.by_label.insert(label, i);
            self.by_handle.insert(key, i);
            self.alive += 1;
            self.peak = self.peak.max(self.alive);
            if h.id() < self.max_id {
                out.reused = 1;
            }
            self.max_id = self.max_id.max(h.id() + 1);
            if h.id() as usize >= self.init.max(2 * self.peak) {
                rep.push((
                    C14,
                    "capacity-bound",
                    format!("resource id {} issued with at most {} resources alive at once (initial capacity {})", h.id(), self.peak, self.init),
                ));
            }
            out.hash = key;
            out.applied = true;
            self.check(i as usize, rep, &mut out);
            return out;
        }
        let li = if op.k == K::RBad { 2 } else { 1 };
        let i = match self.by_label.get(&op.a[li]) {
            Some(i) => *i as usize,
            None => return out,
        };
        let (h, alive, tok) = (self.ents[i].h, self.ents[i].alive, self.ents[i].tok);
        if op.k == K::RBad {
            if alive {
                return out;
            }
            let kind = op.u(1) % 3;
            let o = self.obj.as_mut().unwrap();
            let oo = AssertUnwindSafe(&mut *o);
            let r = catch_unwind(move || {
                let oo = oo;
                let o = oo.0;
                match kind {
                    0 => {
                        o.release(h);
                    }
                    1 => {
                        o.read(h);
                    }
                    _ => o.write(h, 77),
                }
            });
            out.rejected = 1;
            out.applied = true;
            match r {
                Ok(()) => {
                    let w = ["releasing", "indexing", "mutably indexing"][kind];
                    rep.push((C11, "not-rejected", format!("{w} a resource handle that is not alive was not rejected")));
                }
                Err(p) => {
                    drop(p);
                    out.caught = 1;
                }
            }
            let mut ev = take_events();
            // the value that was to be written is dropped by the unwinding
            if kind == 2 {
                let t = self.obj.as_ref().unwrap().seen(77);
                if let Some(p) = ev.iter().position(|x| *x == t) {
                    ev.remove(p);
                }
            }
            let mut mine: Rep = vec![];
            if !ev.is_empty() {
                mine.push((C09, "drops", "a rejected call dropped a resource".into()));
            }
            let mut o2 = Out::default();
            for i in 0..self.ents.len() {
                if self.ents[i].alive {
                    self.check(i, &mut mine, &mut o2);
                }
            }
            for (m, c, s) in mine {
                rep.push((m | C11, c, s));
            }
            return out;
        }
        if !alive {
            return out;
        }
        out.applied = true;
        match op.k {
            K::RRead => {}
            K::RWrite => {
                self.obj.as_mut().unwrap().write(h, op.a[2]);
                let ev = take_events();
                self.events(rep, ev, vec![tok], "overwriting a resource");
                self.ents[i].tok = op.a[2];
            }
            K::RReplace => {
                let old = self.obj.as_mut().unwrap().replace(h, op.a[2]);
                let ev = take_events();
                self.events(rep, ev, vec![tok], "swapping a resource out");
                let want = self.obj.as_ref().unwrap().seen(tok);
                if old != want {
                    rep.push((C09, "value", format!("resource {} shows {old:#x} instead of {want:#x}", self.ents[i].label)));
                }
                self.ents[i].tok = op.a[2];
            }
            K::RRelease => {
                let (t, inside) = self.obj.as_mut().unwrap().release(h);
                let ev = take_events();
                self.events(rep, inside, vec![], "releasing a resource");
                self.events(rep, ev, vec![tok], "dropping a released resource");
                let want = self.obj.as_ref().unwrap().seen(tok);
                if t != want {
                    rep.push((C09, "released-wrong", format!("releasing resource {} moved out {t:#x} instead of {want:#x}", self.ents[i].label)));
                }
                out.hash = t;
                out.released = 1;
                self.ents[i].alive = false;
                self.live_ids.remove(&h.id());
                self.alive -= 1;
                // a neighbour, if any
                if let Some(j) = (0..self.ents.len()).rev().take(100).find(|j| self.ents[*j].alive) {
                    self.check(j, rep, &mut out);
                }
                return out;
            }
            _ => {
                out.applied = false;
                return out;
            }
        }
        self.check(i, rep, &mut out);
        out
    }

    fn check(&mut self, i: usize, rep: &mut Rep, out: &mut Out) {
        let o = self.obj.as_ref().unwrap();
        let s = o.read(self.ents[i].h);
        let want = o.seen(self.ents[i].tok);
        out.hash = crate::rng::mix2(out.hash, s.tok);
        if s.addr % s.align != 0 {
            rep.push((C10, "misaligned-reference", format!("a resource reference is {} mod {}", s.addr % s.align, s.align)));
        }
        if s.tok != want {
            rep.push((C09, "value", format!("resource {} shows {:#x} instead of {want:#x}", self.ents[i].label, s.tok)));
        }
    }

    /// Drops the store; with `every` > 0 destructors panic now and then. Returns (panics, hash).
    pub fn drop_store(&mut self, every: u64, phase: u64, rep: &mut Rep) -> (u64, u64) {
        let o = match self.obj.take() {
            Some(o) => o,
            None => return (0, 0),
        };
        take_events();
        let drops = o.drops();
        let want: Vec<u64> = self.ents.iter().filter(|e| e.alive).map(|e| o.seen(e.tok)).collect();
        let l = ledger();
        l.every = every;
        l.count = phase;
        l.panics = 0;
        let o = AssertUnwindSafe(o);
        let r = catch_unwind(move || {
            let o = o;
            sut(move || drop(o.0))
        });
        let l = ledger();
        l.every = 0;
        let panics = l.panics;
        let mut got = take_events();
        let threw = r.is_err();
        drop(r);
        if threw && panics == 0 {
            rep.push((C09, "panic", format!("dropping the store panicked: {}", crate::status::last_panic())));
        }
        if drops {
            let mut want = want;
            want.sort_unstable();
            got.sort_unstable();
            if !threw {
                if got != want {
                    rep.push((
                        C09,
                        "store-drop",
                        format!("dropping a store (element type {}) with {} resources dropped {}", self.ty, want.len(), got.len()),
                    ));
                }
            } else {
                // after a panicking destructor the rest may be lost, but nothing is dropped twice
                let mut w = want.iter();
                for g in &got {
                    match w.find(|x| *x >= g) {
                        Some(x) if x == g => {}
                        _ => {
                            rep.push((C09, "dropped-twice", format!("after a destructor panicked, {g:#x} was dropped again or should not exist")));
                            break;
                        }
                    }
                }
            }
        }
        self.ents.clear();
        self.by_label.clear();
        self.by_handle.clear();
        self.live_ids.clear();
        (panics, got.len() as u64)
    }
}
