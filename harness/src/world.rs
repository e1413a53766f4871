//! The simulated world: real stores and resource stores, the reference models stepped beside them, and the oracles.

use crate::alloc::{self, sut};
use crate::archs::*;
use crate::kinds::*;
use crate::op::*;
use crate::query::*;
use crate::res::ResSlot;
use crate::rng::{mix2, Rng};
use crate::status;
use division_ecs::{ArchetypeBuilder, Entity, Store};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct FixedHasher(u64);
impl Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix2(self.0, *x as u64);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = mix2(self.0, x as u64);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = mix2(self.0, x);
    }
}
pub type FMap<A, B> = HashMap<A, B, BuildHasherDefault<FixedHasher>>;

pub const NONE: u32 = u32::MAX;
/// Queries that write use slots from here on; they run alone.
pub const WRITE_SLOT: usize = 100;
/// Traces never hold more than this many entities at once.
pub const MAX_ALIVE: usize = 140_000;

#[derive(Clone)]
pub struct Ent {
    pub label: u64,
    pub h: Entity,
    pub alive: bool,
    pub mask: u32,
    /// digest per kind in the mask; None = never written
    pub vals: Vec<(u8, Option<u64>)>,
    pub tags: u128,
    /// groups this entity is a member of
    pub groups: u128,
}

impl Ent {
    pub fn val(&self, k: usize) -> Option<u64> {
        self.vals.iter().find(|x| x.0 as usize == k).and_then(|x| x.1)
    }
    fn set(&mut self, k: usize, v: Option<u64>) {
        if let Some(x) = self.vals.iter_mut().find(|x| x.0 as usize == k) {
            x.1 = v;
        } else {
            self.vals.push((k as u8, v));
            self.mask |= 1 << k;
        }
    }
    fn unset(&mut self, k: usize) {
        self.vals.retain(|x| x.0 as usize != k);
        self.mask &= !(1u32 << k);
    }
}

/// The reference model of one store.
pub struct Model {
    pub ents: Vec<Ent>,
    pub by_label: FMap<u64, u32>,
    pub by_handle: FMap<u64, u32>,
    pub groups: Vec<Vec<u32>>,
    pub alive: usize,
    pub peak: usize,
    pub init_cap: usize,
    pub ids_seen: u32,
}

/// The j-th component set over `pool`, in an order that depends on the seed.
pub fn set_number(pool: u32, seed: u64, j: usize) -> u32 {
    let ks: Vec<usize> = kinds_in(pool).collect();
    let x = (j as u64).wrapping_mul(seed | 1).wrapping_add(seed >> 7);
    ks.iter().enumerate().filter(|(b, _)| x >> b & 1 == 1).fold(0, |m, (_, k)| m | 1 << k)
}

pub fn hkey(e: Entity) -> u64 {
    (e.id() as u64) << 32 | e.version() as u64
}

impl Model {
    fn new(cap: usize) -> Self {
        Model {
            ents: vec![],
            by_label: Default::default(),
            by_handle: Default::default(),
            groups: vec![vec![]; MAX_TAGS],
            alive: 0,
            peak: 0,
            init_cap: cap,
            ids_seen: 0,
        }
    }
    pub fn idx(&self, label: u64) -> Option<u32> {
        self.by_label.get(&label).copied()
    }
    pub fn of(&self, e: Entity) -> Option<u32> {
        self.by_handle.get(&hkey(e)).copied()
    }
    /// Forgets dead entities (only used between the cycles of footprint runs).
    pub fn forget_dead(&mut self) {
        let old = std::mem::take(&mut self.ents);
        let mut map = vec![NONE; old.len()];
        self.by_label.clear();
        self.by_handle.clear();
        for (i, e) in old.into_iter().enumerate() {
            if e.alive {
                map[i] = self.ents.len() as u32;
                self.by_label.insert(e.label, map[i]);
                self.by_handle.insert(hkey(e.h), map[i]);
                self.ents.push(e);
            }
        }
        for g in &mut self.groups {
            for x in g {
                *x = map[*x as usize];
            }
        }
    }
}

pub struct StoreBox {
    pub s: Box<Store>,
    pub m: Model,
}

struct OpenQ {
    it: Box<dyn It>,
    obj: Box<dyn QObj>,
    key: (usize, usize, usize, usize),
    s: usize,
    spec: Spec,
    solo: Vec<Item>,
    pos: usize,
    ended: bool,
    wv: u64,
    before: Vec<(u32, Vec<u64>)>,
    /// positions that were yielded and so written
    wrote: Vec<usize>,
    /// items taken before the iterator is asked for entities
    pre: usize,
    _list: Box<[Entity]>,
}

#[derive(Clone)]
pub struct Spec {
    pub qk: usize,
    pub acc: usize,
    pub tag: usize,
    pub mode: usize,
    pub list: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub mask: u32,
    pub class: String,
    pub msg: String,
    pub step: usize,
}

macro_rules! probes {
    ($($v:ident $name:literal),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq)]
        pub enum P { $($v),* , Count }
        pub const PROBES: &[&str] = &[$($name),*];
    };
}

probes! {
    Ops "operations executed",
    IdReused "creates that reused an id",
    StoreGrew "store growths",
    StaleCall "calls through a stale handle",
    Migrated "archetype migrations",
    ArchEmptied "component sets that lost their last entity",
    ArchRevived "component sets repopulated after being empty",
    LastRemoved "last component of an entity removed",
    Destroyed "entities destroyed",
    QueryRun "queries run to the end",
    QueryItems "items yielded by queries",
    QueryReused "queries opened with a used query object",
    Finished "queries used up by for_each, count, last or collect",
    Nth "query items reached by nth",
    Interleaved "queries advanced while another was open",
    Abandoned "queries dropped part-way",
    LoopPanic "panics unwound through a query loop",
    WriteItem "components written through queries",
    FilterRun "tag-filtered queries run",
    OrdInsertMid "insertions in the middle of an order group",
    OrdRemove "removals from order groups",
    Rejected "rejected calls injected",
    StoreDropped "stores dropped",
    ListStale "stale entries in query lists",
    OrdNoComp "ordered members without the queried components",
    ResRelease "resources released",
    ResPanicDrop "destructor panics injected",
    ResGrew "resource ids reused",
    FailDelivered "allocation failures delivered",
    FailAborted "processes stopped with the allocation error",
    FailPanicked "operations that panicked on a failed allocation",
    FailSurvived "operations that completed without the memory",
    MultiPage "component sets spread over several pages (estimated)",
    Cycles "workload cycles",
    NoiseOps "operations on other stores interleaved",
    Skipped "operations skipped as inapplicable",
    SetsCompared "archetypes compared with sets",
    ManyPages "more data pages than fit in sixteen bits",
    Throng "hundreds of component and tag types in one store",
    Mass "stores of more than a million entities",
    ManySets "more than 256 component sets at once",
    ManyTags "more than 64 tag types or order groups",
    LongSkip "untagged stretches over 10000 entities filtered",
}

pub struct World {
    pub focus: u32,
    pub stores: Vec<Option<StoreBox>>,
    pub res: Vec<Option<ResSlot>>,
    pub builders: Vec<BuilderSlot>,
    pub archs: Vec<ArchSlot>,
    pool: BTreeMap<(usize, usize, usize, usize), Box<dyn QObj>>,
    open: BTreeMap<usize, OpenQ>,
    pub viol: Option<Viol>,
    pub foreign: u64,
    pub foreign_first: Option<Viol>,
    pub log: Vec<u64>,
    cur: u64,
    pub step: usize,
    pub probes: Vec<u64>,
    pub panics_caught: u64,
    pub pending_fail: Option<(u64, bool)>,
    pub arch_pop: BTreeMap<(usize, u32), (u64, bool)>,
    extra: u32,
    pub in_child: bool,
    pub sweep_cap: usize,
    n_tags: usize,
    phase_many: bool,
    pub state_sigs: Vec<u64>,
    pub verbose: bool,
}

pub const DEBUG: bool = cfg!(debug_assertions);

impl World {
    pub fn new(focus: u32) -> Self {
        World {
            focus,
            stores: (0..4).map(|_| None).collect(),
            res: (0..4).map(|_| None).collect(),
            builders: (0..N_BUILDERS).map(|_| None).collect(),
            archs: (0..N_ARCHS).map(|_| None).collect(),
            pool: Default::default(),
            open: Default::default(),
            viol: None,
            foreign: 0,
            foreign_first: None,
            log: vec![],
            cur: 0,
            step: 0,
            probes: vec![0; P::Count as usize],
            panics_caught: 0,
            pending_fail: None,
            arch_pop: Default::default(),
            extra: 0,
            in_child: false,
            sweep_cap: 400,
            n_tags: N_TAGS,
            phase_many: false,
            state_sigs: vec![],
            verbose: crate::flow::VERBOSE.with(|v| v.get()),
        }
    }

    pub fn hit(&mut self, p: P) {
        self.probes[p as usize] += 1;
    }

    fn hitn(&mut self, p: P, n: u64) {
        self.probes[p as usize] += n;
    }

    pub fn note(&mut self, x: u64) {
        self.cur = mix2(self.cur, x);
    }

    pub fn report(&mut self, mask: u32, class: &str, msg: String) {
        let v = Viol { mask: mask | self.extra, class: class.to_string(), msg, step: self.step };
        if self.verbose {
            eprintln!("report at step {}: mask {:#x} {} {}", v.step, v.mask, v.class, v.msg);
        }
        if v.mask & self.focus != 0 {
            if self.viol.is_none() {
                self.viol = Some(v);
            }
        } else {
            self.foreign += 1;
            if self.foreign_first.is_none() {
                self.foreign_first = Some(v);
            }
        }
    }

    pub fn stopped(&self) -> bool {
        self.viol.is_some()
    }

    pub fn drain_alloc(&mut self) {
        if let Some((class, msg)) = alloc::take_violation() {
            self.report(C10, class, msg);
        }
    }

    /// Properties contradicted when this (valid) operation panics, hangs or crashes in the present state.
    fn op_owners(&self, op: &Op) -> u32 {
        let many = if self.open.len() > 1 { C13 } else { 0 };
        match op.k {
            K::QNext | K::QAll | K::QDrop | K::QPanic => {
                let q = self.open.get(&op.u(0)).map(|q| qprop(&q.spec));
                let c = if matches!(op.k, K::QDrop | K::QPanic) { C13 } else { 0 };
                q.unwrap_or(C04 | C07 | C08) | many | c
            }
            _ if op.is_reading() => owners(op) | many,
            _ => owners(op),
        }
    }

    /// Executes one operation; its observations go to the log. Returns false when the run must stop.
    pub fn exec(&mut self, op: &Op) -> bool {
        self.cur = op.k as u64;
        let own = self.op_owners(op);
        status::set_op(self.step, own);
        self.hit(P::Ops);
        if !op.is_reading() {
            self.close_all();
            status::set_op(self.step, own);
        }
        let mut tried = None;
        if let (Some((n, sticky)), true) = (self.pending_fail, op.k != K::Fail) {
            self.pending_fail = None;
            if !self.in_child && self.foreign == 0 {
                let t = crate::fail::try_op(self, op, n, sticky);
                status::set_op(self.step, own);
                crate::fail::count(self, &t);
                tried = Some(t);
            }
        }
        self.extra = 0;
        let r = {
            let w = AssertUnwindSafe(&mut *self);
            catch_unwind(move || {
                let w = w;
                w.0.dispatch(op)
            })
        };
        self.extra = 0;
        let mut go = true;
        match r {
            Ok(true) => {}
            Ok(false) => {
                self.hit(P::Skipped);
                self.cur = 0;
            }
            Err(p) => {
                drop(p);
                self.panics_caught += 1;
                let msg = format!("unexpected panic in `{}`: {}", op.to_text(), status::last_panic());
                self.report(own, "panic", msg);
                // the library's state is unknown now
                go = false;
            }
        }
        self.drain_alloc();
        if self.step % 16 == 0 {
            alloc::check_all();
            self.drain_alloc();
        }
        if let Some(crate::fail::Tried::Bad(class, msg)) = tried {
            // blamed on the failed allocation only if the same operation is right without the failure
            if self.foreign == 0 && self.viol.is_none() && go {
                self.report(C12, &class, format!("with a failed allocation, `{}`: {msg}", op.to_text()));
            }
        }
        self.log.push(self.cur);
        self.step += 1;
        go && !self.stopped()
    }

    fn dispatch(&mut self, op: &Op) -> bool {
        // while a write query is open, only it runs
        if op.is_reading() && self.open.values().any(|q| q.wv != 0) && !(op.is_query() && op.u(0) >= WRITE_SLOT) {
            return false;
        }
        match op.k {
            K::NewStore => {
                let (s, cap) = (op.u(0), op.u(1).max(1));
                if s >= self.stores.len() {
                    return false;
                }
                self.drop_store(s);
                let st = sut(|| Store::with_capacity(cap));
                self.stores[s] = Some(StoreBox { s: Box::new(st), m: Model::new(cap) });
                let c = self.stores[s].as_ref().unwrap().s.entities_capacity();
                self.note(c as u64);
                true
            }
            K::Fail => {
                self.pending_fail = Some((op.a[0].max(1), op.u(1) != 0));
                true
            }
            K::Pause => true,
            K::RNew | K::RCreate | K::RRead | K::RWrite | K::RReplace | K::RRelease | K::RDrop | K::RBad | K::RSweep
            | K::RBulk | K::RChurn | K::RBulkRelease | K::RSpin => {
                self.dispatch_res(op)
            }
            K::BNew | K::BInc | K::BExc | K::BBuild | K::AWith | K::AClone | K::ADrop | K::ACmp => self.dispatch_archs(op),
            K::QNext | K::QAll | K::QDrop | K::QPanic => self.dispatch_query(op),
            K::QOpen => {
                let s = op.u(1);
                if s >= self.stores.len() || self.stores[s].is_none() {
                    return false;
                }
                self.query_open(op)
            }
            _ => {
                let s = op.u(0);
                if s >= self.stores.len() || self.stores[s].is_none() {
                    return false;
                }
                self.dispatch_store(s, op)
            }
        }
    }

    pub fn sb(&self, s: usize) -> &StoreBox {
        self.stores[s].as_ref().unwrap()
    }

    fn sbm(&mut self, s: usize) -> &mut StoreBox {
        self.stores[s].as_mut().unwrap()
    }

    pub fn drop_store(&mut self, s: usize) {
        self.close_all();
        if let Some(sb) = self.stores[s].take() {
            self.hit(P::StoreDropped);
            let StoreBox { s: st, m: _m } = sb;
            sut(move || drop(st));
            self.arch_pop.retain(|k, _| k.0 != s);
        }
    }

    /// The end of a run: stores and resource stores are dropped and judged.
    pub fn finish(&mut self) {
        self.close_all();
        for s in 0..self.stores.len() {
            self.drop_store(s);
        }
        for r in 0..self.res.len() {
            if let Some(mut slot) = self.res[r].take() {
                let mut rep = vec![];
                slot.drop_store(0, 0, &mut rep);
                self.res_reports(rep);
            }
        }
        self.pool.clear();
        self.drop_archs();
        alloc::check_all();
        self.drain_alloc();
    }

    /// Drops everything that lives in the simulated heap.
    pub fn teardown(&mut self) {
        self.close_all();
        for s in 0..self.stores.len() {
            self.drop_store(s);
        }
        for r in 0..self.res.len() {
            if let Some(mut slot) = self.res[r].take() {
                slot.obj.take().map(|o| sut(move || drop(o)));
            }
        }
        self.pool.clear();
        self.drop_archs();
        alloc::check_all();
        self.drain_alloc();
    }

    // ---------------------------------------------------------------- model helpers

    fn created(&mut self, s: usize, label: u64, h: Entity, mask: u32) -> u32 {
        let cap = self.sb(s).s.entities_capacity();
        let m = &mut self.sbm(s).m;
        let mut bad = None;
        if let Some(o) = m.of(h) {
            bad = Some(format!("handle ({},{}) was returned before, for entity {}", h.id(), h.version(), m.ents[o as usize].label));
        }
        let i = m.ents.len() as u32;
        m.ents.push(Ent {
            label,
            h,
            alive: true,
            mask: 0,
            vals: vec![],
            tags: 0,
            groups: 0,
        });
        m.by_label.insert(label, i);
        m.by_handle.insert(hkey(h), i);
        for k in kinds_in(mask) {
            m.ents[i as usize].set(k, None);
        }
        m.alive += 1;
        m.peak = m.peak.max(m.alive);
        let reused = h.id() < m.ids_seen;
        m.ids_seen = m.ids_seen.max(h.id() + 1);
        let (peak, init) = (m.peak, m.init_cap);
        if mask != 0 {
            self.pop_inc(s, mask);
        }
        if reused {
            self.hit(P::IdReused);
        } else if h.id() as usize >= init && h.id() as usize * 2 == cap {
            self.hit(P::StoreGrew);
        }
        if let Some(b) = bad {
            self.report(C01, "handle-reissued", b);
        }
        if cap > init.max(2 * peak) {
            self.report(
                C14,
                "capacity-bound",
                format!("entity capacity {cap} with at most {peak} entities alive at once (initial capacity {init})"),
            );
        }
        if h.id() as usize >= cap {
            self.report(C01 | C14, "id-out-of-range", format!("id {} with capacity {cap}", h.id()));
        }
        self.note(hkey(h));
        self.note(cap as u64);
        i
    }

    fn pop_inc(&mut self, s: usize, mask: u32) {
        let e = self.arch_pop.entry((s, mask)).or_insert((0, false));
        e.0 += 1;
        if e.1 {
            e.1 = false;
            self.probes[P::ArchRevived as usize] += 1;
        }
    }

    fn pop_dec(&mut self, s: usize, mask: u32) {
        if mask == 0 {
            return;
        }
        let e = self.arch_pop.entry((s, mask)).or_insert((0, false));
        if e.0 > 0 {
            e.0 -= 1;
            if e.0 == 0 {
                e.1 = true;
                self.probes[P::ArchEmptied as usize] += 1;
            }
        }
    }

    fn set_mask_pop(&mut self, s: usize, old: u32, new: u32) {
        if old != new {
            self.pop_dec(s, old);
            if new != 0 {
                self.pop_inc(s, new);
            }
            self.hit(P::Migrated);
        }
    }

    fn died(&mut self, s: usize, i: u32) {
        let m = &mut self.sbm(s).m;
        let e = &mut m.ents[i as usize];
        e.alive = false;
        let mask = e.mask;
        let groups = e.groups;
        e.mask = 0;
        e.vals.clear();
        e.tags = 0;
        e.groups = 0;
        m.alive -= 1;
        if groups != 0 {
            for g in 0..MAX_TAGS {
                if groups >> g & 1 == 1 {
                    m.groups[g].retain(|x| *x != i);
                }
            }
        }
        self.pop_dec(s, mask);
        self.hit(P::Destroyed);
    }

    fn misaligned(&mut self, it: &Item, what: &str) {
        if let Some((k, a)) = it.misaligned {
            self.report(
                C10,
                "misaligned-reference",
                format!(
                    "{what} yielded a reference to {} (align {}) at an address that is {} mod {}",
                    t().kinds[k].name,
                    t().kinds[k].align,
                    a % t().kinds[k].align,
                    t().kinds[k].align
                ),
            );
        }
    }

    // ---------------------------------------------------------------- store operations

    /// The looks at an entity go through all tags that writing operations have used.
    fn note_tag(&mut self, tg: usize) {
        if (self.n_tags..MAX_TAGS).contains(&tg) {
            self.n_tags = tg + 1;
            if tg >= 64 {
                self.hit(P::ManyTags);
            }
        }
    }

    fn dispatch_store(&mut self, s: usize, op: &Op) -> bool {
        let tb = t();
        match op.k {
            K::Tag | K::Untag | K::Ord | K::Unord => self.note_tag(op.u(2)),
            K::OrdNext | K::OrdPrev => self.note_tag(op.u(3)),
            K::BulkTag | K::BulkOrd => self.note_tag(op.u(5)),
            _ => {}
        }
        match op.k {
            K::Create => {
                let label = op.a[1];
                if self.sb(s).m.by_label.contains_key(&label) || self.sb(s).m.alive >= MAX_ALIVE {
                    return false;
                }
                let st = &mut self.sbm(s).s;
                let h = sut(|| st.create_entity());
                self.created(s, label, h, 0);
                true
            }
            K::CreateArch => {
                let (label, mask, how, v) = (op.a[1], op.a[2] as u32, op.a[3], op.a[4]);
                if self.sb(s).m.by_label.contains_key(&label) || mask == 0 || mask >> N_KINDS != 0 || !fits(mask) {
                    return false;
                }
                let arch = match self.make_arch(mask, how) {
                    Some(a) => a,
                    None => return false,
                };
                let st = &mut self.sbm(s).s;
                let h = sut(|| st.create_entity_with_archetype(&arch));
                sut(move || drop(arch));
                let i = self.created(s, label, h, mask);
                if v != 0 {
                    for k in kinds_in(mask) {
                        self.do_write(s, i, k, v);
                    }
                }
                true
            }
            K::Bulk => {
                let (l0, n, shape, v, how) = (op.a[1], op.u(2), op.u(3), op.a[4], op.u(5));
                if self.sb(s).m.alive + n > MAX_ALIVE {
                    return false;
                }
                if shape < tb.shapes.len() && !fits(mask_of(tb.shapes[shape].kinds)) {
                    return false;
                }
                for j in 0..n {
                    let label = l0 + j as u64;
                    if self.sb(s).m.by_label.contains_key(&label) {
                        continue;
                    }
                    if shape >= tb.shapes.len() {
                        let st = &mut self.sbm(s).s;
                        let h = sut(|| st.create_entity());
                        self.created(s, label, h, 0);
                        continue;
                    }
                    let mask = mask_of(tb.shapes[shape].kinds);
                    let i = if how == 0 {
                        let st = &mut self.sbm(s).s;
                        let h = sut(|| st.create_entity());
                        self.created(s, label, h, 0)
                    } else {
                        let arch = sut(|| (tb.shapes[shape].arch)());
                        let st = &mut self.sbm(s).s;
                        let h = sut(|| st.create_entity_with_archetype(&arch));
                        sut(move || drop(arch));
                        self.created(s, label, h, mask)
                    };
                    self.do_add(s, i, shape, mix2(v, j as u64));
                    if self.stopped() {
                        return true;
                    }
                }
                true
            }
            K::Pages => {
                // rows so big that every entity has a data page of its own; nothing is written to them
                let (l0, n, sets) = (op.a[1], op.u(2), op.u(3));
                let small: [usize; 6] = [0, 1, 2, 3, 4, 7];
                let mask = |x: usize| small.iter().enumerate().filter(|(b, _)| x >> b & 1 == 1).fold(1u32 << 14 | 1 << 28, |m, (_, k)| m | 1 << k);
                if self.sb(s).m.alive + n > MAX_ALIVE || sets == 0 || sets > 64 || !(0..sets).all(|x| fits(mask(x))) {
                    return false;
                }
                crate::alloc::raise_budget();
                let archs: Vec<_> = (0..sets).map(|x| (mask(x), self.make_arch(mask(x), 1).unwrap())).collect();
                for j in 0..n {
                    let label = l0 + j as u64;
                    if self.sb(s).m.by_label.contains_key(&label) {
                        continue;
                    }
                    let (m, a) = &archs[j % sets];
                    let st = &mut self.sbm(s).s;
                    let h = sut(|| st.create_entity_with_archetype(a));
                    self.created(s, label, h, *m);
                    if self.stopped() {
                        break;
                    }
                }
                sut(move || drop(archs));
                self.hit(P::ManyPages);
                true
            }
            K::Sets => {
                // entities with component sets that all differ
                let (l0, n, pool, how, v) = (op.a[1], op.u(2), op.a[3] as u32, op.a[4], op.a[5]);
                if pool == 0 || pool >> N_KINDS != 0 || pool.count_ones() > 12 || !fits(pool) || self.sb(s).m.alive + n > MAX_ALIVE {
                    return false;
                }
                let mut ks: Vec<usize> = kinds_in(pool).collect();
                Rng::new(how).shuffle(&mut ks);
                for j in 0..n {
                    let label = l0 + j as u64;
                    if self.sb(s).m.by_label.contains_key(&label) {
                        continue;
                    }
                    let mask = set_number(pool, v, j);
                    let mine = ks.iter().copied().filter(|k| mask >> k & 1 == 1);
                    let w = mix2(v, j as u64);
                    if how & 1 == 0 && mask != 0 {
                        let arch = self.make_arch(mask, how % 1000).unwrap();
                        let st = &mut self.sbm(s).s;
                        let h = sut(|| st.create_entity_with_archetype(&arch));
                        sut(move || drop(arch));
                        let i = self.created(s, label, h, mask);
                        for k in mine {
                            self.do_write(s, i, k, w);
                        }
                    } else {
                        let st = &mut self.sbm(s).s;
                        let h = sut(|| st.create_entity());
                        let i = self.created(s, label, h, 0);
                        for k in mine {
                            self.do_add(s, i, k, w);
                        }
                    }
                    if self.stopped() {
                        return true;
                    }
                }
                if n > 256 {
                    self.hit(P::ManySets);
                }
                true
            }
            K::Churn => {
                // short-lived entities, one after the other, on the same id
                let (l0, n, shape, v, extra) = (op.a[1], op.u(2), op.u(3), op.a[4], op.u(5));
                if self.sb(s).m.alive >= MAX_ALIVE || shape < tb.shapes.len() && !fits(mask_of(tb.shapes[shape].kinds)) {
                    return false;
                }
                for j in 0..n {
                    let label = l0 + j as u64;
                    if self.sb(s).m.by_label.contains_key(&label) {
                        continue;
                    }
                    let st = &mut self.sbm(s).s;
                    let h = sut(|| st.create_entity());
                    let i = self.created(s, label, h, 0);
                    if shape < tb.shapes.len() {
                        self.do_add(s, i, shape, mix2(v, j as u64));
                    }
                    if extra & 1 == 1 {
                        self.do_tag(s, i, extra >> 4 & 3, K::Tag);
                    }
                    if extra & 2 == 2 {
                        self.do_ord(s, i, None, extra >> 4 & 3, K::Ord);
                    }
                    self.do_destroy(s, i);
                    if self.stopped() {
                        break;
                    }
                }
                true
            }
            K::Throng => {
                let (seed, steps, types, tags, cap) = (op.a[1], op.u(2), op.u(3), op.u(4), op.u(5));
                if steps > 100_000 || cap > 1_000_000 {
                    return false;
                }
                if let Some((mask, class, msg)) = crate::throng::throng(steps, types, tags, cap, seed, &mut || crate::sys::arm_cpu_limit(crate::SEED_CPU)) {
                    self.report(mask, class, format!("in a store with {types} component types and {tags} tag types: {msg}"));
                }
                self.hit(P::Throng);
                true
            }
            K::Mass => {
                let (seed, n, cap) = (op.a[1], op.u(2), op.u(3));
                if n < 16 || n > 40_000_000 || cap > n {
                    return false;
                }
                if n > 4_000_000 {
                    crate::alloc::raise_budget();
                }
                let secs = crate::SEED_CPU + (n >> 18) as i64;
                if let Some((mask, class, msg)) = crate::mass::mass(n, cap, seed, &mut || crate::sys::arm_cpu_limit(secs)) {
                    self.report(mask, class, format!("in a store of {n} entities: {msg}"));
                }
                self.hit(P::Mass);
                true
            }
            K::Spin => {
                // very many short-lived entities without components; no handle may come back
                if self.sb(s).m.alive >= MAX_ALIVE || self.sb(s).m.by_label.contains_key(&op.a[1]) {
                    return false;
                }
                let n = op.u(2);
                crate::sys::arm_cpu_limit(crate::SEED_CPU + (n >> 22) as i64);
                let st = &mut self.sbm(s).s;
                let h = sut(|| st.create_entity());
                let i = self.created(s, op.a[1], h, 0);
                self.do_destroy(s, i);
                if self.stopped() {
                    return true;
                }
                let again = spin(n, h, || {
                    let st = &mut self.sbm(s).s;
                    sut(|| {
                        let e = st.create_entity();
                        st.destroy_entity(e);
                        e
                    })
                });
                if let Some((h, j)) = again {
                    self.report(C01, "handle-reissued", format!("handle ({},{}) was returned again after {j} entities", h.id(), h.version()));
                }
                self.check_alive(s, i);
                true
            }
            K::Destroy => {
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if self.sb(s).m.ents[i as usize].alive => i,
                    _ => return false,
                };
                self.do_destroy(s, i);
                true
            }
            K::BulkDestroy => {
                let (l0, n, stride, phase, order) = (op.a[1], op.u(2), op.u(3).max(1), op.u(4), op.a[5]);
                let mut v: Vec<u32> = (0..n)
                    .filter(|j| j % stride == phase % stride)
                    .filter_map(|j| self.sb(s).m.idx(l0 + j as u64))
                    .filter(|i| self.sb(s).m.ents[*i as usize].alive)
                    .collect();
                match order {
                    0 => {}
                    1 => v.reverse(),
                    x => Rng::new(x).shuffle(&mut v),
                }
                if v.is_empty() {
                    return false;
                }
                for i in v {
                    self.do_destroy(s, i);
                    if self.stopped() {
                        break;
                    }
                }
                true
            }
            K::Add => {
                let shape = op.u(2);
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if shape < tb.plain => i,
                    _ => return false,
                };
                let e = &self.sb(s).m.ents[i as usize];
                if !fits(e.mask | mask_of(tb.shapes[shape].kinds)) {
                    return false;
                }
                self.do_add(s, i, shape, op.a[3]);
                true
            }
            K::Remove => {
                let shape = op.u(2);
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if shape < tb.shapes.len() => i,
                    _ => return false,
                };
                let (h, alive, old) = {
                    let e = &self.sb(s).m.ents[i as usize];
                    (e.h, e.alive, e.mask)
                };
                let st = &mut self.sbm(s).s;
                (tb.shapes[shape].remove)(st, h);
                if alive {
                    let e = &mut self.sbm(s).m.ents[i as usize];
                    for k in tb.shapes[shape].kinds {
                        e.unset(*k);
                    }
                    let new = e.mask;
                    if old != 0 && new == 0 {
                        self.hit(P::LastRemoved);
                    }
                    self.set_mask_pop(s, old, new);
                    self.check_arch(s, i);
                    self.check_entity_values(s, i);
                } else {
                    self.hit(P::StaleCall);
                    self.check_entity(s, i);
                }
                true
            }
            K::Write => {
                let shape = op.u(2);
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if shape < tb.plain => i,
                    _ => return false,
                };
                self.do_write(s, i, shape, op.a[3]);
                true
            }
            K::Read => {
                let shape = op.u(2);
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if shape < tb.shapes.len() => i,
                    _ => return false,
                };
                self.check_look(s, i, shape);
                true
            }
            K::Arch => {
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) => i,
                    _ => return false,
                };
                self.check_arch(s, i);
                true
            }
            K::Alive => {
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) => i,
                    _ => return false,
                };
                self.check_alive(s, i);
                true
            }
            K::Tag | K::Untag | K::HasTag => {
                let tg = op.u(2);
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if tg < MAX_TAGS => i,
                    _ => return false,
                };
                self.do_tag(s, i, tg, op.k);
                true
            }
            K::BulkTag => {
                let (l0, n, stride, phase, tg) = (op.a[1], op.u(2), op.u(3).max(1), op.u(4), op.u(5));
                if tg >= MAX_TAGS {
                    return false;
                }
                for j in (0..n).filter(|j| j % stride == phase % stride) {
                    if let Some(i) = self.sb(s).m.idx(l0 + j as u64) {
                        self.do_tag(s, i, tg, K::Tag);
                        if self.stopped() {
                            break;
                        }
                    }
                }
                true
            }
            K::BulkOrd => {
                let (l0, n, stride, phase, g) = (op.a[1], op.u(2), op.u(3).max(1), op.u(4), op.u(5));
                if g >= MAX_TAGS {
                    return false;
                }
                for j in (0..n).filter(|j| j % stride == phase % stride) {
                    if let Some(i) = self.sb(s).m.idx(l0 + j as u64) {
                        let sb = self.sbm(s);
                        let e = &sb.m.ents[i as usize];
                        let (h, alive, member) = (e.h, e.alive, e.groups >> g & 1 == 1);
                        if member {
                            continue;
                        }
                        (TAGS[g].ord)(&mut sb.s, h);
                        if alive {
                            sb.m.groups[g].push(i);
                            sb.m.ents[i as usize].groups |= 1 << g;
                        }
                    }
                }
                self.check_group(s, g, None);
                true
            }
            K::Ord | K::OrdNext | K::OrdPrev => {
                let (rel, g) = if op.k == K::Ord { (None, op.u(2)) } else { (Some(op.a[2]), op.u(3)) };
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if g < MAX_TAGS => i,
                    _ => return false,
                };
                let j = match rel {
                    None => None,
                    Some(l) => match self.sb(s).m.idx(l) {
                        Some(j) => Some(j),
                        None => return false,
                    },
                };
                self.do_ord(s, i, j, g, op.k)
            }
            K::Unord => {
                let g = op.u(2);
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if g < MAX_TAGS => i,
                    _ => return false,
                };
                let sb = self.sbm(s);
                let (h, member) = {
                    let e = &sb.m.ents[i as usize];
                    (e.h, e.groups >> g & 1 == 1)
                };
                let alive = sb.m.ents[i as usize].alive;
                (TAGS[g].unord)(&mut sb.s, h);
                if member {
                    sb.m.groups[g].retain(|x| *x != i);
                    sb.m.ents[i as usize].groups &= !(1 << g);
                    self.hit(P::OrdRemove);
                }
                if !alive {
                    self.hit(P::StaleCall);
                }
                self.check_group(s, g, Some(i));
                true
            }
            K::OrdLook => {
                let g = op.u(2);
                let i = match self.sb(s).m.idx(op.a[1]) {
                    Some(i) if g < MAX_TAGS => i,
                    _ => return false,
                };
                self.check_neighbours(s, g, i);
                true
            }
            K::OrdScan => {
                if op.u(1) >= MAX_TAGS {
                    return false;
                }
                self.check_group(s, op.u(1), None);
                true
            }
            K::Sweep => {
                self.sweep(s);
                true
            }
            K::Bad => self.do_bad(s, op),
            _ => false,
        }
    }

    fn make_arch(&mut self, mask: u32, how: u64) -> Option<division_ecs::Archetype> {
        let tb = t();
        if how >= 1000 {
            let sh = tb.shapes.get(how as usize - 1000)?;
            if mask_of(sh.kinds) != mask {
                return None;
            }
            return Some(sut(|| (sh.arch)()));
        }
        let mut ks: Vec<usize> = kinds_in(mask).collect();
        Rng::new(how).shuffle(&mut ks);
        let b = sut(|| ArchetypeBuilder::new());
        let mut b = b;
        for k in &ks {
            let ct = (tb.kinds[*k].ctype)();
            sut(|| {
                b.include_component_types(&[ct]);
            });
        }
        let a = sut(|| b.build());
        sut(move || drop(b));
        Some(a)
    }

    fn do_add(&mut self, s: usize, i: u32, shape: usize, v: u64) {
        let tb = t();
        let sh = &tb.shapes[shape];
        let sb = self.sbm(s);
        let (h, alive, old) = {
            let e = &sb.m.ents[i as usize];
            (e.h, e.alive, e.mask)
        };
        (sh.add)(&mut sb.s, h, v);
        if alive {
            let e = &mut sb.m.ents[i as usize];
            for k in sh.kinds {
                e.set(*k, Some((tb.kinds[*k].dig_of)(val(v, *k))));
            }
            let new = e.mask;
            self.set_mask_pop(s, old, new);
            self.check_look(s, i, shape);
            if old & !mask_of(sh.kinds) != 0 {
                self.check_entity_values(s, i);
            }
        } else {
            self.hit(P::StaleCall);
            self.check_entity(s, i);
        }
    }

    fn do_write(&mut self, s: usize, i: u32, shape: usize, v: u64) {
        let tb = t();
        let sh = &tb.shapes[shape];
        let sb = self.sbm(s);
        let (h, alive, mask) = {
            let e = &sb.m.ents[i as usize];
            (e.h, e.alive, e.mask)
        };
        let need = mask_of(sh.kinds);
        let r = (sh.write)(&mut sb.s, h, if alive && mask & need == need { Some(v) } else { None });
        if !alive {
            self.hit(P::StaleCall);
        }
        self.judge_look(s, i, shape, &r, "get_components_refs_mut");
        if alive && mask & need == need && r.is_some() {
            let e = &mut self.sbm(s).m.ents[i as usize];
            for k in sh.kinds {
                e.set(*k, Some((tb.kinds[*k].dig_of)(val(v, *k))));
            }
        }
    }

    fn do_destroy(&mut self, s: usize, i: u32) {
        let sb = self.sbm(s);
        let h = sb.m.ents[i as usize].h;
        let st = &mut sb.s;
        sut(|| st.destroy_entity(h));
        self.died(s, i);
        self.check_alive(s, i);
    }

    fn do_tag(&mut self, s: usize, i: u32, tg: usize, k: K) {
        let sb = self.sbm(s);
        let (h, alive) = {
            let e = &sb.m.ents[i as usize];
            (e.h, e.alive)
        };
        match k {
            K::Tag => (TAGS[tg].add)(&mut sb.s, h),
            K::Untag => (TAGS[tg].remove)(&mut sb.s, h),
            _ => {}
        }
        if alive {
            let e = &mut sb.m.ents[i as usize];
            match k {
                K::Tag => e.tags |= 1 << tg,
                K::Untag => e.tags &= !(1u128 << tg),
                _ => {}
            }
        } else {
            self.hit(P::StaleCall);
        }
        self.check_tags(s, i);
    }

    fn do_ord(&mut self, s: usize, i: u32, j: Option<u32>, g: usize, k: K) -> bool {
        let (h, alive, member) = {
            let e = &self.sb(s).m.ents[i as usize];
            (e.h, e.alive, e.groups >> g & 1 == 1)
        };
        if member || j == Some(i) {
            return false; // rejected by the library: see Bad
        }
        if let Some(j) = j {
            let f = &self.sb(s).m.ents[j as usize];
            if alive && f.alive && f.groups >> g & 1 == 0 {
                return false;
            }
            let (fh, falive) = (f.h, f.alive);
            let sb = self.sbm(s);
            if k == K::OrdNext {
                (TAGS[g].ord_next)(&mut sb.s, h, fh)
            } else {
                (TAGS[g].ord_prev)(&mut sb.s, h, fh)
            }
            if alive && falive {
                let p = sb.m.groups[g].iter().position(|x| *x == j).unwrap();
                let at = if k == K::OrdNext { p + 1 } else { p };
                let mid = at > 0 && at < sb.m.groups[g].len();
                sb.m.groups[g].insert(at, i);
                sb.m.ents[i as usize].groups |= 1 << g;
                if mid {
                    self.hit(P::OrdInsertMid);
                }
            } else {
                self.hit(P::StaleCall);
            }
        } else {
            let sb = self.sbm(s);
            (TAGS[g].ord)(&mut sb.s, h);
            if alive {
                sb.m.groups[g].push(i);
                sb.m.ents[i as usize].groups |= 1 << g;
            } else {
                self.hit(P::StaleCall);
            }
        }
        self.check_neighbours(s, g, i);
        if self.sb(s).m.groups[g].len() <= 48 {
            self.check_group(s, g, Some(i));
        }
        true
    }

    // ---------------------------------------------------------------- oracles on lookups

    fn name(&self, s: usize, i: u32) -> String {
        let e = &self.sb(s).m.ents[i as usize];
        format!("entity {} (id {} version {})", e.label, e.h.id(), e.h.version())
    }

    pub fn check_alive(&mut self, s: usize, i: u32) {
        let (h, want) = {
            let e = &self.sb(s).m.ents[i as usize];
            (e.h, e.alive)
        };
        let st = &self.sb(s).s;
        let got = sut(|| st.is_alive(h));
        self.note(got as u64);
        if got != want {
            let msg = format!("{}: is_alive = {got}, but it {}", self.name(s, i), if want { "was never destroyed" } else { "was destroyed" });
            self.report(C01, "liveness", msg);
        }
    }

    fn judge_look(&mut self, s: usize, i: u32, shape: usize, r: &Option<Item>, what: &str) {
        let tb = t();
        let sh = &tb.shapes[shape];
        let need = mask_of(sh.kinds);
        let e = &self.sb(s).m.ents[i as usize];
        let want = e.alive && e.mask & need == need;
        let mut bad = None;
        let mut h = r.is_some() as u64;
        if r.is_some() != want {
            bad = Some((
                C03,
                "presence",
                format!(
                    "{}: {what} of {:?} is {} but the entity {}",
                    self.name(s, i),
                    names(sh.kinds),
                    if r.is_some() { "Some" } else { "None" },
                    if !e.alive { "is dead".into() } else { format!("has {:?}", names(&kinds_in(e.mask).collect::<Vec<_>>())) }
                ),
            ));
        }
        let mut fix = vec![];
        if let (Some(it), true) = (r, want) {
            for (c, k) in sh.kinds.iter().enumerate() {
                if let Some(d) = e.val(*k) {
                    h = mix2(h, it.digs[c]);
                    if it.digs[c] != d {
                        if bad.is_none() {
                            bad = Some((
                                C02,
                                "value",
                                format!("{}: {what} shows a {} that is not the last value written", self.name(s, i), tb.kinds[*k].name),
                            ));
                        }
                        fix.push(*k);
                    }
                }
            }
        }
        self.note(h);
        if let Some(it) = r {
            let it = it.clone();
            self.misaligned(&it, what);
        }
        if let Some((m, c, msg)) = bad {
            self.report(m, c, msg);
            for k in fix {
                self.sbm(s).m.ents[i as usize].set(k, None);
            }
        }
    }

    pub fn check_look(&mut self, s: usize, i: u32, shape: usize) {
        let sb = self.sb(s);
        let e = &sb.m.ents[i as usize];
        if !e.alive {
            self.probes[P::StaleCall as usize] += 1;
        }
        let sb = self.sb(s);
        let e = &sb.m.ents[i as usize];
        let r = (t().shapes[shape].look)(&sb.s, e.h);
        self.judge_look(s, i, shape, &r, "get_components_refs");
    }

    /// Every single component of the entity.
    pub fn check_entity_values(&mut self, s: usize, i: u32) {
        let mask = self.sb(s).m.ents[i as usize].mask;
        for k in kinds_in(mask) {
            self.check_look(s, i, k);
        }
    }

    pub fn check_arch(&mut self, s: usize, i: u32) {
        let tb = t();
        let sb = self.sb(s);
        let e = &sb.m.ents[i as usize];
        let (h, alive, mask) = (e.h, e.alive, e.mask);
        let st = &sb.s;
        let valid = sut(|| st.is_valid_entity_with_archetype(h));
        let want_some = alive && mask != 0;
        let mut bad = None;
        let arch = sut(|| st.get_entity_archetype(h));
        if valid != want_some {
            bad = Some(format!("is_valid_entity_with_archetype = {valid}, component set {:?}, alive {alive}", names_m(mask)));
        }
        // an entity without components may report no archetype or an empty one
        match arch {
            None => {
                if want_some {
                    bad = Some(format!("no archetype reported, but it has {:?}", names_m(mask)));
                }
            }
            Some(_) if !want_some && !alive => {
                bad = Some("an archetype is reported for a dead handle".to_string());
            }
            Some(a) => {
                let n = mask.count_ones() as usize;
                if a.component_count() != n {
                    bad = Some(format!("archetype reports {} components, entity has {:?}", a.component_count(), names_m(mask)));
                }
                let mut inc = vec![];
                let mut exc = vec![];
                for k in 0..N_KINDS {
                    let want = mask >> k & 1 == 1;
                    let (x, y) = (tb.kinds[k].has)(a);
                    if x != want || y != want {
                        bad = Some(format!("archetype says {} is {}, entity has {:?}", tb.kinds[k].name, x, names_m(mask)));
                    }
                    if want {
                        inc.push(tb.kinds[k].type_id)
                    } else {
                        exc.push(tb.kinds[k].type_id)
                    }
                }
                if mix2(self.step as u64, i as u64) & 1 == 1 {
                    inc.reverse();
                    exc.reverse();
                }
                let mut sizes = 0;
                for ct in a.components_iter() {
                    match tb.kinds.iter().position(|k| k.type_id == ct.id()) {
                        Some(k) if mask >> k & 1 == 1 && tb.kinds[k].size == ct.size() && tb.kinds[k].align == ct.align() => sizes += 1,
                        _ => bad = Some("components_iter lists a type the entity does not have".to_string()),
                    }
                }
                if sizes != n && bad.is_none() {
                    bad = Some("components_iter misses a type".to_string());
                }
                if !a.is_include_ids(&inc) || !a.is_include_only_ids(&inc) || a.included_ids().len() != n {
                    bad = Some(format!("archetype does not include exactly {:?}", names_m(mask)));
                }
                if !a.is_exclude_ids(&exc) {
                    bad = Some(format!("archetype does not exclude the types outside {:?}", names_m(mask)));
                }
                if n > 0 {
                    let x = inc[mix2(self.step as u64, 3) as usize % n];
                    let mut mixed = exc.clone();
                    let at = mix2(self.step as u64, 5) as usize % (mixed.len() + 1);
                    mixed.insert(at, x);
                    if a.is_exclude_ids(&mixed) {
                        bad = Some(format!("archetype claims to exclude a type in {:?}", names_m(mask)));
                    }
                    if a.is_include_ids(&mixed) {
                        bad = Some(format!("archetype claims to include a type outside {:?}", names_m(mask)));
                    }
                }
            }
        }
        self.note(valid as u64 | (arch.is_some() as u64) << 1);
        if let Some(b) = bad {
            let msg = format!("{}: {b}", self.name(s, i));
            self.report(C03, "component-set", msg);
        }
    }

    pub fn check_tags(&mut self, s: usize, i: u32) {
        let sb = self.sb(s);
        let e = &sb.m.ents[i as usize];
        let mut got = 0u128;
        for (k, o) in TAGS[..self.n_tags].iter().enumerate() {
            got |= ((o.has)(&sb.s, e.h) as u128) << k;
        }
        let want = e.tags;
        let alive = e.alive;
        self.note(got as u64 ^ (got >> 64) as u64);
        if got != want {
            let msg = format!("{} (alive: {alive}): tags {got:#b} instead of {want:#b}", self.name(s, i));
            self.report(C05, "tags", msg);
            self.sbm(s).m.ents[i as usize].tags = if alive { got } else { 0 };
        }
    }

    pub fn check_neighbours(&mut self, s: usize, g: usize, i: u32) {
        let sb = self.sb(s);
        let e = &sb.m.ents[i as usize];
        let pos = if e.groups >> g & 1 == 1 { sb.m.groups[g].iter().position(|x| *x == i) } else { None };
        let h = |x: Option<&u32>| x.map(|x| sb.m.ents[*x as usize].h);
        let (wn, wp) = match pos {
            Some(p) => (h(sb.m.groups[g].get(p + 1)), if p > 0 { h(sb.m.groups[g].get(p - 1)) } else { None }),
            None => (None, None),
        };
        let gn = (TAGS[g].next)(&sb.s, e.h);
        let gp = (TAGS[g].prev)(&sb.s, e.h);
        self.note(gn.map_or(1, hkey));
        self.note(gp.map_or(1, hkey));
        if gn != wn || gp != wp {
            let msg = format!(
                "group {g}, {}: neighbours (previous {:?}, next {:?}), expected (previous {:?}, next {:?})",
                self.name(s, i),
                ids(gp),
                ids(gn),
                ids(wp),
                ids(wn)
            );
            self.report(C06, "neighbours", msg);
        }
    }

    /// The whole group from both ends; `also` and a few non-members are looked at too.
    pub fn check_group(&mut self, s: usize, g: usize, also: Option<u32>) {
        let sb = self.sb(s);
        let want: Vec<Entity> = sb.m.groups[g].iter().map(|x| sb.m.ents[*x as usize].h).collect();
        let n = want.len();
        let mut fwd = vec![];
        let mut c = (TAGS[g].first)(&sb.s);
        while let Some(e) = c {
            fwd.push(e);
            if fwd.len() > n + 2 {
                break;
            }
            c = (TAGS[g].next)(&sb.s, e);
        }
        let mut bwd = vec![];
        let mut c = (TAGS[g].last)(&sb.s);
        while let Some(e) = c {
            bwd.push(e);
            if bwd.len() > n + 2 {
                break;
            }
            c = (TAGS[g].prev)(&sb.s, e);
        }
        bwd.reverse();
        for e in &fwd {
            self.cur = mix2(self.cur, hkey(*e));
        }
        self.note(fwd.len() as u64);
        if fwd != want || bwd != want {
            let sh = |v: &Vec<Entity>| v.iter().take(12).map(|e| format!("{}v{}", e.id(), e.version())).collect::<Vec<_>>().join(" ");
            let msg = format!("group {g}: forwards [{}], backwards [{}], expected [{}]", sh(&fwd), sh(&bwd), sh(&want));
            self.report(C06, "sequence", msg);
        }
        if let Some(i) = also {
            self.check_neighbours(s, g, i);
        }
    }

    /// Everything a caller can ask about one handle.
    pub fn check_entity(&mut self, s: usize, i: u32) {
        self.check_alive(s, i);
        self.check_arch(s, i);
        self.check_tags(s, i);
        let (alive, mask) = {
            let e = &self.sb(s).m.ents[i as usize];
            (e.alive, e.mask)
        };
        if alive {
            self.check_entity_values(s, i);
        }
        // one kind it does not have
        for d in 0..N_KINDS {
            let k = (mix2(self.step as u64, i as u64) as usize + d) % N_KINDS;
            if mask >> k & 1 == 0 {
                self.check_look(s, i, k);
                break;
            }
        }
        for g in 0..self.n_tags {
            if self.sb(s).m.groups[g].len() <= 200 {
                self.check_neighbours(s, g, i);
            }
        }
    }

    pub fn sweep(&mut self, s: usize) {
        let n = self.sb(s).m.ents.len();
        let cap = self.sweep_cap;
        // all, or an evenly spread sample that ends with the newest
        let stride = (n / cap.max(1)).max(1);
        let mut i = n % stride;
        while i < n {
            self.check_entity(s, i as u32);
            if self.stopped() {
                return;
            }
            i += stride;
        }
        for g in 0..self.n_tags {
            self.check_group(s, g, None);
        }
        let c = self.sb(s).s.entities_capacity();
        self.note(c as u64);
        let mut sig = self.sb(s).m.alive as u64;
        for (k, v) in &self.arch_pop {
            if v.0 > 0 {
                sig = mix2(sig, (k.1 as u64) << 32 | v.0);
            }
        }
        for g in &self.sb(s).m.groups {
            sig = mix2(sig, g.len() as u64);
        }
        self.state_sigs.push(sig);
    }

    // ---------------------------------------------------------------- rejected calls

    fn do_bad(&mut self, s: usize, op: &Op) -> bool {
        let tb = t();
        let kind = op.u(1);
        let needs_debug = !matches!(kind, 8..=11 | 13);
        if needs_debug && !DEBUG {
            return false;
        }
        let g = op.u(4) % N_TAGS;
        let i = self.sb(s).m.idx(op.a[2]);
        let j = self.sb(s).m.idx(op.a[3]);
        let m = &self.sb(s).m;
        let ent = |x: Option<u32>| x.map(|x| m.ents[x as usize].clone());
        let (e, f) = (ent(i), ent(j));
        let live = |x: &Option<Ent>| x.as_ref().map_or(false, |x| x.alive);
        let member = |x: &Option<Ent>| x.as_ref().map_or(false, |x| x.groups >> g & 1 == 1);
        let ok = match kind {
            0 => e.is_some() && !live(&e),
            1 => live(&e) && member(&e),
            2 | 3 => live(&e) && member(&e) && live(&f) && member(&f) && i != j,
            4 | 5 => live(&e),
            6 | 7 => live(&e) && !member(&e) && live(&f) && !member(&f) && i != j,
            8 => never_fits(1 << OVER),
            9 => live(&e) && never_fits(1 << OVER),
            10 => never_fits(BULKY),
            11 => live(&e) && never_fits(e.as_ref().unwrap().mask | mask_of(tb.shapes[op.u(4) % tb.plain].kinds)),
            12 | 13 => true,
            _ => false,
        };
        if !ok {
            return false;
        }
        let null = Entity::null();
        let over_mask = (1u32 << OVER) | (op.a[4] as u32 & 0x1f);
        let arch = if kind == 8 { self.make_arch(over_mask, op.a[4]) } else if kind == 10 { self.make_arch(BULKY, op.a[4]) } else { None };
        self.hit(P::Rejected);
        // so that destructors are not entered in the middle of the call
        let r = {
            let st = AssertUnwindSafe(&mut self.sbm(s).s);
            let arch = AssertUnwindSafe(&arch);
            let eh = e.as_ref().map(|e| e.h);
            let fh = f.as_ref().map(|e| e.h);
            let shape = op.u(4) % tb.plain;
            let amount = op.u(4);
            catch_unwind(move || {
                let st = st;
                let arch = arch;
                let st: &mut Store = st.0;
                match kind {
                    0 => sut(|| st.destroy_entity(eh.unwrap())),
                    1 => (TAGS[g].ord)(st, eh.unwrap()),
                    2 | 6 => (TAGS[g].ord_next)(st, eh.unwrap(), fh.unwrap()),
                    3 | 7 => (TAGS[g].ord_prev)(st, eh.unwrap(), fh.unwrap()),
                    4 => (TAGS[g].ord_next)(st, eh.unwrap(), eh.unwrap()),
                    5 => (TAGS[g].ord_prev)(st, eh.unwrap(), eh.unwrap()),
                    8 | 10 => {
                        let a = arch.0.as_ref().unwrap();
                        sut(|| {
                            st.create_entity_with_archetype(a);
                        })
                    }
                    9 => (tb.shapes[OVER].add)(st, eh.unwrap(), 1),
                    11 => (tb.shapes[shape].add)(st, eh.unwrap(), 1),
                    13 => sut(|| {
                        // the size in bytes of the first array exceeds the address space
                        let n = [1usize << 61, (1 << 62) + 1, (1 << 62) + 5, 1 << 63, usize::MAX / 2 + 2][amount % 5];
                        match amount / 5 % 3 {
                            0 => drop(Store::with_capacity(n)),
                            1 => drop(division_ecs::ResourceStore::<u32>::with_capacity(n)),
                            _ => drop(division_ecs::ResourceStore::<[u64; 2]>::with_capacity(n)),
                        }
                    }),
                    _ => sut(|| st.destroy_entity(null)),
                }
            })
        };
        sut(move || drop(arch));
        match r {
            Ok(()) => {
                let what = [
                    "destroying a handle that is not alive",
                    "appending an entity already in the group",
                    "inserting an entity already in the group (next to)",
                    "inserting an entity already in the group (previous to)",
                    "inserting an entity next to itself",
                    "inserting an entity previous to itself",
                    "inserting next to a non-member",
                    "inserting previous to a non-member",
                    "creating an entity whose component set exceeds a data page",
                    "adding a component that exceeds a data page",
                    "creating an entity whose component set exceeds a data page",
                    "adding components so that the set exceeds a data page",
                    "destroying a handle never issued",
                    "a capacity whose size in bytes overflows",
                ][kind];
                let m = C11 | if (1..=7).contains(&kind) { C06 } else { 0 };
                self.report(m, "not-rejected", format!("{what} was not rejected"));
                return true;
            }
            Err(p) => {
                drop(p);
                self.panics_caught += 1;
            }
        }
        self.drain_alloc();
        // nothing may have changed
        self.extra = C11;
        self.sweep(s);
        self.extra = 0;
        // the rejected call itself has no observation of its own
        self.cur = 0;
        true
    }

    // ---------------------------------------------------------------- queries

    fn dispatch_query(&mut self, op: &Op) -> bool {
        let slot = op.u(0);
        if !self.open.contains_key(&slot) {
            return false;
        }
        match op.k {
            K::QNext => {
                if op.u(2) == 1 {
                    self.advance(slot, op.u(1).max(1) - 1);
                } else {
                    for _ in 0..op.u(1) {
                        if !self.advance(slot, 0) || self.stopped() {
                            break;
                        }
                    }
                }
            }
            K::QAll => {
                if op.u(1) == 0 {
                    while self.advance(slot, 0) && !self.stopped() {}
                } else {
                    self.finish_query(slot, op.u(1) % N_FINISH);
                }
            }
            K::QDrop => self.close(slot),
            K::QPanic => {
                // a client's loop over the query panics after op.1 more items; the iterator is dropped by the unwind
                let n = op.u(1);
                let q = self.open.get_mut(&slot).unwrap();
                status::set_quiet(true);
                let it = AssertUnwindSafe(std::mem::replace(&mut q.it, Box::new(Nothing)));
                let wv = q.wv;
                let start = q.pos;
                let mut got: Vec<Item> = vec![];
                let gp = AssertUnwindSafe(&mut got);
                let r = catch_unwind(move || {
                    let gp = gp;
                    let wrapped = it;
                    let mut it = wrapped.0;
                    let mut k = 0;
                    loop {
                        if k == n {
                            std::panic::panic_any("client loop");
                        }
                        match it.next(if wv != 0 { Some(mix2(wv, (start + k) as u64)) } else { None }) {
                            Some(x) => gp.0.push(x),
                            None => std::panic::panic_any("client loop"),
                        }
                        k += 1;
                    }
                });
                status::set_quiet(false);
                self.panics_caught += 1;
                self.hit(P::LoopPanic);
                let mine = match r {
                    Err(p) => p.downcast_ref::<&str>().map_or(false, |x| *x == "client loop"),
                    Ok(()) => false,
                };
                if !mine {
                    let q = &self.open[&slot];
                    let own = qprop(&q.spec) | C13;
                    self.report(own, "panic", format!("unexpected panic while iterating: {}", status::last_panic()));
                }
                let mut ended = got.len() < n;
                for x in got {
                    if !self.judge_item(slot, Some(x)) {
                        ended = false;
                        break;
                    }
                }
                if ended {
                    self.judge_item(slot, None);
                }
                self.close(slot);
            }
            _ => {}
        }
        true
    }

    /// The rest of an open query is used up by one of the iterator's own methods.
    fn finish_query(&mut self, slot: usize, how: usize) {
        let q = self.open.get_mut(&slot).unwrap();
        if q.ended {
            return;
        }
        let (w, start, left) = (q.wv, q.pos, q.solo.len() - q.pos);
        // two mutable references to one component must not be live together
        let how = if how == 4 && w != 0 && q.spec.qk == 1 { 1 } else { how.max(1) };
        let it = std::mem::replace(&mut q.it, Box::new(Nothing));
        let own = qprop(&q.spec) | if self.phase_many { C13 } else { 0 };
        let wv = move |k: usize| if w != 0 { Some(mix2(w, (start + k) as u64)) } else { None };
        let (n, items) = it.finish(how, &wv, left);
        self.hit(P::Finished);
        if let Some(n) = n {
            if n != left {
                self.report(own, "count", format!("with {left} items to come, {} gave {n} items", ["", "for_each", "count", "last", "collect"][how]));
            }
        }
        let got = items.len();
        if how == 3 {
            self.open.get_mut(&slot).unwrap().pos += left - got.min(left);
            if (got == 0) != (left == 0) {
                self.report(own, "count", format!("with {left} items to come, last gave {got}"));
            }
        } else if how == 2 {
            self.open.get_mut(&slot).unwrap().pos += left;
        }
        for x in items {
            if !self.judge_item(slot, Some(x)) || self.stopped() {
                return;
            }
        }
        if !self.open[&slot].ended {
            self.judge_item(slot, None);
        }
    }

    /// Takes the next item after `skip` others.
    fn advance(&mut self, slot: usize, skip: usize) -> bool {
        let many = self.open.len() > 1;
        let q = self.open.get_mut(&slot).unwrap();
        if q.ended {
            return false;
        }
        let wv = if q.wv != 0 { Some(mix2(q.wv, (q.pos + skip) as u64)) } else { None };
        let x = if skip == 0 { q.it.next(wv) } else { q.it.nth(skip, wv) };
        q.pos += skip.min(q.solo.len() - q.pos);
        let len = q.it.len();
        let (lo, hi) = q.it.hint();
        if skip > 0 {
            self.hit(P::Nth);
        }
        if many {
            self.hit(P::Interleaved);
        }
        let some = x.is_some();
        let r = self.judge_item(slot, x);
        if let (true, true, Some(l)) = (some, r, len) {
            let q = &self.open[&slot];
            let want = q.solo.len() - q.pos;
            let (own, pos) = (qprop(&q.spec), q.pos);
            self.note(l as u64);
            if l != want && !self.stopped() {
                self.report(own, "remaining-length", format!("after {pos} items the reported length is {l}, {want} items are still to come"));
            }
        }
        if some && r {
            let q = &self.open[&slot];
            let (own, pos, rest) = (qprop(&q.spec), q.pos, q.solo.len() - q.pos);
            if (lo > rest || hi.map_or(false, |h| h < rest)) && !self.stopped() {
                self.report(own, "size-hint", format!("after {pos} items the size hint is {lo} to {hi:?}, {rest} items are still to come"));
            }
        }
        r
    }

    /// Compares the next item of an open query with what the same query yields when run alone.
    fn judge_item(&mut self, slot: usize, x: Option<Item>) -> bool {
        let many = self.phase_many;
        let q = self.open.get_mut(&slot).unwrap();
        let own = qprop(&q.spec) | if many { C13 } else { 0 };
        let cols: Vec<usize> = accs()[q.spec.acc].cols().collect();
        let nread = accs()[q.spec.acc].read.len();
        let (s, pos, wv) = (q.s, q.pos, q.wv);
        let x = match x {
            None => {
                q.ended = true;
                let left = q.solo.len() - pos;
                if left != 0 {
                    self.report(own, "early-end", format!("the query ended after {pos} items; run alone with a fresh query object it yields {}", pos + left));
                }
                self.hit(P::QueryRun);
                return false;
            }
            Some(x) => x,
        };
        self.probes[P::QueryItems as usize] += 1;
        if pos >= self.open[&slot].solo.len() {
            self.report(own, "late-end", format!("the query yields more than the {pos} items it yields when run alone with a fresh query object"));
            self.open.get_mut(&slot).unwrap().ended = true;
            return false;
        }
        let want = self.open[&slot].solo[pos].clone();
        self.misaligned(&x, "a query");
        let early = x.ent.is_none() && pos < self.open[&slot].pre;
        let mut bad = x.ent != want.ent && !early;
        for c in 0..x.n {
            // a list may name an entity twice: the second visit sees what the first one wrote
            if x.digs[c] != want.digs[c] && (wv == 0 || !self.rewritten(slot, pos)) {
                bad = true;
            }
        }
        if bad {
            let msg = format!(
                "item {pos} is not the item this query yields when run alone with a fresh query object ({:?} instead of {:?})",
                ids(x.ent),
                ids(want.ent)
            );
            self.report(own, "item-differs", msg);
            return true;
        }
        self.note(x.ent.map_or(3, hkey));
        // writes land in the yielded entity
        if wv != 0 {
            let tb = t();
            let v = mix2(wv, pos as u64);
            let i = match (x.ent.or(want.ent), self.open[&slot].spec.qk) {
                (Some(e), _) => self.sb(s).m.of(e),
                (None, 0) => None,
                (None, _) => self.known_order(slot).get(pos).copied(),
            };
            if let Some(i) = i {
                for k in &cols[nread..] {
                    self.sbm(s).m.ents[i as usize].set(*k, Some((tb.kinds[*k].dig_of)(val(v, *k))));
                }
            }
            self.hitn(P::WriteItem, (cols.len() - nread) as u64);
        }
        let q = self.open.get_mut(&slot).unwrap();
        if wv != 0 {
            q.wrote.push(pos);
        }
        q.pos += 1;
        true
    }

    fn rewritten(&self, slot: usize, pos: usize) -> bool {
        let q = &self.open[&slot];
        if q.spec.qk != 1 {
            return false;
        }
        let o = self.known_order(slot);
        pos < o.len() && o[..pos].contains(&o[pos])
    }

    /// Model order of a list or ordered query's items.
    fn known_order(&self, slot: usize) -> Vec<u32> {
        let q = &self.open[&slot];
        self.expected(q.s, &q.spec)
    }

    fn expected(&self, s: usize, spec: &Spec) -> Vec<u32> {
        let m = &self.sb(s).m;
        let mask = accs()[spec.acc].mask;
        let has = |i: u32| {
            let e = &m.ents[i as usize];
            e.alive && e.mask & mask == mask
        };
        match spec.qk {
            0 => (0..m.ents.len() as u32)
                .filter(|i| has(*i) && (spec.mode < 2 || m.ents[*i as usize].tags >> (spec.mode - 2) & 1 == 1))
                .collect(),
            1 => spec.list.iter().copied().filter(|i| has(*i)).collect(),
            _ => m.groups[spec.tag].iter().copied().filter(|i| has(*i)).collect(),
        }
    }

    /// What the same query should yield according to the library's own lookups.
    fn expected_by_lookup(&self, s: usize, spec: &Spec) -> Vec<u32> {
        let sb = self.sb(s);
        let acc = &accs()[spec.acc];
        let has = |i: u32| {
            let h = sb.m.ents[i as usize].h;
            let st = &sb.s;
            sut(|| st.is_alive(h)) && acc.cols().all(|k| (t().shapes[k].look)(st, h).is_some())
        };
        match spec.qk {
            0 => (0..sb.m.ents.len() as u32)
                .filter(|i| has(*i) && (spec.mode < 2 || (TAGS[spec.mode - 2].has)(&sb.s, sb.m.ents[*i as usize].h)))
                .collect(),
            1 => spec.list.iter().copied().filter(|i| has(*i)).collect(),
            _ => {
                let mut v = vec![];
                let mut c = (TAGS[spec.tag].first)(&sb.s);
                while let Some(e) = c {
                    if let Some(i) = sb.m.of(e) {
                        v.push(i);
                    }
                    if v.len() > sb.m.ents.len() {
                        break;
                    }
                    c = (TAGS[spec.tag].next)(&sb.s, e);
                }
                v.into_iter().filter(|i| has(*i)).collect()
            }
        }
    }

    fn query_open(&mut self, op: &Op) -> bool {
        let (slot, s, obj, qk, acc, tag, mode, wv) =
            (op.u(0), op.u(1), op.u(2), op.u(3), op.u(4), op.u(5), op.u(6) & 255, op.a[7]);
        let pre = if mode == 0 { 0 } else { op.u(6) >> 8 };
        if op.a[7] != 0 {
            self.close_all();
        }
        if self.open.contains_key(&slot) || qk > 2 || acc >= accs().len() || tag >= N_ORDER_TAGS {
            return false;
        }
        if mode > 1 && (qk != 0 || mode - 2 >= N_FILTER_TAGS) {
            return false;
        }
        if (wv != 0) != (slot >= WRITE_SLOT) || (wv != 0 && accs()[acc].write.is_empty()) {
            return false;
        }
        let tag = if qk == 2 { tag } else { 0 };
        let key = (obj, qk, acc, tag);
        if self.open.values().any(|q| q.key == key) {
            return false;
        }
        let list: Vec<u32> = op.a[8..].iter().filter_map(|l| self.sb(s).m.idx(*l)).collect();
        let spec = Spec { qk, acc, tag, mode, list };
        if self.open.is_empty() {
            self.phase_many = false;
        }
        let mut solo = self.run_solo(s, &spec);
        if mode >= 2 && pre > 0 && !self.stopped() {
            // the first items are taken before the filter is put on
            let mut all = self.run_solo(s, &Spec { mode: 1, ..spec.clone() });
            all.truncate(pre);
            let first: Vec<Entity> = all.iter().filter_map(|x| x.ent).collect();
            solo.retain(|x| !first.iter().any(|e| Some(*e) == x.ent));
            all.append(&mut solo);
            solo = all;
        }
        let pre = pre.min(solo.len());
        if self.stopped() {
            return true;
        }
        let mut q = match self.pool.remove(&key) {
            Some(q) => {
                self.hit(P::QueryReused);
                q
            }
            None => accs()[acc].make(qk, tag),
        };
        let list: Box<[Entity]> = spec.list.iter().map(|i| self.sb(s).m.ents[*i as usize].h).collect();
        let st: *const Store = &*self.sb(s).s;
        let qp: *mut dyn QObj = &mut *q;
        let lp: *const [Entity] = &*list;
        // the borrow is kept alive by this struct: the iterator is dropped before the store changes
        let it: Box<dyn It> = unsafe { std::mem::transmute((*qp).open(&*st, &*lp, mode, pre)) };
        let len = it.len();
        let mut before = vec![];
        if wv != 0 && qk == 0 && mode == 0 {
            for i in self.expected(s, &spec) {
                let h = self.sb(s).m.ents[i as usize].h;
                let d: Vec<u64> =
                    accs()[acc].write.iter().map(|k| (t().shapes[*k].look)(&self.sb(s).s, h).map_or(0, |x| x.digs[0])).collect();
                before.push((i, d));
            }
        }
        let n = solo.len();
        self.open.insert(
            slot,
            OpenQ { it, obj: q, key, s, spec: spec.clone(), solo, pos: 0, ended: false, wv, before, wrote: vec![], pre, _list: list },
        );
        if self.open.len() > 1 {
            self.phase_many = true;
        }
        if mode >= 2 {
            self.hit(P::FilterRun);
        }
        self.note(n as u64);
        if let Some(l) = len {
            self.note(l as u64);
            if l != n {
                self.report(qprop(&spec), "initial-length", format!("the reported length before iteration is {l}, {n} items follow"));
            }
        }
        true
    }

    /// Runs the query alone with a fresh query object and checks the whole result against the model.
    fn run_solo(&mut self, s: usize, spec: &Spec) -> Vec<Item> {
        let own = qprop(spec);
        let acc = &accs()[spec.acc];
        let cols: Vec<usize> = acc.cols().collect();
        let limit = self.sb(s).m.ents.len() + spec.list.len() + 16;
        let mut items: Vec<Item> = vec![];
        let mut lens: Vec<Option<usize>> = vec![];
        let mut hints: Vec<(usize, Option<usize>)> = vec![];
        let mut again = false;
        {
            let list: Vec<Entity> = spec.list.iter().map(|i| self.sb(s).m.ents[*i as usize].h).collect();
            let mut q = acc.make(spec.qk, spec.tag);
            let mut it = q.open(&self.sb(s).s, &list, spec.mode, 0);
            lens.push(it.len());
            hints.push(it.hint());
            while let Some(x) = it.next(None) {
                items.push(x);
                lens.push(it.len());
                hints.push(it.hint());
                if items.len() > limit {
                    break;
                }
            }
            if items.len() <= limit {
                again = it.next(None).is_some() || it.next(None).is_some();
            }
        }
        let n = items.len();
        if again {
            self.report(own, "yields-after-end", format!("after {n} items the query ended, and then yielded another one"));
        }
        for x in &items {
            self.cur = mix2(self.cur, x.ent.map_or(5, hkey));
        }
        if let Some(x) = items.iter().find(|x| x.misaligned.is_some()) {
            let x = x.clone();
            self.misaligned(&x, "a query");
        }
        for (k, l) in lens.iter().enumerate() {
            if let Some(l) = l {
                if *l != n - k.min(n) {
                    let c = if k == 0 { "initial-length" } else { "remaining-length" };
                    self.report(own, c, format!("after {k} of {n} items the reported length is {l}"));
                    break;
                }
            }
        }
        if items.len() <= limit {
            for (k, (lo, hi)) in hints.iter().enumerate() {
                if *lo > n - k.min(n) || hi.map_or(false, |h| h < n - k.min(n)) {
                    self.report(own, "size-hint", format!("after {k} of {n} items the size hint is {lo} to {hi:?}"));
                    break;
                }
            }
        }
        // probes
        match spec.qk {
            1 => {
                let st = spec.list.iter().filter(|i| !self.sb(s).m.ents[**i as usize].alive).count();
                self.hitn(P::ListStale, st as u64);
            }
            2 => {
                let a = self.sb(s).m.groups[spec.tag].len();
                let b = self.expected(s, spec).len();
                self.hitn(P::OrdNoComp, (a - b) as u64);
            }
            _ => {
                if spec.mode >= 2 && self.sb(s).m.alive > 10_000 + n {
                    self.hit(P::LongSkip);
                }
                if n > 2000 {
                    self.hit(P::MultiPage);
                }
            }
        }
        let want = self.expected(s, spec);
        let verdict = self.judge_seq(s, spec, &cols, &items, &want);
        if let Some((class, msg)) = verdict {
            // is it the query that is wrong, or the state behind it?
            let by_look = self.expected_by_lookup(s, spec);
            let same_set = {
                let (mut a, mut b) = (by_look.clone(), want.clone());
                if spec.qk == 0 {
                    a.sort_unstable();
                    b.sort_unstable();
                }
                a == b
            };
            let f0 = self.foreign;
            let had = self.viol.is_some();
            let mut all: Vec<u32> = by_look.iter().chain(want.iter()).copied().collect();
            all.sort_unstable();
            all.dedup();
            let old_extra = self.extra;
            for i in all.into_iter().take(4000) {
                self.check_entity(s, i);
            }
            if spec.qk == 2 {
                self.check_group(s, spec.tag, None);
            }
            self.extra = old_extra;
            let state_bad = self.foreign > f0 || (self.viol.is_some() && !had) || !same_set;
            if state_bad {
                // the query may still agree with the (wrong) state
                let w2 = self.expected_by_lookup(s, spec);
                if self.judge_seq_raw(s, spec, &items, &w2, &cols) {
                    return items;
                }
            }
            self.report(own, class, msg);
        }
        items
    }

    fn row_by_lookup(&self, s: usize, i: u32, cols: &[usize]) -> Vec<u64> {
        let sb = self.sb(s);
        let h = sb.m.ents[i as usize].h;
        cols.iter().map(|k| (t().shapes[*k].look)(&sb.s, h).map_or(0, |x| x.digs[0])).collect()
    }

    /// True if the items are exactly the rows that lookups show for `want`.
    fn judge_seq_raw(&self, s: usize, spec: &Spec, items: &[Item], want: &[u32], cols: &[usize]) -> bool {
        let mut a: Vec<(u64, Vec<u64>)> = items.iter().map(|x| (x.ent.map_or(0, hkey), x.digs[..x.n].to_vec())).collect();
        let mut b: Vec<(u64, Vec<u64>)> = want
            .iter()
            .map(|i| (if spec.mode == 0 { 0 } else { hkey(self.sb(s).m.ents[*i as usize].h) }, self.row_by_lookup(s, *i, cols)))
            .collect();
        if spec.qk == 0 {
            a.sort();
            b.sort();
        }
        a == b
    }

    fn judge_seq(&self, s: usize, spec: &Spec, cols: &[usize], items: &[Item], want: &[u32]) -> Option<(&'static str, String)> {
        let m = &self.sb(s).m;
        let row_ok = |x: &Item, i: u32| cols.iter().enumerate().all(|(c, k)| m.ents[i as usize].val(*k).map_or(true, |d| d == x.digs[c]));
        let what = ["component query", "entity-list query", "ordered query"][spec.qk];
        if spec.qk != 0 {
            for (p, x) in items.iter().enumerate() {
                if p >= want.len() {
                    return Some(("extra-item", format!("{what}: {} items, expected {}", items.len(), want.len())));
                }
                let e = &m.ents[want[p] as usize];
                if let Some(h) = x.ent {
                    if h != e.h {
                        return Some(("wrong-entity", format!("{what}: item {p} is {:?}, expected {:?}", ids(Some(h)), ids(Some(e.h)))));
                    }
                }
                if !row_ok(x, want[p]) {
                    return Some(("wrong-components", format!("{what}: item {p} does not show the components of {:?}", ids(Some(e.h)))));
                }
            }
            if items.len() < want.len() {
                return Some(("missing-item", format!("{what}: {} items, expected {}", items.len(), want.len())));
            }
            return None;
        }
        if spec.mode >= 1 {
            let mut seen: FMap<u32, u32> = Default::default();
            let mask = accs()[spec.acc].mask;
            for x in items {
                let h = x.ent.unwrap();
                let i = match m.of(h) {
                    Some(i) => i,
                    None => return Some(("unknown-entity", format!("{what}: yields handle {:?} that was never issued", ids(Some(h))))),
                };
                let e = &m.ents[i as usize];
                if !e.alive || e.mask & mask != mask {
                    return Some(("extra-item", format!("{what}: yields {:?}, which does not match", ids(Some(h)))));
                }
                if spec.mode >= 2 && e.tags >> (spec.mode - 2) & 1 == 0 {
                    return Some(("untagged-item", format!("{what}: yields {:?}, which does not have the tag", ids(Some(h)))));
                }
                let c = seen.entry(i).or_insert(0);
                *c += 1;
                if *c > 1 {
                    return Some(("repeated-item", format!("{what}: yields {:?} more than once", ids(Some(h)))));
                }
                if !row_ok(x, i) {
                    return Some(("wrong-components", format!("{what}: pairs {:?} with components that are not its own", ids(Some(h)))));
                }
            }
            if items.len() != want.len() {
                let miss = want.iter().find(|i| !seen.contains_key(i)).map(|i| m.ents[*i as usize].h);
                return Some(("missing-item", format!("{what}: {} items, expected {}; misses {:?}", items.len(), want.len(), ids(miss))));
            }
            return None;
        }
        if items.len() != want.len() {
            return Some(("item-count", format!("{what}: {} items, expected {}", items.len(), want.len())));
        }
        // compare as multisets of rows; rows with never-written columns are only counted
        let known = |i: u32| cols.iter().all(|k| m.ents[i as usize].val(*k).is_some());
        let mut a: Vec<Vec<u64>> = items.iter().map(|x| x.digs[..x.n].to_vec()).collect();
        a.sort();
        for i in want.iter().filter(|i| known(**i)) {
            let row: Vec<u64> = cols.iter().map(|k| m.ents[*i as usize].val(*k).unwrap()).collect();
            match a.binary_search(&row) {
                Ok(_) => {}
                Err(_) => {
                    return Some(("missing-row", format!("{what}: the components of {:?} are not among the items", ids(Some(m.ents[*i as usize].h)))))
                }
            }
        }
        if want.iter().all(|i| known(*i)) {
            let mut b: Vec<Vec<u64>> = want.iter().map(|i| cols.iter().map(|k| m.ents[*i as usize].val(*k).unwrap()).collect()).collect();
            b.sort();
            if a != b {
                return Some(("rows-differ", format!("{what}: the items are not the rows of the matching entities, each once")));
            }
        }
        None
    }

    fn close(&mut self, slot: usize) {
        let q = match self.open.remove(&slot) {
            Some(q) => q,
            None => return,
        };
        let OpenQ { it, obj, key, s, spec, pos, ended, wv, before, solo, wrote, .. } = q;
        sut(move || drop(it));
        self.pool.insert(key, obj);
        if !ended && pos < solo.len() {
            self.hit(P::Abandoned);
        }
        let own = qprop(&spec) | if !ended { C13 } else { 0 };
        if wv != 0 && spec.qk == 0 && spec.mode == 0 {
            // plain write query: which entity got which value is the library's choice; each value goes to one entity
            let tb = t();
            let wk = &accs()[spec.acc].write;
            let vals: Vec<Vec<u64>> =
                wrote.iter().map(|p| wk.iter().map(|k| (tb.kinds[*k].dig_of)(val(mix2(wv, *p as u64), *k))).collect()).collect();
            let mut by_row: BTreeMap<&Vec<u64>, Vec<usize>> = BTreeMap::new();
            for (p, v) in vals.iter().enumerate() {
                by_row.entry(v).or_default().push(p);
            }
            let mut unmatched = 0;
            let mut assigned = 0;
            for (i, old) in &before {
                let now = self.row_by_lookup(s, *i, wk);
                if now == *old {
                    continue;
                }
                match by_row.get_mut(&now).and_then(|x| x.pop()) {
                    Some(_) => {
                        assigned += 1;
                        for (c, k) in wk.iter().enumerate() {
                            self.sbm(s).m.ents[*i as usize].set(*k, Some(now[c]));
                        }
                    }
                    None => unmatched += 1,
                }
            }
            // a written value may equal what was there
            for (i, old) in &before {
                let _ = i;
                if let Some(x) = by_row.get_mut(old) {
                    if x.pop().is_some() {
                        assigned += 1;
                    }
                }
            }
            if unmatched > 0 || assigned < wrote.len() {
                self.report(
                    own | C02,
                    "write-misplaced",
                    format!("a write query yielded {} items; {unmatched} entities changed otherwise and {assigned} of the written rows can be found", wrote.len()),
                );
            }
        } else if wv != 0 {
            // look at every candidate: exactly the yielded ones were written
            let cand = self.expected(s, &Spec { qk: 0, mode: 1, list: vec![], ..spec.clone() });
            let stride = (cand.len() / 300).max(1);
            let old = self.extra;
            self.extra |= own;
            for i in cand.into_iter().step_by(stride) {
                for k in accs()[spec.acc].write.iter() {
                    self.check_look(s, i, *k);
                }
            }
            self.extra = old;
        }
    }

    pub fn close_all(&mut self) {
        let slots: Vec<usize> = self.open.keys().copied().collect();
        for s in slots {
            self.close(s);
        }
        self.phase_many = false;
    }

    // ---------------------------------------------------------------- resource stores

    fn dispatch_res(&mut self, op: &Op) -> bool {
        let r = op.u(0);
        if r >= self.res.len() {
            return false;
        }
        if op.k != K::RNew && self.res[r].is_none() {
            return false;
        }
        if op.k == K::RBad && !DEBUG {
            return false;
        }
        let mut slot = match op.k {
            K::RNew => {
                if let Some(mut old) = self.res[r].take() {
                    let mut rep = vec![];
                    old.drop_store(0, 0, &mut rep);
                    self.res_reports(rep);
                }
                ResSlot::new(op.u(1), op.u(2))
            }
            _ => self.res[r].take().unwrap(),
        };
        let mut rep = vec![];
        let out = slot.exec(op, &mut rep);
        self.probes[P::ResRelease as usize] += out.released;
        self.probes[P::ResPanicDrop as usize] += out.panics;
        self.probes[P::ResGrew as usize] += out.reused;
        self.probes[P::Rejected as usize] += out.rejected;
        self.panics_caught += out.caught;
        let applied = out.applied;
        if op.k != K::RBad {
            self.note(out.hash);
        } else {
            self.cur = 0;
        }
        if slot.obj.is_some() {
            self.res[r] = Some(slot);
        }
        self.res_reports(rep);
        applied
    }

    fn res_reports(&mut self, rep: Vec<(u32, &'static str, String)>) {
        for (m, c, msg) in rep {
            self.report(m, c, msg);
        }
    }
}

/// Takes n handles; the first that equals `first` or one of a few remembered ones, and its number. Handles that recur
/// with any period below half of n are found.
pub fn spin(n: usize, first: Entity, mut next: impl FnMut() -> Entity) -> Option<(Entity, usize)> {
    let mut known = [hkey(first); 6];
    for j in 1..=n {
        let e = next();
        let k = hkey(e);
        if known.contains(&k) {
            return Some((e, j));
        }
        match j {
            1 | 2 | 100 | 70_000 => known[1 + [1, 2, 100, 70_000].iter().position(|x| *x == j).unwrap()] = k,
            _ if j.is_power_of_two() => known[5] = k,
            _ => {}
        }
    }
    None
}

struct Nothing;
impl It for Nothing {
    fn next(&mut self, _: Option<u64>) -> Option<Item> {
        None
    }
    fn nth(&mut self, _: usize, _: Option<u64>) -> Option<Item> {
        None
    }
    fn hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
    fn finish(self: Box<Self>, _: usize, _: &dyn Fn(usize) -> Option<u64>, _: usize) -> (Option<usize>, Vec<Item>) {
        (None, vec![])
    }
    fn len(&self) -> Option<usize> {
        None
    }
}

pub fn qprop(s: &Spec) -> u32 {
    match s.qk {
        0 if s.mode >= 2 => C05 | C04,
        0 => C04,
        1 => C08,
        _ => C07,
    }
}

fn ids(e: Option<Entity>) -> Option<(u32, u32)> {
    e.map(|e| (e.id(), e.version()))
}

/// Three kinds that fit in no data page together.
const BULKY: u32 = 1 << 14 | 1 << 10 | 1 << 23;

fn names(ks: &[usize]) -> Vec<&'static str> {
    ks.iter().map(|k| t().kinds[*k].name).collect()
}

fn names_m(m: u32) -> Vec<&'static str> {
    kinds_in(m).map(|k| t().kinds[k].name).collect()
}
