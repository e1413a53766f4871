//! The seeded generator: simulated clients, the messages that carry handles between them, the scheduler that decides
//! who acts next, and the workload mix, all drawn from one number. It never looks at the library: it keeps its own
//! rough picture of the stores, so a trace is a function of the seed alone.

use crate::archs::{N_ARCHS, N_BUILDERS};
use crate::kinds::*;
use crate::op::*;
use crate::query::*;
use crate::res::{CAP_NEW, N_RES_TYPES};
use crate::rng::Rng;
use crate::world::{set_number, MAX_ALIVE, WRITE_SLOT};
use std::collections::HashMap;

/// What a trace may contain.
#[derive(Clone, Copy)]
pub struct Profile {
    pub prop: u32,
    pub store_ops: bool,
    pub res_ops: bool,
    pub arch_ops: bool,
    pub bad: bool,
    pub fail: bool,
    pub debug: bool,
}

struct GEnt {
    label: u64,
    alive: bool,
    mask: u32,
    tags: u128,
    groups: u128,
}

struct GStore {
    ents: Vec<GEnt>,
    idx: HashMap<u64, u32>,
    alive: Vec<u32>,
    pos: HashMap<u32, usize>,
    groups: Vec<Vec<u32>>,
    dead: Vec<u32>,
    bulks: Vec<(u64, usize)>,
}

impl GStore {
    fn new() -> Self {
        GStore {
            ents: vec![],
            idx: HashMap::new(),
            alive: vec![],
            pos: HashMap::new(),
            groups: vec![vec![]; MAX_TAGS],
            dead: vec![],
            bulks: vec![],
        }
    }
    fn add(&mut self, label: u64, mask: u32) -> u32 {
        let i = self.ents.len() as u32;
        self.ents.push(GEnt { label, alive: true, mask, tags: 0, groups: 0 });
        self.idx.insert(label, i);
        self.pos.insert(i, self.alive.len());
        self.alive.push(i);
        i
    }
    fn kill(&mut self, i: u32) {
        if !self.ents[i as usize].alive {
            return;
        }
        let e = &mut self.ents[i as usize];
        e.alive = false;
        e.mask = 0;
        e.tags = 0;
        let g = e.groups;
        e.groups = 0;
        let p = self.pos.remove(&i).unwrap();
        self.alive.swap_remove(p);
        if p < self.alive.len() {
            self.pos.insert(self.alive[p], p);
        }
        for k in 0..MAX_TAGS {
            if g >> k & 1 == 1 {
                self.groups[k].retain(|x| *x != i);
            }
        }
        self.dead.push(i);
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Act {
    Create,
    CreateArch,
    Bulk,
    Destroy,
    BulkDestroy,
    Add,
    Remove,
    Write,
    Read,
    Arch,
    Alive,
    Tag,
    Untag,
    HasTag,
    BulkTag,
    Ord,
    Unord,
    OrdLook,
    OrdScan,
    Reads,
    WriteQ,
    Sweep,
    Bad,
    NewStore,
    RNew,
    RCreate,
    RRead,
    RWrite,
    RReplace,
    RRelease,
    RDrop,
    RBad,
    RSweep,
    Sets,
    N,
}
use Act::*;
const ACTS: [Act; N as usize] = [
    Create, CreateArch, Bulk, Destroy, BulkDestroy, Add, Remove, Write, Read, Arch, Alive, Tag, Untag, HasTag, BulkTag, Ord, Unord,
    OrdLook, OrdScan, Reads, WriteQ, Sweep, Bad, NewStore, RNew, RCreate, RRead, RWrite, RReplace, RRelease, RDrop, RBad, RSweep, Sets,
];

fn weights(p: &Profile) -> [u32; N as usize] {
    let mut w = [0u32; N as usize];
    let mut set = |l: &[(Act, u32)]| {
        for (a, x) in l {
            w[*a as usize] = *x;
        }
    };
    if p.store_ops {
        set(&[
            (Create, 50), (CreateArch, 40), (Bulk, 8), (Destroy, 60), (BulkDestroy, 8), (Add, 80), (Remove, 50), (Write, 40),
            (Read, 30), (Arch, 10), (Alive, 15), (Tag, 15), (Untag, 8), (HasTag, 5), (BulkTag, 2), (Ord, 25), (Unord, 8),
            (OrdLook, 3), (OrdScan, 3), (Reads, 12), (WriteQ, 6), (Sweep, 4),
        ]);
        match p.prop {
            1 => set(&[(Create, 140), (Destroy, 150), (CreateArch, 60), (Alive, 60), (Ord, 4), (Tag, 5), (Reads, 2), (WriteQ, 1), (BulkDestroy, 14), (Bulk, 12)]),
            2 => set(&[(Write, 90), (Add, 110), (Remove, 80), (Reads, 2), (WriteQ, 12), (Read, 60), (Ord, 6), (Tag, 10)]),
            3 => set(&[(Add, 130), (Remove, 110), (CreateArch, 90), (Arch, 50), (Read, 50), (Reads, 1), (WriteQ, 1), (Ord, 3), (Tag, 4)]),
            4 => set(&[(Reads, 60), (WriteQ, 30), (Ord, 2), (Read, 6), (Alive, 2), (Arch, 2), (Tag, 4)]),
            5 => set(&[(Tag, 110), (Untag, 60), (HasTag, 60), (BulkTag, 20), (Reads, 40), (Ord, 2), (Create, 80), (Destroy, 80), (Write, 6), (Read, 4), (WriteQ, 2)]),
            6 => set(&[(Ord, 220), (Unord, 60), (OrdLook, 40), (OrdScan, 15), (Create, 70), (Destroy, 70), (Reads, 1), (WriteQ, 0), (Add, 20), (Remove, 8), (Tag, 6)]),
            7 => set(&[(Ord, 180), (Unord, 30), (Reads, 60), (WriteQ, 25), (Tag, 2), (Read, 6), (Alive, 2), (Arch, 2)]),
            8 => set(&[(Reads, 70), (WriteQ, 30), (Destroy, 80), (Ord, 2), (Tag, 2), (Read, 6), (Alive, 2), (Arch, 2)]),
            13 => set(&[(Reads, 90), (WriteQ, 25), (Ord, 40), (Tag, 25)]),
            _ => {}
        }
        if p.bad {
            set(&[(Bad, if p.prop == 11 { 40 } else { 10 })]);
        }
    }
    if p.arch_ops {
        set(&[(Sets, if p.prop == 16 { 1200 } else { 15 })]);
    }
    if p.res_ops {
        let k = if p.store_ops { 1 } else { 6 };
        set(&[
            (RCreate, 18 * k), (RRead, 8 * k), (RWrite, 5 * k), (RReplace, 4 * k), (RRelease, 14 * k), (RDrop, k), (RNew, k), (RSweep, k),
        ]);
        if p.prop == 14 {
            set(&[(RDrop, 0), (RNew, 0)]);
        }
        if p.bad && p.debug && p.prop == 11 {
            set(&[(RBad, 8 * k)]);
        }
    }
    w
}

struct Client {
    known: [Vec<u64>; 2],
    rknown: [Vec<u64>; 2],
    mult: [u32; N as usize],
}

pub struct Gen {
    r: Rng,
    p: Profile,
    pub out: Vec<Op>,
    stores: Vec<GStore>,
    shapes: Vec<usize>,
    kinds: Vec<usize>,
    accs: Vec<usize>,
    clients: Vec<Client>,
    mail: Vec<(usize, usize, bool, usize, u64)>,
    next_label: u64,
    time: usize,
    stale: usize,
    specs: Vec<(bool, Vec<u64>)>,
    shrink: bool,
    target: usize,
    bulk_max: usize,
    n_tags: usize,
    n_groups: usize,
    drop_pct: usize,
    dup_pct: usize,
    fail_pct: usize,
    res: Vec<(HashMap<u64, bool>, Vec<u64>, bool)>,
    pub messages: [u64; 3],
    huge: bool,
    crowd: bool,
    sets: bool,
    throng: bool,
    builders: u64,
}

fn vv(r: &mut Rng) -> u64 {
    1 + r.below(1_000_000_000) as u64
}

impl Gen {
    pub fn new(seed: u64, p: Profile) -> Gen {
        let mut r = Rng::new(seed);
        let tb = t();
        // a pool of component kinds the clients use
        let mut accs_pool: Vec<usize> = (0..1 + r.below(4)).map(|_| r.below(accs().len())).collect();
        accs_pool.dedup();
        let mut kinds: Vec<usize> = vec![];
        for a in &accs_pool {
            kinds.extend(accs()[*a].cols());
        }
        let style = r.below(8);
        if style == 0 {
            kinds = vec![14, 13, 29, 20, 0, 1, 11]; // rows near the page size
        } else if style == 1 {
            kinds.push(23);
        } else if style == 2 {
            kinds.extend([15, 16, 17, 18]);
        }
        for _ in 0..r.below(4) {
            kinds.push(*r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 25, 26, 27, 28, 29, 30]));
        }
        // larger kinds spread entities over several pages
        if r.chance(2, 3) {
            kinds.push(*r.pick(&[10, 11, 12, 13, 14, 20, 21, 28, 29]));
        }
        kinds.sort_unstable();
        kinds.dedup();
        kinds.retain(|k| *k != OVER);
        while kinds.len() > 9 && style != 0 {
            let i = r.below(kinds.len());
            kinds.remove(i);
        }
        // fewer kinds: component sets repeat, empty out and come back
        if r.chance(1, 3) {
            while kinds.len() > 3 {
                let i = r.below(kinds.len());
                kinds.remove(i);
            }
        }
        let pool = mask_of(&kinds);
        let mut shapes: Vec<usize> = kinds.clone();
        for (i, s) in tb.shapes.iter().enumerate().take(tb.plain).skip(N_KINDS) {
            let m = mask_of(s.kinds);
            if fits(m) && (m & !pool == 0 || (r.chance(1, 12) && (m & !pool).count_ones() <= 2)) {
                shapes.push(i);
            }
        }
        // queries over the pool
        let mut aq: Vec<usize> = (0..accs().len()).filter(|a| accs()[*a].mask & !pool == 0).collect();
        for a in &accs_pool {
            if !aq.contains(a) {
                aq.push(*a);
            }
        }
        let target = *r.pick(&[2usize, 4, 8, 16, 30, 60, 60, 120, 250]);
        let bulk_max = *r.pick(&[6usize, 20, 40, 70, 150, 400]);
        let n_stores = if p.store_ops { 1 + r.chance(1, 5) as usize } else { 0 };
        let n_clients = 1 + r.below(5);
        let base = weights(&p);
        let mut clients = vec![];
        let swarm = r.below(3);
        for _ in 0..n_clients {
            let mut m = base;
            for x in m.iter_mut() {
                let f = match swarm {
                    0 => 4,
                    1 => *r.pick(&[1, 2, 4, 4, 8, 12]),
                    _ => *r.pick(&[0, 1, 4, 4, 10, 24]),
                };
                *x *= f;
            }
            if p.store_ops {
                m[Create as usize] += 10;
                m[Add as usize] += 10;
                m[Destroy as usize] += 10;
            }
            clients.push(Client { known: Default::default(), rknown: Default::default(), mult: m });
        }
        let n_tags = if r.chance(1, 2) { 1 + r.below(2) } else { 1 + r.below(N_TAGS) };
        let n_groups = if r.chance(2, 3) { 1 } else { 1 + r.below(N_TAGS) };
        let huge_den = match p.prop {
            5 => 60,
            9 => 3000,
            4 => 250,
            7 | 8 => 150,
            1 | 2 | 3 | 6 | 10 | 13 | 15 => 400,
            14 => 120,
            _ => 0,
        };
        let huge = huge_den > 0 && r.chance(1, huge_den);
        let crowd = !huge && p.store_ops && r.chance(1, if matches!(p.prop, 5 | 6 | 7) { 40 } else { 150 });
        let sets = !huge && p.store_ops && r.chance(1, 120);
        let throng = !huge && matches!(p.prop, 1..=8 | 10 | 16) && r.chance(1, if p.debug { 300 } else { 120 });
        let (n_tags, n_groups) = if crowd { (MAX_TAGS, MAX_TAGS) } else { (n_tags, n_groups) };
        let mut g = Gen {
            p,
            out: vec![],
            stores: vec![],
            shapes,
            kinds,
            accs: aq,
            clients,
            mail: vec![],
            next_label: 1,
            time: 0,
            stale: *r.pick(&[0, 5, 10, 25]),
            specs: vec![],
            shrink: false,
            target,
            bulk_max,
            n_tags,
            n_groups,
            drop_pct: *r.pick(&[0, 5, 30]),
            dup_pct: *r.pick(&[0, 10]),
            fail_pct: *r.pick(&[8, 20, 40]),
            res: vec![],
            messages: [0; 3],
            huge,
            crowd,
            sets,
            throng,
            builders: 0,
            r,
        };
        for s in 0..n_stores {
            g.new_store(s);
        }
        if p.res_ops {
            for i in 0..1 + g.r.below(2) {
                g.res.push((HashMap::new(), vec![], false));
                g.new_res(i);
            }
        }
        g
    }

    fn emit(&mut self, k: K, a: &[u64]) {
        if self.p.fail && !matches!(k, K::QNext | K::QAll | K::QDrop | K::QPanic) && self.r.chance(self.fail_pct, 100) {
            let n = 1 + if self.r.chance(2, 3) { self.r.below(3) } else { self.r.below(14) };
            let st = self.r.chance(1, 4) as u64;
            self.out.push(Op::new(K::Fail, &[n as u64, st]));
        }
        self.out.push(Op::new(k, a));
    }

    fn new_store(&mut self, s: usize) {
        let cap = *self.r.pick(&[1usize, 1, 2, 3, 4, 8, 16, 31, 32, 32, 33, 63, 64, 65, 100, 128, 1000]);
        let st = GStore::new();
        if s < self.stores.len() {
            self.stores[s] = st;
        } else {
            self.stores.push(st);
        }
        for c in &mut self.clients {
            c.known[s].clear();
        }
        self.mail.retain(|m| m.2 || m.3 != s);
        self.emit(K::NewStore, &[s as u64, cap as u64]);
    }

    fn new_res(&mut self, i: usize) {
        let cap = match self.r.below(6) {
            0 => CAP_NEW,
            1 => 0,
            2 => 1,
            3 => 2,
            _ => 1 + self.r.below(40) as u64,
        };
        let ty = self.r.below(N_RES_TYPES) as u64;
        self.res[i] = (HashMap::new(), vec![], true);
        for c in &mut self.clients {
            c.rknown[i].clear();
        }
        self.emit(K::RNew, &[i as u64, ty, cap]);
    }

    fn label(&mut self) -> u64 {
        let l = self.next_label;
        self.next_label += 1;
        l
    }

    fn learn(&mut self, c: usize, is_res: bool, s: usize, label: u64) {
        let v = if is_res { &mut self.clients[c].rknown[s] } else { &mut self.clients[c].known[s] };
        v.push(label);
        if v.len() > 4000 {
            v.drain(..2000);
        }
        // tell the others
        for o in 0..self.clients.len() {
            if o == c || !self.r.chance(1, 2) {
                continue;
            }
            self.messages[0] += 1;
            if self.r.chance(self.drop_pct, 100) {
                self.messages[1] += 1;
                continue;
            }
            let d = self.time + 1 + self.r.below(40);
            self.mail.push((d, o, is_res, s, label));
            if self.r.chance(self.dup_pct, 100) {
                self.messages[2] += 1;
                let d = d + self.r.below(60);
                self.mail.push((d, o, is_res, s, label));
            }
        }
    }

    fn deliver(&mut self) {
        let now = self.time;
        let mut i = 0;
        while i < self.mail.len() {
            if self.mail[i].0 <= now {
                let (_, o, is_res, s, label) = self.mail.swap_remove(i);
                if is_res {
                    self.clients[o].rknown[s].push(label);
                } else {
                    self.clients[o].known[s].push(label);
                }
            } else {
                i += 1;
            }
        }
    }

    /// A label known to the client; mostly of a live entity.
    fn pick(&mut self, c: usize, s: usize) -> Option<u64> {
        if self.r.chance(self.stale, 100) {
            if let Some(l) = self.pick_dead(s) {
                return Some(l);
            }
        }
        self.pick_alive(c, s)
    }

    fn pick_dead(&mut self, s: usize) -> Option<u64> {
        let d = &self.stores[s].dead;
        if d.is_empty() {
            return None;
        }
        let n = d.len();
        let i = if self.r.chance(1, 2) { n - 1 - self.r.below(n.min(6)) } else { self.r.below(n) };
        Some(self.stores[s].ents[self.stores[s].dead[i] as usize].label)
    }

    fn pick_alive(&mut self, c: usize, s: usize) -> Option<u64> {
        let n = self.clients[c].known[s].len();
        if n > 0 {
            for _ in 0..8 {
                let i = if self.r.chance(1, 4) { n - 1 - self.r.below(n.min(5)) } else { self.r.below(n) };
                let l = self.clients[c].known[s][i];
                if let Some(i) = self.stores[s].idx.get(&l) {
                    if self.stores[s].ents[*i as usize].alive {
                        return Some(l);
                    }
                }
            }
        }
        let a = &self.stores[s].alive;
        if a.is_empty() {
            return None;
        }
        let i = a[self.r.below(a.len())];
        Some(self.stores[s].ents[i as usize].label)
    }

    fn pick_member(&mut self, s: usize, g: usize) -> Option<u64> {
        let v = &self.stores[s].groups[g];
        if v.is_empty() {
            return None;
        }
        // the ends and the middle
        let n = v.len();
        let i = match self.r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => self.r.below(n),
        };
        Some(self.stores[s].ents[self.stores[s].groups[g][i] as usize].label)
    }

    fn shape(&mut self) -> usize {
        *self.r.pick(&self.shapes.clone())
    }

    /// For uses that write nothing: now and then a tuple that repeats a kind.
    fn any_shape(&mut self) -> usize {
        let (n, all) = (t().plain, t().shapes.len());
        if self.r.chance(1, 12) {
            return n + self.r.below(all - n);
        }
        self.shape()
    }

    fn gi(&self, s: usize, l: u64) -> Option<u32> {
        self.stores[s].idx.get(&l).copied()
    }

    /// Builds the whole trace.
    pub fn run(&mut self, steps: usize) {
        let style = self.r.below(3);
        let mut cur = 0;
        let end = self.time + steps;
        while self.time < end {
            self.time += 1;
            self.deliver();
            cur = match style {
                0 => (cur + 1) % self.clients.len(),
                1 => self.r.below(self.clients.len()),
                _ => {
                    if self.r.chance(1, 8) {
                        self.r.below(self.clients.len())
                    } else {
                        cur
                    }
                }
            };
            if self.r.chance(1, 40) {
                self.shrink = !self.shrink;
            }
            let mut w = self.clients[cur].mult;
            if !self.stores.is_empty() {
                let s = 0;
                let n = self.stores[s].alive.len();
                if n > self.target * 2 || self.shrink {
                    for a in [Create, CreateArch, Bulk] {
                        w[a as usize] /= 6;
                    }
                    w[Destroy as usize] *= 3;
                    w[BulkDestroy as usize] *= 3;
                } else if n < self.target / 2 {
                    w[Destroy as usize] /= 4;
                    w[BulkDestroy as usize] /= 4;
                    w[Create as usize] *= 2;
                    w[CreateArch as usize] *= 2;
                }
            }
            if self.r.chance(1, 400) && self.p.store_ops && self.p.prop != 14 {
                w = [0; N as usize];
                w[NewStore as usize] = 1;
            }
            let a = ACTS[self.r.weighted(&w)];
            self.act(cur, a);
            if self.time == end - steps / 2 {
                if self.huge {
                    self.huge_phase();
                }
                if self.throng {
                    self.throng_phase();
                }
                if self.sets {
                    self.sets_phase();
                }
                if self.crowd {
                    self.crowd_phase();
                }
            }
        }
    }

    /// More entities, or more incarnations of one id, than fit in sixteen bits.
    fn wide_phase(&mut self) {
        let n = 65_000 + self.r.below(7_000);
        if self.stores[0].alive.len() + n > MAX_ALIVE {
            return;
        }
        let l0 = self.next_label;
        self.next_label += n as u64;
        let shape = if self.r.chance(1, 4) { 9999 } else { *self.r.pick(&[0usize, 1, 2, 3, 4, 7, 8, 16, 30]) };
        let m = if shape < 9999 { mask_of(t().shapes[shape].kinds) } else { 0 };
        let v = vv(&mut self.r);
        if self.p.prop == 1 && !self.p.debug && self.r.chance(1, 12) {
            // nor in twenty-four
            return self.emit(K::Spin, &[0, l0, 34_000_000]);
        }
        if self.p.prop <= 8 && !self.p.debug && self.r.chance(2, 5) {
            // nor in twenty
            let n = 1_060_000 + self.r.below(300_000);
            let cap = *self.r.pick(&[1, 100, 1 << 20, n]);
            return self.emit(K::Mass, &[0, v, n as u64, cap as u64]);
        }
        if self.r.chance(1, 3) {
            let extra = self.r.below(64) as u64;
            self.emit(K::Churn, &[0, l0, n as u64, shape as u64, v, extra]);
            for j in [0, 1, n / 2, n - 1] {
                self.emit(K::Alive, &[0, l0 + j as u64]);
            }
            return;
        }
        let how = self.r.below(2) as u64;
        self.emit(K::Bulk, &[0, l0, n as u64, shape as u64, v, how]);
        for j in 0..n {
            self.stores[0].add(l0 + j as u64, m);
        }
        // the clients work on some of them
        for c in 0..self.clients.len() {
            for _ in 0..4 {
                let j = if self.r.chance(1, 2) { n - 1 - self.r.below(600) } else { self.r.below(n) };
                self.learn(c, false, 0, l0 + j as u64);
            }
        }
        for _ in 0..40 {
            let c = self.r.below(self.clients.len());
            let w = self.clients[c].mult;
            let a = ACTS[self.r.weighted(&w)];
            if !matches!(a, NewStore | Bulk | BulkDestroy | Sweep | Bad) {
                self.act(c, a);
            }
        }
        let order = self.r.below(3) as u64;
        let stride = 1 + self.r.below(3) as u64;
        self.emit(K::BulkDestroy, &[0, l0, n as u64, stride, 0, order]);
        for j in (0..n as u64).step_by(stride as usize) {
            if let Some(i) = self.gi(0, l0 + j) {
                self.stores[0].kill(i);
            }
        }
    }

    /// A component set of its own for each of several hundred entities.
    /// Hundreds of types and tags, in a store of their own.
    fn throng_phase(&mut self) {
        let v = vv(&mut self.r);
        let long = self.r.chance(1, 4);
        let steps = 20 + self.r.below(if long { 800 } else { 160 });
        let types = *self.r.pick(&[33, 64, 66, 128, 130, 256, 260, 288]);
        let tags = *self.r.pick(&[33, 65, 129, 257, 272]);
        let cap = *self.r.pick(&[1, 1, 31, 64, 100]);
        self.emit(K::Throng, &[0, v, steps as u64, types, tags, cap]);
    }

    /// Nine or ten kinds of small components, of which many sets can be made.
    fn set_pool(&mut self) -> u32 {
        let tb = t();
        let small = |k: &usize| tb.kinds[*k].size <= 64 && tb.kinds[*k].align <= 64;
        let mut pool: Vec<usize> = self.kinds.iter().copied().filter(small).collect();
        let mut rest: Vec<usize> = (0..N_KINDS).filter(small).filter(|k| *k != OVER && !pool.contains(k)).collect();
        self.r.shuffle(&mut rest);
        pool.extend(rest);
        pool.truncate(if self.p.prop == 14 { 10 } else { 9 + self.r.below(2) });
        mask_of(&pool)
    }

    fn sets_phase(&mut self) {
        let pool = self.set_pool();
        let n = if self.p.prop == 14 { 20 + self.r.below(40) } else { *self.r.pick(&[60usize, 200, 257, 300, 300, 512, 700]) };
        if !fits(pool) || self.stores[0].alive.len() + n > MAX_ALIVE {
            return;
        }
        let l0 = self.next_label;
        self.next_label += n as u64;
        let (how, v) = (self.r.below(1000) as u64, vv(&mut self.r));
        self.emit(K::Sets, &[0, l0, n as u64, pool as u64, how, v]);
        for j in 0..n {
            self.stores[0].add(l0 + j as u64, set_number(pool, v, j));
        }
        self.stores[0].bulks.push((l0, n));
        for _ in 0..60 {
            let c = self.r.below(self.clients.len());
            for _ in 0..3 {
                let l = l0 + self.r.below(n) as u64;
                self.learn(c, false, 0, l);
            }
            let w = self.clients[c].mult;
            let a = ACTS[self.r.weighted(&w)];
            if a != NewStore {
                self.act(c, a);
            }
        }
        if self.r.chance(2, 3) {
            let stride = 1 + self.r.below(3) as u64;
            let order = self.r.below(3) as u64;
            self.emit(K::BulkDestroy, &[0, l0, n as u64, stride, 0, order]);
            for j in (0..n as u64).step_by(stride as usize) {
                if let Some(i) = self.gi(0, l0 + j) {
                    self.stores[0].kill(i);
                }
            }
        }
    }

    /// Many tag types and order groups, met in a random order.
    fn crowd_phase(&mut self) {
        let mut order: Vec<usize> = (0..MAX_TAGS).collect();
        self.r.shuffle(&mut order);
        // tags, groups or both
        let what = self.r.below(4);
        for tg in order {
            for _ in 0..1 + self.r.below(2) {
                let i = match self.stores[0].alive.len() {
                    0 => return,
                    n => self.stores[0].alive[self.r.below(n)],
                };
                let l = self.stores[0].ents[i as usize].label;
                if what != 1 && self.r.chance(19, 20) {
                    self.emit(K::Tag, &[0, l, tg as u64]);
                    self.stores[0].ents[i as usize].tags |= 1 << tg;
                }
                if what != 0 && self.r.chance(19, 20) && self.stores[0].ents[i as usize].groups >> tg & 1 == 0 {
                    self.emit(K::Ord, &[0, l, tg as u64]);
                    self.stores[0].groups[tg].push(i);
                    self.stores[0].ents[i as usize].groups |= 1 << tg;
                }
            }
        }
        // some of them go, and their ids come back
        for _ in 0..4 {
            let c = self.r.below(self.clients.len());
            for a in [Destroy, Create, Tag, Ord] {
                self.act(c, a);
            }
        }
    }

    /// More data pages than fit in sixteen bits.
    fn pages_phase(&mut self) {
        let n = 65_700 + self.r.below(1_500);
        let sets = *self.r.pick(&[32usize, 64, 37, 61]);
        if self.stores[0].alive.len() + n > MAX_ALIVE {
            return;
        }
        let l0 = self.next_label;
        self.next_label += n as u64;
        self.emit(K::Pages, &[0, l0, n as u64, sets as u64]);
        let small = [0u32, 1, 2, 3, 4, 7];
        for j in 0..n {
            let x = j % sets;
            let m = (0..6).filter(|b| x >> b & 1 == 1).fold(1u32 << 14 | 1 << 28, |m, b| m | 1 << small[b]);
            self.stores[0].add(l0 + j as u64, m);
        }
        // entities whose pages may be taken for each other
        for _ in 0..30 {
            let j = if self.r.chance(1, 3) { self.r.below(8) } else { self.r.below(n - 65_600) };
            let far = j + 65_530 + self.r.below(12);
            let v = vv(&mut self.r);
            let k = 14 + 14 * self.r.below(2) as u64;
            for (x, v) in [(j, v), (far, v + 1)] {
                if x < n && self.r.chance(3, 4) {
                    self.emit(K::Write, &[0, l0 + x as u64, k, v]);
                }
            }
            for d in [j, far] {
                if d < n {
                    self.emit(K::Read, &[0, l0 + d as u64, k]);
                    self.emit(K::Arch, &[0, l0 + d as u64]);
                    let c = self.r.below(self.clients.len());
                    self.learn(c, false, 0, l0 + d as u64);
                }
            }
        }
        for _ in 0..40 {
            let c = self.r.below(self.clients.len());
            let w = self.clients[c].mult;
            let a = ACTS[self.r.weighted(&w)];
            if !matches!(a, NewStore | Bulk | BulkDestroy | Sweep | Bad) {
                self.act(c, a);
            }
        }
        let stride = 150 + self.r.below(400) as u64;
        let order = self.r.below(3) as u64;
        self.emit(K::BulkDestroy, &[0, l0, n as u64, stride, 0, order]);
        for j in (0..n as u64).step_by(stride as usize) {
            if let Some(i) = self.gi(0, l0 + j) {
                self.stores[0].kill(i);
            }
        }
    }

    /// The same for resource stores.
    fn wide_res(&mut self) {
        let i = self.r.below(self.res.len());
        let iu = i as u64;
        if self.r.chance(1, 2) || !self.res[i].2 {
            self.new_res(i);
        }
        let ty = self.out.iter().rev().find(|o| o.k == K::RNew && o.a[0] == iu).map_or(0, |o| o.u(1));
        let n = if ty == 3 { 400 + self.r.below(6000) } else { 65_000 + self.r.below(7_000) };
        let l0 = self.next_label;
        self.next_label += n as u64;
        let v = vv(&mut self.r);
        let spin = if self.p.debug { 0 } else { 100 };
        match self.r.weighted(&[60, 30, 10, spin / 33]) {
            2 => {
                let k = 70_000 + self.r.below(40_000) as u64;
                self.emit(K::RSpin, &[iu, k, v])
            }
            3 => self.emit(K::RSpin, &[iu, 34_000_000, v]),
            1 => {
                self.emit(K::RChurn, &[iu, l0, n as u64, v]);
                for j in [0, 1, n - 1] {
                    self.res[i].0.insert(l0 + j as u64, false);
                    self.res[i].1.push(l0 + j as u64);
                }
            }
            _ => {
                self.emit(K::RBulk, &[iu, l0, n as u64, v]);
                for j in 0..n {
                    self.res[i].0.insert(l0 + j as u64, true);
                    self.res[i].1.push(l0 + j as u64);
                }
                let c = self.r.below(self.clients.len());
                for _ in 0..30 {
                    let a = *self.r.pick(&[RCreate, RRead, RWrite, RReplace, RRelease, RRelease]);
                    self.act_res(c, a);
                }
                if self.r.chance(1, 2) {
                    let (order, stride) = (self.r.below(3) as u64, 1 + self.r.below(3));
                    self.emit(K::RBulkRelease, &[iu, l0, n as u64, stride as u64, 0, order]);
                    for j in (0..n).step_by(stride) {
                        self.res[i].0.insert(l0 + j as u64, false);
                    }
                    for _ in 0..30 {
                        let a = *self.r.pick(&[RCreate, RCreate, RRead, RWrite, RRelease]);
                        self.act_res(c, a);
                    }
                }
                if self.r.chance(1, 3) {
                    self.act_res(c, RDrop);
                } else {
                    self.emit(K::RSweep, &[iu]);
                }
            }
        }
    }

    /// Thousands of entities, or resources, that come and go together.
    fn wide_cycle(&mut self) {
        let n = if cfg!(feature = "plain") || self.r.chance(1, 2) { 1_100 + self.r.below(1_000) } else { 4_300 + self.r.below(2_000) };
        let l0 = self.next_label;
        self.next_label += n as u64;
        let v = vv(&mut self.r);
        if !self.p.store_ops {
            let i = self.r.below(self.res.len());
            self.emit(K::RBulk, &[i as u64, l0, n as u64, v]);
            let order = self.r.below(20) as u64;
            self.emit(K::RBulkRelease, &[i as u64, l0, n as u64, 1, 0, order]);
            return;
        }
        if !cfg!(feature = "plain") && self.r.chance(1, 3) {
            // a page and a component set for each entity
            let n = 515 + self.r.below(100) as u64;
            let (pool, how) = (self.set_pool() as u64, 2 * self.r.below(500) as u64);
            self.emit(K::Sets, &[0, l0, n, pool, how, v]);
            let order = self.r.below(20) as u64;
            self.emit(K::BulkDestroy, &[0, l0, n, 1, 0, order]);
            return;
        }
        let shape = *self.r.pick(&[9999, 9999, 9999, 0, 2]);
        let how = self.r.below(2) as u64;
        self.emit(K::Bulk, &[0, l0, n as u64, shape, v, how]);
        let order = self.r.below(20) as u64;
        let stride = 1 + self.r.below(4) as u64 / 3;
        self.emit(K::BulkDestroy, &[0, l0, n as u64, stride, 0, order]);
    }

    fn huge_phase(&mut self) {
        if self.p.prop == 14 {
            return self.wide_cycle();
        }
        if !self.p.store_ops {
            return self.wide_res();
        }
        if !self.p.debug && matches!(self.p.prop, 2 | 3 | 4 | 7 | 8 | 10) && self.r.chance(1, 2) {
            return self.pages_phase();
        }
        if !matches!(self.p.prop, 4 | 5 | 7 | 8) {
            return self.wide_phase();
        }
        if self.r.chance(1, 4) {
            // more members, list entries and items than sixteen bits count
            let n = 66_000 + self.r.below(80_000) as u64;
            let (cap, v) = (*self.r.pick(&[1, 100, 1 << 16, n]), vv(&mut self.r));
            // a quarter of them is in a group
            let n = if self.p.prop == 7 { 4 * n } else { n };
            return self.emit(K::Mass, &[0, v, n, cap]);
        }
        let s = 0;
        let n = 9_000 + self.r.below(if self.p.prop >= 7 { 31_000 } else { 66_000 });
        if self.stores[s].alive.len() + n > MAX_ALIVE {
            return;
        }
        let l0 = self.next_label;
        self.next_label += n as u64;
        let acc = *self.r.pick(&[1usize, 2, 0]);
        let shape = [4usize, 0, 2][[1usize, 2, 0].iter().position(|x| *x == acc).unwrap()];
        let v = vv(&mut self.r);
        let how = self.r.below(2) as u64;
        self.emit(K::Bulk, &[s as u64, l0, n as u64, shape as u64, v, how]);
        let m = 1u32 << shape;
        for j in 0..n {
            self.stores[s].add(l0 + j as u64, m);
        }
        if self.p.prop >= 7 {
            // a long group, or list, in which few entries have the queried component
            let other = self.accs.iter().copied().find(|a| accs()[*a].mask & m == 0).unwrap_or(4);
            let use_acc = if self.r.chance(1, 3) { acc } else { other };
            if self.p.prop == 7 {
                let g = self.r.below(N_ORDER_TAGS) as u64;
                let st = 1 + self.r.below(2) as u64;
                self.emit(K::BulkOrd, &[s as u64, l0, n as u64, st, 0, g]);
                self.emit(K::QOpen, &[0, s as u64, 0, 2, use_acc as u64, g, 0, 0]);
                self.emit(K::QAll, &[0]);
            } else {
                let mut a = vec![0, s as u64, 0, 1, use_acc as u64, 0, 1, 0];
                a.extend(l0..l0 + n as u64);
                self.emit(K::QOpen, &a);
                self.emit(K::QAll, &[0]);
            }
            let order = self.r.below(3) as u64;
            self.emit(K::BulkDestroy, &[s as u64, l0, n as u64, 1, 0, order]);
            for j in 0..n {
                let i = self.gi(s, l0 + j as u64).unwrap();
                self.stores[s].kill(i);
            }
            return;
        }
        let tg = self.r.below(N_FILTER_TAGS);
        // the tagged ones are few, at the far end or spread out
        match self.r.below(3) {
            0 => {}
            1 => self.emit(K::Tag, &[s as u64, l0 + n as u64 - 1, tg as u64]),
            _ => {
                let st = 1 + n as u64 / 5;
                self.emit(K::BulkTag, &[s as u64, l0, n as u64, st, st / 2, tg as u64])
            }
        }
        self.emit(K::QOpen, &[0, s as u64, 0, 0, acc as u64, 0, 2 + tg as u64, 0]);
        self.emit(K::QAll, &[0]);
        let order = self.r.below(3) as u64;
        self.emit(K::BulkDestroy, &[s as u64, l0, n as u64, 1, 0, order]);
        for j in 0..n {
            let i = self.gi(s, l0 + j as u64).unwrap();
            self.stores[s].kill(i);
        }
    }

    fn created(&mut self, c: usize, s: usize, label: u64, mask: u32) {
        self.stores[s].add(label, mask);
        self.learn(c, false, s, label);
    }

    fn act(&mut self, c: usize, a: Act) {
        if a == Sets {
            return self.sets();
        }
        if (a as usize) >= RNew as usize {
            return self.act_res(c, a);
        }
        let s = if self.stores.len() > 1 && self.r.chance(1, 3) { 1 } else { 0 };
        let su = s as u64;
        let full = self.stores[s].alive.len() + 1000 > MAX_ALIVE;
        match a {
            Create if !full => {
                let l = self.label();
                self.emit(K::Create, &[su, l]);
                self.created(c, s, l, 0);
                // usually filled at once
                if self.r.chance(2, 3) {
                    let sh = self.shape();
                    let v = vv(&mut self.r);
                    self.add(s, l, sh, v);
                }
            }
            CreateArch if !full => {
                let (mask, how) = if self.r.chance(1, 2) {
                    let sh = self.any_shape();
                    (mask_of(t().shapes[sh].kinds), 1000 + sh as u64)
                } else {
                    let mut m = 0u32;
                    let n = 1 + self.r.below(self.kinds.len().min(6));
                    for _ in 0..n {
                        m |= 1 << *self.r.pick(&self.kinds.clone());
                    }
                    (m, self.r.below(900) as u64)
                };
                if !fits(mask) {
                    return;
                }
                let l = self.label();
                let v = if self.r.chance(3, 4) { vv(&mut self.r) } else { 0 };
                self.emit(K::CreateArch, &[su, l, mask as u64, how, v]);
                self.created(c, s, l, mask);
            }
            Bulk if !full => {
                let n = 1 + self.r.below(self.bulk_max);
                let sh = if self.r.chance(1, 8) { 9999 } else { self.shape() };
                // a page or two of small rows now and then
                let n = if sh < 9999 && self.r.chance(1, 12) {
                    let size: usize = t().shapes[sh].kinds.iter().map(|k| t().kinds[*k].size).sum();
                    let per = PAGE_BYTES / (size + 8);
                    if per * 2 < 2600 {
                        (per + self.r.below(per + 6)).max(1)
                    } else {
                        n
                    }
                } else {
                    n
                };
                if sh < 9999 && !fits(mask_of(t().shapes[sh].kinds)) {
                    return;
                }
                let n = if self.p.prop == 14 && sh < 9999 {
                    // every round writes and checks all of it
                    let size: usize = t().shapes[sh].kinds.iter().map(|k| t().kinds[*k].size).sum();
                    n.min(400_000 / (size + 8))
                } else {
                    n
                };
                let l0 = self.next_label;
                self.next_label += n as u64;
                let v = vv(&mut self.r);
                let how = self.r.below(2) as u64;
                self.emit(K::Bulk, &[su, l0, n as u64, sh as u64, v, how]);
                let m = if sh < 9999 { mask_of(t().shapes[sh].kinds) } else { 0 };
                for j in 0..n {
                    self.stores[s].add(l0 + j as u64, m);
                }
                for _ in 0..4.min(n) {
                    let j = self.r.below(n) as u64;
                    self.learn(c, false, s, l0 + j);
                }
                self.stores[s].bulks.push((l0, n));
            }
            Destroy => {
                // sometimes a member of a group
                let l = if self.r.chance(1, 4) {
                    let g = self.r.below(self.n_groups);
                    self.pick_member(s, g)
                } else {
                    self.pick_alive(c, s)
                };
                if let Some(l) = l.or_else(|| self.pick_alive(c, s)) {
                    self.emit(K::Destroy, &[su, l]);
                    if let Some(i) = self.gi(s, l) {
                        self.stores[s].kill(i);
                    }
                }
            }
            BulkDestroy => {
                let (l0, n) = if !self.stores[s].bulks.is_empty() && self.r.chance(3, 4) {
                    *self.r.pick(&self.stores[s].bulks.clone())
                } else {
                    let n = 1 + self.r.below(30);
                    let top = self.next_label;
                    (top.saturating_sub(n as u64 + self.r.below(40) as u64).max(1), n)
                };
                let stride = *self.r.pick(&[1u64, 1, 2, 3, 5]);
                let phase = self.r.below(stride as usize) as u64;
                let order = match self.r.below(3) {
                    0 => 0,
                    1 => 1,
                    _ => 2 + self.r.below(1000) as u64,
                };
                self.emit(K::BulkDestroy, &[su, l0, n as u64, stride, phase, order]);
                for j in 0..n as u64 {
                    if j % stride == phase {
                        if let Some(i) = self.gi(s, l0 + j) {
                            self.stores[s].kill(i);
                        }
                    }
                }
            }
            Add => {
                if let Some(l) = self.pick(c, s) {
                    let sh = self.shape();
                    let v = vv(&mut self.r);
                    self.add(s, l, sh, v);
                }
            }
            Remove => {
                if let Some(l) = self.pick(c, s) {
                    let m = self.gi(s, l).map_or(0, |i| self.stores[s].ents[i as usize].mask);
                    // mostly something it has
                    let mut sh = self.any_shape();
                    if m != 0 && self.r.chance(3, 4) {
                        let ks: Vec<usize> = kinds_in(m).collect();
                        sh = *self.r.pick(&ks);
                        if self.r.chance(1, 3) {
                            if let Some(x) = self.shapes.iter().rev().find(|x| mask_of(t().shapes[**x].kinds) & !m == 0) {
                                sh = *x;
                            }
                        }
                    }
                    self.emit(K::Remove, &[su, l, sh as u64]);
                    if let Some(i) = self.gi(s, l) {
                        self.stores[s].ents[i as usize].mask &= !mask_of(t().shapes[sh].kinds);
                    }
                }
            }
            Write | Read => {
                if let Some(l) = self.pick(c, s) {
                    let m = self.gi(s, l).map_or(0, |i| self.stores[s].ents[i as usize].mask);
                    let mut sh = self.shape();
                    if m != 0 && self.r.chance(7, 8) {
                        let c: Vec<usize> = self.shapes.iter().copied().filter(|x| mask_of(t().shapes[*x].kinds) & !m == 0).collect();
                        if !c.is_empty() {
                            sh = *self.r.pick(&c);
                        }
                    }
                    if a == Write {
                        let v = vv(&mut self.r);
                        self.emit(K::Write, &[su, l, sh as u64, v]);
                    } else {
                        let q = self.any_shape();
                        if q >= t().plain {
                            sh = q;
                        }
                        self.emit(K::Read, &[su, l, sh as u64]);
                    }
                }
            }
            Arch => {
                if let Some(l) = self.pick(c, s) {
                    self.emit(K::Arch, &[su, l]);
                }
            }
            Alive => {
                let l = if self.r.chance(1, 2) { self.pick_dead(s) } else { None };
                if let Some(l) = l.or_else(|| self.pick(c, s)) {
                    self.emit(K::Alive, &[su, l]);
                }
            }
            Tag | Untag | HasTag => {
                if let Some(l) = self.pick(c, s) {
                    let tg = self.r.below(self.n_tags);
                    let k = match a {
                        Tag => K::Tag,
                        Untag => K::Untag,
                        _ => K::HasTag,
                    };
                    self.emit(k, &[su, l, tg as u64]);
                    if let Some(i) = self.gi(s, l) {
                        let e = &mut self.stores[s].ents[i as usize];
                        if e.alive && a == Tag {
                            e.tags |= 1 << tg;
                        } else if a == Untag {
                            e.tags &= !(1u128 << tg);
                        }
                    }
                }
            }
            BulkTag => {
                if self.stores[s].bulks.is_empty() {
                    return;
                }
                let (l0, n) = *self.r.pick(&self.stores[s].bulks.clone());
                let tg = self.r.below(self.n_tags) as u64;
                let stride = *self.r.pick(&[1u64, 2, 3, 7, 31, 32, 33]);
                let phase = self.r.below(stride as usize) as u64;
                self.emit(K::BulkTag, &[su, l0, n as u64, stride, phase, tg]);
            }
            Ord => {
                let g = self.r.below(self.n_groups);
                let l = match self.pick(c, s) {
                    Some(l) => l,
                    None => return,
                };
                let anchor = if self.r.chance(self.stale, 200) { self.pick_dead(s) } else { self.pick_member(s, g) };
                let kind = self.r.below(4);
                let i = self.gi(s, l).unwrap();
                let (alive, member) = {
                    let e = &self.stores[s].ents[i as usize];
                    (e.alive, e.groups >> g & 1 == 1)
                };
                if member {
                    // move it: take it out and put it back elsewhere
                    self.emit(K::Unord, &[su, l, g as u64]);
                    self.stores[s].groups[g].retain(|x| *x != i);
                    self.stores[s].ents[i as usize].groups &= !(1 << g);
                    if self.r.chance(1, 2) {
                        return;
                    }
                }
                match (kind, anchor) {
                    (0 | 1, Some(m)) if m != l => {
                        let k = if kind == 0 { K::OrdNext } else { K::OrdPrev };
                        self.emit(k, &[su, l, m, g as u64]);
                        let j = self.gi(s, m).unwrap();
                        if alive {
                            if let Some(p) = self.stores[s].groups[g].iter().position(|x| *x == j) {
                                self.stores[s].groups[g].insert(p + (kind == 0) as usize, i);
                                self.stores[s].ents[i as usize].groups |= 1 << g;
                            }
                        }
                    }
                    _ => {
                        self.emit(K::Ord, &[su, l, g as u64]);
                        if alive {
                            self.stores[s].groups[g].push(i);
                            self.stores[s].ents[i as usize].groups |= 1 << g;
                        }
                    }
                }
            }
            Unord => {
                let g = self.r.below(self.n_groups);
                let l = if self.r.chance(4, 5) { self.pick_member(s, g) } else { None };
                if let Some(l) = l.or_else(|| self.pick(c, s)) {
                    self.emit(K::Unord, &[su, l, g as u64]);
                    if let Some(i) = self.gi(s, l) {
                        self.stores[s].groups[g].retain(|x| *x != i);
                        self.stores[s].ents[i as usize].groups &= !(1 << g);
                    }
                }
            }
            OrdLook => {
                let g = self.r.below(self.n_groups);
                let l = if self.r.chance(1, 2) { self.pick_member(s, g) } else { None };
                if let Some(l) = l.or_else(|| self.pick(c, s)) {
                    self.emit(K::OrdLook, &[su, l, g as u64]);
                }
            }
            OrdScan => {
                let g = self.r.below(self.n_groups) as u64;
                self.emit(K::OrdScan, &[su, g]);
            }
            Reads => self.reads(c, s),
            WriteQ => self.write_query(c, s),
            Sweep => self.emit(K::Sweep, &[su]),
            NewStore => self.new_store(s),
            Bad => self.bad(c, s),
            _ => {}
        }
    }

    fn add(&mut self, s: usize, l: u64, sh: usize, v: u64) {
        let i = match self.gi(s, l) {
            Some(i) => i,
            None => return,
        };
        let m = mask_of(t().shapes[sh].kinds);
        let e = &mut self.stores[s].ents[i as usize];
        if !fits(e.mask | m) {
            return;
        }
        if e.alive {
            e.mask |= m;
        }
        self.emit(K::Add, &[s as u64, l, sh as u64, v]);
    }

    fn qspec(&mut self, c: usize, s: usize, slot: u64, write: bool) -> Option<Vec<u64>> {
        let acc = if write {
            let w: Vec<usize> = self.accs.iter().copied().filter(|a| !accs()[*a].write.is_empty()).collect();
            if w.is_empty() {
                return None;
            }
            *self.r.pick(&w)
        } else {
            *self.r.pick(&self.accs.clone())
        };
        // as programs do, the same query again, after whatever has happened since
        let same: Vec<usize> =
            (0..self.specs.len()).filter(|i| self.specs[*i].0 == write && self.specs[*i].1[1] == s as u64).collect();
        if !same.is_empty() && self.r.chance(1, 3) {
            let mut a = self.specs[*self.r.pick(&same)].1.clone();
            a[0] = slot;
            a[7] = if write { vv(&mut self.r) } else { 0 };
            if a.len() > 8 && self.r.chance(1, 3) {
                let (i, j) = (8 + self.r.below(a.len() - 8), 8 + self.r.below(a.len() - 8));
                match self.pick(c, s) {
                    Some(l) if self.r.chance(1, 2) => a[i] = l,
                    _ => a.swap(i, j),
                }
            }
            return Some(a);
        }
        let wts: [u32; 4] = match self.p.prop {
            4 => [9, 1, 0, 0],
            5 => [1, 12, 0, 0],
            7 => [0, 0, 0, 1],
            8 => [0, 0, 1, 0],
            _ => [4, 3, 3, 3],
        };
        let (qk, mode) = match self.r.weighted(&wts) {
            0 => (0, self.r.below(2)),
            1 => (0, 2 + self.r.below(self.n_tags.min(N_FILTER_TAGS))),
            2 => (1, self.r.below(2)),
            _ => (2, self.r.below(2)),
        };
        let tag = if qk == 2 { self.r.below(self.n_groups.min(N_ORDER_TAGS)) } else { 0 };
        // few objects, so that they are reused
        let obj = self.r.below(3);
        let wv = if write { vv(&mut self.r) } else { 0 };
        let pre = if mode > 0 && self.r.chance(1, 5) { 1 + self.r.below(5) } else { 0 };
        let mode = mode | pre << 8;
        let mut a = vec![slot, s as u64, obj as u64, qk as u64, acc as u64, tag as u64, mode as u64, wv];
        if qk == 1 {
            let most = if self.r.chance(1, 6) { 120 } else { 14 };
            let n = self.r.below(most);
            let st = self.stale;
            self.stale = *self.r.pick(&[0, 10, 50]);
            for _ in 0..n {
                if let Some(l) = self.pick(c, s) {
                    a.push(l);
                    // runs of neighbours of the same set
                    if self.r.chance(1, 3) {
                        for d in 1..1 + self.r.below(5) as u64 {
                            if self.gi(s, l + d).is_some() {
                                a.push(l + d);
                            }
                        }
                    }
                }
            }
            self.stale = st;
        }
        if self.specs.len() == 6 {
            self.specs.remove(0);
        }
        self.specs.push((write, a.clone()));
        Some(a)
    }

    fn reads(&mut self, c: usize, s: usize) {
        let multi = self.p.prop == 13 || self.r.chance(1, 3);
        let n = if multi { 2 + self.r.below(3) } else { 1 };
        let mut open: Vec<u64> = vec![];
        let mut left = n;
        let mut guard = 0;
        while (left > 0 || !open.is_empty()) && guard < 400 {
            guard += 1;
            if left > 0 && (open.is_empty() || self.r.chance(1, 3)) {
                left -= 1;
                let slot = (n - left) as u64;
                if let Some(a) = self.qspec(c, s, slot, false) {
                    self.emit(K::QOpen, &a);
                    open.push(slot);
                }
                continue;
            }
            let slot = *self.r.pick(&open);
            match self.r.below(if multi { 14 } else { 8 }) {
                0 => {
                    self.emit(K::QDrop, &[slot]);
                    open.retain(|x| *x != slot);
                }
                1 => {
                    let k = self.r.below(6) as u64;
                    self.emit(K::QPanic, &[slot, k]);
                    open.retain(|x| *x != slot);
                }
                2 | 3 => {
                    let how = if self.r.chance(1, 2) { self.r.below(N_FINISH) } else { 0 };
                    self.emit(K::QAll, &[slot, how as u64]);
                    open.retain(|x| *x != slot);
                }
                4..=9 => {
                    let k = if self.r.chance(3, 4) { 1 + self.r.below(3) } else { 1 + self.r.below(30) };
                    let how = self.r.chance(1, 5) as u64;
                    self.emit(K::QNext, &[slot, k as u64, how]);
                }
                _ => {
                    // a lookup in between
                    match self.r.below(5) {
                        0 => self.act(c, Read),
                        1 => self.act(c, Alive),
                        2 => self.act(c, HasTag),
                        3 => self.act(c, OrdLook),
                        _ => self.act(c, Arch),
                    }
                }
            }
        }
    }

    fn write_query(&mut self, c: usize, s: usize) {
        let slot = WRITE_SLOT as u64 + self.r.below(2) as u64;
        if let Some(a) = self.qspec(c, s, slot, true) {
            self.emit(K::QOpen, &a);
            let k = self.r.below(8) as u64;
            match self.r.below(6) {
                0 => {
                    self.emit(K::QNext, &[slot, k]);
                    self.emit(K::QDrop, &[slot]);
                }
                1 => self.emit(K::QPanic, &[slot, k]),
                2 => {
                    self.emit(K::QNext, &[slot, k]);
                    self.emit(K::QPanic, &[slot, k / 2]);
                }
                _ => {
                    if self.r.chance(1, 4) {
                        let how = self.r.chance(1, 2) as u64;
                        self.emit(K::QNext, &[slot, 1 + k, how]);
                    }
                    let how = if self.r.chance(1, 3) { self.r.below(N_FINISH) } else { 0 };
                    self.emit(K::QAll, &[slot, how as u64])
                }
            }
        }
    }

    fn bad(&mut self, c: usize, s: usize) {
        let kinds: &[u64] = if self.p.prop == 6 {
            &[1, 2, 3, 4, 5, 6, 7]
        } else if self.p.debug {
            &[0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 11, 12, 13]
        } else {
            &[8, 9, 10, 11, 11, 13]
        };
        let kind = *self.r.pick(kinds);
        let g = self.r.below(self.n_groups);
        let member = self.pick_member(s, g);
        let other = self.pick_member(s, g);
        let live = self.pick_alive(c, s);
        let live2 = self.pick_alive(c, s);
        let (l, m) = match kind {
            0 => (self.pick_dead(s), None),
            1..=3 => (member, other),
            4 | 5 => (if self.r.chance(1, 2) { member } else { live }, None),
            6 | 7 => (live, live2),
            _ => (live, None),
        };
        let last = match kind {
            1..=7 => g as u64,
            8 | 10 | 13 => self.r.below(900) as u64,
            11 => *self.r.pick(&[OVER as u64, 23, 14, 13, 21, 12, 29]),
            _ => 0,
        };
        let need_l = !matches!(kind, 8 | 10 | 12 | 13);
        if need_l && l.is_none() || (matches!(kind, 2 | 3 | 6 | 7) && m.is_none()) {
            return;
        }
        self.emit(K::Bad, &[s as u64, kind, l.unwrap_or(0), m.unwrap_or(0), last]);
    }

    /// Builders and archetypes change hands and are compared.
    fn sets(&mut self) {
        let b = self.r.below(N_BUILDERS) as u64;
        let a = self.r.below(N_ARCHS) as u64;
        let c = self.r.below(N_ARCHS) as u64;
        let seed = self.r.next() % 1_000_000;
        if self.r.chance(1, 6) || self.builders >> b & 1 == 0 {
            self.builders |= 1 << b;
            self.emit(K::BNew, &[b]);
        }
        match self.r.below(12) {
            0..=3 => {
                let (how, x) = self.set_arg(true);
                // long-lived builders see the same archetypes again and again
                let times = if self.r.chance(1, 12) { 2 + self.r.below(60) as u64 } else { 1 };
                self.emit(K::BInc, &[b, how, x, seed, times]);
            }
            4 | 5 => {
                let (how, x) = self.set_arg(false);
                self.emit(K::BExc, &[b, how, x, seed]);
            }
            6 | 7 => {
                self.emit(K::BBuild, &[b, a]);
                // the builder goes on after it has built
                if self.r.chance(1, 2) {
                    let (how, x) = self.set_arg(true);
                    let k = if self.r.chance(1, 2) { K::BInc } else { K::BExc };
                    self.emit(k, &[b, how % 2, x, seed]);
                    self.emit(K::BBuild, &[b, c]);
                    self.emit(K::ACmp, &[a, c, seed]);
                }
            }
            8 => {
                let sh = if self.r.chance(1, 2) { self.any_shape() } else { self.r.below(t().shapes.len()) };
                self.emit(K::AWith, &[a, sh as u64]);
            }
            9 => {
                self.emit(K::AClone, &[a, c]);
                if self.r.chance(1, 2) {
                    self.emit(K::ADrop, &[a]);
                }
            }
            _ => self.emit(K::ACmp, &[a, c, seed]),
        }
    }

    fn set_arg(&mut self, inc: bool) -> (u64, u64) {
        match self.r.below(if inc { 5 } else { 3 }) {
            0 => {
                let mut m = 0u64;
                for _ in 0..1 + self.r.below(6) {
                    m |= 1 << if self.r.chance(3, 4) { *self.r.pick(&self.kinds.clone()) } else { self.r.below(N_KINDS) };
                }
                (0, m)
            }
            1 => (1, *self.r.pick(&self.kinds.clone()) as u64),
            2 => (1, self.any_shape() as u64),
            3 => (2, self.r.below(N_ARCHS) as u64),
            _ => match self.stores.first().map(|s| s.alive.len()) {
                Some(n) if n > 0 => {
                    let i = self.r.below(n);
                    let i = self.stores[0].alive[i];
                    (3, self.stores[0].ents[i as usize].label)
                }
                _ => (2, self.r.below(N_ARCHS) as u64),
            },
        }
    }

    fn act_res(&mut self, c: usize, a: Act) {
        let i = self.r.below(self.res.len());
        let iu = i as u64;
        if !self.res[i].2 || a == RNew {
            if a == RNew && self.r.chance(3, 4) && self.res[i].2 {
                return;
            }
            self.new_res(i);
            return;
        }
        let pick = |g: &mut Gen, alive: bool| -> Option<u64> {
            let n = g.res[i].1.len();
            if n == 0 {
                return None;
            }
            for _ in 0..12 {
                let l = g.res[i].1[g.r.below(n)];
                if g.res[i].0[&l] == alive {
                    return Some(l);
                }
            }
            None
        };
        match a {
            RCreate => {
                let l = self.label();
                let v = vv(&mut self.r);
                self.emit(K::RCreate, &[iu, l, v]);
                self.res[i].0.insert(l, true);
                self.res[i].1.push(l);
                self.learn(c, true, i, l);
            }
            RRelease => {
                if let Some(l) = pick(self, true) {
                    self.emit(K::RRelease, &[iu, l]);
                    self.res[i].0.insert(l, false);
                }
            }
            RRead => {
                if let Some(l) = pick(self, true) {
                    self.emit(K::RRead, &[iu, l]);
                }
            }
            RWrite | RReplace => {
                if let Some(l) = pick(self, true) {
                    let v = vv(&mut self.r);
                    self.emit(if a == RWrite { K::RWrite } else { K::RReplace }, &[iu, l, v]);
                }
            }
            RDrop => {
                let n = self.res[i].0.values().filter(|x| **x).count();
                let (e, ph) = if self.r.chance(1, 2) && n > 0 {
                    let e = 1 + self.r.below(n.min(9));
                    (e as u64, self.r.below(e) as u64)
                } else {
                    (0, 0)
                };
                let e = if self.p.prop == 9 { e } else { 0 };
                self.emit(K::RDrop, &[iu, e, ph]);
                self.res[i].2 = false;
            }
            RBad => {
                if let Some(l) = pick(self, false) {
                    let k = self.r.below(3) as u64;
                    self.emit(K::RBad, &[iu, k, l]);
                }
            }
            RSweep => self.emit(K::RSweep, &[iu]),
            _ => {}
        }
    }

    /// Entities (and resources) that live through all cycles.
    pub fn prelude(&mut self, n: usize) {
        for _ in 0..n {
            let c = self.r.below(self.clients.len());
            match self.r.below(4) {
                0 => self.act(c, CreateArch),
                1 => self.act(c, Create),
                2 => self.act(c, Add),
                _ => self.act(c, Tag),
            }
        }
    }

    /// Marks the end of the prelude; returns the first label of the cycle.
    pub fn start_cycle(&mut self) -> u64 {
        self.out.push(Op::new(K::Sweep, &[77]));
        self.next_label
    }

    /// A plain workload on stores of its own.
    pub fn noise(seed: u64) -> Vec<Op> {
        let p = Profile { prop: 0, store_ops: true, res_ops: false, arch_ops: false, bad: false, fail: false, debug: false };
        let mut g = Gen::new(seed, p);
        g.run(80);
        g.out
    }
}
