//! Archetypes and builders as clients hold them, beside models that are plain sets of kinds.

use crate::alloc::sut;
use crate::kinds::*;
use crate::op::*;
use crate::rng::{mix2, Rng};
use crate::world::{FixedHasher, World, P};
use division_ecs::{Archetype, ArchetypeBuilder, ComponentType};
use std::any::TypeId;
use std::hash::{Hash, Hasher};

pub const N_BUILDERS: usize = 4;
pub const N_ARCHS: usize = 8;

/// A builder and the set of kinds it has to have collected.
pub type BuilderSlot = Option<(ArchetypeBuilder, u32)>;
pub type ArchSlot = Option<(Archetype, u32)>;

fn hash_of(a: &Archetype) -> u64 {
    let mut h = FixedHasher::default();
    a.hash(&mut h);
    h.finish()
}

/// The kinds of a set in a seeded order, now and then with some repeated.
fn listed(mask: u32, seed: u64, repeat: bool) -> Vec<usize> {
    let mut r = Rng::new(seed);
    let mut v: Vec<usize> = kinds_in(mask).collect();
    if repeat && !v.is_empty() && r.chance(1, 3) {
        for _ in 0..1 + r.below(3) {
            let x = *r.pick(&v);
            v.push(x);
        }
    }
    r.shuffle(&mut v);
    v
}

impl World {
    pub fn dispatch_archs(&mut self, op: &Op) -> bool {
        let tb = t();
        let all = (1u32 << N_KINDS) - 1;
        match op.k {
            K::BNew => {
                let b = op.u(0);
                if b >= N_BUILDERS {
                    return false;
                }
                let old = self.builders[b].take();
                sut(move || drop(old));
                self.builders[b] = Some((sut(|| ArchetypeBuilder::new()), 0));
                true
            }
            K::BInc | K::BExc => {
                let (b, how, x, seed) = (op.u(0), op.u(1), op.u(2), op.a[3]);
                let inc = op.k == K::BInc;
                if b >= N_BUILDERS || self.builders[b].is_none() {
                    return false;
                }
                let set;
                match how {
                    0 => {
                        set = x as u32 & all;
                        let cts: Vec<ComponentType> = listed(set, seed, true).into_iter().map(|k| (tb.kinds[k].ctype)()).collect();
                        let bl = &mut self.builders[b].as_mut().unwrap().0;
                        sut(|| {
                            if inc {
                                bl.include_component_types(&cts);
                            } else {
                                bl.exclude_component_types(&cts);
                            }
                        });
                    }
                    1 => {
                        if x >= tb.shapes.len() {
                            return false;
                        }
                        set = mask_of(tb.shapes[x].kinds);
                        let bl = &mut self.builders[b].as_mut().unwrap().0;
                        sut(|| if inc { (tb.shapes[x].include)(bl) } else { (tb.shapes[x].exclude)(bl) });
                    }
                    2 if inc => {
                        if x >= N_ARCHS || self.archs[x].is_none() {
                            return false;
                        }
                        let bl = &mut self.builders[b].as_mut().unwrap().0;
                        let (a, m) = self.archs[x].as_ref().unwrap();
                        set = *m;
                        sut(|| {
                            for _ in 0..op.a.get(4).copied().unwrap_or(1) {
                                bl.include_archetype(a);
                            }
                        });
                    }
                    3 if inc => {
                        // what a store reports for one of its entities
                        let i = match self.stores[0].as_ref().and_then(|s| s.m.idx(x as u64)) {
                            Some(i) => i,
                            None => return false,
                        };
                        let sb = self.stores[0].as_ref().unwrap();
                        let e = &sb.m.ents[i as usize];
                        let (h, m, alive) = (e.h, e.mask, e.alive);
                        let st = &sb.s;
                        let bl = &mut self.builders[b].as_mut().unwrap().0;
                        let a = match sut(|| st.get_entity_archetype(h)) {
                            Some(a) if alive && m != 0 => a,
                            _ => return false,
                        };
                        set = m;
                        sut(|| {
                            bl.include_archetype(a);
                        });
                    }
                    _ => return false,
                }
                let m = &mut self.builders[b].as_mut().unwrap().1;
                if inc {
                    *m |= set
                } else {
                    *m &= !set
                }
                true
            }
            K::BBuild => {
                let (b, a) = (op.u(0), op.u(1));
                if b >= N_BUILDERS || a >= N_ARCHS {
                    return false;
                }
                let (bl, m) = match &mut self.builders[b] {
                    Some((bl, m)) if *m != 0 => (bl, *m),
                    _ => return false,
                };
                let arch = sut(|| bl.build());
                self.put_arch(a, arch, m);
                true
            }
            K::AWith => {
                let (a, sh) = (op.u(0), op.u(1));
                if a >= N_ARCHS || sh >= tb.shapes.len() {
                    return false;
                }
                let arch = sut(|| (tb.shapes[sh].arch)());
                self.put_arch(a, arch, mask_of(tb.shapes[sh].kinds));
                true
            }
            K::AClone => {
                let (a, c) = (op.u(0), op.u(1));
                if a >= N_ARCHS || c >= N_ARCHS {
                    return false;
                }
                let (arch, m) = match &self.archs[a] {
                    Some((x, m)) => (sut(|| x.clone()), *m),
                    None => return false,
                };
                self.put_arch(c, arch, m);
                true
            }
            K::ADrop => {
                let a = op.u(0);
                if a >= N_ARCHS || self.archs[a].is_none() {
                    return false;
                }
                let old = self.archs[a].take();
                sut(move || drop(old));
                true
            }
            K::ACmp => {
                let (a, c) = (op.u(0), op.u(1));
                if a >= N_ARCHS || c >= N_ARCHS || self.archs[a].is_none() || self.archs[c].is_none() {
                    return false;
                }
                self.compare(a, c, op.a[2]);
                self.hit(P::SetsCompared);
                true
            }
            _ => false,
        }
    }

    fn put_arch(&mut self, a: usize, arch: Archetype, m: u32) {
        let old = self.archs[a].replace((arch, m));
        sut(move || drop(old));
        if let Some(b) = self.judge_arch(a, 1) {
            self.report(C16, "set", b);
        }
    }

    /// Every question about one archetype against the set it has to be.
    fn judge_arch(&mut self, at: usize, seed: u64) -> Option<String> {
        let tb = t();
        let (a, mask) = self.archs[at].as_ref().unwrap();
        let mask = *mask;
        let n = mask.count_ones() as usize;
        let has = || format!("{:?}", kinds_in(mask).map(|k| tb.kinds[k].name).collect::<Vec<_>>());
        let mut h = n as u64;
        if sut(|| a.component_count()) != n || sut(|| a.included_ids().len()) != n {
            return Some(format!("{} components are reported for the set {}", a.component_count(), has()));
        }
        let mut at_index = 0u64;
        for k in 0..N_KINDS {
            let want = mask >> k & 1 == 1;
            let (x, y) = sut(|| (tb.kinds[k].has)(a));
            let z = sut(|| a.find_component_index(tb.kinds[k].type_id));
            if x != want || y != want || z.is_some() != want {
                return Some(format!("looking up {} in the set {} gives {x}, {y}, {z:?}", tb.kinds[k].name, has()));
            }
            if let Some(z) = z {
                h = mix2(h, z as u64);
                if z >= n || a.included_ids()[z] != tb.kinds[k].type_id || at_index >> z & 1 == 1 {
                    return Some(format!("{} is looked up at the position of another type in the set {}", tb.kinds[k].name, has()));
                }
                at_index |= 1 << z;
            }
        }
        let mut seen = 0u32;
        let mut ct = sut(|| a.components_iter());
        while let Some(c) = sut(|| ct.next()) {
            match tb.kinds.iter().position(|k| k.type_id == c.id()) {
                Some(k) if mask >> k & 1 == 1 && seen >> k & 1 == 0 => {
                    seen |= 1 << k;
                    let w = (tb.kinds[k].ctype)();
                    if c.size() != tb.kinds[k].size || c.align() != tb.kinds[k].align || c.name() != w.name() {
                        return Some(format!("{} has another size, alignment or name in the set {}", tb.kinds[k].name, has()));
                    }
                }
                _ => return Some(format!("components_iter lists a type twice, or one outside the set {}", has())),
            }
        }
        drop(ct);
        if seen != mask {
            return Some(format!("components_iter misses a type of the set {}", has()));
        }
        // lists of types in any order, some with repetitions
        let all = (1u32 << N_KINDS) - 1;
        let mut r = Rng::new(mix2(seed, self.step as u64));
        for j in 0..6 {
            let mut q = r.next() as u32 & r.next() as u32 & all;
            match j {
                0 => q = mask,
                1 => q = all & !mask,
                2 => q &= mask,
                3 => q &= !mask,
                4 => q = (q & !mask) | (1 << *r.pick(&kinds_in(mask).collect::<Vec<_>>())),
                _ => q = (mask & !(1 << *r.pick(&kinds_in(mask).collect::<Vec<_>>()))) | if r.chance(1, 2) { 1 << r.below(N_KINDS) } else { 0 },
            }
            let ids: Vec<TypeId> = listed(q, r.next(), true).into_iter().map(|k| tb.kinds[k].type_id).collect();
            let (i, o, x) = sut(|| (a.is_include_ids(&ids), a.is_include_only_ids(&ids), a.is_exclude_ids(&ids)));
            h = mix2(h, i as u64 | (o as u64) << 1 | (x as u64) << 2);
            let q_names: Vec<&str> = kinds_in(q).map(|k| tb.kinds[k].name).collect();
            if i != (q & mask == q) || o != (q == mask) || x != (q & mask == 0) {
                return Some(format!("the set {} includes {i}, includes only {o}, excludes {x} the types {q_names:?}", has()));
            }
        }
        self.note(h);
        None
    }

    fn compare(&mut self, p: usize, q: usize, seed: u64) {
        for s in [p, q] {
            if let Some(b) = self.judge_arch(s, seed) {
                self.report(C16, "set", b);
                return;
            }
        }
        let tb = t();
        let (a, m) = self.archs[p].as_ref().unwrap();
        let (b, n) = self.archs[q].as_ref().unwrap();
        let (m, n) = (*m, *n);
        let same = sut(|| a.is_same_as(b));
        let inc = sut(|| a.is_include(b));
        let exc = sut(|| a.is_exclude(b));
        let (ha, hb) = (hash_of(a), hash_of(b));
        self.note(same as u64 | (inc as u64) << 1 | (exc as u64) << 2);
        let nm = |x: u32| format!("{:?}", kinds_in(x).map(|k| tb.kinds[k].name).collect::<Vec<_>>());
        if same != (m == n) || inc != (n & m == n) || exc != (n & m == 0) {
            self.report(C16, "relation", format!("the set {} is reported to be same as {same}, to include {inc}, to exclude {exc} the set {}", nm(m), nm(n)));
        } else if m == n && ha != hb {
            self.report(C16, "hash", format!("two archetypes of the set {} hash differently", nm(m)));
        }
    }

    pub fn drop_archs(&mut self) {
        let b = std::mem::take(&mut self.builders);
        let a = std::mem::take(&mut self.archs);
        sut(move || {
            drop(b);
            drop(a);
        });
        self.builders = (0..N_BUILDERS).map(|_| None).collect();
        self.archs = (0..N_ARCHS).map(|_| None).collect();
    }
}
