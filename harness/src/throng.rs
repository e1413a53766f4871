//! A store and archetypes with hundreds of component and tag types, judged by a model of their own. The operations are drawn
//! from one seed, and dropping the last of them leaves the others as they are.

use crate::alloc::sut;
use crate::op::*;
use crate::rng::{mix2, Rng};
use division_ecs::query::{component, entity_component, ordered_component};
use division_ecs::{Archetype, ArchetypeBuilder, Component, ComponentType, Entity, Store, Tag};
use std::any::TypeId;

#[derive(Clone, Copy)]
pub struct Four<const N: usize>(u32);
impl<const N: usize> Component for Four<N> {}
#[derive(Clone, Copy)]
pub struct One<const N: usize>(u8);
impl<const N: usize> Component for One<N> {}
pub struct Label<const N: usize>;
impl<const N: usize> Tag for Label<N> {}

trait Word: Component + 'static {
    fn new(v: u64) -> Self;
    fn get(&self) -> u64;
}
impl<const N: usize> Word for Four<N> {
    fn new(v: u64) -> Self {
        Four(v as u32)
    }
    fn get(&self) -> u64 {
        self.0 as u64
    }
}
impl<const N: usize> Word for One<N> {
    fn new(v: u64) -> Self {
        One(v as u8)
    }
    fn get(&self) -> u64 {
        self.0 as u64
    }
}

struct TypeOps {
    id: fn() -> TypeId,
    ctype: fn() -> ComponentType,
    has: fn(&Archetype) -> (bool, bool),
    look: fn(&Store, Entity) -> Option<u64>,
    write: fn(&mut Store, Entity, u64) -> bool,
    short: fn(u64) -> u64,
}

struct FullOps {
    add: fn(&mut Store, Entity, u64),
    remove: fn(&mut Store, Entity),
    all: fn(&Store, &mut Vec<(Entity, u64)>) -> usize,
    listed: fn(&Store, &[Entity], &mut Vec<(Entity, u64)>),
    /// by the order of one group
    row: fn(&Store, &mut Vec<(Entity, u64)>) -> usize,
    /// with one tag
    tagged: fn(&Store, &mut Vec<(Entity, u64)>),
}

const fn type_ops<T: Word>() -> TypeOps {
    TypeOps {
        id: || TypeId::of::<T>(),
        ctype: ComponentType::of::<T>,
        has: |a| (a.has_component::<T>(), a.find_component_index_of::<T>().is_some()),
        look: |s, e| s.get_components_refs::<T>(e).map(|c| c.get()),
        write: |s, e, v| match s.get_components_refs_mut::<T>(e) {
            Some(c) => {
                *c = T::new(v);
                true
            }
            None => false,
        },
        short: |v| T::new(v).get(),
    }
}

/// Without growing, so that nothing of the simulator's comes from the allocator under test.
fn fill(out: &mut Vec<(Entity, u64)>, it: impl Iterator<Item = (Entity, u64)>) {
    for x in it {
        if out.len() == out.capacity() {
            break;
        }
        out.push(x);
    }
}

type Far = Label<FAR_TAG>;
const FAR_TAG: usize = 261;

const fn full_ops<T: Word>() -> FullOps {
    FullOps {
        add: |s, e, v| s.add_components(e, T::new(v)),
        remove: |s, e| s.remove_components::<T>(e),
        all: |s, out| {
            let mut q = component::readonly::<T>();
            let it = s.component_query_iter(&mut q);
            let n = it.len();
            fill(out, it.with_entities().map(|(e, c)| (e, c.get())));
            n
        },
        listed: |s, l, out| {
            let mut q = entity_component::readonly::<T>();
            fill(out, s.entity_component_query_iter(l, &mut q).with_entities().map(|(e, c)| (e, c.get())));
        },
        row: |s, out| {
            let mut q = ordered_component::readonly::<Far, T>();
            let it = s.ordered_query_iter(&mut q);
            let n = it.len();
            fill(out, it.with_entities().map(|(e, c)| (e, c.get())));
            n
        },
        tagged: |s, out| {
            let mut q = component::readonly::<T>();
            fill(out, s.component_query_iter(&mut q).with_entities().filter_tag::<Far>().map(|(e, c)| (e, c.get())));
        },
    }
}

struct LabelOps {
    add: fn(&mut Store, Entity),
    remove: fn(&mut Store, Entity),
    has: fn(&Store, Entity) -> bool,
    ord: fn(&mut Store, Entity),
    next_to: fn(&mut Store, Entity, Entity),
    prev_to: fn(&mut Store, Entity, Entity),
    unord: fn(&mut Store, Entity),
    ends: fn(&Store) -> (Option<Entity>, Option<Entity>),
    around: fn(&Store, Entity) -> (Option<Entity>, Option<Entity>),
}

const fn label_ops<const N: usize>() -> LabelOps {
    LabelOps {
        add: |s, e| s.add_tag::<Label<N>>(e),
        remove: |s, e| s.remove_tag::<Label<N>>(e),
        has: |s, e| s.has_tag::<Label<N>>(e),
        ord: |s, e| s.add_entity_order_by::<Label<N>>(e),
        next_to: |s, e, f| s.add_entity_next_to_order_by::<Label<N>>(e, f),
        prev_to: |s, e, f| s.add_entity_previous_to_order_by::<Label<N>>(e, f),
        unord: |s, e| s.remove_entity_order_by::<Label<N>>(e),
        ends: |s| (s.get_first_entity_ordered_by::<Label<N>>(), s.get_last_entity_ordered_by::<Label<N>>()),
        around: |s, e| (s.get_previous_entity_ordered_by::<Label<N>>(e), s.get_next_entity_ordered_by::<Label<N>>(e)),
    }
}

const fn four<const N: usize>() -> TypeOps {
    type_ops::<Four<N>>()
}
const fn one<const N: usize>() -> TypeOps {
    type_ops::<One<N>>()
}
const fn four_full<const N: usize>() -> FullOps {
    full_ops::<Four<N>>()
}
const fn one_full<const N: usize>() -> FullOps {
    full_ops::<One<N>>()
}

macro_rules! t16 {
    ($f:ident $b:expr) => {
        [
            $f::<{ $b }>(),
            $f::<{ $b + 1 }>(),
            $f::<{ $b + 2 }>(),
            $f::<{ $b + 3 }>(),
            $f::<{ $b + 4 }>(),
            $f::<{ $b + 5 }>(),
            $f::<{ $b + 6 }>(),
            $f::<{ $b + 7 }>(),
            $f::<{ $b + 8 }>(),
            $f::<{ $b + 9 }>(),
            $f::<{ $b + 10 }>(),
            $f::<{ $b + 11 }>(),
            $f::<{ $b + 12 }>(),
            $f::<{ $b + 13 }>(),
            $f::<{ $b + 14 }>(),
            $f::<{ $b + 15 }>(),
        ]
    };
}

pub const TYPES: usize = 288;
pub const LABELS: usize = 272;
const FULL: usize = 32;

static TYPE: [[TypeOps; 16]; 18] = [
    t16!(four 0), t16!(one 0), t16!(four 16), t16!(one 16), t16!(four 32), t16!(one 32), t16!(four 48), t16!(one 48), t16!(four 64),
    t16!(one 64), t16!(four 80), t16!(one 80), t16!(four 96), t16!(one 96), t16!(four 112), t16!(one 112), t16!(four 128), t16!(one 128),
];
/// of the first types
static FULL_OPS: [[FullOps; 16]; 2] = [t16!(four_full 0), t16!(one_full 0)];
static LABEL: [[LabelOps; 16]; 17] = [
    t16!(label_ops 0), t16!(label_ops 16), t16!(label_ops 32), t16!(label_ops 48), t16!(label_ops 64), t16!(label_ops 80),
    t16!(label_ops 96), t16!(label_ops 112), t16!(label_ops 128), t16!(label_ops 144), t16!(label_ops 160), t16!(label_ops 176),
    t16!(label_ops 192), t16!(label_ops 208), t16!(label_ops 224), t16!(label_ops 240), t16!(label_ops 256),
];

fn ty(i: usize) -> &'static TypeOps {
    &TYPE[i / 16][i % 16]
}
fn full(i: usize) -> &'static FullOps {
    &FULL_OPS[i / 16][i % 16]
}
fn label(i: usize) -> &'static LabelOps {
    &LABEL[i / 16][i % 16]
}

#[derive(Clone, Copy, Default)]
struct Bits([u64; 5]);
impl Bits {
    fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn set(&mut self, i: usize, on: bool) {
        if on {
            self.0[i / 64] |= 1 << (i % 64)
        } else {
            self.0[i / 64] &= !(1 << (i % 64))
        }
    }
    fn count(&self) -> usize {
        self.0.iter().map(|w| w.count_ones() as usize).sum()
    }
    fn list(&self) -> Vec<usize> {
        (0..TYPES).filter(|i| self.has(*i)).collect()
    }
}

struct Ent {
    h: Entity,
    alive: bool,
    types: Bits,
    vals: Vec<u64>,
    labels: Bits,
}

type Bad = (u32, &'static str, String);

struct Throng {
    s: Store,
    ents: Vec<Ent>,
    rows: Vec<Vec<usize>>,
    n_types: usize,
    n_labels: usize,
}

fn build(r: &mut Rng, set: &Bits, seed: &mut dyn FnMut() -> u64) -> Archetype {
    // some more are included and excluded again, some are named twice
    let mut v = set.list();
    r.shuffle(&mut v);
    let mut extra: Vec<usize> = (0..r.below(6)).map(|_| seed() as usize % TYPES).filter(|i| !set.has(*i)).collect();
    extra.dedup();
    let cut = r.below(v.len() + 1);
    let first: Vec<ComponentType> = v[..cut].iter().chain(&extra).map(|i| (ty(*i).ctype)()).collect();
    let second: Vec<ComponentType> = v[cut..].iter().chain(v[..cut].iter().take(3)).map(|i| (ty(*i).ctype)()).collect();
    let out: Vec<ComponentType> = extra.iter().map(|i| (ty(*i).ctype)()).collect();
    let through = r.chance(1, 3) && cut > 0;
    sut(|| {
        let mut b = ArchetypeBuilder::new();
        if through {
            let a = ArchetypeBuilder::new().include_component_types(&first).build();
            b.include_archetype(&a);
        } else {
            b.include_component_types(&first);
        }
        b.exclude_component_types(&out).include_component_types(&second);
        b.build()
    })
}

fn judge(a: &Archetype, set: &Bits, whose: &str, mask: u32, class: &'static str) -> Result<(), Bad> {
    let n = sut(|| a.component_count());
    if n != set.count() {
        return Err((mask, class, format!("{whose}: {n} components, expected {}", set.count())));
    }
    let mut ids: Vec<TypeId> = Vec::with_capacity(n);
    sut(|| a.components_iter().take(n).for_each(|c| ids.push(c.id())));
    for i in 0..TYPES {
        let (h, f) = sut(|| (ty(i).has)(a));
        let want = set.has(i);
        if h != want || f != want || ids.contains(&(ty(i).id)()) != want {
            return Err((mask, class, format!("{whose}: has type {i}: {h}, finds it: {f}, expected {want}")));
        }
    }
    Ok(())
}

fn ids_key(t: &TypeId) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = crate::world::FixedHasher::default();
    t.hash(&mut h);
    h.finish()
}

fn compare(a: &Archetype, b: &Archetype, sa: &Bits, sb: &Bits) -> Result<(), Bad> {
    let sub = (0..TYPES).all(|i| !sb.has(i) || sa.has(i));
    let apart = (0..TYPES).all(|i| !sb.has(i) || !sa.has(i));
    let same = sa.0 == sb.0;
    // the ids in another order, the first of them twice
    let mut ids: Vec<TypeId> = sb.list().iter().map(|i| (ty(*i).id)()).collect();
    ids.sort();
    let n = ids.len() as u64;
    ids.sort_by_key(|i| mix2(n, ids_key(i)));
    ids.extend(ids.first().copied());
    let listed = sut(|| (a.is_include_ids(&ids), a.is_exclude_ids(&ids), a.is_include_only_ids(&ids)));
    if listed != (sub, apart, same) {
        return Err((C16, "relation", format!("sets of {} and {} types, ids listed: (includes, excludes, only) {listed:?}; expected {sub} {apart} {same}", sa.count(), sb.count())));
    }
    let (inc, exc, is, only) = sut(|| (a.is_include(b), a.is_exclude(b), a.is_same_as(b), a.is_include_only_ids(b.included_ids())));
    if (inc, exc, is, only) != (sub, apart, same, same) {
        return Err((
            C16,
            "relation",
            format!("sets of {} and {} types: includes {inc}, excludes {exc}, same {is}, only {only}; expected {sub} {apart} {same}", sa.count(), sb.count()),
        ));
    }
    Ok(())
}

impl Throng {
    fn check(&self, i: usize) -> Result<(), Bad> {
        let e = &self.ents[i];
        let name = || format!("entity {i} ({},{})", e.h.id(), e.h.version());
        if sut(|| self.s.is_alive(e.h)) != e.alive {
            return Err((C01, "alive", format!("{}: alive is {}", name(), !e.alive)));
        }
        for t in 0..TYPES {
            let got = sut(|| (ty(t).look)(&self.s, e.h));
            let want = if e.alive && e.types.has(t) { Some(e.vals[t]) } else { None };
            if got.is_some() != want.is_some() {
                return Err((C03, "component-set", format!("{} of {} types: type {t} reads {got:?}, expected {want:?}", name(), e.types.count())));
            }
            if got != want {
                return Err((C02, "value", format!("{} of {} types: type {t} reads {got:?}, written {want:?}", name(), e.types.count())));
            }
        }
        for l in 0..LABELS {
            let got = sut(|| (label(l).has)(&self.s, e.h));
            if got != (e.alive && e.labels.has(l)) {
                return Err((C05, "tag", format!("{}: has tag {l} is {got}", name())));
            }
        }
        if let Some(a) = sut(|| self.s.get_entity_archetype(e.h)) {
            if !e.alive {
                return Err((C03, "component-set", format!("{}: dead, but has an archetype", name())));
            }
            judge(a, &e.types, &name(), C03, "component-set")?;
        } else if e.alive && e.types.count() > 0 {
            return Err((C03, "component-set", format!("{}: no archetype", name())));
        }
        Ok(())
    }

    fn check_row(&self, l: usize) -> Result<(), Bad> {
        let row = &self.rows[l];
        let h = |i: Option<&usize>| i.map(|i| self.ents[*i].h);
        let bad = |what: String| Err((C06, "order", format!("group {l} of {} members: {what}", row.len())));
        let ends = sut(|| (label(l).ends)(&self.s));
        if ends != (h(row.first()), h(row.last())) {
            return bad(format!("its ends are {ends:?}"));
        }
        for (j, i) in row.iter().enumerate() {
            let around = sut(|| (label(l).around)(&self.s, self.ents[*i].h));
            if around != (if j > 0 { h(row.get(j - 1)) } else { None }, h(row.get(j + 1))) {
                return bad(format!("beside member {j}: {around:?}"));
            }
        }
        Ok(())
    }

    fn check_queries(&self, t: usize, list: &[usize]) -> Result<(), Bad> {
        let want = |i: usize| (self.ents[i].h, self.ents[i].vals[t]);
        let has = |i: usize| self.ents[i].alive && self.ents[i].types.has(t);
        let key = |x: &(Entity, u64)| (x.0.id(), x.0.version());
        let mut got = Vec::with_capacity(self.ents.len().max(list.len()) + 4);
        let n = sut(|| (full(t).all)(&self.s, &mut got));
        let mut exp: Vec<_> = (0..self.ents.len()).filter(|i| has(*i)).map(want).collect();
        exp.sort_by_key(key);
        let m = got.len();
        got.sort_by_key(key);
        if got != exp || n != m {
            return Err((C04, "query-items", format!("a query of type {t} announced {n} and yielded {m} items, {} match", exp.len())));
        }
        got.clear();
        sut(|| (full(t).tagged)(&self.s, &mut got));
        let mut exp: Vec<_> = (0..self.ents.len()).filter(|i| has(*i) && self.ents[*i].labels.has(FAR_TAG)).map(want).collect();
        exp.sort_by_key(key);
        got.sort_by_key(key);
        if got != exp {
            return Err((C05, "tag-filter", format!("a filtered query of type {t} yielded {} items, {} match", got.len(), exp.len())));
        }
        got.clear();
        let n = sut(|| (full(t).row)(&self.s, &mut got));
        let exp: Vec<_> = self.rows[FAR_TAG].iter().copied().filter(|i| has(*i)).map(want).collect();
        if got != exp || n != exp.len() {
            return Err((C07, "ordered-item", format!("an ordered query of type {t} announced {n} and yielded {} items, {} match", got.len(), exp.len())));
        }
        got.clear();
        let hs: Vec<Entity> = list.iter().map(|i| self.ents[*i].h).collect();
        sut(|| (full(t).listed)(&self.s, &hs, &mut got));
        let exp: Vec<_> = list.iter().copied().filter(|i| has(*i)).map(want).collect();
        if got != exp {
            return Err((C08, "listed-item", format!("a query of type {t} over a list of {} handles differs, {} match", list.len(), exp.len())));
        }
        Ok(())
    }

    fn destroy(&mut self, i: usize) {
        let e = &mut self.ents[i];
        e.alive = false;
        e.types = Bits::default();
        e.labels = Bits::default();
        let h = e.h;
        self.rows.iter_mut().for_each(|row| row.retain(|x| *x != i));
        sut(|| self.s.destroy_entity(h));
    }

    /// Sets that are the same, or apart, or within one another, but for at most two types.
    fn relations(&mut self, r: &mut Rng) -> Result<(), Bad> {
        let most = *r.pick(&[1, 2, 32, 64, 65, 128, 250, 280]);
        let (mut a, mut b) = (Bits::default(), Bits::default());
        let mut order: Vec<usize> = (0..self.n_types).collect();
        r.shuffle(&mut order);
        let how = r.below(3);
        for (j, t) in order.iter().enumerate() {
            a.set(*t, j < most);
            b.set(*t, match how {
                0 => j >= most,
                1 => j < most,
                _ => j < most / 2,
            });
        }
        for _ in 0..r.below(3) {
            let t = order[r.below(order.len())];
            b.set(t, !b.has(t));
        }
        if a.count() == 0 || b.count() == 0 {
            return Ok(());
        }
        let mut x = r.next();
        let n = self.n_types;
        let mut any = || {
            x = mix2(x, 1);
            x % n as u64
        };
        let (aa, bb) = (build(r, &a, &mut any), build(r, &b, &mut any));
        judge(&aa, &a, "a built archetype", C16, "archetype-set")?;
        judge(&bb, &b, "a built archetype", C16, "archetype-set")?;
        compare(&aa, &bb, &a, &b)?;
        compare(&bb, &aa, &b, &a)?;
        sut(move || drop((aa, bb)));
        Ok(())
    }

    /// One operation. What happens depends only on the state and on `r`.
    fn step(&mut self, r: &mut Rng) -> Result<(), Bad> {
        if r.chance(1, 14) {
            return self.relations(r);
        }
        let mut live: Vec<usize> = (0..self.ents.len()).filter(|i| self.ents[*i].alive).collect();
        let what = r.below(100);
        if live.len() < 3 || (what < 8 && live.len() < 40) {
            let mut types = Bits::default();
            let most = *r.pick(&[1, 4, 31, 33, 63, 65, 66, 127, 129, 254, 255, 256, 257, TYPES]);
            if !r.chance(1, 6) {
                for _ in 0..most {
                    types.set(r.below(self.n_types), true);
                }
                if most == TYPES {
                    (0..self.n_types).for_each(|t| types.set(t, true));
                }
            }
            let h = if types.count() == 0 {
                sut(|| self.s.create_entity())
            } else {
                let n = self.n_types;
                let mut x = r.next();
                let a = build(r, &types, &mut || {
                    x = mix2(x, 1);
                    x % n as u64
                });
                judge(&a, &types, "a built archetype", C16, "archetype-set")?;
                if let Some(e) = live.first().map(|i| &self.ents[*i]) {
                    if let Some(b) = sut(|| self.s.get_entity_archetype(e.h)) {
                        compare(&a, b, &types, &e.types)?;
                        compare(b, &a, &e.types, &types)?;
                    }
                }
                let h = sut(|| self.s.create_entity_with_archetype(&a));
                sut(move || drop(a));
                h
            };
            if self.ents.iter().any(|e| e.h == h) {
                return Err((C01, "handle-reissued", format!("({},{}) was returned before", h.id(), h.version())));
            }
            let mut vals = vec![0; TYPES];
            for t in types.list() {
                let v = (ty(t).short)(r.next());
                vals[t] = v;
                if !sut(|| (ty(t).write)(&mut self.s, h, v)) {
                    return Err((C03, "component-set", format!("a new entity of {} types lacks type {t}", types.count())));
                }
            }
            self.ents.push(Ent { h, alive: true, types, vals, labels: Bits::default() });
            return self.check(self.ents.len() - 1);
        }
        r.shuffle(&mut live);
        let i = live[0];
        let h = self.ents[i].h;
        let t = r.below(FULL.min(self.n_types));
        // half of the tags' operations are about one of them
        let l = if r.chance(1, 2) { FAR_TAG } else { r.below(self.n_labels) };
        match what {
            0..=11 => {
                self.destroy(i);
            }
            12..=31 => {
                let v = (ty(t).short)(r.next());
                self.ents[i].types.set(t, true);
                self.ents[i].vals[t] = v;
                sut(|| (full(t).add)(&mut self.s, h, v));
            }
            32..=45 => {
                self.ents[i].types.set(t, false);
                sut(|| (full(t).remove)(&mut self.s, h));
            }
            46..=55 => {
                let x = r.below(self.n_types);
                let v = (ty(x).short)(r.next());
                let want = self.ents[i].types.has(x);
                let got = sut(|| (ty(x).write)(&mut self.s, h, v));
                if got != want {
                    return Err((C03, "component-set", format!("type {x} of entity {i} is there: {got}, expected {want}")));
                }
                if got {
                    self.ents[i].vals[x] = v;
                }
            }
            56..=71 => {
                self.ents[i].labels.set(l, true);
                sut(|| (label(l).add)(&mut self.s, h));
            }
            72..=77 => {
                self.ents[i].labels.set(l, false);
                sut(|| (label(l).remove)(&mut self.s, h));
            }
            78..=93 => {
                if self.rows[l].contains(&i) {
                    return Ok(());
                }
                let j = r.below(self.rows[l].len().max(1));
                match (self.rows[l].get(j).copied(), r.below(3)) {
                    (None, _) | (_, 0) => {
                        self.rows[l].push(i);
                        sut(|| (label(l).ord)(&mut self.s, h));
                    }
                    (Some(x), 1) => {
                        self.rows[l].insert(j + 1, i);
                        let f = self.ents[x].h;
                        sut(|| (label(l).next_to)(&mut self.s, h, f));
                    }
                    (Some(x), _) => {
                        self.rows[l].insert(j, i);
                        let f = self.ents[x].h;
                        sut(|| (label(l).prev_to)(&mut self.s, h, f));
                    }
                }
                self.check_row(l)?;
            }
            _ => {
                let l = if self.rows[l].contains(&i) { l } else { (0..self.n_labels).find(|l| self.rows[*l].contains(&i)).unwrap_or(l) };
                if self.rows[l].contains(&i) {
                    self.rows[l].retain(|x| *x != i);
                    sut(|| (label(l).unord)(&mut self.s, h));
                    self.check_row(l)?;
                }
            }
        }
        if r.chance(1, 4) {
            self.check(i)?;
        }
        if r.chance(1, 12) {
            let k = r.below(live.len() + 1);
            let mut list = live[..k].to_vec();
            list.extend((0..r.below(4)).map(|_| r.below(self.ents.len())));
            r.shuffle(&mut list);
            self.check_queries(t, &list)?;
        }
        Ok(())
    }

    fn run(&mut self, steps: usize, seed: u64, pace: &mut dyn FnMut()) -> Result<(), Bad> {
        let order = {
            // the order in which the types of tags are first seen
            let mut v: Vec<usize> = (0..self.n_labels).collect();
            Rng::new(seed).shuffle(&mut v);
            v
        };
        let pace_of_tags = [1, 2, 8, 40][seed as usize >> 5 & 3];
        // one entity may come to be in all the groups
        let hub = seed >> 9 & 3 == 0;
        for n in 0..steps {
            let mut r = Rng::new(mix2(seed, n as u64));
            self.step(&mut r)?;
            // a few at a time, every tag comes to be used
            for l in order.iter().skip(pace_of_tags * n).take(pace_of_tags) {
                if self.ents.is_empty() {
                    break;
                }
                let i = if hub && self.ents[0].alive { 0 } else { r.below(self.ents.len()) };
                if self.ents[i].alive {
                    let h = self.ents[i].h;
                    self.ents[i].labels.set(*l, true);
                    sut(|| (label(*l).add)(&mut self.s, h));
                    if !self.rows[*l].contains(&i) {
                        self.rows[*l].push(i);
                        sut(|| (label(*l).ord)(&mut self.s, h));
                    }
                }
            }
            if n % 64 == 63 {
                pace();
            }
        }
        for i in 0..self.ents.len() {
            self.check(i)?;
        }
        // once more with every tag
        let mut r = Rng::new(mix2(seed, 1 << 40));
        let live: Vec<usize> = (0..self.ents.len()).filter(|i| self.ents[*i].alive).collect();
        if !live.is_empty() && steps > 20 {
            for l in order {
                let i = *r.pick(&live);
                let i = if hub && i == 0 { *r.pick(&live) } else { i };
                if hub && i == 0 {
                    continue;
                }
                let h = self.ents[i].h;
                let on = r.chance(2, 3);
                self.ents[i].labels.set(l, on);
                sut(|| if on { (label(l).add)(&mut self.s, h) } else { (label(l).remove)(&mut self.s, h) });
                if !self.rows[l].contains(&i) {
                    self.rows[l].push(i);
                    sut(|| (label(l).ord)(&mut self.s, h));
                } else {
                    self.rows[l].retain(|x| *x != i);
                    sut(|| (label(l).unord)(&mut self.s, h));
                }
            }
            for i in 0..self.ents.len() {
                self.check(i)?;
            }
            // some of them go, others come in their places
            let mut gone = 0;
            for i in live {
                if r.chance(1, 2) || (hub && i == 0) {
                    self.destroy(i);
                    gone += 1;
                }
            }
            for _ in 0..gone {
                let h = sut(|| self.s.create_entity());
                if self.ents.iter().any(|e| e.h == h) {
                    return Err((C01, "handle-reissued", format!("({},{}) was returned before", h.id(), h.version())));
                }
                self.ents.push(Ent { h, alive: true, types: Bits::default(), vals: vec![0; TYPES], labels: Bits::default() });
            }
            for i in 0..self.ents.len() {
                self.check(i)?;
            }
        }
        for l in 0..LABELS {
            self.check_row(l)?;
        }
        let all: Vec<usize> = (0..self.ents.len()).collect();
        for t in 0..FULL.min(self.n_types) {
            self.check_queries(t, &all)?;
        }
        pace();
        Ok(())
    }
}

/// The first disagreement: whose it is, its class and what was seen.
pub fn throng(steps: usize, n_types: usize, n_labels: usize, cap: usize, seed: u64, pace: &mut dyn FnMut()) -> Option<Bad> {
    let mut w = Throng {
        s: sut(|| Store::with_capacity(cap.max(1))),
        ents: Vec::new(),
        rows: vec![Vec::new(); LABELS],
        n_types: n_types.clamp(1, TYPES),
        n_labels: n_labels.clamp(1, LABELS),
    };
    let bad = w.run(steps, seed, pace).err();
    let Throng { s, .. } = w;
    sut(move || drop(s));
    bad
}
