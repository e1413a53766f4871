//! One store with very many entities at once, judged from arithmetic instead of a model: every fact about an entity follows
//! from its place in the order of creation.

use crate::alloc::sut;
use crate::op::*;
use crate::rng::mix2;
use division_ecs::query::component;
use division_ecs::query::entity_component;
use division_ecs::query::ordered_component;
use division_ecs::{Archetype, Component, Entity, Store, Tag};

#[derive(Component, Clone, Copy)]
pub struct Mine {
    v: u32,
}
#[derive(Component, Clone, Copy)]
pub struct More {
    v: u64,
}
#[derive(Tag)]
pub struct Marked;
#[derive(Tag)]
pub struct Row;

fn bare(i: usize) -> bool {
    i % 11 == 3
}
fn gone(i: usize) -> bool {
    i % 5 == 1
}
fn marked(i: usize) -> bool {
    i % 3 == 0
}
fn in_row(i: usize) -> bool {
    i % 4 == 2
}
fn more(i: usize) -> bool {
    i % 7 == 5
}

/// The first disagreement: whose it is, its class and what was seen.
pub fn mass(n: usize, cap: usize, seed: u64, pace: &mut dyn FnMut()) -> Option<(u32, &'static str, String)> {
    let lost = n.div_ceil(5).max((1..n).step_by(5).count());
    let total = n + lost;
    // entity `n + k` is created in the place of the k-th destroyed one
    let mut hs: Vec<Entity> = Vec::with_capacity(total);
    let mut s = sut(|| Store::with_capacity(cap.max(1)));
    let arch = sut(|| Archetype::with_components::<Mine>());
    let mut seen: Vec<u32> = vec![0; total];
    let add = |s: &mut Store, hs: &mut Vec<Entity>, seen: &mut Vec<u32>, i: usize| {
        let h = sut(|| if bare(i) { s.create_entity() } else { s.create_entity_with_archetype(&arch) });
        let id = h.id() as usize;
        if id >= seen.len() {
            return Some((C14, "capacity", format!("id {id} although at most {} entities were alive", i + 1)));
        }
        if i < n && seen[id] != 0 {
            return Some((C01, "id-shared", format!("id {id} belongs to a live entity")));
        }
        if i >= n && seen[id] != 0 {
            // only the handles of the destroyed may share the id, never the same handle
            if seen[id] == h.version() + 1 {
                return Some((C01, "handle-reissued", format!("handle ({id},{}) was returned before", h.version())));
            }
        }
        seen[id] = h.version() + 1;
        hs.push(h);
        None
    };
    for i in 0..n {
        if let Some(x) = add(&mut s, &mut hs, &mut seen, i) {
            return Some(x);
        }
    }
    pace();
    // each component gets a value through a query that pairs it with its handle
    let mut q = sut(|| component::write::<Mine>());
    let mut count = 0;
    sut(|| {
        for (h, m) in s.component_query_iter(&mut q).with_entities() {
            m.v = mix2(seed, (h.id() as u64) << 32 | h.version() as u64) as u32;
            count += 1;
        }
    });
    let want = (0..n).filter(|i| !bare(*i)).count();
    if count != want {
        return Some((C04, "query-count", format!("a query yielded {count} of {want} entities")));
    }
    let val = |h: Entity| mix2(seed, (h.id() as u64) << 32 | h.version() as u64) as u32;
    pace();
    for i in 0..n {
        let h = hs[i];
        sut(|| {
            if marked(i) {
                s.add_tag::<Marked>(h);
            }
            if in_row(i) {
                s.add_entity_order_by::<Row>(h);
            }
            if more(i) {
                s.add_components(h, More { v: i as u64 });
            }
        });
    }
    pace();
    for i in (0..n).filter(|i| gone(*i)) {
        let h = hs[i];
        sut(|| s.destroy_entity(h));
    }
    pace();
    for k in 0..lost {
        if let Some(x) = add(&mut s, &mut hs, &mut seen, n + k) {
            return Some(x);
        }
    }
    pace();
    let cap_now = sut(|| s.entities_capacity());
    if cap_now > (2 * n).max(cap) {
        return Some((C14, "capacity", format!("capacity {cap_now} for {n} entities")));
    }
    // every entity by itself
    for i in 0..total {
        let h = hs[i];
        let dead = i < n && gone(i);
        let fresh = i >= n;
        let (alive, tag, mine, extra) = sut(|| {
            (
                s.is_alive(h),
                s.has_tag::<Marked>(h),
                s.get_components_refs::<Mine>(h).map(|m| m.v),
                s.get_components_refs::<More>(h).map(|m| m.v),
            )
        });
        let name = || format!("entity {i} of {total}, handle ({},{})", h.id(), h.version());
        if alive == dead {
            return Some((C01, "alive", format!("{}: alive is {alive}", name())));
        }
        if tag != (!dead && !fresh && marked(i)) {
            return Some((C05, "tag", format!("{}: has the tag is {tag}", name())));
        }
        if mine.is_some() != (!dead && !bare(i)) {
            return Some((C03, "component-set", format!("{}: its component is {mine:?}", name())));
        }
        if !dead && !fresh && !bare(i) && mine != Some(val(h)) {
            return Some((C02, "value", format!("{}: value {mine:?}, written {}", name(), val(h))));
        }
        let want = if !dead && !fresh && more(i) { Some(i as u64) } else { None };
        if extra.is_some() != want.is_some() {
            return Some((C03, "component-set", format!("{}: its added component is {extra:?}", name())));
        }
        if extra != want {
            return Some((C02, "value", format!("{}: added value {extra:?}, written {want:?}", name())));
        }
    }
    pace();
    // the group, from both ends
    let row: Vec<Entity> = (0..n).filter(|i| in_row(*i) && !gone(*i)).map(|i| hs[i]).collect();
    let mut at = sut(|| s.get_first_entity_ordered_by::<Row>());
    for (j, h) in row.iter().enumerate() {
        if at != Some(*h) {
            return Some((C06, "order", format!("member {j} of {}: {at:?}", row.len())));
        }
        at = sut(|| s.get_next_entity_ordered_by::<Row>(*h));
    }
    if at.is_some() || sut(|| s.get_last_entity_ordered_by::<Row>()) != row.last().copied() {
        return Some((C06, "order", format!("after the last member: {at:?}")));
    }
    for j in (1..row.len()).rev() {
        if sut(|| s.get_previous_entity_ordered_by::<Row>(row[j])) != Some(row[j - 1]) {
            return Some((C06, "order", format!("before member {j} of {}", row.len())));
        }
    }
    pace();
    // ordered query
    let want: Vec<Entity> = (0..n).filter(|i| in_row(*i) && !gone(*i) && !bare(*i)).map(|i| hs[i]).collect();
    let mut q = sut(|| ordered_component::readonly::<Row, Mine>());
    let len = sut(|| s.ordered_query_iter(&mut q).len());
    if len != want.len() {
        return Some((C07, "length", format!("an ordered query's length is {len}, {} members match", want.len())));
    }
    let mut j = 0;
    let mut bad = None;
    sut(|| {
        for (h, m) in s.ordered_query_iter(&mut q).with_entities() {
            if j >= want.len() || h != want[j] || m.v != val(h) {
                bad = Some((j, h.id(), h.version(), m.v));
                break;
            }
            j += 1;
        }
    });
    if bad.is_some() || j != want.len() {
        return Some((C07, "ordered-item", format!("item {j} of {}: {bad:?}", want.len())));
    }
    pace();
    // component query with and without the tag
    let mut q = sut(|| component::readonly::<Mine>());
    let (mut all, mut tagged, mut wrong) = (0, 0, None);
    sut(|| {
        for (h, m) in s.component_query_iter(&mut q).with_entities().filter_tag::<Marked>() {
            if m.v != val(h) {
                wrong = Some((h.id(), h.version(), m.v));
            }
            tagged += 1;
        }
    });
    sut(|| {
        let it = s.component_query_iter(&mut q);
        all = it.len();
        let got = it.count();
        if got != all {
            wrong = Some((got as u32, all as u32, 0));
        }
    });
    let want_tagged = (0..n).filter(|i| marked(*i) && !gone(*i) && !bare(*i)).count();
    let want_all = (0..total).filter(|i| !bare(*i) && !(*i < n && gone(*i))).count();
    if all != want_all || wrong.is_some() {
        return Some((C04, "query-count", format!("a query yielded {all} of {want_all} entities, {wrong:?}")));
    }
    if tagged != want_tagged {
        return Some((C05, "tag-filter", format!("a tag filter yielded {tagged} of {want_tagged} entities")));
    }
    pace();
    // the whole list of handles, backwards, the dead included
    let list: Vec<Entity> = hs.iter().rev().copied().collect();
    let mut q = sut(|| entity_component::readonly::<Mine>());
    let mut i = total;
    let mut bad = None;
    let mut left = want_all;
    sut(|| {
        for (h, m) in s.entity_component_query_iter(&list, &mut q).with_entities() {
            while i > 0 && (bare(i - 1) || (i <= n && gone(i - 1))) {
                i -= 1;
            }
            if i == 0 || h != hs[i - 1] || (i <= n && m.v != val(h)) {
                bad = Some((i, h.id(), h.version(), m.v));
                break;
            }
            i -= 1;
            left -= 1;
        }
    });
    if bad.is_some() || left != 0 {
        return Some((C08, "listed-item", format!("at {i} of {total}: {bad:?}, {left} items missing")));
    }
    pace();
    sut(move || {
        drop(arch);
        drop(s);
    });
    None
}
