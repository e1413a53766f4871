//! Type-erased query objects over every access mode, so that the scheduler can hold and advance any number of them.

use crate::alloc::{host, sut};
use crate::kinds::*;
use division_ecs::query::access::ComponentQueryAccess;
use division_ecs::{
    ComponentQuery, Entity, EntityComponentQuery, OrderedComponentQuery, ReadWriteAccess, ReadonlyAccess, Store, Tag,
    WriteAccess,
};
use std::marker::PhantomData;

pub trait Acc: ComponentQueryAccess + 'static {
    fn touch<'a>(o: Self::AccessOutput<'a>, wv: Option<u64>, it: &mut Item);
    fn kinds() -> (Vec<usize>, Vec<usize>);
}

impl<S: Shape> Acc for ReadonlyAccess<S> {
    fn touch<'a>(o: S::RefTuple<'a>, _wv: Option<u64>, it: &mut Item) {
        S::see(o, it)
    }
    fn kinds() -> (Vec<usize>, Vec<usize>) {
        (S::KINDS.to_vec(), vec![])
    }
}

impl<S: Shape> Acc for WriteAccess<S> {
    fn touch<'a>(o: S::MutRefTuple<'a>, wv: Option<u64>, it: &mut Item) {
        S::see_mut(o, wv, it)
    }
    fn kinds() -> (Vec<usize>, Vec<usize>) {
        (vec![], S::KINDS.to_vec())
    }
}

impl<R: Shape, W: Shape> Acc for ReadWriteAccess<R, W> {
    fn touch<'a>(o: (R::RefTuple<'a>, W::MutRefTuple<'a>), wv: Option<u64>, it: &mut Item) {
        R::see(o.0, it);
        W::see_mut(o.1, wv, it)
    }
    fn kinds() -> (Vec<usize>, Vec<usize>) {
        (R::KINDS.to_vec(), W::KINDS.to_vec())
    }
}

/// How a client uses up the rest of an iterator.
pub const N_FINISH: usize = 5;

pub trait It {
    /// Advances; for write access the yielded components are then overwritten with values derived from `wv`.
    fn next(&mut self, wv: Option<u64>) -> Option<Item>;
    /// Skips n items (they are not written) and advances.
    fn nth(&mut self, n: usize, wv: Option<u64>) -> Option<Item>;
    fn len(&self) -> Option<usize>;
    /// Bounds on the number of items to come.
    fn hint(&self) -> (usize, Option<usize>);
    /// how: 1 for_each, 2 count, 3 last, 4 collect. `wv(k, rest)` is the value for the k-th of the remaining items.
    /// Returns the number of items as far as the caller learns it, and the items it is handed.
    fn finish(self: Box<Self>, how: usize, wv: &dyn Fn(usize) -> Option<u64>, left: usize) -> (Option<usize>, Vec<Item>);
}

fn finish<I: Iterator>(it: I, how: usize, wv: &dyn Fn(usize) -> Option<u64>, left: usize, see: fn(I::Item, Option<u64>) -> Item) -> (Option<usize>, Vec<Item>) {
    let mut out = vec![];
    match how {
        1 => {
            let mut k = 0;
            let o = &mut out;
            sut(|| {
                it.for_each(|x| {
                    host(|| {
                        o.push(see(x, wv(k)));
                        k += 1;
                    })
                })
            });
            (Some(out.len()), out)
        }
        2 => (Some(sut(|| it.count())), out),
        3 => {
            if let Some(x) = sut(|| it.last()) {
                out.push(see(x, wv(left.max(1) - 1)));
            }
            (None, out)
        }
        _ => {
            let v: Vec<I::Item> = sut(|| it.collect());
            let n = v.len();
            let mut v = v.into_iter();
            // all references are live together; touched from the last to the first
            let mut k = n;
            while let Some(x) = v.next_back() {
                k -= 1;
                out.push(see(x, wv(k)));
            }
            sut(move || drop(v));
            out.reverse();
            (Some(n), out)
        }
    }
}

struct PlainIt<'a, A: Acc, I> {
    it: I,
    len: fn(&I) -> Option<usize>,
    p: PhantomData<&'a A>,
}

fn see_plain<'a, A: Acc>(o: A::AccessOutput<'a>, wv: Option<u64>) -> Item {
    let mut item = Item::new(None);
    A::touch(o, wv, &mut item);
    item
}

fn see_ent<'a, A: Acc>((e, o): (Entity, A::AccessOutput<'a>), wv: Option<u64>) -> Item {
    let mut item = Item::new(Some(e));
    A::touch(o, wv, &mut item);
    item
}

impl<'a, A: Acc, I: Iterator<Item = A::AccessOutput<'a>>> It for PlainIt<'a, A, I> {
    fn next(&mut self, wv: Option<u64>) -> Option<Item> {
        sut(|| self.it.next()).map(|o| see_plain::<A>(o, wv))
    }
    fn nth(&mut self, n: usize, wv: Option<u64>) -> Option<Item> {
        sut(|| self.it.nth(n)).map(|o| see_plain::<A>(o, wv))
    }
    fn len(&self) -> Option<usize> {
        sut(|| (self.len)(&self.it))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        sut(|| self.it.size_hint())
    }
    fn finish(self: Box<Self>, how: usize, wv: &dyn Fn(usize) -> Option<u64>, left: usize) -> (Option<usize>, Vec<Item>) {
        finish(self.it, how, wv, left, see_plain::<A>)
    }
}

/// The reported length; usize::MAX when len() and size_hint() disagree.
fn exact<I: ExactSizeIterator>(i: &I) -> Option<usize> {
    let l = i.len();
    Some(if i.size_hint() == (l, Some(l)) { l } else { usize::MAX })
}

/// An iterator with entities; the first `left` items are taken before it is asked for entities.
struct EntIt<'a, A: Acc, P, I> {
    plain: Option<P>,
    left: usize,
    turn: fn(P) -> I,
    it: Option<I>,
    p: PhantomData<&'a A>,
}

impl<'a, A: Acc, P: Iterator<Item = A::AccessOutput<'a>>, I: Iterator<Item = (Entity, A::AccessOutput<'a>)>> EntIt<'a, A, P, I> {
    fn new(plain: P, left: usize, turn: fn(P) -> I) -> Self {
        let mut x = EntIt { plain: Some(plain), left, turn, it: None, p: PhantomData };
        if left == 0 {
            x.entities();
        }
        x
    }
    fn entities(&mut self) -> &mut I {
        if let Some(p) = self.plain.take() {
            self.it = Some(sut(|| (self.turn)(p)));
        }
        self.it.as_mut().unwrap()
    }
}

impl<'a, A: Acc, P: Iterator<Item = A::AccessOutput<'a>>, I: Iterator<Item = (Entity, A::AccessOutput<'a>)>> It for EntIt<'a, A, P, I> {
    fn next(&mut self, wv: Option<u64>) -> Option<Item> {
        if let Some(p) = &mut self.plain {
            if self.left > 0 {
                self.left -= 1;
                if let Some(o) = sut(|| p.next()) {
                    return Some(see_plain::<A>(o, wv));
                }
            }
        }
        let it = self.entities();
        sut(|| it.next()).map(|o| see_ent::<A>(o, wv))
    }
    fn nth(&mut self, n: usize, wv: Option<u64>) -> Option<Item> {
        for k in 0..n {
            if self.plain.is_none() {
                let it = self.entities();
                return sut(|| it.nth(n - k)).map(|o| see_ent::<A>(o, wv));
            }
            // skipped, so not written
            if self.left > 0 {
                self.left -= 1;
                let p = self.plain.as_mut().unwrap();
                if sut(|| p.next()).is_some() {
                    continue;
                }
            }
            let it = self.entities();
            return sut(|| it.nth(n - k)).map(|o| see_ent::<A>(o, wv));
        }
        self.next(wv)
    }
    fn len(&self) -> Option<usize> {
        None
    }
    fn hint(&self) -> (usize, Option<usize>) {
        match &self.it {
            Some(i) => sut(|| i.size_hint()),
            None => (0, None),
        }
    }
    fn finish(mut self: Box<Self>, how: usize, wv: &dyn Fn(usize) -> Option<u64>, left: usize) -> (Option<usize>, Vec<Item>) {
        let mut first = vec![];
        let mut taken = 0;
        let mut held = None;
        while self.left > 0 {
            self.left -= 1;
            let p = match &mut self.plain {
                Some(p) => p,
                None => break,
            };
            match sut(|| p.next()) {
                Some(o) if how == 2 || how == 3 => held = Some((taken, o)),
                Some(o) => first.push(see_plain::<A>(o, wv(taken))),
                None => break,
            }
            taken += 1;
        }
        self.entities();
        let (c, v) = finish(self.it.take().unwrap(), how, &|k| wv(taken + k), left - taken.min(left), see_ent::<A>);
        first.extend(v);
        if let (3, true, Some((k, o))) = (how, first.is_empty(), held) {
            first.push(see_plain::<A>(o, wv(k)));
        }
        (c.map(|c| c + taken), first)
    }
}

pub trait QObj {
    /// mode: 0 plain, 1 with entities, 2+t with entities filtered by tag t (component queries only)
    fn open<'a>(&'a mut self, s: &'a Store, list: &'a [Entity], mode: usize, pre: usize) -> Box<dyn It + 'a>;
}

struct CompQ<A: Acc>(ComponentQuery<A>);
struct ListQ<A: Acc>(EntityComponentQuery<A>);
struct OrdQ<O: Tag, A: Acc>(OrderedComponentQuery<O, A>);

pub const N_FILTER_TAGS: usize = 4;
pub const N_ORDER_TAGS: usize = 4;

impl<A: Acc> QObj for CompQ<A> {
    fn open<'a>(&'a mut self, s: &'a Store, _list: &'a [Entity], mode: usize, pre: usize) -> Box<dyn It + 'a> {
        let q = &mut self.0;
        match mode {
            0 => {
                let it = sut(|| s.component_query_iter(q));
                Box::new(PlainIt::<A, _> { it, len: exact, p: PhantomData })
            }
            m => {
                let it = sut(|| s.component_query_iter(q));
                match m {
                    1 => Box::new(EntIt::<A, _, _>::new(it, pre, |p| p.with_entities())),
                    2 => Box::new(EntIt::<A, _, _>::new(it, pre, |p| p.with_entities().filter_tag::<T0>())),
                    3 => Box::new(EntIt::<A, _, _>::new(it, pre, |p| p.with_entities().filter_tag::<T1>())),
                    4 => Box::new(EntIt::<A, _, _>::new(it, pre, |p| p.with_entities().filter_tag::<T2>())),
                    _ => Box::new(EntIt::<A, _, _>::new(it, pre, |p| p.with_entities().filter_tag::<T3x>())),
                }
            }
        }
    }
}

impl<A: Acc> QObj for ListQ<A> {
    fn open<'a>(&'a mut self, s: &'a Store, list: &'a [Entity], mode: usize, pre: usize) -> Box<dyn It + 'a> {
        let q = &mut self.0;
        if mode == 0 {
            let it = sut(|| s.entity_component_query_iter(list, q));
            Box::new(PlainIt::<A, _> { it, len: |_| None, p: PhantomData })
        } else {
            let it = sut(|| s.entity_component_query_iter(list, q));
            Box::new(EntIt::<A, _, _>::new(it, pre, |p| p.with_entities()))
        }
    }
}

impl<O: Tag, A: Acc> QObj for OrdQ<O, A> {
    fn open<'a>(&'a mut self, s: &'a Store, _list: &'a [Entity], mode: usize, pre: usize) -> Box<dyn It + 'a> {
        let q = &mut self.0;
        if mode == 0 {
            let it = sut(|| s.ordered_query_iter(q));
            Box::new(PlainIt::<A, _> { it, len: exact, p: PhantomData })
        } else {
            let it = sut(|| s.ordered_query_iter(q));
            Box::new(EntIt::<A, _, _>::new(it, pre, |p| p.with_entities()))
        }
    }
}

pub struct AccInfo {
    pub read: Vec<usize>,
    pub write: Vec<usize>,
    pub mask: u32,
    make: fn(usize, usize) -> Box<dyn QObj>,
}

impl AccInfo {
    /// Kinds in the order in which an item's digests come.
    pub fn cols(&self) -> impl Iterator<Item = usize> + '_ {
        self.read.iter().chain(self.write.iter()).copied()
    }
    /// qk: 0 component query, 1 entity-list query, 2 ordered query over group `tag`
    pub fn make(&self, qk: usize, tag: usize) -> Box<dyn QObj> {
        (self.make)(qk, tag)
    }
}

fn mk<A: Acc>(qk: usize, tag: usize) -> Box<dyn QObj> {
    match (qk, tag) {
        (0, _) => Box::new(CompQ::<A>(ComponentQuery::new())),
        (1, _) => Box::new(ListQ::<A>(EntityComponentQuery::new())),
        (_, 0) => Box::new(OrdQ::<T0, A>(OrderedComponentQuery::new())),
        (_, 1) => Box::new(OrdQ::<T1, A>(OrderedComponentQuery::new())),
        (_, 2) => Box::new(OrdQ::<T2, A>(OrderedComponentQuery::new())),
        _ => Box::new(OrdQ::<T3x, A>(OrderedComponentQuery::new())),
    }
}

fn info<A: Acc>() -> AccInfo {
    let (read, write) = A::kinds();
    let mask = mask_of(&read) | mask_of(&write);
    AccInfo { read, write, mask, make: mk::<A> }
}

static mut ACCS: Option<Vec<AccInfo>> = None;

#[allow(static_mut_refs)]
pub fn accs() -> &'static [AccInfo] {
    unsafe {
        if ACCS.is_none() {
            ACCS = Some(vec![
                info::<ReadonlyAccess<A4>>(),
                info::<ReadonlyAccess<V8>>(),
                info::<ReadonlyAccess<B1>>(),
                info::<ReadonlyAccess<W16>>(),
                info::<ReadonlyAccess<Al64>>(),
                info::<ReadonlyAccess<L1000>>(),
                info::<ReadonlyAccess<Q2>>(),
                info::<ReadonlyAccess<Q2b>>(),
                info::<ReadonlyAccess<Q3>>(),
                info::<ReadonlyAccess<Q5>>(),
                info::<ReadonlyAccess<Q7>>(),
                info::<ReadonlyAccess<Q12>>(),
                info::<WriteAccess<V8>>(),
                info::<WriteAccess<A4>>(),
                info::<WriteAccess<L8000>>(),
                info::<WriteAccess<Q2>>(),
                info::<WriteAccess<Q2c>>(),
                info::<WriteAccess<Q3>>(),
                info::<WriteAccess<Q12>>(),
                info::<ReadWriteAccess<A4, V8>>(),
                info::<ReadWriteAccess<V8, (A4, B1)>>(),
                info::<ReadWriteAccess<(A4, P8), V8>>(),
                info::<ReadWriteAccess<Q3b, (W16, V8)>>(),
                info::<ReadonlyAccess<Zero>>(),
                info::<ReadonlyAccess<(V8, Zero)>>(),
                info::<WriteAccess<(Zero, A4)>>(),
                info::<ReadWriteAccess<A4, Zero>>(),
                info::<ReadonlyAccess<Q4>>(),
                info::<ReadonlyAccess<Q6>>(),
                info::<WriteAccess<Q8>>(),
                info::<ReadonlyAccess<Q9>>(),
                info::<WriteAccess<Q10>>(),
                info::<ReadonlyAccess<Q11>>(),
                info::<ReadWriteAccess<Q5, (P8, T3)>>(),
                info::<WriteAccess<L800>>(),
                info::<ReadonlyAccess<M160>>(),
                info::<ReadonlyAccess<R2>>(),
                info::<ReadonlyAccess<R3>>(),
                info::<ReadonlyAccess<R4>>(),
                info::<ReadWriteAccess<R2, A4>>(),
            ]);
        }
        ACCS.as_ref().unwrap()
    }
}
