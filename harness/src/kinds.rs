//! Component kinds of many sizes and alignments, tuples of every arity, and tags.

use crate::alloc::sut;
use crate::rng::{mix, mix2};
use division_ecs::{Archetype, Component, ComponentTuple, ComponentType, Entity, Store, Tag};
use std::hint::black_box;

/// What one visit to a row of components observed.
#[derive(Clone)]
pub struct Item {
    pub ent: Option<Entity>,
    pub digs: [u64; 16],
    pub n: usize,
    /// kind and address of the first misaligned reference
    pub misaligned: Option<(usize, usize)>,
}

impl Item {
    pub fn new(ent: Option<Entity>) -> Self {
        Item { ent, digs: [0; 16], n: 0, misaligned: None }
    }

    #[inline]
    fn see<K: Kind>(&mut self, p: *const K) {
        let a = black_box(p as usize);
        if a % std::mem::align_of::<K>() != 0 && self.misaligned.is_none() {
            self.misaligned = Some((K::IDX, a));
        }
        self.digs[self.n] = K::dig(p);
        self.n += 1;
    }
}

pub trait Kind: Component + 'static {
    const IDX: usize;
    fn make(v: u64) -> Self;
    /// A digest of the value's bytes (padding excluded).
    fn dig(p: *const Self) -> u64;
}

#[inline]
fn fill_bytes(v: u64, b: &mut [u8]) {
    let k = mix(v);
    let mut x = k;
    for c in b.chunks_mut(8) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(k | 1);
        let w = (x ^ (x >> 29)).to_le_bytes();
        let n = c.len();
        c.copy_from_slice(&w[..n]);
    }
}

#[inline]
fn dig_bytes(p: *const u8, n: usize) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ n as u64;
    unsafe {
        let mut i = 0;
        while i + 8 <= n {
            let w = (p.add(i) as *const u64).read_unaligned();
            h = (h ^ w).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
            i += 8;
        }
        while i < n {
            h = (h ^ *p.add(i) as u64).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(9);
            i += 1;
        }
    }
    h ^ (h >> 31)
}

macro_rules! bytes_kind {
    ($idx:expr, $name:ident, $(#[$at:meta])* $t:ty) => {
        #[derive(Clone, Copy, Component)]
        $(#[$at])*
        #[allow(dead_code)]
        pub struct $name { v: $t }
        impl Kind for $name {
            const IDX: usize = $idx;
            fn make(v: u64) -> Self {
                let mut t = std::mem::MaybeUninit::<$name>::zeroed();
                unsafe {
                    let n = std::mem::size_of::<$t>();
                    let p = std::ptr::addr_of_mut!((*t.as_mut_ptr()).v) as *mut u8;
                    fill_bytes(v, std::slice::from_raw_parts_mut(p, n));
                    t.assume_init()
                }
            }
            fn dig(p: *const Self) -> u64 {
                unsafe { dig_bytes(std::ptr::addr_of!((*p).v) as *const u8, std::mem::size_of::<$t>()) }
            }
        }
    };
}

bytes_kind!(0, B1, u8);
bytes_kind!(1, B2, u16);
bytes_kind!(2, A4, u32);
bytes_kind!(6, W16, u128);
bytes_kind!(7, T3, [u8; 3]);
bytes_kind!(9, Odd37, [u8; 37]);
bytes_kind!(10, M160, [u64; 20]);
bytes_kind!(11, L1000, [u8; 1000]);
bytes_kind!(12, L2400, [u32; 600]);
bytes_kind!(13, L4001, [u8; 4001]);
bytes_kind!(14, L8000, [u64; 1000]);
bytes_kind!(15, Al32, #[repr(align(32))] [u64; 4]);
bytes_kind!(16, Al64, #[repr(align(64))] u8);
bytes_kind!(17, Al256, #[repr(align(256))] u64);
bytes_kind!(18, Al4096, #[repr(align(4096))] u64);
bytes_kind!(20, L1365, [u8; 1365]);
bytes_kind!(21, L5461, [u8; 5461]);
bytes_kind!(23, Full, [u8; 16384]);
bytes_kind!(24, Over, [u8; 17000]);
bytes_kind!(26, S12, [u32; 3]);
bytes_kind!(28, L800, [u16; 400]);
bytes_kind!(29, L3000, [u64; 375]);
bytes_kind!(30, Zero, #[repr(align(4))] ());

/// Types that share one name, as types of different scopes may.
pub trait Named {
    type T;
}
pub struct Slot<const N: usize>;
macro_rules! namesake {
    ($idx:expr, $alias:ident, $t:ty) => {
        const _: () = {
            bytes_kind!($idx, Namesake, $t);
            impl Named for Slot<$idx> {
                type T = Namesake;
            }
        };
        pub type $alias = <Slot<$idx> as Named>::T;
    };
}
namesake!(3, P8, [u32; 2]);
namesake!(4, V8, u64);
namesake!(5, V16, [u64; 2]);

macro_rules! field_kind {
    ($idx:expr, $name:ident { $($f:ident : $t:ty = $e:expr),* }) => {
        #[derive(Clone, Copy, Component)]
        #[allow(dead_code)]
        pub struct $name { $($f: $t),* }
        impl Kind for $name {
            const IDX: usize = $idx;
            fn make(v: u64) -> Self {
                let k = mix(v);
                let g: fn(u64) -> Self = |k| $name { $($f: ($e)(k)),* };
                g(k)
            }
            fn dig(p: *const Self) -> u64 {
                let mut h = 7u64;
                unsafe {
                    $( h = mix2(h, dig_bytes(std::ptr::addr_of!((*p).$f) as *const u8, std::mem::size_of::<$t>())); )*
                }
                h
            }
        }
    };
}

field_kind!(8, Pad16 { a: u8 = |k: u64| k as u8, b: u64 = |k: u64| k.rotate_left(9) });
field_kind!(19, F12 { a: f32 = |k: u64| k as f32, b: f64 = |k: u64| (k >> 3) as f64 });
field_kind!(22, BC { a: bool = |k: u64| k & 1 == 1, b: char = |k: u64| char::from_u32((k >> 8) as u32 % 0xD000).unwrap() });
field_kind!(25, C5 { a: u32 = |k: u64| k as u32, b: u8 = |k: u64| (k >> 40) as u8 });
field_kind!(27, S24 { a: u64 = |k: u64| k, b: u32 = |k: u64| (k >> 5) as u32, c: u16 = |k: u64| (k >> 50) as u16 });

pub const N_KINDS: usize = 31;
pub const OVER: usize = 24;
/// What the library says one page of rows can hold.
pub const PAGE_BYTES: usize = Store::data_page_size();

pub struct KindInfo {
    pub name: &'static str,
    pub size: usize,
    pub align: usize,
    pub ctype: fn() -> ComponentType,
    pub type_id: std::any::TypeId,
    pub dig_of: fn(u64) -> u64,
    pub ops: ShapeOps,
    pub has: fn(&Archetype) -> (bool, bool),
}

fn dig_of<K: Kind>(v: u64) -> u64 {
    let k = K::make(v);
    K::dig(&k)
}

fn has_of<K: Kind>(a: &Archetype) -> (bool, bool) {
    (a.has_component::<K>(), a.find_component_index_of::<K>().is_some())
}

fn kind_info<K: Kind + Shape>(name: &'static str) -> KindInfo {
    KindInfo {
        name,
        size: std::mem::size_of::<K>(),
        align: std::mem::align_of::<K>(),
        ctype: ComponentType::of::<K>,
        type_id: std::any::TypeId::of::<K>(),
        dig_of: dig_of::<K>,
        ops: shape_ops::<K>(),
        has: has_of::<K>,
    }
}

pub fn val(v: u64, kind: usize) -> u64 {
    mix2(v, kind as u64)
}

/// A component tuple the simulator can build, look at and overwrite.
pub trait Shape: ComponentTuple + Sized + 'static {
    const KINDS: &'static [usize];
    fn build(v: u64) -> Self;
    fn see<'a>(r: Self::RefTuple<'a>, it: &mut Item);
    fn see_mut<'a>(r: Self::MutRefTuple<'a>, wv: Option<u64>, it: &mut Item);
    fn see_cloned<'a>(r: Self::RefTuple<'a>, it: &mut Item);
}

macro_rules! shape {
    ($($K:ident $k:ident),*) => {
        #[allow(unused_parens)]
        impl Shape for ($($K),*) {
            const KINDS: &'static [usize] = &[$($K::IDX),*];
            fn build(v: u64) -> Self {
                ($($K::make(val(v, $K::IDX))),*)
            }
            fn see<'a>(($($k),*): Self::RefTuple<'a>, it: &mut Item) {
                $( it.see::<$K>($k as *const $K); )*
            }
            fn see_cloned<'a>(r: Self::RefTuple<'a>, it: &mut Item) {
                let ($($k),*) = sut(|| division_ecs::ClonedExtension::cloned(r));
                $( it.see::<$K>(&$k as *const $K); )*
            }
            fn see_mut<'a>(($($k),*): Self::MutRefTuple<'a>, wv: Option<u64>, it: &mut Item) {
                $( it.see::<$K>($k as *const $K); )*
                if let Some(v) = wv {
                    $( *$k = $K::make(val(v, $K::IDX)); )*
                }
            }
        }
    };
}

#[derive(Clone, Copy)]
pub struct ShapeOps {
    pub kinds: &'static [usize],
    pub arch: fn() -> Archetype,
    pub include: fn(&mut division_ecs::ArchetypeBuilder),
    pub exclude: fn(&mut division_ecs::ArchetypeBuilder),
    pub add: fn(&mut Store, Entity, u64),
    pub remove: fn(&mut Store, Entity),
    pub look: fn(&Store, Entity) -> Option<Item>,
    pub write: fn(&mut Store, Entity, Option<u64>) -> Option<Item>,
}

fn op_include<S: Shape>(b: &mut division_ecs::ArchetypeBuilder) {
    b.include_components::<S>();
}

fn op_exclude<S: Shape>(b: &mut division_ecs::ArchetypeBuilder) {
    b.exclude_components::<S>();
}

fn op_add<S: Shape>(s: &mut Store, e: Entity, v: u64) {
    let c = S::build(v);
    sut(|| s.add_components::<S>(e, c))
}

fn op_remove<S: Shape>(s: &mut Store, e: Entity) {
    sut(|| s.remove_components::<S>(e))
}

fn op_look<S: Shape>(s: &Store, e: Entity) -> Option<Item> {
    let r = sut(|| s.get_components_refs::<S>(e))?;
    let mut it = Item::new(Some(e));
    S::see(r, &mut it);
    if it.digs[0] & 7 == 0 && it.n > 1 {
        // the copy a caller can ask for instead
        if let Some(r) = sut(|| s.get_components_refs::<S>(e)) {
            let mut c = Item::new(Some(e));
            S::see_cloned(r, &mut c);
            if c.digs != it.digs {
                it.digs = c.digs;
            }
        }
    }
    Some(it)
}

fn op_write<S: Shape>(s: &mut Store, e: Entity, wv: Option<u64>) -> Option<Item> {
    let r = sut(|| s.get_components_refs_mut::<S>(e))?;
    let mut it = Item::new(Some(e));
    S::see_mut(r, wv, &mut it);
    Some(it)
}

fn shape_ops<S: Shape>() -> ShapeOps {
    ShapeOps {
        kinds: S::KINDS,
        arch: Archetype::with_components::<S>,
        include: op_include::<S>,
        exclude: op_exclude::<S>,
        add: op_add::<S>,
        remove: op_remove::<S>,
        look: op_look::<S>,
        write: op_write::<S>,
    }
}

macro_rules! singles {
    ($($K:ident),*) => {
        $( shape!($K a); )*
        fn kinds_unsorted() -> Vec<(usize, KindInfo)> {
            vec![$(($K::IDX, kind_info::<$K>(stringify!($K)))),*]
        }
    };
}

singles!(
    B1, B2, A4, P8, V8, V16, W16, T3, Pad16, Odd37, M160, L1000, L2400, L4001, L8000, Al32, Al64, Al256, Al4096, F12,
    L1365, L5461, BC, Full, Over, C5, S12, S24, L800, L3000, Zero
);

macro_rules! tuples {
    ($( ($($K:ident $k:ident),*) )*) => {
        $( shape!($($K $k),*); )*
        fn tuple_ops() -> Vec<ShapeOps> {
            vec![$( shape_ops::<($($K),*)>() ),*]
        }
    };
}

pub type Q2 = (V8, A4);
pub type Q2b = (Odd37, V16);
pub type Q2c = (Al64, T3);
pub type Q3 = (A4, V8, B1);
pub type Q3b = (B1, B2, A4);
pub type Q5 = (B1, B2, A4, V8, W16);
pub type Q4 = (A4, P8, V8, T3);
pub type Q6 = (A4, P8, V8, V16, W16, T3);
pub type Q8 = (S24, A4, B1, F12, V8, BC, P8, Al32);
pub type Q9 = (B2, L800, A4, S12, C5, V8, T3, Odd37, B1);
pub type Q10 = (V16, V8, A4, B2, B1, Al64, M160, S24, S12, C5);
pub type Q11 = (P8, V8, V16, W16, T3, Pad16, Odd37, F12, BC, A4, B1);
pub type Q7 = (W16, T3, B2, V8, C5, S12, Pad16);
pub type Q12 = (B1, B2, A4, P8, V8, V16, W16, T3, Pad16, Odd37, F12, BC);

tuples! {
    (V8 a, A4 b)
    (A4 a, P8 b)
    (A4 a, B1 b)
    (W16 a, V8 b)
    (Odd37 a, V16 b)
    (Al64 a, T3 b)
    (L8000 a, V8 b)
    (L5461 a, L1365 b)
    (Pad16 a, BC b)
    (L4001 a, Al4096 b)
    (A4 a, V8 b, B1 c)
    (B1 a, B2 b, A4 c)
    (Al32 a, Al256 b, F12 c)
    (B2 a, W16 b, L1000 c)
    (A4 a, L800 b, V8 c)
    (V8 a, Zero b)
    (Zero a, A4 b)
    (P8 a, T3 b)
    (A4 a, P8 b, V8 c, T3 d)
    (L3000 a, L2400 b, B1 c, V8 d)
    (B1 a, B2 b, A4 c, V8 d, W16 e)
    (A4 a, P8 b, V8 c, V16 d, W16 e, T3 f)
    (W16 a, T3 b, B2 c, V8 d, C5 e, S12 f, Pad16 g)
    (S24 a, A4 b, B1 c, F12 d, V8 e, BC f, P8 g, Al32 h)
    (B2 a, L800 b, A4 c, S12 d, C5 e, V8 f, T3 g, Odd37 h, B1 i)
    (V16 a, V8 b, A4 c, B2 d, B1 e, Al64 f, M160 g, S24 h, S12 i, C5 j)
    (P8 a, V8 b, V16 c, W16 d, T3 e, Pad16 f, Odd37 g, F12 h, BC i, A4 j, B1 k)
    (B1 a, B2 b, A4 c, P8 d, V8 e, V16 f, W16 g, T3 h, Pad16 i, Odd37 j, F12 k, BC l)
}

// Tuples that name a kind twice; nothing is written through them, the references would alias.
macro_rules! repeats {
    ($( ($($K:ident $k:ident),*) )*) => {
        $( shape!($($K $k),*); )*
        fn repeat_ops() -> Vec<ShapeOps> {
            vec![$( shape_ops::<($($K),*)>() ),*]
        }
    };
}

pub type R2 = (V8, V8);
pub type R3 = (A4, V8, A4);
pub type R4 = (B1, B1, A4, B1);

repeats! {
    (V8 a, V8 b)
    (A4 a, V8 b, A4 c)
    (B1 a, B1 b, A4 c, B1 d)
    (A4 a, A4 b, A4 c)
}

pub struct Tables {
    pub kinds: Vec<KindInfo>,
    /// singles first (index = kind), then tuples, then tuples with repeated kinds
    pub shapes: Vec<ShapeOps>,
    /// the number of shapes that repeat no kind
    pub plain: usize,
}

static mut TABLES: Option<Tables> = None;

#[allow(static_mut_refs)]
pub fn t() -> &'static Tables {
    unsafe {
        if TABLES.is_none() {
            let mut k = kinds_unsorted();
            k.sort_by_key(|x| x.0);
            for (i, x) in k.iter().enumerate() {
                assert_eq!(i, x.0);
            }
            assert_eq!(k.len(), N_KINDS);
            assert_eq!(std::any::type_name::<P8>(), std::any::type_name::<V8>());
            let kinds: Vec<KindInfo> = k.into_iter().map(|x| x.1).collect();
            let mut shapes: Vec<ShapeOps> = kinds.iter().map(|k| k.ops).collect();
            shapes.extend(tuple_ops());
            let plain = shapes.len();
            shapes.extend(repeat_ops());
            TABLES = Some(Tables { kinds, shapes, plain });
        }
        TABLES.as_ref().unwrap()
    }
}

pub fn mask_of(kinds: &[usize]) -> u32 {
    kinds.iter().fold(0, |m, k| m | 1 << k)
}

pub fn kinds_in(mask: u32) -> impl Iterator<Item = usize> {
    (0..N_KINDS).filter(move |k| mask >> k & 1 == 1)
}

/// True if one row of the set certainly fits in one data page, whatever order the columns are in.
pub fn fits(mask: u32) -> bool {
    let tb = t();
    kinds_in(mask).map(|k| tb.kinds[k].size + tb.kinds[k].align - 1).sum::<usize>() <= PAGE_BYTES
        || (mask.count_ones() == 1 && kinds_in(mask).all(|k| tb.kinds[k].size <= PAGE_BYTES))
}

/// True if one row cannot fit, whatever the order.
pub fn never_fits(mask: u32) -> bool {
    let tb = t();
    kinds_in(mask).map(|k| tb.kinds[k].size).sum::<usize>() > PAGE_BYTES
}

macro_rules! tags {
    ($($T:ident),*) => { $( #[derive(Tag)] pub struct $T; )* };
}
tags!(T0, T1, T2, T3x, T4, T5, T6, T7);
/// Tags in common use.
pub const N_TAGS: usize = 8;
/// With the crowd of further tag types that a few runs use.
pub const MAX_TAGS: usize = 72;

pub struct X<const N: usize>;
impl<const N: usize> Tag for X<N> {}

pub struct TagOps {
    pub add: fn(&mut Store, Entity),
    pub remove: fn(&mut Store, Entity),
    pub has: fn(&Store, Entity) -> bool,
    pub ord: fn(&mut Store, Entity),
    pub ord_next: fn(&mut Store, Entity, Entity),
    pub ord_prev: fn(&mut Store, Entity, Entity),
    pub unord: fn(&mut Store, Entity),
    pub first: fn(&Store) -> Option<Entity>,
    pub last: fn(&Store) -> Option<Entity>,
    pub next: fn(&Store, Entity) -> Option<Entity>,
    pub prev: fn(&Store, Entity) -> Option<Entity>,
}

const fn tag_ops<T: Tag + 'static>() -> TagOps {
    TagOps {
        add: |s, e| sut(|| s.add_tag::<T>(e)),
        remove: |s, e| sut(|| s.remove_tag::<T>(e)),
        has: |s, e| sut(|| s.has_tag::<T>(e)),
        ord: |s, e| sut(|| s.add_entity_order_by::<T>(e)),
        ord_next: |s, e, f| sut(|| s.add_entity_next_to_order_by::<T>(e, f)),
        ord_prev: |s, e, f| sut(|| s.add_entity_previous_to_order_by::<T>(e, f)),
        unord: |s, e| sut(|| s.remove_entity_order_by::<T>(e)),
        first: |s| sut(|| s.get_first_entity_ordered_by::<T>()),
        last: |s| sut(|| s.get_last_entity_ordered_by::<T>()),
        next: |s, e| sut(|| s.get_next_entity_ordered_by::<T>(e)),
        prev: |s, e| sut(|| s.get_previous_entity_ordered_by::<T>(e)),
    }
}

pub static TAGS: [TagOps; MAX_TAGS] = [
    tag_ops::<T0>(),
    tag_ops::<T1>(),
    tag_ops::<T2>(),
    tag_ops::<T3x>(),
    tag_ops::<T4>(),
    tag_ops::<T5>(),
    tag_ops::<T6>(),
    tag_ops::<T7>(),
    tag_ops::<X<8>>(),
    tag_ops::<X<9>>(),
    tag_ops::<X<10>>(),
    tag_ops::<X<11>>(),
    tag_ops::<X<12>>(),
    tag_ops::<X<13>>(),
    tag_ops::<X<14>>(),
    tag_ops::<X<15>>(),
    tag_ops::<X<16>>(),
    tag_ops::<X<17>>(),
    tag_ops::<X<18>>(),
    tag_ops::<X<19>>(),
    tag_ops::<X<20>>(),
    tag_ops::<X<21>>(),
    tag_ops::<X<22>>(),
    tag_ops::<X<23>>(),
    tag_ops::<X<24>>(),
    tag_ops::<X<25>>(),
    tag_ops::<X<26>>(),
    tag_ops::<X<27>>(),
    tag_ops::<X<28>>(),
    tag_ops::<X<29>>(),
    tag_ops::<X<30>>(),
    tag_ops::<X<31>>(),
    tag_ops::<X<32>>(),
    tag_ops::<X<33>>(),
    tag_ops::<X<34>>(),
    tag_ops::<X<35>>(),
    tag_ops::<X<36>>(),
    tag_ops::<X<37>>(),
    tag_ops::<X<38>>(),
    tag_ops::<X<39>>(),
    tag_ops::<X<40>>(),
    tag_ops::<X<41>>(),
    tag_ops::<X<42>>(),
    tag_ops::<X<43>>(),
    tag_ops::<X<44>>(),
    tag_ops::<X<45>>(),
    tag_ops::<X<46>>(),
    tag_ops::<X<47>>(),
    tag_ops::<X<48>>(),
    tag_ops::<X<49>>(),
    tag_ops::<X<50>>(),
    tag_ops::<X<51>>(),
    tag_ops::<X<52>>(),
    tag_ops::<X<53>>(),
    tag_ops::<X<54>>(),
    tag_ops::<X<55>>(),
    tag_ops::<X<56>>(),
    tag_ops::<X<57>>(),
    tag_ops::<X<58>>(),
    tag_ops::<X<59>>(),
    tag_ops::<X<60>>(),
    tag_ops::<X<61>>(),
    tag_ops::<X<62>>(),
    tag_ops::<X<63>>(),
    tag_ops::<X<64>>(),
    tag_ops::<X<65>>(),
    tag_ops::<X<66>>(),
    tag_ops::<X<67>>(),
    tag_ops::<X<68>>(),
    tag_ops::<X<69>>(),
    tag_ops::<X<70>>(),
    tag_ops::<X<71>>(),
];
