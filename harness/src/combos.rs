//! The geometries and cache set-ups the executions run on.
use crate::map_eng::{self, MapCase, TKey};
use crate::queue_eng::{self, QCase};
use crate::util::*;
use crate::extra;
use sequential_storage::cache::*;
use sequential_storage::cache::{key_pointers::*, page_pointers::*, page_states::*};

pub type MapFn = fn(&mut Rng, &MapCase, &mut Trace, &mut Stats) -> Result<(), Fail>;
pub type QFn = fn(&mut Rng, &QCase, &mut Trace, &mut Stats) -> Result<(), Fail>;
pub struct MapCombo { pub r: usize, pub w: usize, pub e: usize, pub run: MapFn, pub twin: MapFn, pub corrupt: MapFn, pub image: MapFn }
pub struct QCombo { pub r: usize, pub w: usize, pub e: usize, pub run: QFn, pub twin: QFn, pub corrupt: QFn, pub image: QFn }

type S6 = arrayvec::ArrayString<6>;
fn un<K>(_: usize) -> Cache<Uncached, Uncached, Uncached, K> { Cache::new_uncached() }
fn heap<K: TKey>(p: usize) -> Cache<HeapPageStates, HeapPagePointers, HeapKeyPointers<K>, K> { Cache::new(HeapPageStates::new(p), HeapPagePointers::new(p), HeapKeyPointers::new(3)) }
fn calc<K: TKey>(p: usize) -> Cache<CalculatedPageStates, ArrayPagePointers<9>, ArrayKeyPointers<K, 4>, K> { Cache::new(CalculatedPageStates::new(p), ArrayPagePointers::new(), ArrayKeyPointers::new()) }
fn arr<K: TKey>(_: usize) -> Cache<ArrayPageStates<9>, Uncached, ArrayKeyPointers<K, 1>, K> { Cache::new(ArrayPageStates::new(), Uncached, ArrayKeyPointers::new()) }
fn keys<K: TKey>(_: usize) -> Cache<Uncached, Uncached, ArrayKeyPointers<K, 8>, K> { Cache::new(Uncached, Uncached, ArrayKeyPointers::new()) }
fn ptrs<K: TKey>(p: usize) -> Cache<Uncached, HeapPagePointers, Uncached, K> { Cache::new(Uncached, HeapPagePointers::new(p), Uncached) }
fn qheap(p: usize) -> Cache<HeapPageStates, HeapPagePointers, Uncached> { Cache::new(HeapPageStates::new(p), HeapPagePointers::new(p), Uncached) }
fn qcalc(p: usize) -> Cache<CalculatedPageStates, ArrayPagePointers<9>, Uncached> { Cache::new(CalculatedPageStates::new(p), ArrayPagePointers::new(), Uncached) }
fn qarr(_: usize) -> Cache<ArrayPageStates<9>, Uncached, Uncached> { Cache::new(ArrayPageStates::new(), Uncached, Uncached) }
fn qptr(_: usize) -> Cache<Uncached, ArrayPagePointers<9>, Uncached> { Cache::new(Uncached, ArrayPagePointers::new(), Uncached) }

macro_rules! m { ($v:ident, $r:literal, $w:literal, $e:literal, $k:ty, $c:ident) => { $v.push(MapCombo { r: $r, w: $w, e: $e,
    run: |g, c, t, s| map_eng::run_case::<$r, $w, $e, $k, _>(g, $c::<$k>, c, t, s),
    twin: |g, c, t, s| extra::map_twin::<$r, $w, $e, $k, _>(g, $c::<$k>, c, t, s),
    corrupt: |g, c, t, s| extra::map_corrupt::<$r, $w, $e, $k, _>(g, $c::<$k>, c, t, s),
    image: |g, c, t, s| extra::map_image::<$r, $w, $e, $k, _>(g, $c::<$k>, c, t, s) }) } }
macro_rules! q { ($v:ident, $r:literal, $w:literal, $e:literal, $c:ident) => { $v.push(QCombo { r: $r, w: $w, e: $e,
    run: |g, c, t, s| queue_eng::run_case::<$r, $w, $e, _>(g, $c, c, t, s),
    twin: |g, c, t, s| extra::q_twin::<$r, $w, $e, _>(g, $c, c, t, s),
    corrupt: |g, c, t, s| extra::q_corrupt::<$r, $w, $e, _>(g, $c, c, t, s),
    image: |g, c, t, s| extra::q_image::<$r, $w, $e, _>(g, $c, c, t, s) }) } }

pub fn maps() -> Vec<MapCombo> {
    let mut v = vec![];
    m!(v, 1, 1, 32, u8, un);
    m!(v, 1, 1, 64, u8, calc);
    m!(v, 1, 4, 64, u8, heap);
    m!(v, 4, 4, 64, u8, calc);
    m!(v, 4, 1, 64, u8, keys);
    m!(v, 1, 8, 128, u8, ptrs);
    m!(v, 8, 8, 128, S6, calc);
    m!(v, 2, 8, 96, u8, heap);
    m!(v, 1, 16, 160, u8, calc);
    m!(v, 1, 32, 256, u8, arr);
    m!(v, 1, 1, 64, S6, heap);
    m!(v, 1, 1, 64, S6, un);
    m!(v, 4, 4, 64, u8, un);
    m!(v, 8, 4, 64, u8, calc);
    m!(v, 16, 2, 128, S6, heap);
    v
}
pub fn queues() -> Vec<QCombo> {
    let mut v = vec![];
    q!(v, 1, 1, 32, un);
    q!(v, 1, 1, 64, qcalc);
    q!(v, 1, 4, 64, qheap);
    q!(v, 4, 4, 64, un);
    q!(v, 4, 1, 64, qcalc);
    q!(v, 1, 8, 128, qptr);
    q!(v, 8, 8, 128, qarr);
    q!(v, 2, 8, 96, qheap);
    q!(v, 1, 16, 160, qcalc);
    q!(v, 1, 32, 256, un);
    q!(v, 8, 4, 64, un);
    q!(v, 16, 2, 128, qheap);
    v
}
