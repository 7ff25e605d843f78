//! Containers of many key and value types, used by threads that own the keys they change.
//!
//! Nobody else changes a key, so every result its owner gets is determined by what the owner did
//! before, whatever the others do to the structure around it: an exact oracle that costs next to
//! nothing, so that these rounds are long and the containers large.

use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::Bound;
use std::sync::Mutex;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed};

use scc::hash_cache::Entry as CacheEntry;
use scc::hash_index::Entry as IndexEntry;
use scc::hash_map::Entry as MapEntry;
use scc::{Comparable, Equivalent, Guard, HashCache, HashIndex, HashMap, HashSet, TreeIndex};

use crate::exec::block_on;
use crate::inject;
use crate::track::{HASH_MODES, Hb};
use crate::util::{self, BUSY, Rng, count, distinct, fnv, progress, sample, set_context, violation};

pub trait Kind: Sized + 'static {
    type K: Clone + Ord + Hash + Debug + Send + Sync + 'static;
    type V: Clone + PartialEq + Debug + Send + Sync + 'static;
    type Q: Equivalent<Self::K> + Comparable<Self::K> + Hash + Ord + ?Sized;
    const NAME: &'static str;
    const KEYS: u32;
    fn key(k: u32) -> Self::K;
    fn with<R>(k: u32, f: impl FnOnce(&Self::Q) -> R) -> R;
    /// Increases with the key.
    fn id(k: &Self::K) -> u32;
    fn val(k: u32, ver: u32) -> Self::V;
    /// Whether the content is whole and belongs to the key.
    fn whole(k: &Self::K, v: &Self::V) -> bool;
}

static LIVE: AtomicI64 = AtomicI64::new(0);

/// Follows its instances by count.
#[derive(Debug)]
pub struct Counted(u32, u32);
impl Counted {
    fn new(x: u32) -> Self {
        LIVE.fetch_add(1, Relaxed);
        Counted(x, !x)
    }
    fn ok(&self) -> bool {
        self.0 == !self.1
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        if !self.ok() {
            violation("dead", format!("clone of {:x} {:x}", self.0, self.1));
        }
        Counted::new(self.0)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        if !self.ok() {
            violation("drop", format!("drop of {:x} {:x}", self.0, self.1));
        }
        self.1 = self.0;
        LIVE.fetch_sub(1, Relaxed);
    }
}
impl PartialEq for Counted {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Counted {}
impl PartialOrd for Counted {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Counted {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for Counted {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h);
    }
}
impl Borrow<u32> for Counted {
    fn borrow(&self) -> &u32 {
        &self.0
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(64))]
pub struct Aligned(u32);

#[derive(Clone, PartialEq, Debug)]
#[repr(align(256))]
pub struct Wide([u32; 100]);

macro_rules! kind {
    ($t:ident, $k:ty, $v:ty, $q:ty, $n:expr, $key:expr, $with:expr, $id:expr, $val:expr, $whole:expr) => {
        pub struct $t;
        impl Kind for $t {
            type K = $k;
            type V = $v;
            type Q = $q;
            const NAME: &'static str = stringify!($t);
            const KEYS: u32 = $n;
            fn key(k: u32) -> $k {
                ($key)(k)
            }
            fn with<R>(k: u32, f: impl FnOnce(&$q) -> R) -> R {
                let x = ($with)(k);
                f(x.borrow())
            }
            fn id(k: &$k) -> u32 {
                ($id)(k)
            }
            fn val(k: u32, ver: u32) -> $v {
                ($val)(k, ver)
            }
            fn whole(k: &$k, v: &$v) -> bool {
                ($whole)(($id)(k), v)
            }
        }
    };
}

const MANY: u32 = 1_000_000;

kind!(Text, String, String, str, MANY,
    |k: u32| format!("{k:08}{}", "x".repeat((k % 40) as usize)),
    |k: u32| format!("{k:08}{}", "x".repeat((k % 40) as usize)),
    |k: &String| k[..8].parse().unwrap(),
    |k: u32, ver: u32| format!("{k}/{ver}"),
    |k: u32, v: &String| v.split_once('/').is_some_and(|(a, _)| a == k.to_string()));
kind!(Byte, u8, u8, u8, 250, |k: u32| k as u8, |k: u32| k as u8, |k: &u8| u32::from(*k), |_: u32, ver: u32| ver as u8, |_: u32, _: &u8| true);
kind!(Unit, (), Box<u32>, (), 1, |_: u32| (), |_: u32| (), |_: &()| 0, |_: u32, ver: u32| Box::new(ver), |_: u32, _: &Box<u32>| true);
kind!(Marks, u64, (), u64, MANY, |k: u32| u64::from(k) << 20, |k: u32| u64::from(k) << 20, |k: &u64| (*k >> 20) as u32, |_: u32, _: u32| (), |_: u32, _: &()| true);
kind!(Large, Aligned, Wide, Aligned, MANY, Aligned, Aligned, |k: &Aligned| k.0,
    |k: u32, ver: u32| { let mut w = Wide([ver; 100]); w.0[0] = k; w },
    |k: u32, v: &Wide| v.0[0] == k && v.0[1..].iter().all(|x| *x == v.0[1]));
kind!(Boxed, Box<u64>, Vec<u32>, u64, MANY, |k: u32| Box::new(u64::from(k)), |k: u32| u64::from(k), |k: &Box<u64>| **k as u32,
    |k: u32, ver: u32| vec![k, ver], |k: u32, v: &Vec<u32>| v.len() == 2 && v[0] == k);
kind!(KeyDrop, Counted, u32, u32, MANY, Counted::new, |k: u32| k, |k: &Counted| k.0, |_: u32, ver: u32| ver, |_: u32, _: &u32| true);
kind!(ValDrop, u32, Counted, u32, MANY, |k: u32| k, |k: u32| k, |k: &u32| *k, |_: u32, ver: u32| Counted::new(ver), |_: u32, v: &Counted| v.ok());
kind!(Odd, [u8; 3], (u8, u16), [u8], 60_000, |k: u32| [(k >> 16) as u8, (k >> 8) as u8, k as u8], |k: u32| [(k >> 16) as u8, (k >> 8) as u8, k as u8],
    |k: &[u8; 3]| u32::from(k[0]) << 16 | u32::from(k[1]) << 8 | u32::from(k[2]), |k: u32, ver: u32| (ver as u8, k as u16), |k: u32, v: &(u8, u16)| v.1 == k as u16);
kind!(Word, u128, Option<Box<str>>, u128, MANY, |k: u32| u128::from(k) << 70, |k: u32| u128::from(k) << 70, |k: &u128| (*k >> 70) as u32,
    |k: u32, ver: u32| if ver % 5 == 0 { None } else { Some(format!("{k}:{ver}").into()) },
    |k: u32, v: &Option<Box<str>>| v.as_ref().is_none_or(|v| v.starts_with(&format!("{k}:"))));

/// What a removal tells.
#[derive(Debug, PartialEq)]
pub enum Gone<V> {
    No,
    Yes,
    Value(V),
}

/// The calls, in any of their variants.
pub trait Co<D: Kind>: Sync + Sized {
    const NAME: &'static str;
    /// Entries may disappear.
    const LOSSY: bool = false;
    /// Traversals may visit an entry twice while the table is resized.
    const TWICE: bool = true;
    /// Ordered, with range removal.
    const TREE: bool = false;
    /// Values are what was put in.
    const VALUES: bool = true;
    fn new(r: &mut Rng, n: u32) -> Self;
    fn insert(&self, k: D::K, v: D::V, how: u64) -> Result<(), Option<(D::K, D::V)>>;
    /// Inserts or replaces: whether there was one, and which if known.
    fn set(&self, k: u32, v: D::V, how: u64) -> Gone<D::V>;
    fn del(&self, k: u32, how: u64) -> Gone<D::V>;
    fn get(&self, k: u32, how: u64) -> Option<D::V>;
    fn scan(&self, how: u64, f: &mut dyn FnMut(&D::K, &D::V));
    fn purge(&self, how: u64, keep: &mut dyn FnMut(&D::K) -> bool);
    fn len(&self) -> usize;
    fn clear(&self, how: u64);
    fn copy(&self) -> Option<Self>;
    fn same(&self, other: &Self) -> bool;
    fn remove_range(&self, _lo: u32, _hi: u32, _how: u64) {}
    /// Keeps references for a while.
    fn hold(&self, _k: u32, _then: &mut dyn FnMut()) {}
}

fn hasher(r: &mut Rng, n: u32) -> Hb {
    // Large tables with a bad one grow without bounds.
    let mode = if n > 200 || r.chance(1, 2) { *r.pick(&[0, 7]) } else { r.below(u64::from(HASH_MODES)) as u8 };
    Hb { mode, seed: r.next() }
}

fn cap(r: &mut Rng) -> usize {
    *r.pick(&[0, 0, 1, 64, 1000, 5000])
}

impl<D: Kind> Co<D> for HashMap<D::K, D::V, Hb> {
    const NAME: &'static str = "HashMap";
    fn new(r: &mut Rng, n: u32) -> Self {
        match r.below(3) {
            0 => HashMap::with_hasher(hasher(r, n)),
            _ => HashMap::with_capacity_and_hasher(cap(r), hasher(r, n)),
        }
    }
    fn insert(&self, k: D::K, v: D::V, how: u64) -> Result<(), Option<(D::K, D::V)>> {
        match how % 4 {
            0 => self.insert_sync(k, v).map_err(Some),
            1 => block_on(self.insert_async(k, v)).map_err(Some),
            2 => match self.entry_sync(k) {
                MapEntry::Occupied(_) => Err(None),
                MapEntry::Vacant(e) => {
                    e.insert_entry(v);
                    Ok(())
                }
            },
            _ => match block_on(self.entry_async(k)) {
                MapEntry::Occupied(_) => Err(None),
                MapEntry::Vacant(e) => {
                    e.insert_entry(v);
                    Ok(())
                }
            },
        }
    }
    fn set(&self, k: u32, v: D::V, how: u64) -> Gone<D::V> {
        match how % 4 {
            0 => self.upsert_sync(D::key(k), v).map_or(Gone::No, Gone::Value),
            1 => block_on(self.upsert_async(D::key(k), v)).map_or(Gone::No, Gone::Value),
            2 => {
                let mut v = Some(v);
                match D::with(k, |q| self.update_sync(q, |_, o| std::mem::replace(o, v.take().unwrap()))) {
                    Some(o) => Gone::Value(o),
                    None => {
                        if let Some(v) = v {
                            if self.insert_sync(D::key(k), v).is_err() {
                                return Gone::Yes;
                            }
                        }
                        Gone::No
                    }
                }
            }
            _ => match block_on(self.entry_async(D::key(k))) {
                MapEntry::Occupied(mut o) => Gone::Value(o.insert(v)),
                MapEntry::Vacant(e) => {
                    e.insert_entry(v);
                    Gone::No
                }
            },
        }
    }
    fn del(&self, k: u32, how: u64) -> Gone<D::V> {
        let o = match how % 4 {
            0 => D::with(k, |q| self.remove_sync(q)),
            1 => D::with(k, |q| block_on(self.remove_async(q))),
            2 => D::with(k, |q| self.remove_if_sync(q, |_| true)),
            _ => match self.entry_sync(D::key(k)) {
                MapEntry::Occupied(o) => Some(o.remove_entry()),
                MapEntry::Vacant(_) => None,
            },
        };
        o.map_or(Gone::No, |(_, v)| Gone::Value(v))
    }
    fn get(&self, k: u32, how: u64) -> Option<D::V> {
        match how % 4 {
            0 => D::with(k, |q| self.read_sync(q, |_, v| v.clone())),
            1 => D::with(k, |q| block_on(self.read_async(q, |_, v| v.clone()))),
            2 => D::with(k, |q| self.get_sync(q).map(|o| o.get().clone())),
            _ => D::with(k, |q| block_on(self.get_async(q)).map(|o| o.get().clone())),
        }
    }
    fn scan(&self, how: u64, f: &mut dyn FnMut(&D::K, &D::V)) {
        match how % 4 {
            0 => {
                self.iter_sync(|k, v| {
                    f(k, v);
                    true
                });
            }
            1 => {
                block_on(self.iter_async(|k, v| {
                    f(k, v);
                    true
                }));
            }
            2 => {
                self.iter_mut_sync(|e| {
                    f(&e.0, &e.1);
                    true
                });
            }
            _ => {
                let mut c = self.begin_sync();
                while let Some(o) = c {
                    f(o.key(), o.get());
                    c = o.next_sync();
                }
            }
        }
    }
    fn purge(&self, how: u64, keep: &mut dyn FnMut(&D::K) -> bool) {
        match how % 3 {
            0 => self.retain_sync(|k, _| keep(k)),
            1 => block_on(self.retain_async(|k, _| keep(k))),
            _ => {
                self.iter_mut_sync(|e| {
                    if !keep(&e.0) {
                        e.consume();
                    }
                    true
                });
            }
        }
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn clear(&self, how: u64) {
        if how % 2 == 0 { self.clear_sync() } else { block_on(self.clear_async()) }
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

impl<D: Kind> Co<D> for HashSet<D::K, Hb> {
    const NAME: &'static str = "HashSet";
    const VALUES: bool = false;
    fn new(r: &mut Rng, n: u32) -> Self {
        match r.below(3) {
            0 => HashSet::with_hasher(hasher(r, n)),
            _ => HashSet::with_capacity_and_hasher(cap(r), hasher(r, n)),
        }
    }
    fn insert(&self, k: D::K, _: D::V, how: u64) -> Result<(), Option<(D::K, D::V)>> {
        let r = if how % 2 == 0 { self.insert_sync(k) } else { block_on(self.insert_async(k)) };
        r.map_err(|_| None)
    }
    fn set(&self, k: u32, _: D::V, how: u64) -> Gone<D::V> {
        let r = if how % 2 == 0 { self.replace_sync(D::key(k)) } else { block_on(self.replace_async(D::key(k))) };
        r.map_or(Gone::No, |_| Gone::Yes)
    }
    fn del(&self, k: u32, how: u64) -> Gone<D::V> {
        let o = match how % 3 {
            0 => D::with(k, |q| self.remove_sync(q)),
            1 => D::with(k, |q| block_on(self.remove_async(q))),
            _ => D::with(k, |q| self.remove_if_sync(q, || true)),
        };
        o.map_or(Gone::No, |_| Gone::Yes)
    }
    fn get(&self, k: u32, how: u64) -> Option<D::V> {
        let f = match how % 3 {
            0 => D::with(k, |q| self.contains_sync(q)),
            1 => D::with(k, |q| block_on(self.contains_async(q))),
            _ => D::with(k, |q| self.read_sync(q, |_| ()).is_some()),
        };
        f.then(|| D::val(k, 0))
    }
    fn scan(&self, how: u64, f: &mut dyn FnMut(&D::K, &D::V)) {
        let mut g = |k: &D::K| f(k, &D::val(D::id(k), 0));
        match how % 2 {
            0 => {
                self.iter_sync(|k| {
                    g(k);
                    true
                });
            }
            _ => {
                block_on(self.iter_async(|k| {
                    g(k);
                    true
                }));
            }
        }
    }
    fn purge(&self, how: u64, keep: &mut dyn FnMut(&D::K) -> bool) {
        match how % 2 {
            0 => self.retain_sync(|k| keep(k)),
            _ => block_on(self.retain_async(|k| keep(k))),
        }
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn clear(&self, how: u64) {
        if how % 2 == 0 { self.clear_sync() } else { block_on(self.clear_async()) }
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

impl<D: Kind> Co<D> for HashIndex<D::K, D::V, Hb> {
    const NAME: &'static str = "HashIndex";
    fn new(r: &mut Rng, n: u32) -> Self {
        match r.below(3) {
            0 => HashIndex::with_hasher(hasher(r, n)),
            _ => HashIndex::with_capacity_and_hasher(cap(r), hasher(r, n)),
        }
    }
    fn insert(&self, k: D::K, v: D::V, how: u64) -> Result<(), Option<(D::K, D::V)>> {
        match how % 3 {
            0 => self.insert_sync(k, v).map_err(Some),
            1 => block_on(self.insert_async(k, v)).map_err(Some),
            _ => match self.entry_sync(k) {
                IndexEntry::Occupied(_) => Err(None),
                IndexEntry::Vacant(e) => {
                    e.insert_entry(v);
                    Ok(())
                }
            },
        }
    }
    fn set(&self, k: u32, v: D::V, how: u64) -> Gone<D::V> {
        let e = if how % 2 == 0 { self.entry_sync(D::key(k)) } else { block_on(self.entry_async(D::key(k))) };
        match e {
            IndexEntry::Occupied(mut o) => {
                let old = o.get().clone();
                o.update(v);
                Gone::Value(old)
            }
            IndexEntry::Vacant(e) => {
                e.insert_entry(v);
                Gone::No
            }
        }
    }
    fn del(&self, k: u32, how: u64) -> Gone<D::V> {
        let f = match how % 4 {
            0 => D::with(k, |q| self.remove_sync(q)),
            1 => D::with(k, |q| block_on(self.remove_async(q))),
            2 => D::with(k, |q| self.remove_if_sync(q, |_| true)),
            _ => match self.entry_sync(D::key(k)) {
                IndexEntry::Occupied(o) => {
                    o.remove_entry();
                    true
                }
                IndexEntry::Vacant(_) => false,
            },
        };
        if f { Gone::Yes } else { Gone::No }
    }
    fn get(&self, k: u32, how: u64) -> Option<D::V> {
        match how % 3 {
            0 => D::with(k, |q| self.peek_with(q, |_, v| v.clone())),
            1 => {
                let g = Guard::new();
                D::with(k, |q| self.peek(q, &g).cloned())
            }
            _ => D::with(k, |q| self.get_sync(q).map(|o| o.get().clone())),
        }
    }
    fn scan(&self, how: u64, f: &mut dyn FnMut(&D::K, &D::V)) {
        match how % 3 {
            0 => {
                let g = Guard::new();
                for (k, v) in self.iter(&g) {
                    f(k, v);
                }
            }
            1 => {
                self.iter_sync(|k, v| {
                    f(k, v);
                    true
                });
            }
            _ => {
                block_on(self.iter_async(|k, v| {
                    f(k, v);
                    true
                }));
            }
        }
    }
    fn purge(&self, how: u64, keep: &mut dyn FnMut(&D::K) -> bool) {
        match how % 2 {
            0 => self.retain_sync(|k, _| keep(k)),
            _ => block_on(self.retain_async(|k, _| keep(k))),
        }
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn clear(&self, how: u64) {
        if how % 2 == 0 { self.clear_sync() } else { block_on(self.clear_async()) }
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn hold(&self, k: u32, then: &mut dyn FnMut()) {
        let g = Guard::new();
        if let Some(v) = D::with(k, |q| self.peek(q, &g)) {
            let was = v.clone();
            then();
            if *v != was {
                violation("ref", format!("{} {}: {was:?} under a guard became {v:?}", <Self as Co<D>>::NAME, D::NAME));
            }
        }
    }
}

impl<D: Kind> Co<D> for HashCache<D::K, D::V, Hb> {
    const NAME: &'static str = "HashCache";
    const LOSSY: bool = true;
    fn new(r: &mut Rng, n: u32) -> Self {
        match r.below(3) {
            0 => HashCache::with_hasher(hasher(r, n)),
            1 => HashCache::with_capacity_and_hasher(0, 1 << 20, hasher(r, n)),
            _ => HashCache::with_capacity_and_hasher(cap(r), *r.pick(&[64, 1000, 20_000]), hasher(r, n)),
        }
    }
    fn insert(&self, k: D::K, v: D::V, how: u64) -> Result<(), Option<(D::K, D::V)>> {
        match how % 3 {
            0 => self.put_sync(k, v).map(|_| ()).map_err(Some),
            1 => block_on(self.put_async(k, v)).map(|_| ()).map_err(Some),
            _ => match self.entry_sync(k) {
                CacheEntry::Occupied(_) => Err(None),
                CacheEntry::Vacant(e) => {
                    e.put_entry(v);
                    Ok(())
                }
            },
        }
    }
    fn set(&self, k: u32, v: D::V, how: u64) -> Gone<D::V> {
        let e = if how % 2 == 0 { self.entry_sync(D::key(k)) } else { block_on(self.entry_async(D::key(k))) };
        match e {
            CacheEntry::Occupied(mut o) => Gone::Value(o.put(v)),
            CacheEntry::Vacant(e) => {
                e.put_entry(v);
                Gone::No
            }
        }
    }
    fn del(&self, k: u32, how: u64) -> Gone<D::V> {
        let o = match how % 3 {
            0 => D::with(k, |q| self.remove_sync(q)),
            1 => D::with(k, |q| block_on(self.remove_async(q))),
            _ => D::with(k, |q| self.remove_if_sync(q, |_| true)),
        };
        o.map_or(Gone::No, |(_, v)| Gone::Value(v))
    }
    fn get(&self, k: u32, how: u64) -> Option<D::V> {
        match how % 3 {
            0 => D::with(k, |q| self.read_sync(q, |_, v| v.clone())),
            1 => D::with(k, |q| block_on(self.read_async(q, |_, v| v.clone()))),
            _ => D::with(k, |q| self.get_sync(q).map(|o| o.get().clone())),
        }
    }
    fn scan(&self, how: u64, f: &mut dyn FnMut(&D::K, &D::V)) {
        match how % 2 {
            0 => {
                self.iter_sync(|k, v| {
                    f(k, v);
                    true
                });
            }
            _ => {
                block_on(self.iter_async(|k, v| {
                    f(k, v);
                    true
                }));
            }
        }
    }
    fn purge(&self, how: u64, keep: &mut dyn FnMut(&D::K) -> bool) {
        match how % 2 {
            0 => self.retain_sync(|k, _| keep(k)),
            _ => block_on(self.retain_async(|k, _| keep(k))),
        }
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn clear(&self, how: u64) {
        if how % 2 == 0 { self.clear_sync() } else { block_on(self.clear_async()) }
    }
    fn copy(&self) -> Option<Self> {
        None
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

impl<D: Kind> Co<D> for TreeIndex<D::K, D::V> {
    const NAME: &'static str = "TreeIndex";
    const TWICE: bool = false;
    const TREE: bool = true;
    fn new(_: &mut Rng, _: u32) -> Self {
        TreeIndex::new()
    }
    fn insert(&self, k: D::K, v: D::V, how: u64) -> Result<(), Option<(D::K, D::V)>> {
        match how % 2 {
            0 => self.insert_sync(k, v).map_err(Some),
            _ => block_on(self.insert_async(k, v)).map_err(Some),
        }
    }
    fn set(&self, k: u32, v: D::V, how: u64) -> Gone<D::V> {
        let old = Co::<D>::get(self, k, how);
        let gone = Co::<D>::del(self, k, how);
        if (gone == Gone::No) != old.is_none() {
            return gone;
        }
        if self.insert_sync(D::key(k), v).is_err() {
            return Gone::Yes;
        }
        old.map_or(Gone::No, Gone::Value)
    }
    fn del(&self, k: u32, how: u64) -> Gone<D::V> {
        let f = match how % 3 {
            0 => D::with(k, |q| self.remove_sync(q)),
            1 => D::with(k, |q| block_on(self.remove_async(q))),
            _ => D::with(k, |q| self.remove_if_sync(q, |_| true)),
        };
        if f { Gone::Yes } else { Gone::No }
    }
    fn get(&self, k: u32, how: u64) -> Option<D::V> {
        let g = Guard::new();
        match how % 4 {
            0 => D::with(k, |q| self.peek_with(q, |_, v| v.clone())),
            1 => D::with(k, |q| self.peek(q, &g).cloned()),
            2 => D::with(k, |q| self.peek_entry(q, &g).map(|(_, v)| v.clone())),
            _ => D::with(k, |q| {
                let mut r = self.range::<D::Q, _>((Bound::Included(q), Bound::Included(q)), &g);
                r.next().map(|(_, v)| v.clone())
            }),
        }
    }
    fn scan(&self, _: u64, f: &mut dyn FnMut(&D::K, &D::V)) {
        let g = Guard::new();
        let mut last: Option<&D::K> = None;
        for (k, v) in self.iter(&g) {
            if last.is_some_and(|l| l >= k) {
                violation("iter", format!("TreeIndex {}: {k:?} after {last:?}", D::NAME));
            }
            last = Some(k);
            f(k, v);
        }
    }
    fn purge(&self, how: u64, keep: &mut dyn FnMut(&D::K) -> bool) {
        let g = Guard::new();
        for (k, _) in self.iter(&g) {
            if !keep(k) {
                Co::<D>::del(self, D::id(k), how);
            }
        }
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn clear(&self, how: u64) {
        if how % 2 == 0 {
            self.clear();
        } else {
            self.remove_range_sync::<D::Q, _>((Bound::Unbounded, Bound::Unbounded));
        }
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn remove_range(&self, lo: u32, hi: u32, how: u64) {
        D::with(lo, |a| {
            D::with(hi, |b| {
                let (x, y) = (Bound::Included(a), Bound::Excluded(b));
                if how % 2 == 0 { self.remove_range_sync::<D::Q, _>((x, y)) } else { block_on(self.remove_range_async::<D::Q, _>((x, y))) }
            });
        });
    }
    fn hold(&self, k: u32, then: &mut dyn FnMut()) {
        let g = Guard::new();
        if let Some((key, v)) = D::with(k, |q| self.peek_entry(q, &g)) {
            let was = v.clone();
            then();
            if *v != was || D::id(key) != k {
                violation("ref", format!("TreeIndex {}: {k}: {was:?} under a guard became {key:?}: {v:?}", D::NAME));
            }
        }
    }
}

struct Owner<'a, D: Kind, C: Co<D>> {
    c: &'a C,
    n: u32,
    t: u32,
    threads: u32,
    blocks: bool,
    model: BTreeMap<u32, D::V>,
    log: Vec<(u32, u32)>,
    ver: u32,
    rng: Rng,
}

impl<D: Kind, C: Co<D>> Owner<'_, D, C> {
    fn mine(&self, k: u32) -> bool {
        self.owner(k) == self.t
    }
    fn owner(&self, k: u32) -> u32 {
        if self.blocks { (k / self.n.div_ceil(self.threads)).min(self.threads - 1) } else { k % self.threads }
    }
    fn any(&mut self) -> Option<u32> {
        // Few or no keys if there are more threads than keys.
        let per = self.n.div_ceil(self.threads);
        let r = self.rng.below(u64::from(per)) as u32;
        let k = if self.blocks { self.t * per + r } else { r * self.threads + self.t };
        (k < self.n).then_some(k)
    }
    fn wrong(&self, what: &str, k: u32, got: impl Debug) {
        violation(
            "own",
            format!(
                "{} {}: {what} of key {k}, which nobody else changes, gives {got:?}; it is {:?}; last {:?}",
                C::NAME,
                D::NAME,
                self.model.get(&k),
                self.log.iter().rev().filter(|l| l.1 == k).take(4).collect::<Vec<_>>()
            ),
        );
    }
    fn eq(a: &D::V, b: &D::V) -> bool {
        !C::VALUES || a == b
    }

    fn step(&mut self) {
        let Some(k) = self.any() else {
            return;
        };
        let how = self.rng.next() >> 8;
        let op = self.rng.below(100);
        progress();
        self.ver += 1;
        let v = D::val(k, self.ver);
        match op {
            0..=29 => {
                self.log.push((0, k));
                let r = self.c.insert(D::key(k), v.clone(), how);
                match (&r, self.model.contains_key(&k)) {
                    (Ok(()), true) if !C::LOSSY => self.wrong("insertion", k, "success"),
                    (Err(_), false) => self.wrong("insertion", k, "an error"),
                    (Err(Some((rk, rv))), _) if D::id(rk) != k || *rv != v => self.wrong("failed insertion", k, (rk, rv)),
                    _ => (),
                }
                if r.is_ok() {
                    self.model.insert(k, v);
                }
            }
            30..=44 => {
                self.log.push((1, k));
                let r = self.c.set(k, v.clone(), how);
                match (&r, self.model.get(&k)) {
                    (Gone::No, None) | (Gone::Yes, Some(_)) => (),
                    (Gone::Value(x), Some(y)) if Self::eq(x, y) => (),
                    (Gone::No, Some(_)) if C::LOSSY => (),
                    (r, _) => self.wrong("replacement", k, r),
                }
                self.model.insert(k, v);
            }
            45..=64 => {
                self.log.push((2, k));
                let r = self.c.del(k, how);
                match (&r, self.model.get(&k)) {
                    (Gone::No, None) | (Gone::Yes, Some(_)) => (),
                    (Gone::Value(x), Some(y)) if Self::eq(x, y) => (),
                    (Gone::No, Some(_)) if C::LOSSY => (),
                    (r, _) => self.wrong("removal", k, r),
                }
                self.model.remove(&k);
            }
            65..=84 => {
                let r = self.c.get(k, how);
                self.seen("read", k, r.as_ref());
            }
            85..=93 => {
                // Somebody else's.
                let k = self.rng.below(u64::from(self.n)) as u32;
                if let Some(v) = self.c.get(k, how) {
                    if !D::whole(&D::key(k), &v) {
                        self.wrong("read", k, v);
                    }
                }
            }
            94..=97 => {
                let c = self.c;
                c.hold(k, &mut || {
                    for _ in 0..3 {
                        self.step();
                    }
                    // Also its own.
                    self.log.push((2, k));
                    let gone = c.del(k, how);
                    if (gone == Gone::No) == self.model.contains_key(&k) {
                        self.wrong("removal", k, gone);
                    }
                    self.model.remove(&k);
                });
            }
            _ => {
                // Large containers are scanned rarely.
                if self.rng.chance(1, 1 + u64::from(self.n / 20)) {
                    self.bulk(how);
                }
            }
        }
    }

    /// `got` is what the container has for a key of this owner.
    fn seen(&self, what: &str, k: u32, got: Option<&D::V>) {
        match (got, self.model.get(&k)) {
            (None, None) => (),
            (Some(x), Some(y)) if Self::eq(x, y) => (),
            (None, Some(_)) if C::LOSSY => (),
            (got, _) => self.wrong(what, k, got),
        }
    }

    fn bulk(&mut self, how: u64) {
        match self.rng.below(3) {
            0 => {
                let mut seen: BTreeMap<u32, u32> = BTreeMap::new();
                let c = self.c;
                c.scan(how, &mut |k, v| {
                    let id = D::id(k);
                    if !D::whole(k, v) {
                        self.wrong("a visit", id, v);
                    }
                    if self.mine(id) {
                        *seen.entry(id).or_default() += 1;
                        self.seen("a visit", id, Some(v));
                    }
                    progress();
                });
                for k in self.model.keys() {
                    match seen.get(k) {
                        None if !C::LOSSY => self.wrong("a traversal", *k, "no visit"),
                        Some(n) if *n > 1 && !C::TWICE => self.wrong("a traversal", *k, n),
                        _ => (),
                    }
                }
                count("traversals", 1);
            }
            1 if C::TREE && self.blocks => {
                let (Some(a), Some(b)) = (self.any(), self.any()) else {
                    return;
                };
                let (a, b) = (a.min(b), a.max(b));
                self.c.remove_range(a, b, how);
                self.log.push((3, a));
                let gone: Vec<u32> = self.model.range(a..b).map(|(k, _)| *k).collect();
                for k in &gone {
                    self.model.remove(k);
                }
                for k in gone {
                    let r = self.c.get(k, how);
                    self.seen("read after range removal", k, r.as_ref());
                }
                count("range_removals", 1);
            }
            _ => {
                let m = self.rng.range(1, 4) as u32;
                let c = self.c;
                let (t, n, threads, blocks) = (self.t, self.n, self.threads, self.blocks);
                let mine = move |k: u32| (if blocks { (k / n.div_ceil(threads)).min(threads - 1) } else { k % threads }) == t;
                let drops = move |k: u32| mine(k) && k / threads % m == 0;
                c.purge(how, &mut |k| !drops(D::id(k)));
                self.log.push((4, m));
                self.model.retain(|k, _| !drops(*k));
                count("traversals", 1);
            }
        }
    }
}

fn go<D: Kind, C: Co<D>>(rng: &mut Rng) {
    let live = LIVE.load(Relaxed);
    let miri = cfg!(miri);
    let threads = *rng.pick(&[1, 2, 3, 4, 6]);
    let threads = if miri { threads.min(2) } else { threads };
    let n = if miri {
        *rng.pick(&[20, 60])
    } else {
        *rng.pick(&[8, 40, 200, 1000, 5000, 20_000])
    }
    .min(D::KEYS);
    let blocks = rng.chance(1, 2);
    let steps = if miri { 120 } else { *rng.pick(&[300, 2000, 10_000, 30_000]) };
    inject::configure(rng, if C::TREE { inject::TREE_TARGETS } else { inject::TARGETS });
    if miri || steps * threads > 30_000 || rng.chance(1, 4) {
        inject::off();
    }
    let c = C::new(rng, n);
    set_context(format!("{} {} {n} keys {threads} threads {}", C::NAME, D::NAME, if blocks { "blocks" } else { "interleaved" }));
    let models: Mutex<BTreeMap<u32, D::V>> = Mutex::new(BTreeMap::new());
    let seeds: Vec<Rng> = (0..threads).map(|_| rng.fork()).collect();
    let sig = AtomicUsize::new(0);
    BUSY.store(true, Relaxed);
    std::thread::scope(|s| {
        for (t, mut r) in seeds.into_iter().enumerate() {
            let (c, models, sig) = (&c, &models, &sig);
            s.spawn(move || {
                inject::enter_thread(r.next());
                let mut o = Owner::<D, C> { c, n, t: t as u32, threads, blocks, model: BTreeMap::new(), log: Vec::new(), ver: 0, rng: r };
                for i in 0..steps {
                    // Phases of growing and shrinking.
                    if o.rng.chance(1, 400) {
                        if let Some(k) = o.any() {
                            let up = o.rng.chance(1, 2);
                            for k in (k..n).filter(|k| o.owner(*k) == t as u32).take(if miri { 10 } else { 500 }).collect::<Vec<_>>() {
                                o.ver += 1;
                                let v = D::val(k, o.ver);
                                o.log.push((if up { 0 } else { 2 }, k));
                                if up {
                                    if o.c.insert(D::key(k), v.clone(), u64::from(i)).is_ok() {
                                        if o.model.insert(k, v).is_some() && !C::LOSSY {
                                            o.wrong("insertion", k, "success");
                                        }
                                    } else if !o.model.contains_key(&k) {
                                        o.wrong("insertion", k, "an error");
                                    }
                                } else {
                                    let gone = o.c.del(k, u64::from(i)) != Gone::No;
                                    if o.model.remove(&k).is_some() != gone && !(C::LOSSY && !gone) {
                                        o.wrong("removal", k, gone);
                                    }
                                }
                            }
                        }
                    }
                    o.step();
                    if o.log.len() > 100_000 {
                        o.log.clear();
                    }
                    if util::num_violations() > 20 {
                        break;
                    }
                }
                let h = inject::leave_thread();
                sig.fetch_add(fnv(h, o.log.iter().fold(u64::from(o.ver), |h, l| fnv(h, u64::from(l.0) << 32 | u64::from(l.1)))) as usize, Relaxed);
                models.lock().unwrap().append(&mut o.model);
            });
        }
    });
    inject::off();
    let model = models.into_inner().unwrap();
    let mut o = Owner::<D, C> { c: &c, n, t: 0, threads: 1, blocks: false, model, log: Vec::new(), ver: 0, rng: rng.fork() };
    // Everything at rest.
    let mut found = 0;
    for how in 0..3 {
        let mut seen: BTreeMap<u32, u32> = BTreeMap::new();
        c.scan(how, &mut |k, v| {
            *seen.entry(D::id(k)).or_default() += 1;
            o.seen("the final content", D::id(k), Some(v));
        });
        for (k, n) in &seen {
            if *n != 1 {
                o.wrong("the final content", *k, n);
            }
        }
        for k in o.model.keys() {
            if !seen.contains_key(k) && !C::LOSSY {
                o.wrong("the final content", *k, "no visit");
            }
        }
        found = seen.len();
    }
    if c.len() != found {
        violation("own", format!("{} {}: len is {} with {found} entries", C::NAME, D::NAME, c.len()));
    }
    if let Some(d) = c.copy() {
        if !c.same(&d) || !d.same(&c) || d.len() != found {
            violation("own", format!("{} {}: a copy of {found} entries has {} and compares {}", C::NAME, D::NAME, d.len(), c.same(&d)));
        }
        let k = o.any().unwrap_or(0);
        let had = c.get(k, 0).is_some();
        if had {
            d.del(k, 0);
        } else {
            let _ = d.insert(D::key(k), D::val(k, 7), 0);
        }
        if c.same(&d) || d.same(&c) || c.get(k, 0).is_some() != had {
            violation("own", format!("{} {}: a changed copy still compares equal, or the original changed with it", C::NAME, D::NAME));
        }
    }
    if rng.chance(1, 2) {
        c.clear(rng.next());
        if c.len() != 0 || c.get(0, 0).is_some() {
            violation("own", format!("{} {}: {} entries after clear", C::NAME, D::NAME, c.len()));
        }
    }
    drop(o);
    drop(c);
    let (mut idle, mut best) = (0, i64::MAX);
    while LIVE.load(Relaxed) > live && idle < if miri { 64 } else { 20_000 } {
        let g = Guard::new();
        g.accelerate();
        drop(g);
        idle += 1;
        if LIVE.load(Relaxed) < best {
            best = LIVE.load(Relaxed);
            idle = 0;
        }
        if idle % 64 == 63 {
            std::thread::yield_now();
        }
        progress();
    }
    BUSY.store(false, Relaxed);
    if LIVE.load(Relaxed) != live {
        violation("leak", format!("{} {}: {} instances left", C::NAME, D::NAME, LIVE.load(Relaxed) - live));
        LIVE.store(live, Relaxed);
    }
    count("rounds", 1);
    count("events", u64::from(steps * threads));
    count(&format!("rounds_{}", D::NAME), 1);
    count(&format!("rounds_{}", C::NAME), 1);
    distinct(sig.load(Relaxed) as u64);
    sample(|| format!("{} of {}: {n} keys, {threads} threads, {steps} calls each, {found} entries at the end", C::NAME, D::NAME));
    set_context(String::new());
}

fn of<D: Kind>(rng: &mut Rng, which: &str) {
    match which {
        "map" => go::<D, HashMap<D::K, D::V, Hb>>(rng),
        "set" => go::<D, HashSet<D::K, Hb>>(rng),
        "index" => go::<D, HashIndex<D::K, D::V, Hb>>(rng),
        "cache" => go::<D, HashCache<D::K, D::V, Hb>>(rng),
        "tree" => go::<D, TreeIndex<D::K, D::V>>(rng),
        "hash" => {
            let w = *rng.pick(&["map", "set", "index", "cache"]);
            of::<D>(rng, w);
        }
        "all" => {
            let w = *rng.pick(&["map", "set", "index", "cache", "tree"]);
            of::<D>(rng, w);
        }
        x => panic!("unknown container {x}"),
    }
}

pub fn round(rng: &mut Rng, which: &str) {
    match rng.below(10) {
        0 => of::<Text>(rng, which),
        1 => of::<Byte>(rng, which),
        2 => of::<Unit>(rng, which),
        3 => of::<Marks>(rng, which),
        4 => of::<Large>(rng, which),
        5 => of::<Boxed>(rng, which),
        6 => of::<KeyDrop>(rng, which),
        7 => of::<ValDrop>(rng, which),
        8 => of::<Odd>(rng, which),
        _ => of::<Word>(rng, which),
    }
}
