//! Deterministic scenarios: those behind the entries of known_findings.json, and sizes that cannot be
//! allocated.

use crate::inject::expect_alloc_failure;
use crate::util::{count, distinct, violation};
use scc::{HashCache, HashIndex, HashMap, HashSet};
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Default)]
struct OneBucket;
struct Zero;

impl Hasher for Zero {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}

impl BuildHasher for OneBucket {
    type Hasher = Zero;
    fn build_hasher(&self) -> Zero {
        Zero
    }
}

/// F2: `OccupiedEntry::update` moves the entry, and the cursor with it.
fn index_update_on_cursor() {
    let m: HashIndex<u32, u32, OneBucket> = HashIndex::with_hasher(OneBucket);
    for k in 0..6 {
        assert!(m.insert_sync(k, 0).is_ok());
    }
    let mut seen = Vec::new();
    let mut cur = m.begin_sync();
    while let Some(mut o) = cur {
        let k = *o.key();
        seen.push(k);
        if seen.len() == 2 {
            o.update(1);
        }
        if seen.len() > 20 {
            break;
        }
        cur = o.next_sync();
    }
    let mut sorted = seen.clone();
    sorted.sort_unstable();
    if sorted != [0, 1, 2, 3, 4, 5] {
        violation("scenario", format!("F2: HashIndex cursor over 0..6 in one bucket that updates the second entry visited {seen:?}"));
    }
}

/// Runs `f`, which may fail to allocate memory; nothing else may go wrong.
fn may_fail<T>(f: impl FnOnce() -> T) -> Option<T> {
    expect_alloc_failure(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    expect_alloc_failure(false);
    count(if r.is_ok() { "allocated" } else { "refused" }, 1);
    r.ok()
}

/// Sizes in bytes of the tables that wrap around; they either work or are refused.
fn huge() {
    let sizes = [
        usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 63, (1 << 63) - 1, 1 << 62, (1 << 62) + 1, (1 << 62) - 1,
        (1 << 61) + 1, 1 << 61, 1 << 60, 1 << 59, 1 << 58, 1 << 57, 1 << 56, 1 << 55,
    ];
    fn table<T>(n: usize, made: Option<T>, cap: impl Fn(&T) -> usize, put: impl Fn(&T, u64) -> bool, get: impl Fn(&T, u64) -> bool) {
        let Some(c) = made else { return };
        if cap(&c) < n.min(1 << 62) {
            violation("scenario", format!("huge: capacity {} after asking for {n}", cap(&c)));
        }
        for i in 0..1000_u64 {
            let k = i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
            if !put(&c, k) || !get(&c, k) {
                violation("scenario", format!("huge: key {i} is not there; asked for {n}"));
            }
        }
    }
    for n in sizes {
        table(n, may_fail(|| HashMap::<u64, u64>::with_capacity(n)), HashMap::capacity, |c, k| c.insert_sync(k, k).is_ok(), |c, k| c.contains_sync(&k));
        table(n, may_fail(|| HashMap::<u64, [u64; 5]>::with_capacity(n)), HashMap::capacity, |c, k| c.insert_sync(k, [k; 5]).is_ok(), |c, k| c.contains_sync(&k));
        table(n, may_fail(|| HashIndex::<u64, u64>::with_capacity(n)), HashIndex::capacity, |c, k| c.insert_sync(k, k).is_ok(), |c, k| c.contains(&k));
        table(n, may_fail(|| HashSet::<u64>::with_capacity(n)), HashSet::capacity, |c, k| c.insert_sync(k).is_ok(), |c, k| c.contains_sync(&k));
        table(n, may_fail(|| HashSet::<()>::with_capacity(n)), HashSet::capacity, |c, k| c.insert_sync(()).is_ok() == (k == 0), |c, _| c.contains_sync(&()));
        table(n, may_fail(|| HashCache::<u64, u64>::with_capacity(n, n)), HashCache::capacity, |c, k| c.put_sync(k, k).is_ok(), |c, k| c.contains_sync(&k));
        table(n, may_fail(|| HashCache::<u64, [u64; 3]>::with_capacity(n, usize::MAX)), HashCache::capacity, |c, k| c.put_sync(k, [k; 3]).is_ok(), |c, k| c.contains_sync(&k));
        // A reservation that cannot be met leaves no trace.
        let m: HashMap<u64, u64> = HashMap::new();
        let x: HashIndex<u64, u64> = HashIndex::new();
        for i in 0..10 {
            assert!(m.insert_sync(i, i).is_ok() && x.insert_sync(i, i).is_ok());
        }
        for _ in 0..2 {
            may_fail(|| m.reserve(n).map(|r| r.additional_capacity()));
            may_fail(|| x.reserve(n).map(|r| r.additional_capacity()));
        }
        let (a, b) = (*m.capacity_range().start(), *x.capacity_range().start());
        if (a, b) != (0, 0) {
            violation("scenario", format!("huge: minimum capacity {a}, {b} after reserve({n}) failed"));
            continue;
        }
        for i in 10..1000 {
            assert!(m.insert_sync(i, i).is_ok() && x.insert_sync(i, i).is_ok());
        }
        if m.len() != 1000 || x.len() != 1000 {
            violation("scenario", format!("huge: {} and {} entries instead of 1000", m.len(), x.len()));
        }
    }
}

pub fn run(name: &str) {
    match name {
        "huge" => huge(),
        "F2" => index_update_on_cursor(),
        _ => panic!("unknown scenario {name}"),
    }
    count("rounds", 1);
    distinct(crate::util::mix(name.len() as u64 + u64::from(name.as_bytes()[1])));
}
