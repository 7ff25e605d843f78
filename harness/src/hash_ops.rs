//! Random operations on the four hash containers, recorded as transitions per key.

use scc::hash_cache::{self, HashCache};
use scc::hash_index::{self, HashIndex};
use scc::hash_map::{self, HashMap};
use scc::HashSet;
use scc::Guard;

use crate::cx::{Cx, FILLER, Prof, Visit};
use crate::inject::{U_CLOSURE, U_HELD, delay_point};
use crate::lin::{Eff, Pre, now};
use crate::track::{Hb, Id, Key, Val, exclusive, exclusive_ref, set_default_uid, shared};
use crate::util::violation;

pub type Map = HashMap<Key, Val, Hb>;
pub type Set = HashSet<Key, Hb>;
pub type Index = HashIndex<Key, Val, Hb>;
pub type Cache = HashCache<Key, Val, Hb>;

/// Calls the synchronous or the asynchronous variant; `None` if it was cancelled.
macro_rules! call {
    ($cx:expr, $m:ident, $sync:ident / $async:ident, $($a:expr),*) => {
        if $cx.use_sync() { $cx.s(|| $m.$sync($($a),*)) } else { $cx.c($m.$async($($a),*)).await }
    };
}

/// How a container is used by the round driver.
#[allow(async_fn_in_trait)]
pub trait Container: Sized + Sync {
    const NAME: &'static str;
    const LOCK_FREE: bool = false;
    fn make(cap: usize, hb: Hb) -> Self;
    /// Inserts a key known to be absent; `false` if it was rejected. May evict: returns the pair.
    fn put(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>);
    fn take(&self, id: u32) -> Option<u64>;
    fn look(&self, id: u32) -> Option<u64>;
    async fn put_a(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>);
    async fn take_a(&self, id: u32) -> Option<u64>;
    async fn look_a(&self, id: u32) -> Option<u64>;
    fn size(&self) -> usize;
    fn cap(&self) -> usize;
    fn cap_range(&self) -> std::ops::RangeInclusive<usize>;
    fn dump(&self) -> Vec<(u32, u64)>;
    async fn step(&self, cx: &mut Cx<'_>);
    /// Operations whose removed value is not returned.
    const TAKE_BLIND: bool = false;
    const EVICTS: bool = false;
}

fn pre_of(o: Option<u64>) -> Pre {
    o.map_or(Pre::Absent, Pre::Is)
}

fn weights(p: &Prof) -> [u32; 6] {
    [p.point, p.entry, p.cursor, p.scan, p.clear, p.misc]
}

// ---------------------------------------------------------------------------------------------
// HashMap

/// Random actions on an occupied entry; returns (value seen first, effect).
macro_rules! play_occupied {
    ($cx:expr, $o:expr, $put:ident) => {{
        let mut o = $o;
        let e = o.get().enter_excl("occupied entry");
        let first = o.get().check("occupied entry");
        let key = o.key().check("occupied entry key");
        let mut cur = first;
        $cx.hold().await;
        if o.get().check("held entry") != cur {
            violation("exclusive", format!("key {key}: value changed while its entry is held"));
        }
        o.get().leave_excl("occupied entry", e);
        let mut eff = Eff::Keep;
        let mut alive = true;
        let mut o = Some(o);
        for _ in 0..$cx.rng.below(3) {
            match $cx.rng.below(8) {
                0 | 1 => {
                    let u = $cx.uid();
                    exclusive(o.as_mut().unwrap().get_mut(), "get_mut", |v| v.set(u));
                    cur = u;
                    eff = Eff::Set(u);
                }
                2 | 3 => {
                    let u = $cx.uid();
                    let old = o.as_mut().unwrap().$put(Val::new(u));
                    if old.check("replaced value") != cur {
                        violation("lin", format!("key {key}: entry held {} but returned {}", cur, old.uid));
                    }
                    cur = u;
                    eff = Eff::Set(u);
                }
                4 => {
                    let old = o.take().unwrap().remove();
                    if old.check("removed value") != cur {
                        violation("lin", format!("key {key}: entry held {} but removed {}", cur, old.uid));
                    }
                    eff = Eff::Clear;
                    alive = false;
                }
                5 => {
                    let (k, old) = o.take().unwrap().remove_entry();
                    if old.check("removed value") != cur || k.check("removed key") != key {
                        violation("lin", format!("key {key}: entry held {} but removed {} {}", cur, k.id, old.uid));
                    }
                    eff = Eff::Clear;
                    alive = false;
                }
                6 => {
                    let v = &**o.as_ref().unwrap();
                    if v.check("deref") != cur {
                        violation("exclusive", format!("key {key}: value changed while its entry is held"));
                    }
                }
                _ => $cx.hold().await,
            }
            if !alive {
                break;
            }
        }
        drop(o);
        (first, eff)
    }};
}

/// The effect of something done after an insertion of `u`.
fn after(u: u64, eff: Eff) -> Eff {
    match eff {
        Eff::Keep => Eff::Set(u),
        e => e,
    }
}

macro_rules! play_cursor {
    ($cx:expr, $self:expr, $name:ident, $t0:expr, $first:expr, $exact:expr) => {{
        // Walks over the entries, removing some of them.
        let t0 = $t0;
        let mut visits: Vec<Visit> = Vec::new();
        let mut complete = true;
        let mut skipping = false;
        let mut cur = $first;
        let mut start = t0;
        loop {
            let Some(mut e) = cur else { break };
            let k = e.key().check("cursor key");
            let b = e.get().enter_excl("cursor");
            let v = e.get().check("cursor");
            $cx.hold().await;
            e.get().leave_excl("cursor", b);
            let act = $cx.rng.below(12);
            if act == 0 && $cx.rng.chance(1, 4) {
                // Stops early.
                visits.push((k, v, Eff::Keep, start, now()));
                drop(e);
                complete = false;
                break;
            }
            if k < FILLER && act < 3 {
                let (old, next) = play_cursor!(@remove $name, $cx, e);
                if let Some((ok, ov)) = old {
                    if ok != k || ov != v {
                        violation("lin", format!("cursor at ({k},{v}) removed ({ok},{ov})"));
                    }
                }
                let n = now();
                visits.push((k, v, Eff::Clear, start, n));
                match next {
                    Some(x) => cur = x,
                    None => { complete = false; break; }
                }
                start = n;
            } else {
                let eff = if k < FILLER && act < 5 {
                    // Known finding: an updated HashIndex entry moves, and others are skipped.
                    skipping |= play_cursor!(@moves $name);
                    play_cursor!(@modify $name, $cx, e)
                } else {
                    Eff::Keep
                };
                let next = if $cx.use_sync() {
                    $cx.s(|| e.next_sync())
                } else {
                    $cx.c(e.next_async()).await
                };
                let n = now();
                visits.push((k, v, eff, start, n));
                match next {
                    Some(x) => cur = x,
                    None => { complete = false; break; }
                }
                start = n;
            }
        }
        let dups = $cx.prof.no_resize && !skipping;
        $cx.visits("cursor", &visits, t0, complete && !skipping, $exact, dups);
    }};
    (@moves map) => { false };
    (@moves index) => { true };
    (@remove map, $cx:expr, $e:expr) => {{
        let r = if $cx.use_sync() { $cx.s(|| $e.remove_and_sync()) } else { $cx.c($e.remove_and_async()).await };
        match r {
            Some(((k, v), n)) => (Some((k.check("cursor removed"), v.check("cursor removed"))), Some(n)),
            None => (None, None),
        }
    }};
    (@remove index, $cx:expr, $e:expr) => {{
        let r = if $cx.use_sync() { $cx.s(|| $e.remove_and_sync()) } else { $cx.c($e.remove_and_async()).await };
        (None::<(u32, u64)>, r)
    }};
    (@modify map, $cx:expr, $e:expr) => {{
        let u = $cx.uid();
        exclusive($e.get_mut(), "cursor get_mut", |v| v.set(u));
        Eff::Set(u)
    }};
    (@modify index, $cx:expr, $e:expr) => {{
        let u = $cx.uid();
        $e.update(Val::new(u));
        Eff::Set(u)
    }};
}

impl Container for Map {
    const NAME: &'static str = "HashMap";
    fn make(cap: usize, hb: Hb) -> Self {
        HashMap::with_capacity_and_hasher(cap, hb)
    }
    fn put(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>) {
        (self.insert_sync(Key::new(id), Val::new(uid)).is_ok(), None)
    }
    fn take(&self, id: u32) -> Option<u64> {
        self.remove_sync(&Id(id)).map(|(_, v)| v.check("take"))
    }
    fn look(&self, id: u32) -> Option<u64> {
        self.read_sync(&Id(id), |_, v| shared(v, "look", |u| u))
    }
    async fn put_a(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>) {
        (self.insert_async(Key::new(id), Val::new(uid)).await.is_ok(), None)
    }
    async fn take_a(&self, id: u32) -> Option<u64> {
        self.remove_async(&Id(id)).await.map(|(_, v)| v.check("take"))
    }
    async fn look_a(&self, id: u32) -> Option<u64> {
        self.read_async(&Id(id), |_, v| shared(v, "look", |u| u)).await
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn cap_range(&self) -> std::ops::RangeInclusive<usize> {
        self.capacity_range()
    }
    fn dump(&self) -> Vec<(u32, u64)> {
        let mut v = Vec::new();
        self.iter_sync(|k, x| {
            v.push((k.check("dump"), x.check("dump")));
            true
        });
        v
    }
    async fn step(&self, cx: &mut Cx<'_>) {
        let m = self;
        let group = cx.rng.weighted(&weights(cx.prof));
        let k = cx.key();
        let id = Id(k);
        let t0 = now();
        match group {
            0 => match cx.rng.below(14) {
                0..=2 => {
                    let u = cx.uid();
                    match call!(cx, m, insert_sync / insert_async, Key::new(k), Val::new(u)) {
                        Some(Ok(())) => cx.rec("insert", k, t0, Pre::Absent, Eff::Set(u)),
                        Some(Err((rk, rv))) => {
                            if rk.check("insert err") != k || rv.check("insert err") != u {
                                violation("lin", format!("insert({k},{u}) returned another pair ({},{})", rk.id, rv.uid));
                            }
                            cx.rec("insert-dup", k, t0, Pre::Present, Eff::Keep);
                        }
                        None => cx.rec_opt("insert-cancelled", k, t0, Pre::Absent, Eff::Set(u)),
                    }
                }
                3 => {
                    let u = cx.uid();
                    match call!(cx, m, upsert_sync / upsert_async, Key::new(k), Val::new(u)) {
                        Some(old) => {
                            let o = old.as_ref().map(|v| v.check("upsert old"));
                            cx.rec("upsert", k, t0, pre_of(o), Eff::Set(u));
                        }
                        None => cx.rec_opt("upsert-cancelled", k, t0, Pre::Any, Eff::Set(u)),
                    }
                }
                4 | 5 => {
                    let u = cx.uid();
                    let f = |kk: &Key, v: &mut Val| {
                        kk.check("update key");
                        exclusive(v, "update", |v| {
                            let o = v.check("update");
                            delay_point(U_CLOSURE);
                            v.set(u);
                            o
                        })
                    };
                    match call!(cx, m, update_sync / update_async, &id, f) {
                        Some(Some(o)) => cx.rec("update", k, t0, Pre::Is(o), Eff::Set(u)),
                        Some(None) => cx.rec("update-none", k, t0, Pre::Absent, Eff::Keep),
                        None => cx.rec_opt("update-cancelled", k, t0, Pre::Present, Eff::Set(u)),
                    }
                }
                6 | 7 => match call!(cx, m, remove_sync / remove_async, &id) {
                    Some(Some((rk, rv))) => {
                        if rk.check("remove") != k {
                            violation("lin", format!("remove({k}) returned key {}", rk.id));
                        }
                        let o = rv.check("remove");
                        cx.rec("remove", k, t0, Pre::Is(o), Eff::Clear);
                    }
                    Some(None) => cx.rec("remove-none", k, t0, Pre::Absent, Eff::Keep),
                    None => cx.rec_opt("remove-cancelled", k, t0, Pre::Present, Eff::Clear),
                },
                8 => {
                    let u = cx.uid();
                    let what = cx.rng.below(3);
                    let mut seen = None;
                    let f = |v: &mut Val| {
                        exclusive(v, "remove_if", |v| {
                            seen = Some(v.check("remove_if"));
                            delay_point(U_CLOSURE);
                            if what == 2 {
                                v.set(u);
                            }
                        });
                        what == 0
                    };
                    let r = call!(cx, m, remove_if_sync / remove_if_async, &id, f);
                    match (r, seen) {
                        (Some(Some((_, rv))), Some(s)) => {
                            if rv.check("remove_if result") != s || what != 0 {
                                violation("lin", format!("remove_if({k}) saw {s} and removed {}", rv.uid));
                            }
                            cx.rec("remove_if", k, t0, Pre::Is(s), Eff::Clear);
                        }
                        (Some(None), Some(s)) => {
                            if what == 0 {
                                violation("lin", format!("remove_if({k}) saw {s}, should remove it and did not"));
                            }
                            cx.rec("remove_if-kept", k, t0, Pre::Is(s), if what == 2 { Eff::Set(u) } else { Eff::Keep });
                        }
                        (Some(Some(_)), None) => violation("lin", format!("remove_if({k}) removed without asking")),
                        (Some(None), None) => cx.rec("remove_if-none", k, t0, Pre::Absent, Eff::Keep),
                        (None, None) => (),
                        (None, Some(s)) => {
                            // Cancelled after the condition was evaluated.
                            let eff = match what {
                                0 => Eff::Clear,
                                1 => Eff::Keep,
                                _ => Eff::Set(u),
                            };
                            cx.rec("remove_if-cancelled", k, t0, Pre::Is(s), eff);
                        }
                    }
                }
                9 | 10 => {
                    let f = |kk: &Key, v: &Val| {
                        kk.check("read key");
                        shared(v, "read", |u| {
                            delay_point(U_CLOSURE);
                            (kk.id, u)
                        })
                    };
                    match call!(cx, m, read_sync / read_async, &id, f) {
                        Some(Some((kk, u))) => {
                            if kk != k {
                                violation("lin", format!("read({k}) found key {kk}"));
                            }
                            cx.rec("read", k, t0, Pre::Is(u), Eff::Keep);
                        }
                        Some(None) => cx.rec("read-none", k, t0, Pre::Absent, Eff::Keep),
                        None => (),
                    }
                }
                11 => match call!(cx, m, contains_sync / contains_async, &id) {
                    Some(b) => cx.rec("contains", k, t0, if b { Pre::Present } else { Pre::Absent }, Eff::Keep),
                    None => (),
                },
                12 => match call!(cx, m, replace_sync / replace_async, Key::new(k)) {
                    Some(hash_map::ReplaceResult::Replaced(o, old)) => {
                        if old.check("replaced key") != k {
                            violation("lin", format!("replace({k}) returned key {}", old.id));
                        }
                        let (v, eff) = play_occupied!(cx, o, insert);
                        cx.rec("replace", k, t0, Pre::Is(v), eff);
                    }
                    Some(hash_map::ReplaceResult::NotReplaced(e)) => {
                        if cx.rng.chance(1, 2) {
                            let u = cx.uid();
                            drop(e.insert_entry(Val::new(u)));
                            cx.rec("replace-insert", k, t0, Pre::Absent, Eff::Set(u));
                        } else {
                            drop(e.into_key());
                            cx.rec("replace-none", k, t0, Pre::Absent, Eff::Keep);
                        }
                    }
                    None => (),
                },
                _ => match call!(cx, m, get_sync / get_async, &id) {
                    Some(Some(o)) => {
                        let (v, eff) = play_occupied!(cx, o, insert);
                        cx.rec("get", k, t0, Pre::Is(v), eff);
                    }
                    Some(None) => cx.rec("get-none", k, t0, Pre::Absent, Eff::Keep),
                    None => (),
                },
            },
            1 => {
                let e = if cx.rng.chance(1, 6) {
                    match m.try_entry(Key::new(k)) {
                        Some(e) => Some(e),
                        None => return,
                    }
                } else {
                    call!(cx, m, entry_sync / entry_async, Key::new(k))
                };
                let Some(e) = e else { return };
                if e.key().check("entry key") != k {
                    violation("lin", format!("entry({k}) has key {}", e.key().id));
                }
                match cx.rng.below(7) {
                    0 | 1 => match e {
                        hash_map::Entry::Occupied(o) => {
                            let (v, eff) = play_occupied!(cx, o, insert);
                            cx.rec("entry", k, t0, Pre::Is(v), eff);
                        }
                        hash_map::Entry::Vacant(v) => {
                            cx.hold().await;
                            if cx.rng.chance(3, 4) {
                                let u = cx.uid();
                                let o = v.insert_entry(Val::new(u));
                                let (s, eff) = play_occupied!(cx, o, insert);
                                if s != u {
                                    violation("lin", format!("entry({k}) inserted {u} and holds {s}"));
                                }
                                cx.rec("entry-insert", k, t0, Pre::Absent, after(u, eff));
                            } else {
                                if cx.rng.chance(1, 2) { drop(v.into_key()) } else { drop(v) }
                                cx.rec("entry-vacant", k, t0, Pre::Absent, Eff::Keep);
                            }
                        }
                    },
                    n @ 2..=4 => {
                        let u = cx.uid();
                        let was = match &e {
                            hash_map::Entry::Occupied(o) => Some(o.get().check("entry")),
                            hash_map::Entry::Vacant(_) => None,
                        };
                        let o = match n {
                            2 => e.or_insert(Val::new(u)),
                            3 => e.or_insert_with(|| {
                                delay_point(U_CLOSURE);
                                Val::new(u)
                            }),
                            _ => e.or_insert_with_key(|k| {
                                k.check("or_insert_with_key");
                                Val::new(u)
                            }),
                        };
                        let (s, eff) = play_occupied!(cx, o, insert);
                        if s != was.unwrap_or(u) {
                            violation("lin", format!("or_insert({k}) holds {s}, expected {was:?} or {u}"));
                        }
                        if let Some(w) = was {
                            cx.rec("or_insert-occ", k, t0, Pre::Is(w), eff);
                        } else {
                            cx.rec("or_insert", k, t0, Pre::Absent, after(u, eff));
                        }
                    }
                    5 => {
                        let (u, w) = (cx.uid(), cx.uid());
                        let mut saw = None;
                        let e = e.and_modify(|v| exclusive(v, "and_modify", |v| {
                            saw = Some(v.check("and_modify"));
                            v.set(u);
                        }));
                        set_default_uid(w);
                        let o = e.or_default();
                        let s = o.get().check("and_modify or_default");
                        drop(o);
                        if s != if saw.is_some() { u } else { w } {
                            violation("lin", format!("and_modify({k}).or_default() holds {s}"));
                        }
                        cx.rec("and_modify", k, t0, pre_of(saw), Eff::Set(s));
                    }
                    _ => {
                        let u = cx.uid();
                        let was = match &e {
                            hash_map::Entry::Occupied(o) => Some(o.get().check("entry")),
                            hash_map::Entry::Vacant(_) => None,
                        };
                        let o = e.insert_entry(Val::new(u));
                        let (s, eff) = play_occupied!(cx, o, insert);
                        if s != u {
                            violation("lin", format!("insert_entry({k}) holds {s}, expected {u}"));
                        }
                        cx.rec("insert_entry", k, t0, pre_of(was), after(u, eff));
                    }
                }
            }
            2 => {
                if cx.rng.chance(1, 3) {
                    let mut visits: Vec<Visit> = Vec::new();
                    let f = |kk: &Key, v: &Val| {
                        let a = now();
                        let u = exclusive_ref(v, "any", |u| u);
                        visits.push((kk.check("any"), u, Eff::Keep, a, now()));
                        kk.id == k
                    };
                    match call!(cx, m, any_sync / any_async, f) {
                        Some(Some(o)) => {
                            let last = visits.pop().unwrap();
                            let (v, eff) = play_occupied!(cx, o, insert);
                            if last.0 != k || last.1 != v {
                                violation("lin", format!("any({k}) saw ({},{}) and returned {v}", last.0, last.1));
                            }
                            visits.push((k, v, eff, last.3, now()));
                            cx.visits("any", &visits, t0, false, true, cx.prof.no_resize);
                        }
                        Some(None) => cx.visits("any-none", &visits, t0, true, true, cx.prof.no_resize),
                        None => cx.visits("any-cancelled", &visits, t0, false, true, cx.prof.no_resize),
                    }
                    return;
                }
                match call!(cx, m, begin_sync / begin_async,) {
                    Some(first) => play_cursor!(cx, m, map, t0, first, true),
                    None => (),
                }
            }
            3 => {
                let mut visits: Vec<Visit> = Vec::new();
                let stop = if cx.rng.chance(1, 5) { cx.rng.below(20) as usize } else { usize::MAX };
                let base = cx.uid();
                cx.next_uid += 100_000;
                let mut r = cx.rng.fork();
                match cx.rng.below(3) {
                    0 => {
                        let f = |kk: &Key, v: &Val| {
                            let a = now();
                            let u = shared(v, "iter", |u| {
                                delay_point(U_CLOSURE);
                                u
                            });
                            visits.push((kk.check("iter"), u, Eff::Keep, a, now()));
                            visits.len() <= stop
                        };
                        let res = call!(cx, m, iter_sync / iter_async, f);
                        let complete = res == Some(true);
                        if res == Some(true) && visits.len() > stop || res == Some(false) && visits.len() <= stop {
                            violation("iter", format!("iter returned {res:?} after {} of {stop} visits", visits.len()));
                        }
                        cx.visits("iter", &visits, t0, complete, true, cx.prof.no_resize);
                    }
                    1 => {
                        let f = |mut e: hash_map::ConsumableEntry<'_, Key, Val>| {
                            let a = now();
                            let (kk, u) = (e.0.check("iter_mut"), e.1.check("iter_mut"));
                            let mut eff = Eff::Keep;
                            if kk < FILLER {
                                match r.below(6) {
                                    0 => {
                                        let (k2, v2) = e.consume();
                                        if k2.check("consume") != kk || v2.check("consume") != u {
                                            violation("lin", format!("consume at ({kk},{u}) returned ({},{})", k2.id, v2.uid));
                                        }
                                        eff = Eff::Clear;
                                    }
                                    1 => {
                                        let n = base + visits.len() as u64 + 1;
                                        exclusive(&mut e.1, "iter_mut", |v| v.set(n));
                                        eff = Eff::Set(n);
                                    }
                                    _ => exclusive(&mut e.1, "iter_mut", |_| delay_point(U_CLOSURE)),
                                }
                            }
                            visits.push((kk, u, eff, a, now()));
                            visits.len() <= stop
                        };
                        let res = call!(cx, m, iter_mut_sync / iter_mut_async, f);
                        let complete = res == Some(true);
                        cx.visits("iter_mut", &visits, t0, complete, true, cx.prof.no_resize);
                    }
                    _ => {
                        let f = |kk: &Key, v: &mut Val| {
                            let a = now();
                            let id = kk.check("retain");
                            let (u, eff) = exclusive(v, "retain", |v| {
                                let u = v.check("retain");
                                delay_point(U_CLOSURE);
                                if id >= FILLER {
                                    return (u, Eff::Keep);
                                }
                                match r.below(6) {
                                    0 => (u, Eff::Clear),
                                    1 => {
                                        let n = base + visits.len() as u64 + 1;
                                        v.set(n);
                                        (u, Eff::Set(n))
                                    }
                                    _ => (u, Eff::Keep),
                                }
                            });
                            visits.push((id, u, eff, a, now()));
                            eff != Eff::Clear
                        };
                        let res = call!(cx, m, retain_sync / retain_async, f);
                        cx.visits("retain", &visits, t0, res.is_some(), true, cx.prof.no_resize);
                    }
                }
            }
            4 => {
                if cx.prof.stable != 0 || cx.prof.filler {
                    return;
                }
                let r = call!(cx, m, clear_sync / clear_async,);
                cx.rec_sweep(t0, r.is_none());
            }
            _ => {
                if !cx.sync_ok {
                    return;
                }
                match cx.rng.below(3) {
                    0 if cx.prof.no_resize => (),
                    0 => {
                        let n = cx.rng.below(3000) as usize;
                        if let Some(r) = m.reserve(n) {
                            if r.additional_capacity() < n {
                                violation("capacity", format!("reserve({n}) granted {}", r.additional_capacity()));
                            }
                            delay_point(U_HELD);
                        }
                    }
                    1 => {
                        let r = m.capacity_range();
                        if r.start() > r.end() {
                            violation("capacity", format!("capacity_range {r:?} is not a range"));
                        }
                        let _ = (m.len(), m.is_empty(), m.bucket_index(&id));
                    }
                    _ => {
                        let c = m.clone();
                        let visits: Vec<Visit> = c.dump().into_iter().map(|(k, v)| (k, v, Eff::Keep, t0, t0)).collect();
                        cx.visits("clone", &visits, t0, true, false, true);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// HashSet

impl Container for Set {
    const NAME: &'static str = "HashSet";
    fn make(cap: usize, hb: Hb) -> Self {
        HashSet::with_capacity_and_hasher(cap, hb)
    }
    fn put(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>) {
        (self.insert_sync(Key::with_ser(id, uid)).is_ok(), None)
    }
    fn take(&self, id: u32) -> Option<u64> {
        self.remove_sync(&Id(id)).map(|k| {
            k.check("take");
            k.ser
        })
    }
    fn look(&self, id: u32) -> Option<u64> {
        self.read_sync(&Id(id), |k| {
            k.check("look");
            k.ser
        })
    }
    async fn put_a(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>) {
        (self.insert_async(Key::with_ser(id, uid)).await.is_ok(), None)
    }
    async fn take_a(&self, id: u32) -> Option<u64> {
        self.remove_async(&Id(id)).await.map(|k| k.ser)
    }
    async fn look_a(&self, id: u32) -> Option<u64> {
        self.read_async(&Id(id), |k| k.ser).await
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn cap_range(&self) -> std::ops::RangeInclusive<usize> {
        self.capacity_range()
    }
    fn dump(&self) -> Vec<(u32, u64)> {
        let mut v = Vec::new();
        self.iter_sync(|k| {
            v.push((k.check("dump"), k.ser));
            true
        });
        v
    }
    async fn step(&self, cx: &mut Cx<'_>) {
        let m = self;
        let group = cx.rng.weighted(&weights(cx.prof));
        let k = cx.key();
        let id = Id(k);
        let t0 = now();
        match group {
            0 | 1 | 2 => match cx.rng.below(12) {
                0..=3 => {
                    let u = cx.uid();
                    match call!(cx, m, insert_sync / insert_async, Key::with_ser(k, u)) {
                        Some(Ok(())) => cx.rec("insert", k, t0, Pre::Absent, Eff::Set(u)),
                        Some(Err(rk)) => {
                            rk.check("insert err");
                            if rk.ser != u {
                                violation("lin", format!("insert({k},{u}) returned another key {}", rk.ser));
                            }
                            cx.rec("insert-dup", k, t0, Pre::Present, Eff::Keep);
                        }
                        None => cx.rec_opt("insert-cancelled", k, t0, Pre::Absent, Eff::Set(u)),
                    }
                }
                4 | 5 => {
                    // Inserts the key if there is none.
                    let u = cx.uid();
                    match call!(cx, m, replace_sync / replace_async, Key::with_ser(k, u)) {
                        Some(Some(old)) => {
                            old.check("replace");
                            cx.rec("replace", k, t0, Pre::Is(old.ser), Eff::Set(u));
                        }
                        Some(None) => cx.rec("replace-none", k, t0, Pre::Absent, Eff::Set(u)),
                        None => cx.rec_opt("replace-cancelled", k, t0, Pre::Any, Eff::Set(u)),
                    }
                }
                6 | 7 => match call!(cx, m, remove_sync / remove_async, &id) {
                    Some(Some(rk)) => {
                        rk.check("remove");
                        cx.rec("remove", k, t0, Pre::Is(rk.ser), Eff::Clear);
                    }
                    Some(None) => cx.rec("remove-none", k, t0, Pre::Absent, Eff::Keep),
                    None => cx.rec_opt("remove-cancelled", k, t0, Pre::Present, Eff::Clear),
                },
                8 => {
                    let rm = cx.rng.chance(1, 2);
                    let mut asked = false;
                    let f = || {
                        asked = true;
                        delay_point(U_CLOSURE);
                        rm
                    };
                    let r = call!(cx, m, remove_if_sync / remove_if_async, &id, f);
                    match (r, asked) {
                        (Some(Some(rk)), true) if rm => cx.rec("remove_if", k, t0, Pre::Is(rk.ser), Eff::Clear),
                        (Some(None), true) if !rm => cx.rec("remove_if-kept", k, t0, Pre::Present, Eff::Keep),
                        (Some(None), false) => cx.rec("remove_if-none", k, t0, Pre::Absent, Eff::Keep),
                        (None, false) => (),
                        (None, true) => {
                            if rm {
                                cx.rec("remove_if-cancelled", k, t0, Pre::Present, Eff::Clear);
                            }
                        }
                        (r, asked) => violation("lin", format!("remove_if({k}) with condition {rm} asked {asked} returned {}", r.flatten().is_some())),
                    }
                }
                9 | 10 => match call!(cx, m, read_sync / read_async, &id, |kk: &Key| {
                    delay_point(U_CLOSURE);
                    (kk.check("read"), kk.ser)
                }) {
                    Some(Some((kk, u))) => {
                        if kk != k {
                            violation("lin", format!("read({k}) found key {kk}"));
                        }
                        cx.rec("read", k, t0, Pre::Is(u), Eff::Keep);
                    }
                    Some(None) => cx.rec("read-none", k, t0, Pre::Absent, Eff::Keep),
                    None => (),
                },
                _ => match call!(cx, m, contains_sync / contains_async, &id) {
                    Some(b) => cx.rec("contains", k, t0, if b { Pre::Present } else { Pre::Absent }, Eff::Keep),
                    None => (),
                },
            },
            3 => {
                let mut visits: Vec<Visit> = Vec::new();
                let stop = if cx.rng.chance(1, 5) { cx.rng.below(20) as usize } else { usize::MAX };
                let mut r = cx.rng.fork();
                match cx.rng.below(3) {
                    0 => {
                        let f = |kk: &Key| {
                            let a = now();
                            delay_point(U_CLOSURE);
                            visits.push((kk.check("iter"), kk.ser, Eff::Keep, a, now()));
                            visits.len() <= stop
                        };
                        let res = call!(cx, m, iter_sync / iter_async, f);
                        cx.visits("iter", &visits, t0, res == Some(true), true, cx.prof.no_resize);
                    }
                    1 => {
                        let f = |e: scc::hash_set::ConsumableEntry<'_, Key>| {
                            let a = now();
                            let (kk, u) = (e.check("iter_mut"), e.ser);
                            let mut eff = Eff::Keep;
                            if kk < FILLER && r.chance(1, 6) {
                                let k2 = e.consume();
                                if k2.check("consume") != kk || k2.ser != u {
                                    violation("lin", format!("consume at ({kk},{u}) returned ({},{})", k2.id, k2.ser));
                                }
                                eff = Eff::Clear;
                            }
                            visits.push((kk, u, eff, a, now()));
                            visits.len() <= stop
                        };
                        let res = call!(cx, m, iter_mut_sync / iter_mut_async, f);
                        cx.visits("iter_mut", &visits, t0, res == Some(true), true, cx.prof.no_resize);
                    }
                    _ => {
                        let f = |kk: &Key| {
                            let a = now();
                            let id = kk.check("retain");
                            delay_point(U_CLOSURE);
                            let eff = if id < FILLER && r.chance(1, 6) { Eff::Clear } else { Eff::Keep };
                            visits.push((id, kk.ser, eff, a, now()));
                            eff != Eff::Clear
                        };
                        let res = call!(cx, m, retain_sync / retain_async, f);
                        cx.visits("retain", &visits, t0, res.is_some(), true, cx.prof.no_resize);
                    }
                }
            }
            4 => {
                if cx.prof.stable != 0 || cx.prof.filler {
                    return;
                }
                let r = call!(cx, m, clear_sync / clear_async,);
                cx.rec_sweep(t0, r.is_none());
            }
            _ => {
                if !cx.sync_ok {
                    return;
                }
                match cx.rng.below(3) {
                    0 if cx.prof.no_resize => (),
                    0 => {
                        let n = cx.rng.below(3000) as usize;
                        if let Some(r) = m.reserve(n) {
                            if r.additional_capacity() < n {
                                violation("capacity", format!("reserve({n}) granted {}", r.additional_capacity()));
                            }
                            delay_point(U_HELD);
                        }
                    }
                    1 => {
                        let r = m.capacity_range();
                        if r.start() > r.end() {
                            violation("capacity", format!("capacity_range {r:?} is not a range"));
                        }
                        let _ = (m.len(), m.is_empty(), m.bucket_index(&id));
                    }
                    _ => {
                        let c = m.clone();
                        let visits: Vec<Visit> = c.dump().into_iter().map(|(k, v)| (k, v, Eff::Keep, t0, t0)).collect();
                        cx.visits("clone", &visits, t0, true, false, true);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// HashIndex

macro_rules! play_index_occupied {
    ($cx:expr, $o:expr) => {{
        let mut o = $o;
        let e = o.get().enter_excl("occupied entry");
        let first = o.get().check("occupied entry");
        let key = o.key().check("occupied entry key");
        $cx.hold().await;
        if o.get().check("held entry") != first {
            violation("exclusive", format!("key {key}: value changed while its entry is held"));
        }
        o.get().leave_excl("occupied entry", e);
        let mut eff = Eff::Keep;
        match $cx.rng.below(6) {
            0 | 1 => {
                let u = $cx.uid();
                o.update(Val::new(u));
                if o.get().check("updated entry") != u {
                    violation("lin", format!("key {key}: updated to {u} but holds {}", o.get().uid));
                }
                eff = Eff::Set(u);
                if $cx.rng.chance(1, 4) {
                    o.remove_entry();
                    eff = Eff::Clear;
                    $cx.mid = Some(u);
                }
            }
            2 => {
                o.remove_entry();
                eff = Eff::Clear;
            }
            _ => drop(o),
        }
        (first, eff)
    }};
}

impl Container for Index {
    const NAME: &'static str = "HashIndex";
    const TAKE_BLIND: bool = true;
    const LOCK_FREE: bool = true;
    fn make(cap: usize, hb: Hb) -> Self {
        HashIndex::with_capacity_and_hasher(cap, hb)
    }
    fn put(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>) {
        (self.insert_sync(Key::new(id), Val::new(uid)).is_ok(), None)
    }
    fn take(&self, id: u32) -> Option<u64> {
        let mut seen = 0;
        self.remove_if_sync(&Id(id), |v| {
            seen = v.check("take");
            true
        })
        .then_some(seen)
    }
    fn look(&self, id: u32) -> Option<u64> {
        self.peek_with(&Id(id), |_, v| v.check("look"))
    }
    async fn put_a(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>) {
        (self.insert_async(Key::new(id), Val::new(uid)).await.is_ok(), None)
    }
    async fn take_a(&self, id: u32) -> Option<u64> {
        let mut seen = 0;
        self.remove_if_async(&Id(id), |v| {
            seen = v.check("take");
            true
        })
        .await
        .then_some(seen)
    }
    async fn look_a(&self, id: u32) -> Option<u64> {
        self.look(id)
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn cap_range(&self) -> std::ops::RangeInclusive<usize> {
        self.capacity_range()
    }
    fn dump(&self) -> Vec<(u32, u64)> {
        let g = Guard::new();
        self.iter(&g).map(|(k, v)| (k.check("dump"), v.check("dump"))).collect()
    }
    async fn step(&self, cx: &mut Cx<'_>) {
        let m = self;
        let group = cx.rng.weighted(&weights(cx.prof));
        let k = cx.key();
        let id = Id(k);
        let t0 = now();
        match group {
            0 => match cx.rng.below(14) {
                0..=2 => {
                    let u = cx.uid();
                    match call!(cx, m, insert_sync / insert_async, Key::new(k), Val::new(u)) {
                        Some(Ok(())) => cx.rec("insert", k, t0, Pre::Absent, Eff::Set(u)),
                        Some(Err((rk, rv))) => {
                            if rk.check("insert err") != k || rv.check("insert err") != u {
                                violation("lin", format!("insert({k},{u}) returned another pair ({},{})", rk.id, rv.uid));
                            }
                            cx.rec("insert-dup", k, t0, Pre::Present, Eff::Keep);
                        }
                        None => cx.rec_opt("insert-cancelled", k, t0, Pre::Absent, Eff::Set(u)),
                    }
                }
                3 | 4 => match call!(cx, m, remove_sync / remove_async, &id) {
                    Some(true) => cx.rec("remove", k, t0, Pre::Present, Eff::Clear),
                    Some(false) => cx.rec("remove-none", k, t0, Pre::Absent, Eff::Keep),
                    None => cx.rec_opt("remove-cancelled", k, t0, Pre::Present, Eff::Clear),
                },
                5 => {
                    let rm = cx.rng.chance(1, 2);
                    let mut seen = None;
                    let f = |v: &Val| {
                        exclusive_ref(v, "remove_if", |u| {
                            seen = Some(u);
                            delay_point(U_CLOSURE);
                        });
                        rm
                    };
                    let r = call!(cx, m, remove_if_sync / remove_if_async, &id, f);
                    match (r, seen) {
                        (Some(b), Some(s)) => {
                            if b != rm {
                                violation("lin", format!("remove_if({k}) with condition {rm} returned {b}"));
                            }
                            cx.rec("remove_if", k, t0, Pre::Is(s), if rm { Eff::Clear } else { Eff::Keep });
                        }
                        (Some(true), None) => violation("lin", format!("remove_if({k}) removed without asking")),
                        (Some(false), None) => cx.rec("remove_if-none", k, t0, Pre::Absent, Eff::Keep),
                        (None, None) => (),
                        (None, Some(s)) => cx.rec("remove_if-cancelled", k, t0, Pre::Is(s), if rm { Eff::Clear } else { Eff::Keep }),
                    }
                }
                6..=8 => {
                    let g = Guard::new();
                    let r = m.peek(&id, &g);
                    let t1 = now();
                    let u = r.map(|v| v.check("peek"));
                    cx.rec_at("peek", k, t0, t1, pre_of(u), Eff::Keep, false);
                    if let Some(v) = r {
                        if cx.rng.chance(1, 8) {
                            let s = v.slot();
                            delay_point(U_HELD);
                            if v.slot() != s || Some(v.check("peek held")) != u {
                                violation("dead", format!("peek({k}): value {u:?} changed under the guard"));
                            }
                        }
                    }
                }
                9 | 10 => {
                    let r = m.peek_with(&id, |kk, v| {
                        let u = v.check("peek_with");
                        delay_point(U_CLOSURE);
                        if v.check("peek_with") != u {
                            violation("torn", format!("peek_with({k}): value changed"));
                        }
                        (kk.check("peek_with"), u)
                    });
                    if let Some((kk, _)) = r {
                        if kk != k {
                            violation("lin", format!("peek_with({k}) found key {kk}"));
                        }
                    }
                    cx.rec("peek_with", k, t0, pre_of(r.map(|x| x.1)), Eff::Keep);
                }
                11 => {
                    let b = m.contains(&id);
                    cx.rec("contains", k, t0, if b { Pre::Present } else { Pre::Absent }, Eff::Keep);
                }
                _ => match call!(cx, m, get_sync / get_async, &id) {
                    Some(Some(o)) => {
                        let (v, eff) = play_index_occupied!(cx, o);
                        cx.rec("get", k, t0, Pre::Is(v), eff);
                    }
                    Some(None) => cx.rec("get-none", k, t0, Pre::Absent, Eff::Keep),
                    None => (),
                },
            },
            1 => {
                let e = if cx.rng.chance(1, 6) {
                    match m.try_entry(Key::new(k)) {
                        Some(e) => Some(e),
                        None => return,
                    }
                } else {
                    call!(cx, m, entry_sync / entry_async, Key::new(k))
                };
                let Some(e) = e else { return };
                if e.key().check("entry key") != k {
                    violation("lin", format!("entry({k}) has key {}", e.key().id));
                }
                match cx.rng.below(5) {
                    0 | 1 => match e {
                        hash_index::Entry::Occupied(o) => {
                            let (v, eff) = play_index_occupied!(cx, o);
                            cx.rec("entry", k, t0, Pre::Is(v), eff);
                        }
                        hash_index::Entry::Vacant(v) => {
                            cx.hold().await;
                            if cx.rng.chance(3, 4) {
                                let u = cx.uid();
                                let o = v.insert_entry(Val::new(u));
                                // Visible to lock-free readers from here: the rest is separate.
                                let t1 = now();
                                cx.rec_at("entry-insert", k, t0, t1, Pre::Absent, Eff::Set(u), false);
                                let (s, eff) = play_index_occupied!(cx, o);
                                if s != u {
                                    violation("lin", format!("entry({k}) inserted {u} and holds {s}"));
                                }
                                cx.rec("entry-then", k, t0, Pre::Is(u), eff);
                            } else {
                                if cx.rng.chance(1, 2) { drop(v.into_key()) } else { drop(v) }
                                cx.rec("entry-vacant", k, t0, Pre::Absent, Eff::Keep);
                            }
                        }
                    },
                    n => {
                        let u = cx.uid();
                        let was = match &e {
                            hash_index::Entry::Occupied(o) => Some(o.get().check("entry")),
                            hash_index::Entry::Vacant(_) => None,
                        };
                        let o = match n {
                            2 => e.or_insert(Val::new(u)),
                            3 => e.or_insert_with(|| {
                                delay_point(U_CLOSURE);
                                Val::new(u)
                            }),
                            _ => e.or_insert_with_key(|k| {
                                k.check("or_insert_with_key");
                                Val::new(u)
                            }),
                        };
                        let s = o.get().check("or_insert");
                        if s != was.unwrap_or(u) {
                            violation("lin", format!("or_insert({k}) holds {s}, expected {was:?} or {u}"));
                        }
                        if was.is_none() {
                            let t1 = now();
                            cx.rec_at("or_insert", k, t0, t1, Pre::Absent, Eff::Set(u), false);
                        }
                        let (_, eff) = play_index_occupied!(cx, o);
                        cx.rec("or_insert-then", k, t0, Pre::Is(s), eff);
                    }
                }
            }
            2 => {
                if cx.rng.chance(1, 3) {
                    let mut visits: Vec<Visit> = Vec::new();
                    let f = |kk: &Key, v: &Val| {
                        let a = now();
                        let u = exclusive_ref(v, "any", |u| u);
                        visits.push((kk.check("any"), u, Eff::Keep, a, now()));
                        kk.id == k
                    };
                    match call!(cx, m, any_sync / any_async, f) {
                        Some(Some(o)) => {
                            let last = visits.pop().unwrap();
                            let (v, eff) = play_index_occupied!(cx, o);
                            if last.0 != k || last.1 != v {
                                violation("lin", format!("any({k}) saw ({},{}) and returned {v}", last.0, last.1));
                            }
                            visits.push((k, v, eff, last.3, now()));
                            cx.visits("any", &visits, t0, false, true, false);
                        }
                        Some(None) => cx.visits("any-none", &visits, t0, true, true, false),
                        None => cx.visits("any-cancelled", &visits, t0, false, true, false),
                    }
                    return;
                }
                match call!(cx, m, begin_sync / begin_async,) {
                    Some(first) => play_cursor!(cx, m, index, t0, first, true),
                    None => (),
                }
            }
            3 => {
                let mut visits: Vec<Visit> = Vec::new();
                let stop = if cx.rng.chance(1, 5) { cx.rng.below(20) as usize } else { usize::MAX };
                let mut r = cx.rng.fork();
                match cx.rng.below(3) {
                    0 => {
                        let f = |kk: &Key, v: &Val| {
                            let a = now();
                            let u = shared(v, "iter", |u| {
                                delay_point(U_CLOSURE);
                                u
                            });
                            visits.push((kk.check("iter"), u, Eff::Keep, a, now()));
                            visits.len() <= stop
                        };
                        let res = call!(cx, m, iter_sync / iter_async, f);
                        cx.visits("iter", &visits, t0, res == Some(true), true, false);
                    }
                    1 => {
                        let g = Guard::new();
                        let mut complete = true;
                        for (kk, v) in m.iter(&g) {
                            let u = v.check("guarded iter");
                            visits.push((kk.check("guarded iter"), u, Eff::Keep, t0, now()));
                            delay_point(U_CLOSURE);
                            if v.check("guarded iter") != u {
                                violation("dead", format!("iter: value {u} changed under the guard"));
                            }
                            if visits.len() > stop {
                                complete = false;
                                break;
                            }
                        }
                        cx.visits("guarded-iter", &visits, t0, complete, true, false);
                    }
                    _ => {
                        let f = |kk: &Key, v: &Val| {
                            let a = now();
                            let id = kk.check("retain");
                            let (u, eff) = exclusive_ref(v, "retain", |u| {
                                delay_point(U_CLOSURE);
                                if id < FILLER && r.chance(1, 6) { (u, Eff::Clear) } else { (u, Eff::Keep) }
                            });
                            visits.push((id, u, eff, a, now()));
                            eff != Eff::Clear
                        };
                        let res = call!(cx, m, retain_sync / retain_async, f);
                        cx.visits("retain", &visits, t0, res.is_some(), true, false);
                    }
                }
            }
            4 => {
                if cx.prof.stable != 0 || cx.prof.filler {
                    return;
                }
                let r = call!(cx, m, clear_sync / clear_async,);
                cx.rec_sweep(t0, r.is_none());
            }
            _ => {
                if !cx.sync_ok {
                    return;
                }
                match cx.rng.below(3) {
                    0 if cx.prof.no_resize => (),
                    0 => {
                        let n = cx.rng.below(3000) as usize;
                        if let Some(r) = m.reserve(n) {
                            if r.additional_capacity() < n {
                                violation("capacity", format!("reserve({n}) granted {}", r.additional_capacity()));
                            }
                            delay_point(U_HELD);
                        }
                    }
                    1 => {
                        let r = m.capacity_range();
                        if r.start() > r.end() {
                            violation("capacity", format!("capacity_range {r:?} is not a range"));
                        }
                        let _ = (m.len(), m.is_empty(), m.bucket_index(&id));
                    }
                    _ => {
                        let c = m.clone();
                        let visits: Vec<Visit> = c.dump().into_iter().map(|(k, v)| (k, v, Eff::Keep, t0, t0)).collect();
                        cx.visits("clone", &visits, t0, true, false, true);
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// HashCache

fn evicted(cx: &mut Cx<'_>, t0: u64, e: Option<(Key, Val)>) {
    if let Some((k, v)) = e {
        let (k, v) = (k.check("evicted"), v.check("evicted"));
        let t1 = now();
        cx.rec_at("evicted", k, t0, t1, Pre::Is(v), Eff::Clear, false);
        cx.hist[0] += 1;
    }
}

impl Container for Cache {
    const NAME: &'static str = "HashCache";
    const EVICTS: bool = true;
    fn make(cap: usize, hb: Hb) -> Self {
        let (min, max) = match cap {
            0 => (0, 64),
            c if c <= 64 => (c, 256),
            c => (c, c * 4),
        };
        HashCache::with_capacity_and_hasher(min, max, hb)
    }
    fn put(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>) {
        match self.put_sync(Key::new(id), Val::new(uid)) {
            Ok(e) => (true, e.map(|(k, v)| (k.check("evicted"), v.check("evicted")))),
            Err(_) => (false, None),
        }
    }
    fn take(&self, id: u32) -> Option<u64> {
        self.remove_sync(&Id(id)).map(|(_, v)| v.check("take"))
    }
    fn look(&self, id: u32) -> Option<u64> {
        self.read_sync(&Id(id), |_, v| shared(v, "look", |u| u))
    }
    async fn put_a(&self, id: u32, uid: u64) -> (bool, Option<(u32, u64)>) {
        match self.put_async(Key::new(id), Val::new(uid)).await {
            Ok(e) => (true, e.map(|(k, v)| (k.check("evicted"), v.check("evicted")))),
            Err(_) => (false, None),
        }
    }
    async fn take_a(&self, id: u32) -> Option<u64> {
        self.remove_async(&Id(id)).await.map(|(_, v)| v.check("take"))
    }
    async fn look_a(&self, id: u32) -> Option<u64> {
        self.read_async(&Id(id), |_, v| shared(v, "look", |u| u)).await
    }
    fn size(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn cap_range(&self) -> std::ops::RangeInclusive<usize> {
        self.capacity_range()
    }
    fn dump(&self) -> Vec<(u32, u64)> {
        let mut v = Vec::new();
        self.iter_sync(|k, x| {
            v.push((k.check("dump"), x.check("dump")));
            true
        });
        v
    }
    async fn step(&self, cx: &mut Cx<'_>) {
        let m = self;
        let group = cx.rng.weighted(&weights(cx.prof));
        let k = cx.key();
        let id = Id(k);
        let t0 = now();
        match group {
            0 => match cx.rng.below(12) {
                0..=3 => {
                    let u = cx.uid();
                    match call!(cx, m, put_sync / put_async, Key::new(k), Val::new(u)) {
                        Some(Ok(e)) => {
                            evicted(cx, t0, e);
                            cx.rec("put", k, t0, Pre::Absent, Eff::Set(u));
                        }
                        Some(Err((rk, rv))) => {
                            if rk.check("put err") != k || rv.check("put err") != u {
                                violation("lin", format!("put({k},{u}) returned another pair ({},{})", rk.id, rv.uid));
                            }
                            cx.rec("put-dup", k, t0, Pre::Present, Eff::Keep);
                        }
                        None => cx.rec_opt("put-cancelled", k, t0, Pre::Absent, Eff::Set(u)),
                    }
                }
                4 | 5 => match call!(cx, m, remove_sync / remove_async, &id) {
                    Some(Some((rk, rv))) => {
                        if rk.check("remove") != k {
                            violation("lin", format!("remove({k}) returned key {}", rk.id));
                        }
                        let o = rv.check("remove");
                        cx.rec("remove", k, t0, Pre::Is(o), Eff::Clear);
                    }
                    Some(None) => cx.rec("remove-none", k, t0, Pre::Absent, Eff::Keep),
                    None => cx.rec_opt("remove-cancelled", k, t0, Pre::Present, Eff::Clear),
                },
                6 => {
                    let u = cx.uid();
                    let what = cx.rng.below(3);
                    let mut seen = None;
                    let f = |v: &mut Val| {
                        exclusive(v, "remove_if", |v| {
                            seen = Some(v.check("remove_if"));
                            delay_point(U_CLOSURE);
                            if what == 2 {
                                v.set(u);
                            }
                        });
                        what == 0
                    };
                    let r = call!(cx, m, remove_if_sync / remove_if_async, &id, f);
                    let eff = match what {
                        0 => Eff::Clear,
                        1 => Eff::Keep,
                        _ => Eff::Set(u),
                    };
                    match (r, seen) {
                        (Some(x), Some(s)) => {
                            if x.is_some() != (what == 0) || x.as_ref().is_some_and(|x| x.1.check("remove_if result") != s) {
                                violation("lin", format!("remove_if({k}) saw {s}, condition {}, returned {x:?}", what == 0));
                            }
                            cx.rec("remove_if", k, t0, Pre::Is(s), eff);
                        }
                        (Some(Some(_)), None) => violation("lin", format!("remove_if({k}) removed without asking")),
                        (Some(None), None) => cx.rec("remove_if-none", k, t0, Pre::Absent, Eff::Keep),
                        (None, None) => (),
                        (None, Some(s)) => cx.rec("remove_if-cancelled", k, t0, Pre::Is(s), eff),
                    }
                }
                7 | 8 => {
                    let f = |kk: &Key, v: &Val| {
                        shared(v, "read", |u| {
                            delay_point(U_CLOSURE);
                            (kk.check("read key"), u)
                        })
                    };
                    match call!(cx, m, read_sync / read_async, &id, f) {
                        Some(Some((kk, u))) => {
                            if kk != k {
                                violation("lin", format!("read({k}) found key {kk}"));
                            }
                            cx.rec("read", k, t0, Pre::Is(u), Eff::Keep);
                        }
                        Some(None) => cx.rec("read-none", k, t0, Pre::Absent, Eff::Keep),
                        None => (),
                    }
                }
                9 => match call!(cx, m, contains_sync / contains_async, &id) {
                    Some(b) => cx.rec("contains", k, t0, if b { Pre::Present } else { Pre::Absent }, Eff::Keep),
                    None => (),
                },
                10 => match call!(cx, m, replace_sync / replace_async, Key::new(k)) {
                    Some(hash_cache::ReplaceResult::Replaced(o, old)) => {
                        if old.check("replaced key") != k {
                            violation("lin", format!("replace({k}) returned key {}", old.id));
                        }
                        let (v, eff) = play_occupied!(cx, o, put);
                        cx.rec("replace", k, t0, Pre::Is(v), eff);
                    }
                    Some(hash_cache::ReplaceResult::NotReplaced(e)) => {
                        if cx.rng.chance(1, 2) {
                            let u = cx.uid();
                            let (ev, o) = e.put_entry(Val::new(u));
                            drop(o);
                            evicted(cx, t0, ev);
                            cx.rec("replace-put", k, t0, Pre::Absent, Eff::Set(u));
                        } else {
                            drop(e.into_key());
                            cx.rec("replace-none", k, t0, Pre::Absent, Eff::Keep);
                        }
                    }
                    None => (),
                },
                _ => match call!(cx, m, get_sync / get_async, &id) {
                    Some(Some(o)) => {
                        let (v, eff) = play_occupied!(cx, o, put);
                        cx.rec("get", k, t0, Pre::Is(v), eff);
                    }
                    Some(None) => cx.rec("get-none", k, t0, Pre::Absent, Eff::Keep),
                    None => (),
                },
            },
            1 => {
                let e = if cx.rng.chance(1, 6) {
                    match m.try_entry(Key::new(k)) {
                        Some(e) => Some(e),
                        None => return,
                    }
                } else {
                    call!(cx, m, entry_sync / entry_async, Key::new(k))
                };
                let Some(e) = e else { return };
                if e.key().check("entry key") != k {
                    violation("lin", format!("entry({k}) has key {}", e.key().id));
                }
                match cx.rng.below(7) {
                    0 | 1 => match e {
                        hash_cache::Entry::Occupied(o) => {
                            let (v, eff) = play_occupied!(cx, o, put);
                            cx.rec("entry", k, t0, Pre::Is(v), eff);
                        }
                        hash_cache::Entry::Vacant(v) => {
                            cx.hold().await;
                            if cx.rng.chance(3, 4) {
                                let u = cx.uid();
                                let (ev, o) = v.put_entry(Val::new(u));
                                evicted(cx, t0, ev);
                                let (s, eff) = play_occupied!(cx, o, put);
                                if s != u {
                                    violation("lin", format!("entry({k}) put {u} and holds {s}"));
                                }
                                cx.rec("entry-put", k, t0, Pre::Absent, after(u, eff));
                            } else {
                                if cx.rng.chance(1, 2) { drop(v.into_key()) } else { drop(v) }
                                cx.rec("entry-vacant", k, t0, Pre::Absent, Eff::Keep);
                            }
                        }
                    },
                    n => {
                        let u = cx.uid();
                        let mut was = match &e {
                            hash_cache::Entry::Occupied(o) => Some(o.get().check("entry")),
                            hash_cache::Entry::Vacant(_) => None,
                        };
                        let first = was;
                        let (ev, o) = match n {
                            2 => e.or_put(Val::new(u)),
                            3 => e.or_put_with(|| {
                                delay_point(U_CLOSURE);
                                Val::new(u)
                            }),
                            4 => e.or_put_with_key(|k| {
                                k.check("or_put_with_key");
                                Val::new(u)
                            }),
                            5 => {
                                let w = cx.uid();
                                let e = e.and_modify(|v| exclusive(v, "and_modify", |v| v.set(w)));
                                if was.is_some() {
                                    was = Some(w);
                                }
                                set_default_uid(u);
                                e.or_default()
                            }
                            _ => {
                                if was.is_some() {
                                    was = Some(u);
                                }
                                e.put_entry(Val::new(u))
                            }
                        };
                        evicted(cx, t0, ev);
                        let (s, eff) = play_occupied!(cx, o, put);
                        if s != was.unwrap_or(u) {
                            violation("lin", format!("or_put({k}) holds {s}, expected {was:?} or {u}"));
                        }
                        let eff = if first == Some(s) { eff } else { after(s, eff) };
                        cx.rec("or_put", k, t0, pre_of(first), eff);
                    }
                }
            }
            2 | 3 => {
                let mut visits: Vec<Visit> = Vec::new();
                let stop = if cx.rng.chance(1, 5) { cx.rng.below(20) as usize } else { usize::MAX };
                let base = cx.uid();
                cx.next_uid += 100_000;
                let mut r = cx.rng.fork();
                match cx.rng.below(3) {
                    0 => {
                        let f = |kk: &Key, v: &Val| {
                            let a = now();
                            let u = shared(v, "iter", |u| {
                                delay_point(U_CLOSURE);
                                u
                            });
                            visits.push((kk.check("iter"), u, Eff::Keep, a, now()));
                            visits.len() <= stop
                        };
                        let res = call!(cx, m, iter_sync / iter_async, f);
                        cx.visits("iter", &visits, t0, res == Some(true), true, cx.prof.no_resize);
                    }
                    1 => {
                        let f = |mut e: hash_cache::ConsumableEntry<'_, Key, Val>| {
                            let a = now();
                            let (kk, u) = (e.0.check("iter_mut"), e.1.check("iter_mut"));
                            let mut eff = Eff::Keep;
                            if kk < FILLER {
                                match r.below(6) {
                                    0 => {
                                        let (k2, v2) = e.consume();
                                        if k2.check("consume") != kk || v2.check("consume") != u {
                                            violation("lin", format!("consume at ({kk},{u}) returned ({},{})", k2.id, v2.uid));
                                        }
                                        eff = Eff::Clear;
                                    }
                                    1 => {
                                        let n = base + visits.len() as u64 + 1;
                                        exclusive(&mut e.1, "iter_mut", |v| v.set(n));
                                        eff = Eff::Set(n);
                                    }
                                    _ => exclusive(&mut e.1, "iter_mut", |_| delay_point(U_CLOSURE)),
                                }
                            }
                            visits.push((kk, u, eff, a, now()));
                            visits.len() <= stop
                        };
                        let res = call!(cx, m, iter_mut_sync / iter_mut_async, f);
                        cx.visits("iter_mut", &visits, t0, res == Some(true), true, cx.prof.no_resize);
                    }
                    _ => {
                        let f = |kk: &Key, v: &mut Val| {
                            let a = now();
                            let id = kk.check("retain");
                            let (u, eff) = exclusive(v, "retain", |v| {
                                let u = v.check("retain");
                                delay_point(U_CLOSURE);
                                if id >= FILLER {
                                    return (u, Eff::Keep);
                                }
                                match r.below(6) {
                                    0 => (u, Eff::Clear),
                                    1 => {
                                        let n = base + visits.len() as u64 + 1;
                                        v.set(n);
                                        (u, Eff::Set(n))
                                    }
                                    _ => (u, Eff::Keep),
                                }
                            });
                            visits.push((id, u, eff, a, now()));
                            eff != Eff::Clear
                        };
                        let res = call!(cx, m, retain_sync / retain_async, f);
                        cx.visits("retain", &visits, t0, res.is_some(), true, cx.prof.no_resize);
                    }
                }
            }
            4 => {
                if cx.prof.stable != 0 || cx.prof.filler {
                    return;
                }
                let r = call!(cx, m, clear_sync / clear_async,);
                cx.rec_sweep(t0, r.is_none());
            }
            _ => {
                let r = m.capacity_range();
                if r.start() > r.end() {
                    violation("capacity", format!("capacity_range {r:?} is not a range"));
                }
                let _ = (m.len(), m.is_empty());
            }
        }
    }
}
