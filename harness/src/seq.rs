//! Random sequences of operations against a plain map, with optional panics in user code.

use std::collections::{BTreeMap, HashSet as StdSet, VecDeque};
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};

use scc::hash_cache::{self, HashCache};
use scc::hash_index::{self, HashIndex};
use scc::hash_map::{self, HashMap};
use scc::hash_set::{self, HashSet};
use scc::Guard;

use crate::exec::block_on;
use crate::hash_ops::{Cache, Index, Map, Set};
use crate::inject::{U_CLOSURE, alloc_failed, arm, arm_alloc, disarm_alloc, calls, disarm, fired, upoint};
use crate::track::{HASH_MODES, Hb, Id, Key, Val, check_all_dropped, created, room, set_default_uid};
use crate::util::{Injected, Rng, count, distinct, fnv, progress, sample, violation};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// Return values and content.
    Model,
    /// Panics in user code.
    Panic,
    /// Capacities and reservations.
    Cap,
    /// Copies, comparisons, serialization.
    Copy,
    /// Evictions of a cache that is never resized.
    Lru,
    /// Bucket arrays cannot be allocated now and then.
    Oom,
}

/// The keys a call may change.
#[derive(Clone, Debug)]
pub enum Aff {
    One(u32),
    All,
    /// Keys of a range removal.
    Keys(Vec<u32>),
}

/// An injected panic came out of a call.
pub struct Fired;
type R = Result<(), Fired>;

/// Key serial and value identifier.
pub type Ent = (u64, u64);

pub struct W {
    pub rng: Rng,
    pub m: BTreeMap<u32, Ent>,
    pub nkeys: u32,
    pub next: u64,
    pub mode: Mode,
    /// No panics for now.
    pub calm: bool,
    pub log: VecDeque<String>,
    pub sig: u64,
    pub aff: Aff,
    pub removes: bool,
    pub op_uid: u64,
    pub ops: u64,
    pub fired: u64,
    pub failed_allocs: u64,
    pub evictions: u64,
    pub stop: bool,
    /// Last certain and last possible access.
    lru: BTreeMap<u32, (u64, u64)>,
    set_of: Option<Box<Map>>,
    clock: u64,
    /// Capacity bounds at construction, and whether the minimum was reached.
    range0: (usize, usize),
    floor: usize,
    pub extra: u64,
    max_cap: usize,
}

/// Runs a call; leaves the function if an injected panic came out.
#[macro_export]
macro_rules! go {
    ($w:expr, $e:expr) => {{
        $w.arm();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $e));
        match $w.out(r) {
            Some(v) => v,
            None => return Err($crate::seq::Fired),
        }
    }};
}

/// Runs the synchronous or the asynchronous variant.
#[macro_export]
macro_rules! sa {
    ($w:expr, $c:expr, $sync:ident / $async:ident ($($a:expr),*)) => {{
        let sync = $w.rng.chance(1, 2);
        $crate::go!($w, if sync { $c.$sync($($a),*) } else { $crate::seq::wait($c.$async($($a),*)) })
    }};
}

pub fn wait<F: Future>(f: F) -> F::Output {
    block_on(f)
}

impl W {
    pub fn new(rng: Rng, nkeys: u32, mode: Mode) -> W {
        W {
            rng,
            m: BTreeMap::new(),
            nkeys,
            next: 0,
            mode,
            log: VecDeque::new(),
            sig: 0,
            aff: Aff::All,
            calm: false,
            removes: true,
            op_uid: 0,
            ops: 0,
            fired: 0,
            failed_allocs: 0,
            evictions: 0,
            stop: false,
            lru: BTreeMap::new(),
            set_of: None,
            clock: 0,
            range0: (0, 0),
            floor: 0,
            extra: 0,
            max_cap: 0,
        }
    }
    pub fn uid(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    pub fn key(&mut self) -> u32 {
        self.rng.below(u64::from(self.nkeys)) as u32
    }
    pub fn begin_op(&mut self, what: &'static str, k: u32, aff: Aff, removes: bool) {
        self.log.push_back(format!("{what}({k})"));
        if self.log.len() > 14 {
            self.log.pop_front();
        }
        let present = self.m.contains_key(&k);
        self.sig = fnv(self.sig, what.as_ptr() as u64 ^ what.len() as u64 ^ u64::from(k) << 32 ^ u64::from(present) << 63);
        self.aff = aff;
        self.removes = removes;
        self.op_uid = self.next;
        self.ops += 1;
        self.clock += 1;
        progress();
    }
    pub fn bad(&self, kind: &'static str, msg: String) {
        let l: Vec<&str> = self.log.iter().map(String::as_str).collect();
        violation(kind, format!("{msg}; last operations: {}", l.join(" ")));
    }
    pub fn chk<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        if got != want {
            self.bad("model", format!("{what}: {got:?} instead of {want:?}"));
            self.stop = true;
        }
    }
    pub fn arm(&mut self) {
        if self.mode == Mode::Panic && !self.calm && self.rng.chance(1, 3) {
            let n = match self.rng.below(4) {
                0 => 0,
                1 | 2 => self.rng.below(4),
                _ => self.rng.below(40),
            };
            arm(n);
        }
        if self.mode == Mode::Oom && !self.calm && self.rng.chance(1, 3) {
            arm_alloc(self.rng.below(3));
        }
    }
    pub fn out<T>(&mut self, r: std::thread::Result<T>) -> Option<T> {
        disarm();
        if self.mode == Mode::Oom {
            disarm_alloc();
            if alloc_failed() {
                self.failed_allocs += 1;
                if let Ok(v) = r {
                    // Nothing is wrong with coping.
                    return Some(v);
                }
                self.fired += 1;
                self.log.push_back("!alloc".into());
                return None;
            }
        }
        match r {
            Ok(v) => Some(v),
            Err(p) if p.is::<Injected>() => {
                self.fired += 1;
                self.log.push_back(format!("!{}", fired()));
                None
            }
            Err(_) => None,
        }
    }
    pub fn want(&self, k: u32) -> Option<Ent> {
        self.m.get(&k).copied()
    }
    pub fn ent(k: &Key, v: &Val) -> Ent {
        k.check("key");
        (k.ser, v.check("value"))
    }
    /// Checks a pair a call returned.
    pub fn pair(&mut self, what: &str, k: u32, got: Option<(&Key, &Val)>, want: Option<Ent>) {
        let g = got.map(|(kk, v)| {
            let e = W::ent(kk, v);
            (kk.id, e)
        });
        let w = want.map(|e| (k, e));
        self.chk(what, g, w);
    }
    pub fn val(&mut self, what: &str, got: Option<&Val>, want: Option<Ent>) {
        let g = got.map(|v| v.check(what));
        self.chk(what, g, want.map(|e| e.1));
    }
    pub fn ins(&mut self, k: u32, e: Ent) {
        self.m.insert(k, e);
        self.touch(k);
    }
    pub fn del(&mut self, k: u32) -> Option<Ent> {
        self.lru.remove(&k);
        self.m.remove(&k)
    }
    /// The access is documented to count.
    fn touch(&mut self, k: u32) {
        if self.mode == Mode::Lru {
            self.lru.insert(k, (self.clock, self.clock));
        }
    }
    /// The access may count.
    fn maybe(&mut self, k: u32) {
        if self.mode == Mode::Lru {
            if let Some(x) = self.lru.get_mut(&k) {
                x.1 = self.clock;
            }
        }
    }
    /// Visits of a traversal in which nothing else happens.
    pub fn visited(&mut self, what: &str, v: &[(u32, Ent)], complete: bool) {
        let mut seen = StdSet::new();
        for &(k, e) in v {
            if !seen.insert(k) {
                self.bad("iter", format!("{what}: key {k} visited twice"));
                self.stop = true;
            }
            if self.m.get(&k) != Some(&e) {
                let w = self.want(k);
                self.bad("iter", format!("{what}: visited {k} {e:?} instead of {w:?}"));
                self.stop = true;
            }
        }
        if complete && seen.len() != self.m.len() {
            let miss: Vec<_> = self.m.keys().filter(|k| !seen.contains(k)).take(5).collect();
            self.bad("iter", format!("{what}: visited {} of {} entries, not {miss:?}", seen.len(), self.m.len()));
            self.stop = true;
        }
    }
    /// The content, compared with the model.
    pub fn content(&mut self, what: &str, kind: &'static str, d: &[(u32, Ent)], keys_matter: bool) {
        let mut seen = StdSet::new();
        for &(k, e) in d {
            let w = self.want(k);
            let ok = w.is_some_and(|w| w.1 == e.1 && (!keys_matter || w.0 == e.0));
            if !seen.insert(k) || !ok {
                self.bad(kind, format!("{what}: holds {k} {e:?} instead of {w:?}"));
                self.stop = true;
                return;
            }
        }
        if d.len() != self.m.len() {
            let miss: Vec<_> = self.m.keys().filter(|k| !seen.contains(k)).take(5).collect();
            self.bad(kind, format!("{what}: holds {} of {} entries, not {miss:?}", d.len(), self.m.len()));
            self.stop = true;
        }
    }
    /// After a panic: everything but the keys concerned must be as before.
    pub fn reconcile(&mut self, d: &[(u32, Ent)]) {
        let mut new = BTreeMap::new();
        for &(k, e) in d {
            if new.insert(k, e).is_some() {
                self.bad("unwind", format!("key {k} is present twice after a panic"));
                self.stop = true;
            }
        }
        let all: StdSet<u32> = new.keys().chain(self.m.keys()).copied().collect();
        for k in all {
            let (o, n) = (self.m.get(&k).copied(), new.get(&k).copied());
            if o == n {
                continue;
            }
            let concerned = match &self.aff {
                Aff::One(a) => *a == k,
                Aff::All => true,
                Aff::Keys(v) => v.contains(&k),
            };
            let ok = concerned
                && match n {
                    None => self.removes,
                    Some(n) => n.1 > self.op_uid || o.is_some_and(|o| o.1 == n.1),
                };
            if !ok {
                let aff = self.aff.clone();
                self.bad("unwind", format!("after a panic in a call on {aff:?}, key {k} is {n:?}, was {o:?}"));
                self.stop = true;
            }
        }
        self.m = new;
    }
    /// Checks capacity and its bounds; `extra` is the sum of the reservations.
    pub fn caps(&mut self, cap: usize, range: std::ops::RangeInclusive<usize>, empty: bool) {
        let (lo, hi) = (*range.start(), *range.end());
        let want = self.range0.0 + self.extra as usize;
        if lo > hi {
            self.bad("cap", format!("capacity range {lo}..={hi} is reversed"));
            self.stop = true;
        }
        if lo != want || hi != self.range0.1 {
            self.bad("cap", format!("capacity range {lo}..={hi} instead of {want}..={}", self.range0.1));
            self.stop = true;
        }
        if cap > hi {
            self.bad("cap", format!("capacity {cap} exceeds the maximum {hi}"));
            self.stop = true;
        }
        if (!empty || want != 0) && cap < self.floor.min(want) {
            self.bad("cap", format!("capacity fell to {cap}, below {}", self.floor.min(want)));
            self.stop = true;
        }
        if cap == 0 && !empty {
            self.bad("cap", "capacity 0 although there are entries".into());
            self.stop = true;
        }
        // What was reached is kept as long as it is reserved.
        self.floor = cap.min(want);
        self.max_cap = self.max_cap.max(cap);
    }
    fn evicted(&mut self, k: u32, e: Option<(Key, Val)>, had: bool) {
        if had && e.is_some() {
            self.bad("model", format!("putting the present key {k} evicted another"));
            self.stop = true;
        }
        let full = if self.mode == Mode::Lru && !had {
            let set = |w: &W, x: u32| w.set_of.as_ref().map_or(0, |m| m.bucket_index(&Id(x)));
            let s = set(self, k);
            let same: Vec<u32> = self.m.keys().copied().filter(|&x| set(self, x) == s).collect();
            Some(same)
        } else {
            None
        };
        if let Some(same) = &full {
            let is = same.len() >= 32;
            if is != e.is_some() {
                self.bad("lru", format!("evicted {:?} while the set has {} of 32 entries", e.as_ref().map(|x| x.0.id), same.len()));
                self.stop = true;
            }
        }
        if let Some((ek, ev)) = &e {
            self.evictions += 1;
            let id = ek.id;
            let g = W::ent(ek, ev);
            let w = self.want(id);
            if id == k || w != Some(g) {
                self.bad("model", format!("put({k}) reports eviction of {id} {g:?}, which was {w:?}"));
                self.stop = true;
            }
            if let Some(same) = full {
                if !same.contains(&id) {
                    self.bad("lru", format!("put({k}) evicted {id} of another set"));
                    self.stop = true;
                } else if let Some(&(lo, hi)) = self.lru.get(&id) {
                    if let Some(x) = same.iter().find(|x| **x != id && self.lru.get(x).is_some_and(|a| a.1 < lo)) {
                        let a = self.lru[x];
                        self.bad("lru", format!("put({k}) evicted {id}, accessed at {lo}..{hi}, but {x} was last accessed at {}..{}", a.0, a.1));
                        self.stop = true;
                    }
                }
            }
            self.del(id);
        }
    }
}

/// What the driver needs of a container.
pub trait Seq: Sized {
    const NAME: &'static str;
    const EVICTS: bool = false;
    type Res<'a>
    where
        Self: 'a;
    fn build(lo: usize, hi: usize, hb: Hb) -> Self;
    fn dump(&self) -> Vec<(u32, Ent)>;
    fn size(&self) -> usize;
    fn cap(&self) -> usize;
    fn range(&self) -> std::ops::RangeInclusive<usize>;
    fn op<'a>(&'a self, w: &mut W, res: &mut Vec<Self::Res<'a>>) -> R;
    fn copies(&self, w: &mut W) -> R;
    fn reserve_op<'a>(&'a self, w: &mut W, res: &mut Vec<Self::Res<'a>>) -> R;
    /// Inserts and removes a key that is absent.
    fn poke(&self, k: u32);
    /// Whether all locks are free.
    fn unlocked(&self, w: &mut W) -> bool;
}

/// Asks the closures for what they do.
#[derive(Clone, Copy, Debug)]
struct Plan {
    /// Removes or stops after this many.
    stop_at: u64,
    rem: u64,
    modi: u64,
    salt: u64,
}

impl Plan {
    fn new(r: &mut Rng) -> Plan {
        Plan {
            stop_at: if r.chance(1, 3) { 1 + r.below(20) } else { u64::MAX },
            rem: [0, 1, 3, 8][r.below(4) as usize],
            modi: [0, 2, 8][r.below(3) as usize],
            salt: r.next(),
        }
    }
    fn pick(&self, k: u32, n: u64, what: u64) -> bool {
        crate::util::mix(self.salt ^ u64::from(k) ^ what << 40) % 8 < n
    }
    fn removes(&self, k: u32) -> bool {
        self.pick(k, self.rem, 1)
    }
    fn modifies(&self, k: u32) -> bool {
        self.pick(k, self.modi, 2)
    }
}

type Log = Vec<(u32, Ent, Option<u64>, bool)>;

/// Applies the visits of a traversal that changes entries to the model. A traversal that removes
/// entries may itself cause the table to be resized, and then meet an entry again.
fn apply(w: &mut W, what: &str, log: &Log, complete: bool) {
    let dups = matches!(w.mode, Mode::Cap | Mode::Oom) && log.iter().any(|x| x.3);
    if !dups {
        let v: Vec<(u32, Ent)> = log.iter().map(|x| (x.0, x.1)).collect();
        w.visited(what, &v, complete);
    }
    let all: Vec<u32> = w.m.keys().copied().collect();
    for &(k, e, m, r) in log {
        if dups && w.m.get(&k) != Some(&e) {
            let want = w.want(k);
            w.bad("iter", format!("{what}: visited {k} {e:?} instead of {want:?}"));
            w.stop = true;
        }
        if r {
            w.del(k);
        } else if let Some(u) = m {
            w.m.insert(k, (e.0, u));
            w.maybe(k);
        } else {
            w.maybe(k);
        }
    }
    if dups && complete {
        let seen: StdSet<u32> = log.iter().map(|x| x.0).collect();
        if let Some(k) = all.iter().find(|k| !seen.contains(k)) {
            w.bad("iter", format!("{what}: visited {} of {} entries, not {k}", seen.len(), all.len()));
            w.stop = true;
        }
    }
}

/// Actions on an occupied entry; `map`, `cache` or `index`.
macro_rules! play {
    (map, $w:expr, $o:expr, $k:expr) => { play!(@mc insert, map, $w, $o, $k) };
    (cache, $w:expr, $o:expr, $k:expr) => { play!(@mc put, cache, $w, $o, $k) };
    (@mc $put:ident, $kind:ident, $w:expr, $o:expr, $k:expr) => {{
        let k: u32 = $k;
        let mut o = $o;
        for _ in 0..$w.rng.below(4) {
            let e = $w.want(k);
            match $w.rng.below(8) {
                0 => { let v = o.get().check("get"); $w.chk("entry value", Some(v), e.map(|e| e.1)); }
                1 => { let x = (o.key().check("key"), o.key().ser); $w.chk("entry key", Some(x), e.map(|e| (k, e.0))); }
                2 => {
                    let u = $w.uid();
                    if $w.rng.chance(1, 2) { o.get_mut().set(u); } else { (*o).set(u); }
                    if let Some(e) = e { $w.m.insert(k, (e.0, u)); }
                }
                3 => {
                    let u = $w.uid();
                    let old = o.$put(Val::new(u));
                    $w.val("entry put", Some(&old), e);
                    if let Some(e) = e { $w.m.insert(k, (e.0, u)); }
                }
                4 => {
                    let v = (*o).check("deref");
                    $w.chk("entry deref", Some(v), e.map(|e| e.1));
                    let s = format!("{o:?}");
                    if !s.contains(&format!("V{v}")) { $w.bad("model", format!("entry shown as {s}")); }
                }
                5 if $w.rng.chance(1, 2) => {
                    let v = o.remove();
                    $w.val("entry remove", Some(&v), e);
                    $w.del(k);
                    return Ok(());
                }
                6 if $w.rng.chance(1, 2) => {
                    let (kk, v) = o.remove_entry();
                    $w.pair("entry remove_entry", k, Some((&kk, &v)), e);
                    $w.del(k);
                    return Ok(());
                }
                _ => (),
            }
        }
        drop(o);
    }};
    (index, $w:expr, $o:expr, $k:expr) => {{
        let k: u32 = $k;
        let mut o = $o;
        for _ in 0..$w.rng.below(4) {
            let e = $w.want(k);
            match $w.rng.below(8) {
                0 => { let v = o.get().check("get"); $w.chk("entry value", Some(v), e.map(|e| e.1)); }
                1 => { let x = (o.key().check("key"), o.key().ser); $w.chk("entry key", Some(x), e.map(|e| (k, e.0))); }
                2 | 3 => {
                    let u = $w.uid();
                    go!($w, o.update(Val::new(u)));
                    if let Some(e) = e { $w.m.insert(k, (e.0, u)); }
                    let v = o.get().check("get");
                    $w.chk("updated value", v, u);
                }
                4 => { let v = (*o).check("deref"); $w.chk("entry deref", Some(v), e.map(|e| e.1)); }
                5 if $w.rng.chance(1, 2) => {
                    o.remove_entry();
                    $w.del(k);
                    return Ok(());
                }
                _ => (),
            }
        }
        drop(o);
    }};
}

macro_rules! vacant {
    ($kind:ident, $ins:ident, $w:expr, $v:expr, $k:expr, $ser:expr) => {{
        let (k, ser) = ($k, $ser);
        $w.chk("vacant entry of a present key", $w.want(k), None);
        let x = ($v.key().check("vacant key"), $v.key().ser);
        $w.chk("vacant entry key", x, (k, ser));
        if $w.rng.chance(1, 3) {
            let kk = $v.into_key();
            $w.chk("into_key", (kk.check("into_key"), kk.ser), (k, ser));
        } else {
            let u = $w.uid();
            let o = go!($w, $v.$ins(Val::new(u)));
            vacant!(@done $kind, $w, o, k, ser, u);
        }
    }};
    (@done map, $w:expr, $o:expr, $k:expr, $ser:expr, $u:expr) => {{
        $w.ins($k, ($ser, $u));
        play!(map, $w, $o, $k);
    }};
    (@done index, $w:expr, $o:expr, $k:expr, $ser:expr, $u:expr) => {{
        $w.ins($k, ($ser, $u));
        play!(index, $w, $o, $k);
    }};
    (@done cache, $w:expr, $o:expr, $k:expr, $ser:expr, $u:expr) => {{
        let (ev, o) = $o;
        $w.evicted($k, ev, false);
        $w.ins($k, ($ser, $u));
        play!(cache, $w, o, $k);
    }};
}

/// Closure of `read` and the like.
fn reader(k: &Key, v: &Val) -> (u32, Ent) {
    upoint(U_CLOSURE);
    (k.id, W::ent(k, v))
}

macro_rules! op_iter {
    ($w:expr, $c:expr, $f:expr) => {{
        $w.begin_op("iter", 0, Aff::All, false);
        $w.aff = Aff::Keys(Vec::new());
        let p = Plan::new(&mut $w.rng);
        let mut v: Vec<(u32, Ent)> = Vec::new();
        let mut n = 0;
        let done = sa!($w, $c, iter_sync / iter_async(|a, b| {
            upoint(U_CLOSURE);
            v.push($f(a, b));
            n += 1;
            n != p.stop_at
        }));
        let complete = n != p.stop_at;
        $w.chk("result of iter", done, complete);
        $w.visited("iter", &v, complete);
    }};
}

macro_rules! common_mut {
    // iter_mut and retain of maps and caches.
    ($w:expr, $c:expr, iter_mut) => {{
        $w.begin_op("iter_mut", 0, Aff::All, true);
        let p = Plan::new(&mut $w.rng);
        let base = $w.next;
        $w.next = base + 1_000_001;
        let mut log: Log = Vec::new();
        let mut n = 0;
        let mut wrong = 0;
        let done = sa!($w, $c, iter_mut_sync / iter_mut_async(|mut e| {
            upoint(U_CLOSURE);
            let k = e.0.check("iter_mut key");
            let old = W::ent(&e.0, &e.1);
            n += 1;
            if p.removes(k) {
                log.push((k, old, None, true));
                let (kk, v) = e.consume();
                if (kk.id, W::ent(&kk, &v)) != (k, old) { wrong += 1; }
            } else if p.modifies(k) {
                let u = base + 1 + n;
                e.1.set(u);
                log.push((k, old, Some(u), false));
            } else {
                log.push((k, old, None, false));
            }
            n != p.stop_at
        }));
        let complete = n != p.stop_at;
        $w.chk("result of iter_mut", done, complete);
        $w.chk("pairs consumed wrongly", wrong, 0);
        apply($w, "iter_mut", &log, complete);
    }};
    ($w:expr, $c:expr, retain) => {{
        $w.begin_op("retain", 0, Aff::All, true);
        let p = Plan::new(&mut $w.rng);
        let base = $w.next;
        $w.next = base + 1_000_001;
        let mut log: Log = Vec::new();
        let mut n = 0;
        sa!($w, $c, retain_sync / retain_async(|k, v| {
            upoint(U_CLOSURE);
            let old = W::ent(k, v);
            n += 1;
            let rem = p.removes(k.id);
            let mut m = None;
            if p.modifies(k.id) {
                let u = base + 1 + n;
                v.set(u);
                m = Some(u);
            }
            log.push((k.id, old, m, rem));
            !rem
        }));
        apply($w, "retain", &log, true);
    }};
    ($w:expr, $c:expr, clear) => {{
        $w.begin_op("clear", 0, Aff::All, true);
        sa!($w, $c, clear_sync / clear_async());
        $w.m.clear();
        $w.lru.clear();
        let n = $c.len();
        $w.chk("len after clear", n, 0);
    }};
}

macro_rules! op_sizes {
    ($w:expr, $c:expr) => {{
        $w.begin_op("len", 0, Aff::Keys(Vec::new()), false);
        let n = go!($w, $c.len());
        let want = $w.m.len();
        if n != want {
            $w.bad("size", format!("len is {n} instead of {want}"));
            $w.stop = true;
        }
        let e = go!($w, $c.is_empty());
        if e != (want == 0) {
            $w.bad("size", format!("is_empty is {e} with {want} entries"));
            $w.stop = true;
        }
        $w.caps($c.capacity(), $c.capacity_range(), want == 0);
    }};
}

macro_rules! remove_if_mut {
    ($w:expr, $c:expr, $k:expr) => {{
        let k = $k;
        $w.begin_op("remove_if", k, Aff::One(k), true);
        let (e, u, what) = ($w.want(k), $w.uid(), $w.rng.below(4));
        let mut seen = None;
        let r = sa!($w, $c, remove_if_sync / remove_if_async(&Id(k), |v| {
            upoint(U_CLOSURE);
            seen = Some(v.check("remove_if"));
            if what >= 2 { v.set(u); }
            upoint(U_CLOSURE);
            what % 2 == 0
        }));
        $w.chk("value remove_if saw", seen, e.map(|e| e.1));
        let now = if what >= 2 { u } else { e.map_or(0, |e| e.1) };
        let want = if what % 2 == 0 { e.map(|e| (e.0, now)) } else { None };
        $w.pair("remove_if", k, r.as_ref().map(|(a, b)| (a, b)), want);
        if let Some(e) = e {
            if what % 2 == 0 { $w.del(k); } else { $w.m.insert(k, (e.0, now)); $w.maybe(k); }
        }
    }};
}

macro_rules! remove_pair {
    ($w:expr, $c:expr, $k:expr) => {{
        let k = $k;
        $w.begin_op("remove", k, Aff::One(k), true);
        let e = $w.want(k);
        let r = sa!($w, $c, remove_sync / remove_async(&Id(k)));
        $w.pair("remove", k, r.as_ref().map(|(a, b)| (a, b)), e);
        $w.del(k);
    }};
}

macro_rules! cursor_map {
    ($w:expr, $c:expr) => {{
        let any = $w.rng.chance(1, 3);
        $w.begin_op(if any { "any" } else { "begin" }, 0, Aff::All, true);
        let p = Plan::new(&mut $w.rng);
        let mut log: Log = Vec::new();
        let mut asked: Vec<(u32, Ent)> = Vec::new();
        let mut cur = if any {
            let t = $w.key();
            let r = sa!($w, $c, any_sync / any_async(|k, v| {
                upoint(U_CLOSURE);
                asked.push((k.id, W::ent(k, v)));
                k.id == t
            }));
            let hit = r.as_ref().map(|o| o.key().id);
            $w.chk("key any found", hit, $w.want(t).map(|_| t));
            $w.visited("any", &asked, hit.is_none());
            r
        } else {
            sa!($w, $c, begin_sync / begin_async())
        };
        let from_any = any;
        let mut n = 0;
        let mut all = true;
        while let Some(mut o) = cur {
            let k = o.key().check("cursor");
            let old = W::ent(o.key(), o.get());
            n += 1;
            if n == p.stop_at {
                log.push((k, old, None, false));
                all = false;
                break;
            }
            // What a panic leaves behind is known only if the changes so far are in the model.
            if p.removes(k) {
                $w.aff = Aff::All;
                let ((kk, v), next) = sa!($w, o, remove_and_sync / remove_and_async());
                $w.pair("remove_and", k, Some((&kk, &v)), Some(old));
                log.push((k, old, None, true));
                cur = next;
            } else {
                let mut m = None;
                if p.modifies(k) {
                    let u = $w.uid();
                    o.get_mut().set(u);
                    m = Some(u);
                }
                log.push((k, old, m, false));
                cur = sa!($w, o, next_sync / next_async());
            }
        }
        apply($w, "cursor", &log, all && !from_any);
    }};
}

macro_rules! copies {
    ($w:expr, $c:expr, $t:ty, $clone:expr, $from:expr) => {{
        let full = !<$t as Seq>::EVICTS;
        match $w.rng.below(5) {
            0 | 1 => {
                $w.begin_op("clone", 0, Aff::Keys(Vec::new()), false);
                let d: Option<$t> = $clone;
                if let Some(d) = d {
                    let x = d.dump();
                    $w.content("clone", "copy", &x, true);
                    let e = go!($w, *$c == d) && go!($w, d == *$c);
                    if !e { $w.bad("copy", "a clone differs from its source".into()); $w.stop = true; }
                    // Both live on independently.
                    let k = $w.key();
                    if $w.rng.chance(1, 2) {
                        d.poke_change(k, $w.uid());
                        let e = go!($w, *$c == d);
                        if e { $w.bad("copy", format!("equal although {k} was changed in the clone: {:?} {:?}", Seq::dump(&d), Seq::dump($c))); $w.stop = true; }
                        let e = go!($w, d == *$c);
                        if e { $w.bad("copy", format!("equal although {k} was changed in the clone")); $w.stop = true; }
                    }
                    let x = Seq::dump($c);
                    $w.content("source of a clone", "copy", &x, true);
                }
            }
            2 => {
                $w.begin_op("from_iter", 0, Aff::Keys(Vec::new()), false);
                let mut v: Vec<(u32, Ent)> = $w.m.iter().map(|(a, b)| (*a, *b)).collect();
                for i in (1..v.len()).rev() {
                    let j = $w.rng.below(i as u64 + 1) as usize;
                    v.swap(i, j);
                }
                let hint = $w.rng.chance(1, 2);
                let keep = |_: &(u32, Ent)| true;
                #[allow(clippy::redundant_closure_call)]
                let d: $t = if hint {
                    go!($w, v.iter().map($from).collect())
                } else {
                    go!($w, v.iter().filter(|x| keep(x)).map($from).collect())
                };
                let x = d.dump();
                let mut e = go!($w, *$c == d) && go!($w, d == *$c);
                if full {
                    $w.content("from_iter", "copy", &x, true);
                } else {
                    let same = x.len() == $w.m.len();
                    for y in &x {
                        if $w.want(y.0) != Some(y.1) { $w.bad("copy", format!("from_iter holds {y:?}")); $w.stop = true; }
                    }
                    if e != same { $w.bad("copy", format!("equality {e} with {} of {} entries", x.len(), $w.m.len())); $w.stop = true; }
                    e = true;
                }
                if !e { $w.bad("copy", "a collection of the same pairs differs".into()); $w.stop = true; }
            }
            3 => {
                $w.begin_op("serde", 0, Aff::Keys(Vec::new()), false);
                let s = go!($w, serde_json::to_string($c));
                match s {
                    Ok(s) => match go!($w, serde_json::from_str::<$t>(&s)) {
                        Ok(d) => {
                            let x = d.dump();
                            let e = go!($w, *$c == d);
                            if full {
                                $w.content("deserialized", "copy", &x, false);
                                if !e { $w.bad("copy", "a deserialized container differs".into()); $w.stop = true; }
                            } else {
                                for y in &x {
                                    if $w.want(y.0).map(|z| z.1) != Some(y.1.1) { $w.bad("copy", format!("deserialized holds {y:?}")); $w.stop = true; }
                                }
                                if e != (x.len() == $w.m.len()) { $w.bad("copy", "equality is wrong".into()); $w.stop = true; }
                            }
                            let fits = *d.range().end() >= 32 * $w.m.len().max(1);
                            if !full && fits && $w.mode == Mode::Copy && x.len() != $w.m.len() && $w.m.len() <= 32 {
                                $w.bad("copy", format!("deserialized holds {} of {} entries", x.len(), $w.m.len()));
                                $w.stop = true;
                            }
                        }
                        Err(e) => { $w.bad("copy", format!("cannot deserialize {s}: {e}")); $w.stop = true; }
                    },
                    Err(e) => { $w.bad("copy", format!("cannot serialize: {e}")); $w.stop = true; }
                }
            }
            _ => {
                $w.begin_op("debug", 0, Aff::Keys(Vec::new()), false);
                let s = go!($w, format!("{:?}", $c));
                let want: StdSet<String> = $w.m.iter().map(|(k, e)| <$t>::shown(*k, *e)).collect();
                let inner = s.trim_start_matches('{').trim_end_matches('}');
                let got: Vec<String> = inner.split(", ").filter(|x| !x.is_empty()).map(str::to_string).collect();
                let set: StdSet<String> = got.iter().cloned().collect();
                if set != want || got.len() != want.len() {
                    $w.bad("copy", format!("shown as {s}"));
                    $w.stop = true;
                }
            }
        }
    }};
}

/// Small additions the copy checks need.
pub trait Change {
    /// Removes the key or inserts it.
    fn poke_change(&self, k: u32, uid: u64);
    fn shown(k: u32, e: Ent) -> String {
        format!("K{k}: V{}", e.1)
    }
}
impl Change for Map {
    fn poke_change(&self, k: u32, uid: u64) {
        match uid % 2 {
            0 => drop(self.upsert_sync(Key::new(k), Val::new(uid))),
            _ => if self.remove_sync(&Id(k)).is_none() { drop(self.insert_sync(Key::new(k), Val::new(uid))) },
        }
    }
}
impl Change for Cache {
    fn poke_change(&self, k: u32, uid: u64) {
        if self.remove_sync(&Id(k)).is_none() { drop(self.put_sync(Key::new(k), Val::new(uid))) }
    }
}
impl Change for Index {
    fn poke_change(&self, k: u32, uid: u64) {
        match self.get_sync(&Id(k)) {
            Some(mut o) if uid % 2 == 0 => o.update(Val::new(uid)),
            Some(o) => o.remove_entry(),
            None => drop(self.insert_sync(Key::new(k), Val::new(uid))),
        }
    }
}
impl Change for Set {
    fn poke_change(&self, k: u32, _: u64) {
        if self.remove_sync(&Id(k)).is_none() { drop(self.insert_sync(Key::new(k))) }
    }
    fn shown(k: u32, _: Ent) -> String {
        format!("K{k}")
    }
}

/// Reservations.
macro_rules! reserve {
    ($w:expr, $c:expr, $res:expr) => {{
        let w = $w;
        if !$res.is_empty() && w.rng.chance(1, 2) {
            w.begin_op("unreserve", 0, Aff::Keys(Vec::new()), false);
            let i = w.rng.below($res.len() as u64) as usize;
            let r = $res.swap_remove(i);
            let n = r.additional_capacity() as u64;
            w.extra -= n;
            w.floor = w.floor.min(w.range0.0 + w.extra as usize);
            go!(w, drop(r));
        } else {
            w.begin_op("reserve", 0, Aff::Keys(Vec::new()), false);
            let n = match w.rng.below(10) {
                0 => 0,
                1 => usize::MAX - w.rng.below(3) as usize,
                2 => *$c.capacity_range().end() - w.rng.below(3) as usize,
                3 => 1 << w.rng.below(11),
                _ => w.rng.below(3000) as usize,
            };
            let (lo, hi) = $c.capacity_range().into_inner();
            let fits = n <= hi - lo;
            if fits && n > 1 << 16 {
                return Ok(());
            }
            quiesce($c, w.max_cap);
            let r = go!(w, $c.reserve(n));
            let ok = r.is_some();
            if ok != (fits && n != 0) {
                w.bad("cap", format!("reserve({n}) gave {ok} with range {lo}..={hi}"));
                w.stop = true;
            }
            if let Some(r) = r {
                if r.additional_capacity() != n {
                    w.bad("cap", format!("reserve({n}) returned a share of {}", r.additional_capacity()));
                    w.stop = true;
                }
                if r.len() != w.m.len() || r.as_ref().len() != w.m.len() {
                    w.bad("size", "len through a reservation differs".into());
                    w.stop = true;
                }
                w.extra += n as u64;
                $res.push(r);
                if $c.capacity() != 0 && $c.capacity() < lo + n {
                    w.bad("cap", format!("capacity {} after reserve({n}) on a minimum of {lo}", $c.capacity()));
                    w.stop = true;
                }
            }
        }
        let empty = w.m.is_empty();
        w.caps($c.capacity(), $c.capacity_range(), empty);
    }};
}

/// Lets a pending resize finish.
fn quiesce<C: Seq>(c: &C, max_cap: usize) {
    // Every call relocates 32 buckets.
    let n = max_cap.max(c.cap()).max(8192) / 1024 + 8;
    for _ in 0..n {
        c.size();
    }
}

impl Seq for Map {
    const NAME: &'static str = "HashMap";
    type Res<'a> = hash_map::Reserve<'a, Key, Val, Hb>;
    fn build(lo: usize, _: usize, hb: Hb) -> Self {
        if lo == 0 { HashMap::with_hasher(hb) } else { HashMap::with_capacity_and_hasher(lo, hb) }
    }
    fn dump(&self) -> Vec<(u32, Ent)> {
        let mut v = Vec::new();
        self.iter_sync(|a, b| { v.push((a.check("dump"), W::ent(a, b))); true });
        v
    }
    fn size(&self) -> usize { self.len() }
    fn cap(&self) -> usize { self.capacity() }
    fn range(&self) -> std::ops::RangeInclusive<usize> { self.capacity_range() }
    fn poke(&self, k: u32) {
        drop(self.insert_sync(Key::new(k), Val::new(0)));
        drop(self.remove_sync(&Id(k)));
    }
    fn unlocked(&self, w: &mut W) -> bool {
        (0..w.nkeys).all(|k| self.try_entry(Key::new(k)).is_some())
    }
    fn reserve_op<'a>(&'a self, w: &mut W, res: &mut Vec<Self::Res<'a>>) -> R {
        reserve!(w, self, res);
        Ok(())
    }
    fn copies(&self, w: &mut W) -> R {
        copies!(w, self, Map, Some(go!(w, self.clone())), |x: &(u32, Ent)| (Key::with_ser(x.0, x.1.0), Val::new(x.1.1)));
        Ok(())
    }
    fn op<'a>(&'a self, w: &mut W, _: &mut Vec<Self::Res<'a>>) -> R {
        let c = self;
        let k = w.key();
        let e = w.want(k);
        match w.rng.weighted(&[14, 8, 8, 5, 10, 5, 5, 5, 3, 14, 2, 2, 2, 1, 3, 3]) {
            0 => {
                w.begin_op("insert", k, Aff::One(k), false);
                let u = w.uid();
                let nk = Key::new(k);
                let ser = nk.ser;
                match sa!(w, c, insert_sync / insert_async(nk, Val::new(u))) {
                    Ok(()) => { w.chk("insert succeeded", e, None); w.ins(k, (ser, u)); }
                    Err((a, b)) => {
                        w.chk("insert failed", e.is_some(), true);
                        w.pair("insert gave back", k, Some((&a, &b)), Some((ser, u)));
                    }
                }
            }
            1 => {
                w.begin_op("upsert", k, Aff::One(k), false);
                let u = w.uid();
                let nk = Key::new(k);
                let ser = nk.ser;
                let r = sa!(w, c, upsert_sync / upsert_async(nk, Val::new(u)));
                w.val("upsert", r.as_ref(), e);
                w.ins(k, (e.map_or(ser, |e| e.0), u));
            }
            2 => {
                w.begin_op("update", k, Aff::One(k), false);
                let u = w.uid();
                let m = w.rng.chance(3, 4);
                let r = sa!(w, c, update_sync / update_async(&Id(k), |a, b| {
                    upoint(U_CLOSURE);
                    let x = W::ent(a, b);
                    if m { b.set(u); }
                    upoint(U_CLOSURE);
                    (a.id, x)
                }));
                w.chk("update saw", r, e.map(|e| (k, e)));
                if let (Some(e), true) = (e, m) { w.m.insert(k, (e.0, u)); }
            }
            3 => {
                w.begin_op("replace", k, Aff::One(k), true);
                let nk = Key::new(k);
                let ser = nk.ser;
                match sa!(w, c, replace_sync / replace_async(nk)) {
                    hash_map::ReplaceResult::Replaced(o, old) => {
                        w.chk("replaced key", Some(old.ser), e.map(|e| e.0));
                        if let Some(e) = e { w.m.insert(k, (ser, e.1)); }
                        play!(map, w, o, k);
                    }
                    hash_map::ReplaceResult::NotReplaced(v) => vacant!(map, insert_entry, w, v, k, ser),
                }
            }
            4 => remove_pair!(w, c, k),
            5 => remove_if_mut!(w, c, k),
            6 => {
                w.begin_op("get", k, Aff::One(k), true);
                match sa!(w, c, get_sync / get_async(&Id(k))) {
                    Some(o) => { w.chk("get found", e.is_some(), true); play!(map, w, o, k); }
                    None => w.chk("get found nothing", e, None),
                }
            }
            7 => {
                w.begin_op("read", k, Aff::One(k), false);
                let r = sa!(w, c, read_sync / read_async(&Id(k), reader));
                w.chk("read", r, e.map(|e| (k, e)));
            }
            8 => {
                w.begin_op("contains", k, Aff::One(k), false);
                let r = sa!(w, c, contains_sync / contains_async(&Id(k)));
                w.chk("contains", r, e.is_some());
                let b = c.bucket_index(&Id(k));
                let n = c.capacity() / 32;
                w.chk("bucket index in range", b < n.max(1), true);
            }
            9 => {
                w.begin_op("entry", k, Aff::One(k), true);
                let nk = Key::new(k);
                let ser = nk.ser;
                let x = if w.rng.chance(1, 4) {
                    match go!(w, c.try_entry(nk)) {
                        Some(x) => x,
                        None => { w.bad("model", "try_entry failed with nobody else around".into()); return Ok(()); }
                    }
                } else {
                    sa!(w, c, entry_sync / entry_async(nk))
                };
                let kk = (x.key().check("entry key"), x.key().ser);
                w.chk("entry key", kk, (k, e.map_or(ser, |e| e.0)));
                let u = w.uid();
                let new = e.map_or((ser, u), |e| e);
                match w.rng.below(8) {
                    0 => { let o = go!(w, x.or_insert(Val::new(u))); w.ins(k, new); play!(map, w, o, k); }
                    1 => {
                        let o = go!(w, x.or_insert_with(|| { upoint(U_CLOSURE); Val::new(u) }));
                        w.ins(k, new);
                        play!(map, w, o, k);
                    }
                    2 => {
                        let o = go!(w, x.or_insert_with_key(|kk| { kk.check("constructor"); upoint(U_CLOSURE); Val::new(u) }));
                        w.ins(k, new);
                        play!(map, w, o, k);
                    }
                    3 => { set_default_uid(u); let o = go!(w, x.or_default()); w.ins(k, new); play!(map, w, o, k); }
                    4 => {
                        let u2 = w.uid();
                        let y = go!(w, x.and_modify(|v| { upoint(U_CLOSURE); v.set(u2); upoint(U_CLOSURE); }));
                        if let Some(e) = e { w.m.insert(k, (e.0, u2)); }
                        let o = go!(w, y.or_insert(Val::new(u)));
                        let n = w.want(k).unwrap_or((ser, u));
                        w.ins(k, n);
                        play!(map, w, o, k);
                    }
                    5 => { let o = go!(w, x.insert_entry(Val::new(u))); w.ins(k, (new.0, u)); play!(map, w, o, k); }
                    6 => {
                        let s = format!("{x:?}");
                        w.chk("entry shown", s.contains(&format!("K{k}")), true);
                    }
                    _ => match x {
                        hash_map::Entry::Occupied(o) => { w.chk("occupied", e.is_some(), true); play!(map, w, o, k); }
                        hash_map::Entry::Vacant(v) => vacant!(map, insert_entry, w, v, k, ser),
                    },
                }
            }
            10 => op_iter!(w, c, |a: &Key, b: &Val| (a.id, W::ent(a, b))),
            11 => common_mut!(w, c, iter_mut),
            12 => common_mut!(w, c, retain),
            13 => if w.rng.chance(1, 3) { common_mut!(w, c, clear) },
            14 => cursor_map!(w, c),
            _ => op_sizes!(w, c),
        }
        Ok(())
    }
}

impl Seq for Cache {
    const NAME: &'static str = "HashCache";
    const EVICTS: bool = true;
    type Res<'a> = ();
    fn build(lo: usize, hi: usize, hb: Hb) -> Self {
        HashCache::with_capacity_and_hasher(lo, hi, hb)
    }
    fn dump(&self) -> Vec<(u32, Ent)> {
        let mut v = Vec::new();
        self.iter_sync(|a, b| { v.push((a.check("dump"), W::ent(a, b))); true });
        v
    }
    fn size(&self) -> usize { self.len() }
    fn cap(&self) -> usize { self.capacity() }
    fn range(&self) -> std::ops::RangeInclusive<usize> { self.capacity_range() }
    fn poke(&self, k: u32) {
        drop(self.put_sync(Key::new(k), Val::new(0)));
        drop(self.remove_sync(&Id(k)));
    }
    fn unlocked(&self, w: &mut W) -> bool {
        (0..w.nkeys).all(|k| self.try_entry(Key::new(k)).is_some())
    }
    fn reserve_op<'a>(&'a self, _: &mut W, _: &mut Vec<()>) -> R {
        Ok(())
    }
    fn copies(&self, w: &mut W) -> R {
        copies!(w, self, Cache, None, |x: &(u32, Ent)| (Key::with_ser(x.0, x.1.0), Val::new(x.1.1)));
        Ok(())
    }
    fn op<'a>(&'a self, w: &mut W, _: &mut Vec<()>) -> R {
        let c = self;
        let k = w.key();
        let e = w.want(k);
        match w.rng.weighted(&[24, 6, 8, 5, 8, 5, 3, 14, 2, 2, 2, 1, 3]) {
            0 => {
                w.begin_op("put", k, Aff::One(k), false);
                let u = w.uid();
                let nk = Key::new(k);
                let ser = nk.ser;
                match sa!(w, c, put_sync / put_async(nk, Val::new(u))) {
                    Ok(ev) => {
                        w.chk("put succeeded", e, None);
                        w.evicted(k, ev, false);
                        w.ins(k, (ser, u));
                    }
                    Err((a, b)) => {
                        w.chk("put failed", e.is_some(), true);
                        w.pair("put gave back", k, Some((&a, &b)), Some((ser, u)));
                        w.maybe(k);
                    }
                }
            }
            1 => {
                w.begin_op("replace", k, Aff::One(k), true);
                let nk = Key::new(k);
                let ser = nk.ser;
                match sa!(w, c, replace_sync / replace_async(nk)) {
                    hash_cache::ReplaceResult::Replaced(o, old) => {
                        w.chk("replaced key", Some(old.ser), e.map(|e| e.0));
                        if let Some(e) = e { w.m.insert(k, (ser, e.1)); }
                        w.maybe(k);
                        play!(cache, w, o, k);
                    }
                    hash_cache::ReplaceResult::NotReplaced(v) => vacant!(cache, put_entry, w, v, k, ser),
                }
            }
            2 => remove_pair!(w, c, k),
            3 => remove_if_mut!(w, c, k),
            4 => {
                w.begin_op("get", k, Aff::One(k), true);
                match sa!(w, c, get_sync / get_async(&Id(k))) {
                    Some(o) => {
                        w.chk("get found", e.is_some(), true);
                        w.touch(k);
                        play!(cache, w, o, k);
                    }
                    None => w.chk("get found nothing", e, None),
                }
            }
            5 => {
                w.begin_op("read", k, Aff::One(k), false);
                let r = sa!(w, c, read_sync / read_async(&Id(k), reader));
                w.chk("read", r, e.map(|e| (k, e)));
                w.maybe(k);
            }
            6 => {
                w.begin_op("contains", k, Aff::One(k), false);
                let r = sa!(w, c, contains_sync / contains_async(&Id(k)));
                w.chk("contains", r, e.is_some());
                w.maybe(k);
            }
            7 => {
                w.begin_op("entry", k, Aff::One(k), true);
                let nk = Key::new(k);
                let ser = nk.ser;
                let x = if w.rng.chance(1, 4) {
                    match go!(w, c.try_entry(nk)) {
                        Some(x) => x,
                        None => { w.bad("model", "try_entry failed with nobody else around".into()); return Ok(()); }
                    }
                } else {
                    sa!(w, c, entry_sync / entry_async(nk))
                };
                let kk = (x.key().check("entry key"), x.key().ser);
                w.chk("entry key", kk, (k, e.map_or(ser, |e| e.0)));
                w.maybe(k);
                let u = w.uid();
                let had = e.is_some();
                let new = e.unwrap_or((ser, u));
                macro_rules! put {
                    ($r:expr, $new:expr) => {{
                        let (ev, o) = $r;
                        w.evicted(k, ev, had);
                        let n: Ent = $new;
                        if had { w.m.insert(k, n); w.maybe(k); } else { w.ins(k, n); }
                        play!(cache, w, o, k);
                    }};
                }
                match w.rng.below(8) {
                    0 => put!(go!(w, x.or_put(Val::new(u))), new),
                    1 => put!(go!(w, x.or_put_with(|| { upoint(U_CLOSURE); Val::new(u) })), new),
                    2 => put!(go!(w, x.or_put_with_key(|kk| { kk.check("constructor"); upoint(U_CLOSURE); Val::new(u) })), new),
                    3 => { set_default_uid(u); put!(go!(w, x.or_default()), new) }
                    4 => {
                        let u2 = w.uid();
                        let y = go!(w, x.and_modify(|v| { upoint(U_CLOSURE); v.set(u2); upoint(U_CLOSURE); }));
                        if let Some(e) = e { w.m.insert(k, (e.0, u2)); }
                        let n = w.want(k).unwrap_or((ser, u));
                        put!(go!(w, y.or_put(Val::new(u))), n)
                    }
                    5 => put!(go!(w, x.put_entry(Val::new(u))), (new.0, u)),
                    6 => {
                        let s = format!("{x:?}");
                        w.chk("entry shown", s.contains(&format!("K{k}")), true);
                    }
                    _ => match x {
                        hash_cache::Entry::Occupied(o) => { w.chk("occupied", e.is_some(), true); play!(cache, w, o, k); }
                        hash_cache::Entry::Vacant(v) => vacant!(cache, put_entry, w, v, k, ser),
                    },
                }
            }
            8 => op_iter!(w, c, |a: &Key, b: &Val| (a.id, W::ent(a, b))),
            9 => common_mut!(w, c, iter_mut),
            10 => common_mut!(w, c, retain),
            11 => if w.rng.chance(1, 3) { common_mut!(w, c, clear) },
            _ => op_sizes!(w, c),
        }
        if w.m.len() > *c.capacity_range().end() {
            w.bad("cap", format!("holds {} entries with a maximum of {}", w.m.len(), c.capacity_range().end()));
            w.stop = true;
        }
        Ok(())
    }
}

impl Seq for Index {
    const NAME: &'static str = "HashIndex";
    type Res<'a> = hash_index::Reserve<'a, Key, Val, Hb>;
    fn build(lo: usize, _: usize, hb: Hb) -> Self {
        if lo == 0 { HashIndex::with_hasher(hb) } else { HashIndex::with_capacity_and_hasher(lo, hb) }
    }
    fn dump(&self) -> Vec<(u32, Ent)> {
        let mut v = Vec::new();
        self.iter_sync(|a, b| { v.push((a.check("dump"), W::ent(a, b))); true });
        v
    }
    fn size(&self) -> usize { self.len() }
    fn cap(&self) -> usize { self.capacity() }
    fn range(&self) -> std::ops::RangeInclusive<usize> { self.capacity_range() }
    fn poke(&self, k: u32) {
        drop(self.insert_sync(Key::new(k), Val::new(0)));
        self.remove_sync(&Id(k));
    }
    fn unlocked(&self, w: &mut W) -> bool {
        (0..w.nkeys).all(|k| self.try_entry(Key::new(k)).is_some())
    }
    fn reserve_op<'a>(&'a self, w: &mut W, res: &mut Vec<Self::Res<'a>>) -> R {
        reserve!(w, self, res);
        Ok(())
    }
    fn copies(&self, w: &mut W) -> R {
        copies!(w, self, Index, Some(go!(w, self.clone())), |x: &(u32, Ent)| (Key::with_ser(x.0, x.1.0), Val::new(x.1.1)));
        Ok(())
    }
    fn op<'a>(&'a self, w: &mut W, _: &mut Vec<Self::Res<'a>>) -> R {
        let c = self;
        let k = w.key();
        let e = w.want(k);
        match w.rng.weighted(&[16, 10, 5, 8, 5, 5, 3, 14, 2, 3, 2, 1, 3, 3]) {
            0 => {
                w.begin_op("insert", k, Aff::One(k), false);
                let u = w.uid();
                let nk = Key::new(k);
                let ser = nk.ser;
                match sa!(w, c, insert_sync / insert_async(nk, Val::new(u))) {
                    Ok(()) => { w.chk("insert succeeded", e, None); w.ins(k, (ser, u)); }
                    Err((a, b)) => {
                        w.chk("insert failed", e.is_some(), true);
                        w.pair("insert gave back", k, Some((&a, &b)), Some((ser, u)));
                    }
                }
            }
            1 => {
                w.begin_op("remove", k, Aff::One(k), true);
                let r = sa!(w, c, remove_sync / remove_async(&Id(k)));
                w.chk("remove", r, e.is_some());
                w.del(k);
            }
            2 => {
                w.begin_op("remove_if", k, Aff::One(k), true);
                let what = w.rng.chance(1, 2);
                let mut seen = None;
                let r = sa!(w, c, remove_if_sync / remove_if_async(&Id(k), |v| {
                    upoint(U_CLOSURE);
                    seen = Some(v.check("remove_if"));
                    what
                }));
                w.chk("value remove_if saw", seen, e.map(|e| e.1));
                w.chk("remove_if", r, e.is_some() && what);
                if what { w.del(k); }
            }
            3 => {
                w.begin_op("get", k, Aff::One(k), true);
                match sa!(w, c, get_sync / get_async(&Id(k))) {
                    Some(o) => { w.chk("get found", e.is_some(), true); play!(index, w, o, k); }
                    None => w.chk("get found nothing", e, None),
                }
            }
            4 => {
                w.begin_op("peek", k, Aff::One(k), false);
                let g = Guard::new();
                let r = go!(w, c.peek(&Id(k), &g));
                w.val("peek", r, e);
            }
            5 => {
                w.begin_op("peek_with", k, Aff::One(k), false);
                let r = go!(w, c.peek_with(&Id(k), reader));
                w.chk("peek_with", r, e.map(|e| (k, e)));
            }
            6 => {
                w.begin_op("contains", k, Aff::One(k), false);
                let r = go!(w, c.contains(&Id(k)));
                w.chk("contains", r, e.is_some());
                let b = c.bucket_index(&Id(k));
                let n = c.capacity() / 32;
                w.chk("bucket index in range", b < n.max(1), true);
            }
            7 => {
                w.begin_op("entry", k, Aff::One(k), true);
                let nk = Key::new(k);
                let ser = nk.ser;
                let x = if w.rng.chance(1, 4) {
                    match go!(w, c.try_entry(nk)) {
                        Some(x) => x,
                        None => { w.bad("model", "try_entry failed with nobody else around".into()); return Ok(()); }
                    }
                } else {
                    sa!(w, c, entry_sync / entry_async(nk))
                };
                let kk = (x.key().check("entry key"), x.key().ser);
                w.chk("entry key", kk, (k, e.map_or(ser, |e| e.0)));
                let u = w.uid();
                let new = e.map_or((ser, u), |e| e);
                match w.rng.below(6) {
                    0 => { let o = go!(w, x.or_insert(Val::new(u))); w.ins(k, new); play!(index, w, o, k); }
                    1 => {
                        let o = go!(w, x.or_insert_with(|| { upoint(U_CLOSURE); Val::new(u) }));
                        w.ins(k, new);
                        play!(index, w, o, k);
                    }
                    2 => {
                        let o = go!(w, x.or_insert_with_key(|kk| { kk.check("constructor"); upoint(U_CLOSURE); Val::new(u) }));
                        w.ins(k, new);
                        play!(index, w, o, k);
                    }
                    3 => { set_default_uid(u); let o = go!(w, x.or_default()); w.ins(k, new); play!(index, w, o, k); }
                    4 => {
                        let s = format!("{x:?}");
                        w.chk("entry shown", s.contains(&format!("K{k}")), true);
                    }
                    _ => match x {
                        hash_index::Entry::Occupied(o) => { w.chk("occupied", e.is_some(), true); play!(index, w, o, k); }
                        hash_index::Entry::Vacant(v) => vacant!(index, insert_entry, w, v, k, ser),
                    },
                }
            }
            8 => op_iter!(w, c, |a: &Key, b: &Val| (a.id, W::ent(a, b))),
            9 => {
                w.begin_op("guarded iter", 0, Aff::Keys(Vec::new()), false);
                let p = Plan::new(&mut w.rng);
                let g = Guard::new();
                let mut it = c.iter(&g);
                let mut v = Vec::new();
                let mut n = 0;
                let mut complete = true;
                while let Some((a, b)) = go!(w, it.next()) {
                    v.push((a.check("iter"), W::ent(a, b)));
                    n += 1;
                    if n == p.stop_at {
                        complete = false;
                        break;
                    }
                }
                w.visited("guarded iter", &v, complete);
                if complete {
                    // The end stays the end.
                    for i in 0..3 {
                        if i == 1 && w.rng.chance(1, 2) {
                            c.poke(w.nkeys + 1);
                        }
                        if it.next().is_some() {
                            w.bad("fused", "an exhausted iterator goes on".into());
                            w.stop = true;
                        }
                    }
                    count("exhausted_next", 3);
                }
            }
            10 => {
                w.begin_op("retain", 0, Aff::All, true);
                let p = Plan::new(&mut w.rng);
                let mut log: Log = Vec::new();
                sa!(w, c, retain_sync / retain_async(|k, v| {
                    upoint(U_CLOSURE);
                    let rem = p.removes(k.id);
                    log.push((k.id, W::ent(k, v), None, rem));
                    !rem
                }));
                apply(w, "retain", &log, true);
            }
            11 => if w.rng.chance(1, 3) { common_mut!(w, c, clear) },
            12 => {
                let any = w.rng.chance(1, 3);
                w.begin_op(if any { "any" } else { "begin" }, 0, Aff::All, true);
                let p = Plan::new(&mut w.rng);
                let mut log: Log = Vec::new();
                let mut asked: Vec<(u32, Ent)> = Vec::new();
                let mut cur = if any {
                    let t = w.key();
                    let r = sa!(w, c, any_sync / any_async(|k, v| {
                        upoint(U_CLOSURE);
                        asked.push((k.id, W::ent(k, v)));
                        k.id == t
                    }));
                    let hit = r.as_ref().map(|o| o.key().id);
                    w.chk("key any found", hit, w.want(t).map(|_| t));
                    w.visited("any", &asked, hit.is_none());
                    r
                } else {
                    sa!(w, c, begin_sync / begin_async())
                };
                let mut n = 0;
                let mut all = !any;
                // Known finding: an updated entry moves, and the cursor with it.
                let mut moved = false;
                while let Some(mut o) = cur {
                    let k = o.key().check("cursor");
                    let old = W::ent(o.key(), o.get());
                    n += 1;
                    if n == p.stop_at || moved {
                        if !moved { log.push((k, old, None, false)); }
                        all = false;
                        break;
                    }
                    if p.removes(k) {
                        log.push((k, old, None, true));
                        cur = sa!(w, o, remove_and_sync / remove_and_async());
                    } else {
                        let mut m = None;
                        if p.modifies(k) && w.rng.chance(1, 4) {
                            let u = w.uid();
                            go!(w, o.update(Val::new(u)));
                            m = Some(u);
                            moved = true;
                        }
                        log.push((k, old, m, false));
                        cur = sa!(w, o, next_sync / next_async());
                    }
                }
                apply(w, "cursor", &log, all && !moved);
            }
            _ => op_sizes!(w, c),
        }
        Ok(())
    }
}

impl Seq for Set {
    const NAME: &'static str = "HashSet";
    type Res<'a> = hash_set::Reserve<'a, Key, Hb>;
    fn build(lo: usize, _: usize, hb: Hb) -> Self {
        if lo == 0 { HashSet::with_hasher(hb) } else { HashSet::with_capacity_and_hasher(lo, hb) }
    }
    fn dump(&self) -> Vec<(u32, Ent)> {
        let mut v = Vec::new();
        self.iter_sync(|a| { v.push((a.check("dump"), (a.ser, 0))); true });
        v
    }
    fn size(&self) -> usize { self.len() }
    fn cap(&self) -> usize { self.capacity() }
    fn range(&self) -> std::ops::RangeInclusive<usize> { self.capacity_range() }
    fn poke(&self, k: u32) {
        drop(self.insert_sync(Key::new(k)));
        drop(self.remove_sync(&Id(k)));
    }
    fn unlocked(&self, w: &mut W) -> bool {
        // There is no way to try: a lock that is held shows as a hang.
        (0..w.nkeys).all(|k| { self.contains_sync(&Id(k)); true })
    }
    fn reserve_op<'a>(&'a self, w: &mut W, res: &mut Vec<Self::Res<'a>>) -> R {
        if !res.is_empty() && w.rng.chance(1, 2) {
            let i = w.rng.below(res.len() as u64) as usize;
            let r = res.swap_remove(i);
            w.extra -= r.additional_capacity() as u64;
        } else {
            let n = w.rng.below(3000) as usize;
            quiesce(self, w.max_cap);
            let lo = *self.capacity_range().start();
            let r = self.reserve(n);
            w.chk("reserve", r.is_some(), n != 0);
            if let Some(r) = r {
                w.extra += n as u64;
                res.push(r);
                if self.capacity() != 0 && self.capacity() < lo + n {
                    w.bad("cap", format!("capacity {} after reserve({n}) on a minimum of {lo}", self.capacity()));
                }
            }
        }
        let empty = w.m.is_empty();
        w.caps(self.capacity(), self.capacity_range(), empty);
        Ok(())
    }
    fn copies(&self, w: &mut W) -> R {
        copies!(w, self, Set, Some(go!(w, self.clone())), |x: &(u32, Ent)| Key::with_ser(x.0, x.1.0));
        Ok(())
    }
    fn op<'a>(&'a self, w: &mut W, _: &mut Vec<Self::Res<'a>>) -> R {
        let c = self;
        let k = w.key();
        let e = w.want(k);
        match w.rng.weighted(&[20, 8, 12, 6, 6, 4, 2, 2, 2, 1, 3]) {
            0 => {
                w.begin_op("insert", k, Aff::One(k), false);
                let nk = Key::new(k);
                let ser = nk.ser;
                match sa!(w, c, insert_sync / insert_async(nk)) {
                    Ok(()) => { w.chk("insert succeeded", e, None); w.ins(k, (ser, 0)); }
                    Err(a) => {
                        w.chk("insert failed", e.is_some(), true);
                        w.chk("insert gave back", (a.check("insert"), a.ser), (k, ser));
                    }
                }
            }
            1 => {
                w.begin_op("replace", k, Aff::One(k), false);
                let nk = Key::new(k);
                let ser = nk.ser;
                let r = sa!(w, c, replace_sync / replace_async(nk));
                w.chk("replace", r.map(|r| (r.check("replace"), r.ser)), e.map(|e| (k, e.0)));
                w.ins(k, (ser, 0));
            }
            2 => {
                w.begin_op("remove", k, Aff::One(k), true);
                let r = sa!(w, c, remove_sync / remove_async(&Id(k)));
                w.chk("remove", r.map(|r| (r.check("remove"), r.ser)), e.map(|e| (k, e.0)));
                w.del(k);
            }
            3 => {
                w.begin_op("remove_if", k, Aff::One(k), true);
                let what = w.rng.chance(1, 2);
                let mut asked = false;
                let r = sa!(w, c, remove_if_sync / remove_if_async(&Id(k), || { upoint(U_CLOSURE); asked = true; what }));
                w.chk("remove_if asked", asked, e.is_some());
                w.chk("remove_if", r.map(|r| (r.check("remove_if"), r.ser)), if what { e.map(|e| (k, e.0)) } else { None });
                if what { w.del(k); }
            }
            4 => {
                w.begin_op("read", k, Aff::One(k), false);
                let r = sa!(w, c, read_sync / read_async(&Id(k), |a| { upoint(U_CLOSURE); (a.check("read"), a.ser) }));
                w.chk("read", r, e.map(|e| (k, e.0)));
            }
            5 => {
                w.begin_op("contains", k, Aff::One(k), false);
                let r = sa!(w, c, contains_sync / contains_async(&Id(k)));
                w.chk("contains", r, e.is_some());
                let b = c.bucket_index(&Id(k));
                let n = c.capacity() / 32;
                w.chk("bucket index in range", b < n.max(1), true);
            }
            6 => {
                w.begin_op("iter", 0, Aff::Keys(Vec::new()), false);
                let p = Plan::new(&mut w.rng);
                let mut v: Vec<(u32, Ent)> = Vec::new();
                let mut n = 0;
                let done = sa!(w, c, iter_sync / iter_async(|a| {
                    upoint(U_CLOSURE);
                    v.push((a.check("iter"), (a.ser, 0)));
                    n += 1;
                    n != p.stop_at
                }));
                w.chk("result of iter", done, n != p.stop_at);
                w.visited("iter", &v, n != p.stop_at);
            }
            7 => {
                w.begin_op("iter_mut", 0, Aff::All, true);
                let p = Plan::new(&mut w.rng);
                let mut log: Log = Vec::new();
                let mut n = 0;
                let mut wrong = 0;
                let done = sa!(w, c, iter_mut_sync / iter_mut_async(|e| {
                    upoint(U_CLOSURE);
                    let (k, ser) = (e.check("iter_mut"), e.ser);
                    let rem = p.removes(k);
                    log.push((k, (ser, 0), None, rem));
                    if rem {
                        let kk = e.consume();
                        if (kk.check("consume"), kk.ser) != (k, ser) { wrong += 1; }
                    }
                    n += 1;
                    n != p.stop_at
                }));
                w.chk("result of iter_mut", done, n != p.stop_at);
                w.chk("keys consumed wrongly", wrong, 0);
                apply(w, "iter_mut", &log, n != p.stop_at);
            }
            8 => {
                w.begin_op("retain", 0, Aff::All, true);
                let p = Plan::new(&mut w.rng);
                let mut log: Log = Vec::new();
                sa!(w, c, retain_sync / retain_async(|k| {
                    upoint(U_CLOSURE);
                    let rem = p.removes(k.check("retain"));
                    log.push((k.id, (k.ser, 0), None, rem));
                    !rem
                }));
                apply(w, "retain", &log, true);
            }
            9 => if w.rng.chance(1, 3) { common_mut!(w, c, clear) },
            _ => op_sizes!(w, c),
        }
        Ok(())
    }
}

fn fresh<C: Seq>(w: &mut W) -> C {
    let hb = if w.mode == Mode::Lru {
        Hb { mode: [1, 1, 4, 0, 2, 6, 3][w.rng.below(7) as usize], seed: w.rng.next() }
    } else {
        Hb { mode: if w.rng.chance(1, 2) { 0 } else { w.rng.below(u64::from(HASH_MODES)) as u8 }, seed: w.rng.next() }
    };
    let lo = match w.rng.below(6) {
        0..=2 => 0,
        3 => 1 + w.rng.below(64) as usize,
        4 => w.rng.below(300) as usize,
        _ => 1 << w.rng.below(11),
    };
    let (lo, hi) = match w.mode {
        Mode::Lru => {
            let c = 64 << w.rng.below(4);
            (c, c)
        }
        _ => (lo, match w.rng.below(4) {
            0 => w.rng.below(200) as usize,
            1 => 64 << w.rng.below(5),
            2 => lo,
            _ => 1 << 20,
        }),
    };
    if w.mode == Mode::Lru {
        w.set_of = Some(Box::new(Map::with_capacity_and_hasher(lo, hb.clone())));
    }
    let c = C::build(lo, hi, hb);
    let (a, b) = c.range().into_inner();
    if a < lo || (C::EVICTS && b < hi.max(lo)) {
        w.bad("cap", format!("capacity range {a}..={b} of a container made for {lo}..={hi}"));
    }
    if lo != 0 && c.cap() < lo {
        w.bad("cap", format!("capacity {} of a container made for {lo}", c.cap()));
    }
    w.range0 = (a, b);
    w.floor = 0;
    c
}

/// Empties the container and expects it to shrink to its minimum.
fn shrinks<C: Seq>(c: &C, w: &mut W) {
    let want = w.range0.0 + w.extra as usize;
    let mut cap = c.cap();
    let limit = 400 + cap / 16;
    let mut n = 0;
    let target = |want: usize| if want == 0 { 0 } else { want.next_power_of_two().max(64) };
    while cap > target(want) && n < limit {
        // Any key: the entry is gone again afterwards.
        c.poke(w.rng.below(1 << 20) as u32);
        quiesce(c, w.max_cap);
        cap = c.cap();
        n += 1;
    }
    count("shrunk", 1);
    if cap > target(want) {
        w.bad("cap", format!("the empty container keeps a capacity of {cap}, minimum {want}"));
        w.stop = true;
    }
}

pub fn round<C: Seq>(rng: &mut Rng, mode: Mode) {
    let nkeys = match rng.below(5) {
        0 => 8,
        1 => 40,
        2 => 150,
        3 => 600,
        _ => if mode == Mode::Panic { 100 } else { 3000 },
    };
    let nkeys = if mode == Mode::Lru { [60, 100, 300, 700][rng.below(4) as usize] } else { nkeys };
    let before = calls();
    let mut w = W::new(rng.fork(), nkeys, mode);
    let c: C = fresh(&mut w);
    let mut res: Vec<C::Res<'_>> = Vec::new();
    let steps = [200, 1000, 4000][w.rng.below(3) as usize];
    let mut phase = 0;
    for i in 0..steps {
        if w.stop || !room() {
            break;
        }
        // Few keys at a time now and then, so that the table shrinks.
        if i % 200 == 0 {
            phase = w.rng.below(6);
        }
        let r = match (mode, w.rng.below(100)) {
            (Mode::Cap, 0..=9) | (Mode::Oom, 0..=1) => c.reserve_op(&mut w, &mut res),
            (Mode::Copy, 0..=7) | (Mode::Panic | Mode::Oom, 0..=2) | (_, 0) => c.copies(&mut w),
            (Mode::Cap, 10..=13) if phase == 0 => {
                let n = w.next;
                let r = c.op(&mut w, &mut res);
                let _ = n;
                r
            }
            _ => c.op(&mut w, &mut res),
        };
        if r.is_err() {
            let d = c.dump();
            w.reconcile(&d);
            let n = c.size();
            if n != d.len() {
                w.bad("unwind", format!("len is {n} after a panic, {} entries are there", d.len()));
                w.stop = true;
            }
            if w.rng.chance(1, 8) && !c.unlocked(&mut w) {
                w.bad("unwind", "a lock is held after a panic".into());
                w.stop = true;
            }
        }
        if i % 100 == 99 {
            let d = c.dump();
            w.content("content", "final", &d, true);
            if matches!(mode, Mode::Cap | Mode::Oom) && phase < 3 && !w.stop {
                for (k, _) in d {
                    drop_key(&c, k);
                    w.del(k);
                }
                if c.size() != 0 {
                    w.bad("size", "not empty after removing everything".into());
                }
                shrinks(&c, &mut w);
                let (a, b) = (c.cap(), c.range());
                w.caps(a, b, true);
            }
        }
    }
    if !w.stop {
        let d = c.dump();
        w.content("content", "final", &d, true);
        let n = c.size();
        let want = w.m.len();
        if n != want {
            w.bad("size", format!("len is {n} instead of {want}"));
        }
        if matches!(mode, Mode::Cap | Mode::Oom) {
            res.clear();
            w.extra = 0;
            w.caps(c.cap(), c.range(), want == 0);
        }
    }
    drop(res);
    drop(c);
    let n = created();
    w.set_of = None;
    check_all_dropped(C::NAME);
    count("ops", w.ops);
    count("instances", u64::from(n));
    count("injected_panics", w.fired);
    count("failed_allocations", w.failed_allocs);
    count("evictions", w.evictions);
    count("user_calls", calls() - before);
    count("rounds", 1);
    count(&format!("max_capacity_{}", w.max_cap), 1);
    if w.ops > 20 {
        distinct(w.sig);
    }
    sample(|| format!("{} {:?}: {} operations on {} keys, {} panics, {} evictions; last: {}", C::NAME, mode, w.ops, nkeys, w.fired, w.evictions,
        w.log.iter().cloned().collect::<Vec<_>>().join(" ")));
}

fn drop_key<C: Seq>(c: &C, k: u32) {
    // `poke` removes the key whether or not it was there.
    c.poke(k);
}

#[allow(dead_code)]
fn unused(_: AssertUnwindSafe<()>) {
    let _ = catch_unwind(|| ());
}
