//! Instrumented keys and values: every instance is followed from construction to drop.

use std::cell::Cell;
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::OnceLock;
use std::sync::atomic::{
    AtomicI32, AtomicU8, AtomicU32, AtomicU64,
    Ordering::Relaxed,
};

use crate::inject::{U_CLONE, U_CMP, U_EQ, upoint};
use crate::util::{mix, progress, violation};

const SLOTS: usize = if cfg!(miri) { 1 << 13 } else { 1 << 22 };
const FREE: u8 = 0;
const LIVE: u8 = 1;
const DROPPED: u8 = 2;
const KEY_MAGIC: u64 = 0x6B65_794D_4147_4943;
const VAL_MAGIC: u64 = 0x7661_6C4D_4147_4943;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

struct Registry {
    state: Box<[AtomicU8]>,
    next: AtomicU32,
    live: AtomicI32,
}

static REG: OnceLock<Registry> = OnceLock::new();

fn reg() -> &'static Registry {
    REG.get_or_init(|| Registry {
        state: (0..SLOTS).map(|_| AtomicU8::new(FREE)).collect(),
        next: AtomicU32::new(0),
        live: AtomicI32::new(0),
    })
}

fn new_slot() -> u32 {
    let r = reg();
    let s = r.next.fetch_add(1, Relaxed);
    assert!((s as usize) < SLOTS, "registry exhausted");
    r.state[s as usize].store(LIVE, Relaxed);
    r.live.fetch_add(1, Relaxed);
    s
}

fn drop_slot(what: &str, id: u64, slot: u32) {
    let r = reg();
    if slot as usize >= SLOTS {
        violation("drop", format!("{what} {id}: dropped an object with a corrupt slot {slot}"));
        return;
    }
    match r.state[slot as usize].swap(DROPPED, Relaxed) {
        LIVE => {
            r.live.fetch_sub(1, Relaxed);
        }
        DROPPED => violation("drop", format!("{what} {id}: instance {slot} dropped twice")),
        _ => violation("drop", format!("{what} {id}: instance {slot} dropped but never created")),
    }
}

/// Number of instances created since the last reset.
pub fn created() -> u32 {
    reg().next.load(Relaxed)
}

pub fn room() -> bool {
    (created() as usize) < SLOTS / 2
}

pub fn live() -> i32 {
    reg().live.load(Relaxed)
}

/// Drives garbage collection until every instance is dropped; reports what is left.
///
/// `expected` is the number of instances legitimately held by the caller.
pub fn flush(expected: i32) -> bool {
    // Linked garbage is released step by step: goes on as long as it makes progress.
    let limit = if cfg!(miri) { 64 } else { 20_000 };
    let (mut best, mut idle) = (i32::MAX, 0);
    while live() > expected && idle < limit {
        let g = scc::Guard::new();
        g.accelerate();
        drop(g);
        idle += 1;
        if live() < best {
            best = live();
            idle = 0;
        }
        if idle % 64 == 63 {
            std::thread::yield_now();
        }
        progress();
    }
    live() == expected
}

/// Checks that nothing is alive and forgets everything.
pub fn check_all_dropped(context: &str) {
    if !flush(0) {
        let r = reg();
        let n = r.next.load(Relaxed) as usize;
        let left: Vec<usize> = (0..n.min(SLOTS))
            .filter(|&i| r.state[i].load(Relaxed) == LIVE)
            .take(5)
            .collect();
        violation(
            "leak",
            format!("{context}: {} of {n} instances not dropped, e.g. {left:?}", live()),
        );
    }
    reset();
}

pub fn reset() {
    let r = reg();
    let n = (r.next.load(Relaxed) as usize).min(SLOTS);
    for s in &r.state[..n] {
        s.store(FREE, Relaxed);
    }
    r.next.store(0, Relaxed);
    r.live.store(0, Relaxed);
}

pub fn slot_live(slot: u32) -> bool {
    reg().state[slot as usize].load(Relaxed) == LIVE
}

/// Borrowed lookup key.
#[derive(Clone, Copy, Debug)]
pub struct Id(pub u32);

pub struct Key {
    pub id: u32,
    slot: u32,
    /// Unique per construction, kept by clones.
    pub ser: u64,
    magic: u64,
    heap: Box<u64>,
}

static SERIAL: AtomicU64 = AtomicU64::new(1);

impl Key {
    pub fn new(id: u32) -> Key {
        Key::with_ser(id, SERIAL.fetch_add(1, Relaxed))
    }
    pub fn with_ser(id: u32, ser: u64) -> Key {
        let slot = new_slot();
        Key {
            id,
            slot,
            ser,
            magic: KEY_MAGIC ^ u64::from(slot),
            heap: Box::new(mix(u64::from(id))),
        }
    }
    pub fn slot(&self) -> u32 {
        self.slot
    }
    pub fn check(&self, what: &str) -> u32 {
        let ok = self.magic == KEY_MAGIC ^ u64::from(self.slot)
            && (self.slot as usize) < SLOTS
            && slot_live(self.slot);
        if !ok {
            violation("dead", format!("{what}: key {} instance {} is not alive", self.id, self.slot));
        } else if *self.heap != mix(u64::from(self.id)) {
            violation("dead", format!("{what}: key {} is torn or corrupt", self.id));
        }
        self.id
    }
}

impl Drop for Key {
    fn drop(&mut self) {
        if self.magic != KEY_MAGIC ^ u64::from(self.slot) {
            violation("drop", format!("key {}: dropping a dead or corrupt instance {}", self.id, self.slot));
        }
        drop_slot("key", u64::from(self.id), self.slot);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}

impl Clone for Key {
    fn clone(&self) -> Self {
        self.check("clone");
        upoint(U_CLONE);
        Key::with_ser(self.id, self.ser)
    }
}

impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        self.check("eq");
        upoint(U_EQ);
        self.id == o.id
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.check("cmp");
        o.check("cmp");
        upoint(U_CMP);
        ord(self.id, o.id)
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write_u32(self.id);
    }
}
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K{}", self.id)
    }
}

/// Order of the keys: either that of the numbers or its reverse.
fn ord(a: u32, b: u32) -> std::cmp::Ordering {
    if REVERSE.load(Relaxed) { b.cmp(&a) } else { a.cmp(&b) }
}
pub static REVERSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl Hash for Id {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write_u32(self.0);
    }
}
impl scc::Equivalent<Key> for Id {
    fn equivalent(&self, k: &Key) -> bool {
        k.check("equivalent");
        upoint(U_EQ);
        k.id == self.0
    }
}
impl scc::Comparable<Key> for Id {
    fn compare(&self, k: &Key) -> std::cmp::Ordering {
        k.check("compare");
        upoint(U_CMP);
        ord(self.0, k.id)
    }
}

pub struct Val {
    pub uid: u64,
    nuid: u64,
    slot: u32,
    /// Number of readers, or -1 if somebody has exclusive access.
    busy: AtomicI32,
    magic: u64,
    heap: Box<u64>,
}

thread_local! {
    static DEFAULT_UID: Cell<u64> = const { Cell::new(0) };
}

/// Sets the `uid` the next default value gets.
pub fn set_default_uid(uid: u64) {
    DEFAULT_UID.with(|d| d.set(uid));
}

impl Val {
    pub fn new(uid: u64) -> Val {
        let slot = new_slot();
        Val {
            uid,
            nuid: !uid,
            slot,
            busy: AtomicI32::new(0),
            magic: VAL_MAGIC ^ u64::from(slot),
            heap: Box::new(uid),
        }
    }
    pub fn slot(&self) -> u32 {
        self.slot
    }
    pub fn check(&self, what: &str) -> u64 {
        let uid = self.uid;
        let ok = self.magic == VAL_MAGIC ^ u64::from(self.slot)
            && (self.slot as usize) < SLOTS
            && slot_live(self.slot);
        if !ok {
            violation("dead", format!("{what}: value {uid} instance {} is not alive", self.slot));
        } else if self.nuid != !uid || *self.heap != uid {
            violation("torn", format!("{what}: value {uid} is torn or being changed ({} {})", !self.nuid, *self.heap));
        }
        uid
    }
    /// In-place modification in several steps.
    pub fn set(&mut self, uid: u64) {
        self.uid = uid;
        crate::inject::delay_point(crate::inject::U_SET);
        *self.heap = uid;
        self.nuid = !uid;
    }
    /// Enters a section that must exclude all others.
    pub fn excl<R>(&self, what: &'static str, f: impl FnOnce() -> R) -> R {
        let _e = self.enter_excl(what);
        f()
    }
    pub fn enter_excl(&self, what: &'static str) -> bool {
        if let Err(n) = self.busy.compare_exchange(0, -1, Relaxed, Relaxed) {
            violation("exclusive", format!("{what}: value {} is in use by {n} others", self.uid));
            return false;
        }
        true
    }
    pub fn leave_excl(&self, what: &'static str, entered: bool) {
        if entered {
            let n = self.busy.swap(0, Relaxed);
            if n != -1 {
                violation("exclusive", format!("{what}: value {} was entered by {n} others", self.uid));
            }
        }
    }
    pub fn enter_shared(&self, what: &'static str) {
        let n = self.busy.fetch_add(1, Relaxed);
        if n < 0 {
            violation("exclusive", format!("{what}: value {} is read while exclusively held", self.uid));
        }
    }
    pub fn leave_shared(&self) {
        self.busy.fetch_sub(1, Relaxed);
    }
}

/// Shared section of a reader closure.
pub fn shared<R>(v: &Val, what: &'static str, f: impl FnOnce(u64) -> R) -> R {
    struct L<'a>(&'a Val);
    impl Drop for L<'_> {
        fn drop(&mut self) {
            self.0.leave_shared();
        }
    }
    v.enter_shared(what);
    let _l = L(v);
    let uid = v.check(what);
    let r = f(uid);
    if v.check(what) != uid {
        violation("torn", format!("{what}: value {uid} changed under a shared reference"));
    }
    r
}

/// Exclusive section of a closure or an entry holder.
pub fn exclusive<R>(v: &mut Val, what: &'static str, f: impl FnOnce(&mut Val) -> R) -> R {
    struct L(*const Val, &'static str, bool);
    impl Drop for L {
        fn drop(&mut self) {
            unsafe { (*self.0).leave_excl(self.1, self.2) }
        }
    }
    let e = v.enter_excl(what);
    v.check(what);
    let p: *mut Val = v;
    let _l = L(p, what, e);
    f(unsafe { &mut *p })
}

/// Exclusive section with a shared reference.
pub fn exclusive_ref<R>(v: &Val, what: &'static str, f: impl FnOnce(u64) -> R) -> R {
    struct L<'a>(&'a Val, &'static str, bool);
    impl Drop for L<'_> {
        fn drop(&mut self) {
            self.0.leave_excl(self.1, self.2)
        }
    }
    let e = v.enter_excl(what);
    let uid = v.check(what);
    let _l = L(v, what, e);
    f(uid)
}

impl Drop for Val {
    fn drop(&mut self) {
        if self.magic != VAL_MAGIC ^ u64::from(self.slot) {
            violation("drop", format!("value {}: dropping a dead or corrupt instance {}", self.uid, self.slot));
        }
        let b = self.busy.load(Relaxed);
        if b != 0 {
            violation("exclusive", format!("value {} dropped while in use ({b})", self.uid));
        }
        drop_slot("value", self.uid, self.slot);
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}

impl Clone for Val {
    fn clone(&self) -> Self {
        let uid = self.check("clone");
        upoint(U_CLONE);
        Val::new(uid)
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Self) -> bool {
        upoint(U_EQ);
        self.check("eq") == o.check("eq")
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V{}", self.uid)
    }
}
impl Default for Val {
    fn default() -> Self {
        Val::new(DEFAULT_UID.with(Cell::get))
    }
}

impl serde::Serialize for Key {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.id)
    }
}
impl<'de> serde::Deserialize<'de> for Key {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        // Map keys arrive as strings in JSON; serde_json converts them for `u32`.
        Ok(Key::new(u32::deserialize(d)?))
    }
}
impl serde::Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.uid)
    }
}
impl<'de> serde::Deserialize<'de> for Val {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Val::new(u64::deserialize(d)?))
    }
}

/// Hash functions from perfect to degenerate.
#[derive(Clone, Default, Debug)]
pub struct Hb {
    pub mode: u8,
    pub seed: u64,
}

pub const HASH_MODES: u8 = 7;

pub struct Hr {
    mode: u8,
    seed: u64,
    x: u64,
}

impl BuildHasher for Hb {
    type Hasher = Hr;
    fn build_hasher(&self) -> Hr {
        Hr { mode: self.mode, seed: self.seed, x: 0 }
    }
}

impl Hasher for Hr {
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            if b.len() > 8 {
                self.x = mix(self.x);
            }
            self.x = (self.x << 8) | u64::from(c);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.x = u64::from(i);
    }
    fn finish(&self) -> u64 {
        let m = mix(self.x ^ self.seed);
        match self.mode {
            // Everything collides completely.
            1 => self.seed,
            // At most four buckets, one partial hash.
            2 => (m & (3 << 62)) | 7,
            // Well spread buckets, one partial hash.
            3 => m & !0xFF | 9,
            // One bucket, spread partial hashes.
            4 => (m & 0xFF) | (self.seed & !0xFF),
            // The identity: small numbers, all in the first bucket.
            5 => self.x,
            // Two buckets, few partial hashes.
            6 => (m & (1 << 63)) | (m & 3),
            _ => m,
        }
    }
}
