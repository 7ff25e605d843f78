//! Rounds of concurrent random operations on `TreeIndex`.

use std::ops::Bound;
use std::sync::atomic::{AtomicUsize, Ordering::{Acquire, Relaxed, Release}};

use scc::{Guard, TreeIndex};

use crate::conc::{Done, Start, check};
use crate::cx::{Cx, Prof};
use crate::exec::{Task, block_on, run_tasks, yield_now};
use crate::inject::{self, U_CLOSURE, U_HELD, delay_point};
use crate::lin::{self, Eff, Pre, Rec, now};
use crate::track::{self, Id, Key, REVERSE, Val};
use crate::util::{BUSY, Rng, count, distinct, fnv, progress, sample, set_context, violation};

pub type Tree = TreeIndex<Key, Val>;

/// Distance between tracked keys.
const STEP: u32 = 1000;
const BIG: u32 = 900_000_000;
const STABLE_UID: u64 = 1 << 61;
const FILLER_UID: u64 = 1 << 62;

#[derive(Clone, Debug)]
pub struct TreeProf {
    /// point, held references, range removal, iteration, clear, misc
    pub w: [u32; 6],
    pub cancel: u32,
    pub panic: u32,
    pub stable: bool,
    pub filler: bool,
    pub tasks: u32,
}

impl TreeProf {
    pub fn named(name: &str, r: &mut Rng) -> Self {
        let d = TreeProf { w: [70, 5, 0, 6, 0, 1], cancel: 0, panic: 0, stable: r.chance(1, 3), filler: true, tasks: 40 };
        match name {
            "lin" => match r.below(5) {
                0 => TreeProf { filler: false, stable: false, ..d },
                1 => TreeProf { w: [95, 1, 0, 1, 0, 0], ..d },
                2 => TreeProf { w: [60, 10, 0, 20, 0, 0], ..d },
                3 => TreeProf { w: [80, 3, 2, 3, 2, 2], stable: false, ..d },
                _ => d,
            },
            "iter" => TreeProf { w: [50, 5, if r.chance(1, 3) { 5 } else { 0 }, 40, 0, 2], stable: true, ..d },
            "range" => TreeProf { w: [60, 3, 20, 12, 0, 1], stable: r.chance(2, 3), ..d },
            "ref" => TreeProf { w: [60, 30, if r.chance(1, 2) { 4 } else { 0 }, 10, u32::from(r.chance(1, 3)), 2], stable: false, ..d },
            "cancel" => TreeProf { w: [80, 3, if r.chance(1, 2) { 12 } else { 0 }, 5, u32::from(r.chance(1, 4)), 0], cancel: 400, tasks: 95, ..d },
            "panic" => TreeProf { w: [80, 3, if r.chance(1, 3) { 8 } else { 0 }, 5, u32::from(r.chance(1, 4)), 0], panic: 300, cancel: if r.chance(1, 3) { 200 } else { 0 }, ..d },
            "drop" => TreeProf { w: [70, 5, if r.chance(1, 2) { 5 } else { 0 }, 5, 2, 6], stable: false, ..d },
            _ => panic!("unknown profile {name}"),
        }
    }
}

#[derive(Clone)]
pub struct Space {
    pub keys: u32,
    pub rev: bool,
    /// Range removal touches positions below this.
    pub sweep_end: u32,
    pub stable_from: u32,
    pub stable: bool,
}

impl Space {
    pub fn end(&self) -> u32 {
        self.keys * STEP
    }
    pub fn id(&self, pos: u32) -> u32 {
        if self.rev { BIG - pos } else { pos }
    }
    pub fn pos(&self, id: u32) -> u32 {
        if self.rev { BIG.wrapping_sub(id) } else { id }
    }
    fn tracked(&self, k: u32) -> u32 {
        self.id(k * STEP + 500)
    }
    fn is_tracked(&self, pos: u32) -> Option<u32> {
        (pos % STEP == 500 && pos < self.end()).then_some(pos / STEP)
    }
    fn stable_pos(&self, k: u32) -> u32 {
        k * STEP + 250
    }
}

/// Fills and empties a private set of interleaved keys.
fn filler(t: &Tree, sp: &Space, f: u32, from: u32, lax: bool, rng: &mut Rng, left: &AtomicUsize) -> u64 {
    let mut cycles = 0u64;
    let span = sp.end() - from;
    loop {
        let n = if cfg!(miri) { 24 } else { [20, 60, 200, 600][rng.below(4) as usize] };
        let n = n.min(span / 10 - 1);
        // Positions: a random cluster or spread over everything, in some order.
        let stride = if rng.chance(1, 2) { (span / 10 / n).max(1) } else { 1 };
        let first = rng.below(u64::from(span / 10 - n * stride).max(1)) as u32;
        let mut ps: Vec<u32> = (0..n).map(|i| from + (first + i * stride) * 10 + 1 + f).collect();
        match rng.below(3) {
            0 => (),
            1 => ps.reverse(),
            _ => {
                for i in (1..ps.len()).rev() {
                    ps.swap(i, rng.below(i as u64 + 1) as usize);
                }
            }
        }
        let sync = rng.chance(2, 3);
        let uid = |p: u32| FILLER_UID | cycles << 36 | u64::from(p);
        let mut up = 0;
        for &p in &ps {
            let k = Key::new(sp.id(p));
            let v = Val::new(uid(p));
            let r = if sync { t.insert_sync(k, v) } else { block_on(t.insert_async(k, v)) };
            if r.is_err() {
                violation("lin", format!("TreeIndex: the private key {p} was rejected as a duplicate"));
            }
            up += 1;
            let q = ps[rng.below(up as u64) as usize];
            let got = t.peek_with(&Id(sp.id(q)), |_, v| v.check("filler peek"));
            if got != Some(uid(q)) && !(lax && got.is_none()) {
                violation("lin", format!("TreeIndex: look at the private key {q} found {got:?} instead of {}", uid(q)));
            }
            if left.load(Relaxed) == 0 || !track::room() {
                break;
            }
        }
        ps.truncate(up);
        match rng.below(3) {
            0 => (),
            1 => ps.reverse(),
            _ => {
                for i in (1..ps.len()).rev() {
                    ps.swap(i, rng.below(i as u64 + 1) as usize);
                }
            }
        }
        for &p in &ps {
            let id = Id(sp.id(p));
            let r = if sync { t.remove_sync(&id) } else { block_on(t.remove_async(&id)) };
            if !r && !lax {
                violation("lin", format!("TreeIndex: the private key {p} could not be removed"));
            }
            if t.contains(&id) {
                violation("lin", format!("TreeIndex: private key {p} found after its removal"));
            }
        }
        cycles += 1;
        if left.load(Relaxed) == 0 || !track::room() {
            return cycles;
        }
    }
}

/// A reference obtained under a guard, to be looked at again.
struct Held<'g> {
    k: Option<&'g Key>,
    v: &'g Val,
    id: u32,
    uid: u64,
}

impl Held<'_> {
    fn recheck(&self) {
        if let Some(k) = self.k {
            if k.check("held key reference") != self.id {
                violation("ref", format!("TreeIndex: a held reference to key {} became key {}", self.id, k.id));
            }
        }
        if self.v.check("held value reference") != self.uid {
            violation("ref", format!("TreeIndex: a held reference to value {} became {}", self.uid, self.v.uid));
        }
    }
}

/// What one traversal of an iterator must satisfy.
struct Walk<'a> {
    op: &'static str,
    sp: &'a Space,
    lo: Bound<u32>,
    hi: Bound<u32>,
    t0: u64,
    last: Option<u32>,
    seen: Vec<(u32, u64, u64)>,
    stable: u32,
    in_order: bool,
}

fn above(b: Bound<u32>, p: u32) -> bool {
    match b {
        Bound::Included(x) => p >= x,
        Bound::Excluded(x) => p > x,
        Bound::Unbounded => true,
    }
}
fn below(b: Bound<u32>, p: u32) -> bool {
    match b {
        Bound::Included(x) => p <= x,
        Bound::Excluded(x) => p < x,
        Bound::Unbounded => true,
    }
}

impl<'a> Walk<'a> {
    fn new(op: &'static str, sp: &'a Space, lo: Bound<u32>, hi: Bound<u32>) -> Self {
        Walk { op, sp, lo, hi, t0: now(), last: None, seen: Vec::new(), stable: 0, in_order: true }
    }
    fn visit(&mut self, k: &Key, v: &Val) {
        let p = self.sp.pos(k.check(self.op));
        let uid = v.check(self.op);
        let t1 = now();
        if let Some(l) = self.last {
            if p <= l {
                self.in_order = false;
                violation("iter", format!("TreeIndex {}: position {p} produced after {l}", self.op));
            }
        }
        self.last = Some(p);
        if !above(self.lo, p) || !below(self.hi, p) {
            violation("iter", format!("TreeIndex {}: position {p} is outside {:?}..{:?}", self.op, self.lo, self.hi));
        }
        if let Some(k) = self.sp.is_tracked(p) {
            self.seen.push((k, uid, t1));
        } else if p % STEP == 250 {
            self.stable += 1;
            if uid != STABLE_UID | u64::from(p) {
                violation("iter", format!("TreeIndex {}: untouched position {p} has value {uid}", self.op));
            }
        } else if uid & FILLER_UID == 0 || uid as u32 != p {
            violation("iter", format!("TreeIndex {}: position {p} produced with value {uid} of another key", self.op));
        }
    }
    /// `upto`: the traversal is complete up to this position only.
    fn finish(self, cx: &mut Cx<'_>, complete: bool) {
        let t1 = now();
        progress();
        let sp = self.sp;
        cx.sum_visits += self.seen.len() as u64;
        let covered = |p: u32| above(self.lo, p) && below(self.hi, p) && (complete || self.last.is_some_and(|l| p < l));
        let mut here = vec![false; sp.keys as usize];
        for &(k, uid, t) in &self.seen {
            here[k as usize] = true;
            cx.recs.push(Rec {
                key: k, t0: self.t0, t1: t, op: self.op, thr: cx.thr, opt: false, many: false, weak: true,
                pre: Pre::Is(uid), eff: Eff::Keep,
            });
        }
        let mut stable = 0;
        for k in 0..sp.keys {
            if !here[k as usize] && covered(k * STEP + 500) {
                cx.recs.push(Rec {
                    key: k, t0: self.t0, t1, op: self.op, thr: cx.thr, opt: false, many: false, weak: true,
                    pre: Pre::Absent, eff: Eff::Keep,
                });
            }
            if sp.stable && k >= sp.stable_from && (covered(sp.stable_pos(k)) || self.last == Some(sp.stable_pos(k))) {
                stable += 1;
            }
        }
        if self.in_order && stable != self.stable {
            violation("iter", format!(
                "TreeIndex {} {:?}..{:?} up to {:?}: {} of {stable} keys present throughout were visited",
                self.op, self.lo, self.hi, self.last, self.stable
            ));
        }
    }
}

fn rand_bound(rng: &mut Rng, sp: &Space, end: u32) -> (Bound<u32>, Bound<u32>) {
    let p = |rng: &mut Rng| match rng.below(4) {
        0 => rng.below(u64::from(end / STEP) + 1) as u32 * STEP + 500,
        1 => rng.below(u64::from(end / STEP) + 1) as u32 * STEP + 250,
        _ => rng.below(u64::from(end)) as u32,
    };
    let (mut a, mut b) = (p(rng), p(rng));
    if rng.chance(1, 4) {
        b = a + rng.below(3) as u32 * STEP;
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    // The end of the allowed part is never included.
    a = a.min(end - 1);
    b = b.min(end - 1);
    let _ = sp;
    let lo = match rng.below(5) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Included(a),
        _ => Bound::Excluded(a),
    };
    let hi = match rng.below(5) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Included(b),
        _ => Bound::Excluded(b),
    };
    (lo, hi)
}

fn idb(sp: &Space, b: Bound<u32>) -> Bound<Id> {
    match b {
        Bound::Included(p) => Bound::Included(Id(sp.id(p))),
        Bound::Excluded(p) => Bound::Excluded(Id(sp.id(p))),
        Bound::Unbounded => Bound::Unbounded,
    }
}

async fn step(t: &Tree, sp: &Space, prof: &TreeProf, cx: &mut Cx<'_>) {
    let k = cx.key();
    let id = Id(sp.tracked(k));
    let group = cx.rng.weighted(&prof.w);
    let t0 = now();
    macro_rules! call {
        ($sync:ident / $async:ident, $($a:expr),*) => {
            if cx.use_sync() { cx.s(|| t.$sync($($a),*)) } else { cx.c(t.$async($($a),*)).await }
        };
    }
    match group {
        0 => match cx.rng.below(12) {
            0..=3 => {
                let u = cx.uid();
                match call!(insert_sync / insert_async, Key::new(id.0), Val::new(u)) {
                    Some(Ok(())) => cx.rec("insert", k, t0, Pre::Absent, Eff::Set(u)),
                    Some(Err((rk, rv))) => {
                        if rk.check("insert err") != id.0 || rv.check("insert err") != u {
                            violation("lin", format!("TreeIndex insert({k},{u}) returned another pair ({},{})", rk.id, rv.uid));
                        }
                        cx.rec("insert-dup", k, t0, Pre::Present, Eff::Keep);
                    }
                    None => cx.rec_opt("insert-cancelled", k, t0, Pre::Absent, Eff::Set(u)),
                }
            }
            4..=6 => match call!(remove_sync / remove_async, &id) {
                Some(true) => cx.rec("remove", k, t0, Pre::Present, Eff::Clear),
                Some(false) => cx.rec("remove-none", k, t0, Pre::Absent, Eff::Keep),
                None => cx.rec_opt("remove-cancelled", k, t0, Pre::Present, Eff::Clear),
            },
            7 | 8 => {
                let accept = cx.rng.chance(2, 3);
                let mut seen = None;
                let f = |v: &Val| {
                    seen = Some(v.check("remove_if"));
                    delay_point(U_CLOSURE);
                    v.check("remove_if");
                    accept
                };
                let r = call!(remove_if_sync / remove_if_async, &id, f);
                match (r, seen) {
                    (Some(true), Some(s)) if accept => cx.rec("remove_if", k, t0, Pre::Is(s), Eff::Clear),
                    (Some(true), s) => violation("lin", format!("TreeIndex remove_if({k}) returned true, condition {accept} on {s:?}")),
                    (Some(false), Some(s)) if !accept => cx.rec("remove_if-kept", k, t0, Pre::Is(s), Eff::Keep),
                    (Some(false), _) => cx.rec("remove_if-none", k, t0, Pre::Absent, Eff::Keep),
                    (None, Some(_)) if accept => cx.rec_opt("remove_if-cancelled", k, t0, Pre::Present, Eff::Clear),
                    (None, _) => (),
                }
            }
            9 => {
                let g = Guard::new();
                match t.peek(&id, &g) {
                    Some(v) => {
                        let u = v.check("peek");
                        cx.rec("peek", k, t0, Pre::Is(u), Eff::Keep);
                    }
                    None => cx.rec("peek-none", k, t0, Pre::Absent, Eff::Keep),
                }
            }
            10 => match t.peek_with(&id, |kk, v| (kk.check("peek_with"), v.check("peek_with"))) {
                Some((kk, u)) => {
                    if kk != id.0 {
                        violation("lin", format!("TreeIndex peek_with({}) found key {kk}", id.0));
                    }
                    cx.rec("peek_with", k, t0, Pre::Is(u), Eff::Keep);
                }
                None => cx.rec("peek_with-none", k, t0, Pre::Absent, Eff::Keep),
            },
            _ => {
                let b = t.contains(&id);
                cx.rec("contains", k, t0, if b { Pre::Present } else { Pre::Absent }, Eff::Keep);
            }
        },
        1 => {
            // References kept for a while under one guard.
            let g = Guard::new();
            let mut held: Vec<Held<'_>> = Vec::new();
            for _ in 0..1 + cx.rng.below(4) {
                let k = cx.key();
                let id = Id(sp.tracked(k));
                let t0 = now();
                if cx.rng.chance(1, 2) {
                    match t.peek_entry(&id, &g) {
                        Some((kk, v)) => {
                            if kk.check("peek_entry") != id.0 {
                                violation("lin", format!("TreeIndex peek_entry({}) found key {}", id.0, kk.id));
                            }
                            let u = v.check("peek_entry");
                            cx.rec("peek_entry", k, t0, Pre::Is(u), Eff::Keep);
                            held.push(Held { k: Some(kk), v, id: id.0, uid: u });
                        }
                        None => cx.rec("peek_entry-none", k, t0, Pre::Absent, Eff::Keep),
                    }
                } else if cx.rng.chance(1, 2) {
                    match t.peek(&id, &g) {
                        Some(v) => {
                            let u = v.check("peek");
                            cx.rec("peek", k, t0, Pre::Is(u), Eff::Keep);
                            held.push(Held { k: None, v, id: id.0, uid: u });
                        }
                        None => cx.rec("peek-none", k, t0, Pre::Absent, Eff::Keep),
                    }
                } else {
                    let lo = Bound::Included(cx.rng.below(u64::from(sp.end())) as u32);
                    let mut w = Walk::new("range", sp, lo, Bound::Unbounded);
                    for (kk, v) in t.range((idb(sp, lo), Bound::Unbounded), &g).take(3) {
                        w.visit(kk, v);
                        held.push(Held { k: Some(kk), v, id: kk.id, uid: v.uid });
                    }
                    w.finish(cx, false);
                }
            }
            // The holder itself may remove what it refers to.
            if cx.rng.chance(1, 3) {
                let t0 = now();
                if call!(remove_sync / remove_async, &id).is_some_and(|r| r) {
                    cx.rec("remove", k, t0, Pre::Present, Eff::Clear);
                } else {
                    cx.rec_opt("remove-unknown", k, t0, Pre::Present, Eff::Clear);
                }
            }
            delay_point(U_HELD);
            for _ in 0..cx.rng.below(4) {
                yield_now().await;
                held.iter().for_each(Held::recheck);
                g.accelerate();
                drop(Guard::new());
            }
            held.iter().for_each(Held::recheck);
            count("held_references", held.len() as u64);
        }
        2 => {
            let (mut lo, mut hi) = rand_bound(&mut cx.rng, sp, sp.sweep_end);
            if cx.rng.chance(1, 2) {
                // A narrow one.
                let a = cx.rng.below(u64::from(sp.sweep_end)) as u32;
                let b = (a + cx.rng.below(6000) as u32).min(sp.sweep_end - 1);
                lo = Bound::Included(a);
                hi = Bound::Excluded(b.max(a));
            }
            if hi == Bound::Unbounded {
                hi = Bound::Excluded(sp.sweep_end);
            }
            let r = (idb(sp, lo), idb(sp, hi));
            let done = if cx.use_sync() {
                cx.s(|| t.remove_range_sync(r)).is_some()
            } else {
                cx.c(t.remove_range_async(r)).await.is_some()
            };
            let t1 = now();
            progress();
            for k in 0..sp.keys {
                let p = k * STEP + 500;
                if above(lo, p) && below(hi, p) {
                    cx.recs.push(Rec {
                        key: k, t0, t1, op: "remove_range", thr: cx.thr, opt: !done, many: true, weak: false,
                        pre: Pre::Any, eff: Eff::Clear,
                    });
                }
            }
        }
        3 => {
            let (lo, hi, op) = if cx.rng.chance(1, 2) {
                (Bound::Unbounded, Bound::Unbounded, "iter")
            } else {
                let (lo, hi) = rand_bound(&mut cx.rng, sp, sp.end());
                (lo, hi, "range")
            };
            let g = Guard::new();
            let mut w = Walk::new(op, sp, lo, hi);
            let stop = if cx.rng.chance(1, 5) { cx.rng.below(20) } else { u64::MAX };
            let pause = cx.rng.chance(1, 4);
            let slow = if cx.rng.chance(1, 2) { 0 } else { 1 + cx.rng.below(30) };
            let mut n = 0;
            let mut held: Vec<Held<'_>> = Vec::new();
            let mut complete = true;
            macro_rules! walk {
                ($i:expr) => {{
                    let mut it = $i;
                    if pause {
                        // The entries of the first call to `next` on count.
                        yield_now().await;
                        w.t0 = now();
                    }
                    while let Some((kk, v)) = it.next() {
                        w.visit(kk, v);
                        if held.len() < 4 && cx.rng.chance(1, 8) {
                            held.push(Held { k: Some(kk), v, id: kk.id, uid: v.uid });
                        }
                        n += 1;
                        if n > stop {
                            complete = false;
                            break;
                        }
                        if slow != 0 && cx.rng.chance(1, slow) {
                            if cx.rng.chance(1, 3) { yield_now().await } else { delay_point(U_HELD) }
                        }
                        if n > 2_000_000 {
                            violation("iter", format!("TreeIndex {op}: does not end"));
                            break;
                        }
                    }
                    if complete {
                        for _ in 0..cx.rng.below(4) {
                            if it.next().is_some() {
                                violation("fused", format!("TreeIndex {op}: produced an entry after its end"));
                            }
                            count("calls_after_end", 1);
                        }
                    }
                }};
            }
            if op == "iter" {
                walk!(t.iter(&g));
            } else {
                walk!(t.range((idb(sp, lo), idb(sp, hi)), &g));
            }
            w.finish(cx, complete);
            held.iter().for_each(Held::recheck);
        }
        4 => {
            t.clear();
            cx.rec_sweep(t0, false);
        }
        _ => match cx.rng.below(4) {
            0 => {
                let mut w = Walk::new("clone", sp, Bound::Unbounded, Bound::Unbounded);
                let c = t.clone();
                let g = Guard::new();
                for (kk, v) in c.iter(&g) {
                    w.visit(kk, v);
                }
                w.finish(cx, true);
            }
            1 => {
                let _ = t.len();
                progress();
            }
            2 => {
                let d = t.depth();
                progress();
                if d > 24 {
                    violation("depth", format!("TreeIndex: depth {d}"));
                }
            }
            _ => {
                let _ = t.is_empty();
                progress();
            }
        },
    }
}

pub fn round(rng: &mut Rng, prof: &TreeProf) {
    let miri = cfg!(miri);
    let mut prof = prof.clone();
    let keys: u32 = if miri { [4, 24, 40][rng.below(3) as usize] } else { [4, 16, 40, 100, 200, 600][rng.below(6) as usize] };
    let rev = rng.chance(1, 4);
    REVERSE.store(rev, Relaxed);
    let has_clear = prof.w[4] != 0;
    let has_range = prof.w[2] != 0;
    if has_clear {
        prof.stable = false;
    }
    let half = has_range && !has_clear && rng.chance(2, 3);
    let sp = Space {
        keys,
        rev,
        sweep_end: if half { (keys / 2).max(1) * STEP } else { keys * STEP },
        stable_from: if has_range { (keys / 2).max(1) } else { 0 },
        stable: prof.stable && (half || !has_range),
    };
    let lax = has_clear || has_range && !half;
    let from = if has_range && half { sp.sweep_end } else { 0 };
    let delays = inject::configure(rng, inject::TREE_TARGETS);
    let most = if miri { 2 } else if rng.chance(1, 3) { 7 } else { 3 };
    let threads = 2 + rng.below(most) as usize;
    let ops = if miri { 6 + rng.below(14) } else { [20, 60, 200, 500][rng.below(4) as usize] } as usize;
    let fillers = if std::env::var_os("NOFILL").is_none() && prof.filler && rng.chance(2, 3) { 1 + usize::from(!miri && rng.chance(1, 3)) } else { 0 };
    set_context(format!("{keys} keys rev {rev} half {half} weights {:?} stable {} threads {threads} x {ops} fillers {fillers} delays {delays}", prof.w, sp.stable));
    let t = Tree::new();
    let mut recs: Vec<Rec> = Vec::new();
    let hprof = Prof { cancel: prof.cancel, panic: prof.panic, hold: 0, ..Prof::default() };
    {
        let mut cx = Cx::new(rng.fork(), 99, keys, true, &hprof);
        if sp.stable {
            for k in sp.stable_from..keys {
                let p = sp.stable_pos(k);
                let _ = t.insert_sync(Key::new(sp.id(p)), Val::new(STABLE_UID | u64::from(p)));
            }
        }
        let fill = rng.below(4);
        for k in 0..keys {
            if rng.below(4) < fill {
                let t0 = now();
                let u = cx.uid();
                let ok = t.insert_sync(Key::new(sp.tracked(k)), Val::new(u)).is_ok();
                cx.rec("prefill", k, t0, if ok { Pre::Absent } else { Pre::Present }, if ok { Eff::Set(u) } else { Eff::Keep });
            }
        }
        recs.append(&mut cx.recs);
    }
    let left = AtomicUsize::new(threads);
    let start = Start::new(threads + fillers);
    let (mut cancelled, mut cycles, mut sig, mut tasked) = (0, 0, 0, 0usize);
    BUSY.store(true, Relaxed);
    std::thread::scope(|s| {
        let (t, prof, hprof, left, start, sp) = (&t, &prof, &hprof, &left, &start, &sp);
        let mut hs = Vec::new();
        for n in 0..threads {
            let mut r = rng.fork();
            hs.push(s.spawn(move || {
                let _done = Done(left);
                inject::enter_thread(r.next());
                let ntasks = if r.chance(u64::from(prof.tasks), 100) { 2 + r.below(4) as usize } else { 1 };
                let sync = ntasks == 1 && r.chance(9, 10);
                // Some threads work on a small part of the keys.
                let narrow = r.chance(1, 2);
                let mut cxs: Vec<Cx<'_>> = (0..ntasks)
                    .map(|i| {
                        let mut cx = Cx::new(r.fork(), (n * 8 + i) as u16, keys, sync, hprof);
                        if narrow {
                            cx.focus = Some((r.below(u64::from(keys)) as u32, 1 + r.below(16) as u32));
                        }
                        cx
                    })
                    .collect();
                start.wait();
                let each = ops.div_ceil(ntasks);
                if ntasks == 1 && sync {
                    let cx = &mut cxs[0];
                    block_on(async {
                        for _ in 0..each {
                            step(t, sp, prof, cx).await;
                            progress();
                        }
                    });
                } else {
                    let tasks: Vec<Task<'_>> = cxs
                        .iter_mut()
                        .map(|cx| {
                            Box::pin(async move {
                                for _ in 0..each {
                                    step(t, sp, prof, cx).await;
                                    progress();
                                    if cx.rng.chance(1, 4) {
                                        yield_now().await;
                                    }
                                }
                            }) as Task<'_>
                        })
                        .collect();
                    run_tasks(tasks, &mut r, false);
                }
                let sig = inject::leave_thread();
                let mut out = (Vec::new(), 0, 0, sig, ntasks);
                for cx in cxs {
                    out.0.extend(cx.recs);
                    out.1 += cx.cancelled + cx.panicked;
                    out.2 += cx.sum_visits;
                }
                out
            }));
        }
        let mut fs = Vec::new();
        for f in 0..fillers {
            let mut r = rng.fork();
            fs.push(s.spawn(move || {
                inject::enter_thread(r.next());
                start.wait();
                let n = filler(t, sp, f as u32, from, lax, &mut r, left);
                inject::leave_thread();
                n
            }));
        }
        while start.waiting.load(Acquire) != 0 {
            std::thread::yield_now();
        }
        start.go.store(true, Release);
        for h in hs {
            let (r, cn, vis, sg, nt) = h.join().unwrap();
            recs.extend(r);
            cancelled += cn;
            sig = fnv(sig, sg);
            tasked += usize::from(nt > 1);
            count("traversal_visits", vis);
        }
        for f in fs {
            cycles += f.join().unwrap();
        }
    });
    inject::off();
    // Quiescent observations.
    let mut dump = Vec::new();
    {
        let g = Guard::new();
        let mut last = None;
        for (k, v) in t.iter(&g) {
            let p = sp.pos(k.check("final"));
            if last.is_some_and(|l| l >= p) {
                violation("final", format!("TreeIndex: final position {p} after {last:?}"));
                break;
            }
            last = Some(p);
            dump.push((p, v.check("final")));
        }
    }
    let mut present = 0;
    for k in 0..keys {
        let t0 = now();
        let v = t.peek_with(&Id(sp.tracked(k)), |_, v| v.check("final"));
        let t1 = now();
        recs.push(Rec { key: k, t0, t1, op: "final", thr: 99, opt: false, many: false, weak: false, pre: v.map_or(Pre::Absent, Pre::Is), eff: Eff::Keep });
        let p = k * STEP + 500;
        let seen: Vec<u64> = dump.iter().filter(|d| d.0 == p).map(|d| d.1).collect();
        present += usize::from(v.is_some());
        if seen != v.iter().copied().collect::<Vec<_>>() {
            violation("final", format!("TreeIndex: key {k} has value {v:?}, the final traversal found {seen:?}"));
        }
        if sp.stable && k >= sp.stable_from {
            let p = sp.stable_pos(k);
            if t.peek_with(&Id(sp.id(p)), |_, v| v.check("final")) == Some(STABLE_UID | u64::from(p)) {
                present += 1;
            } else {
                violation("lin", format!("TreeIndex: the untouched key at {p} is gone or changed"));
            }
        }
    }
    if dump.len() != present || t.len() != present {
        violation("final", format!("TreeIndex: {present} entries, the final traversal found {}, len is {}", dump.len(), t.len()));
    }
    // A tree of n entries removed one by one or by range must be usable and empty afterwards.
    let d = t.depth();
    if d > 24 {
        violation("depth", format!("TreeIndex: depth {d} with {present} entries"));
    }
    if rng.chance(1, 2) {
        let how = rng.below(3);
        if how == 0 {
            let c = sp.end() / 2;
            t.remove_range_sync((Bound::Unbounded, Bound::Excluded(Id(sp.id(c)))));
            if let Some(x) = dump.iter().find(|x| t.contains(&Id(sp.id(x.0))) == (x.0 < c)) {
                violation("final", format!("TreeIndex: after removing everything before {c}, position {} is wrong", x.0));
            }
            t.remove_range_sync((Bound::Included(Id(sp.id(c))), Bound::<Id>::Unbounded));
        } else {
            if how == 1 {
                dump.reverse();
            }
            for (p, _) in &dump {
                if !t.remove_sync(&Id(sp.id(*p))) {
                    violation("final", format!("TreeIndex: position {p} could not be removed afterwards"));
                }
            }
        }
        if !t.is_empty() || t.len() != 0 {
            violation("final", format!("TreeIndex: {} entries, depth {} after removing everything", t.len(), t.depth()));
        }
        for k in 0..keys {
            if t.insert_sync(Key::new(sp.tracked(k)), Val::new(1)).is_err() {
                violation("final", format!("TreeIndex: key {k} could not be inserted again"));
            }
        }
        if t.len() != keys as usize {
            violation("final", format!("TreeIndex: {} of {keys} entries after filling", t.len()));
        }
    }
    BUSY.store(false, Relaxed);
    // References survive the tree.
    {
        let g = Guard::new();
        let held: Vec<Held<'_>> = t.iter(&g).take(40).map(|(k, v)| Held { k: Some(k), v, id: k.id, uid: v.uid }).collect();
        drop(t);
        for _ in 0..3 {
            g.accelerate();
            drop(Guard::new());
        }
        held.iter().for_each(Held::recheck);
    }
    track::check_all_dropped("TreeIndex");
    REVERSE.store(false, Relaxed);
    count("cancelled", cancelled);
    let stats = check(&mut recs, keys, "TreeIndex");
    if stats.overlaps != 0 {
        distinct(fnv(stats.sig, sig));
    }
    count("rounds", 1);
    count("filler_cycles", cycles);
    count("task_threads", tasked as u64);
    sample(|| {
        format!(
            "TreeIndex: {keys} keys{}, {threads} threads ({tasked} multi-task) x {ops} ops {:?}, {fillers} fillers ({cycles} cycles), delays {delays}, {} events, {} overlapping, widest {}, {cancelled} cancelled, stable {}, depth {d}",
            if rev { " (reverse order)" } else { "" }, prof.w, recs.len(), stats.overlaps, stats.max_width, sp.stable
        )
    });
    let _ = lin::now;
}
