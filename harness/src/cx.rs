//! Context of a task that runs random operations and records them.

use std::future::Future;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::task::Poll;

use crate::exec::{Drops, cancel_after, yield_now};
use crate::inject::{U_CLOSURE, U_HELD, arm, arm_alloc, delay_point, disarm, disarm_alloc};
use crate::lin::{Eff, Pre, Rec, now};
use crate::util::{Rng, progress, violation};

/// Identifiers of filler keys start here.
pub const FILLER: u32 = 1000;
/// Identifiers of keys nobody touches during a round start here.
pub const STABLE: u32 = 100_000;

#[derive(Clone, Debug)]
pub struct Prof {
    pub point: u32,
    pub entry: u32,
    pub cursor: u32,
    pub scan: u32,
    pub clear: u32,
    pub misc: u32,
    /// Cancelled asynchronous operations per mille.
    pub cancel: u32,
    /// Operations in which user code may panic, per mille.
    pub panic: u32,
    /// Allocations of tables may fail in such an operation.
    pub oom: bool,
    /// Entries are held across suspension points per mille.
    pub hold: u32,
    /// Number of keys nobody touches.
    pub stable: u32,
    /// The table cannot be resized in this round.
    pub no_resize: bool,
    pub filler: bool,
    /// One thread only.
    pub single: bool,
    /// Percentage of rounds with asynchronous tasks.
    pub tasks: u32,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            point: 60,
            entry: 20,
            cursor: 3,
            scan: 4,
            clear: 1,
            misc: 2,
            cancel: 0,
            panic: 0,
            oom: false,
            hold: 100,
            stable: 0,
            no_resize: false,
            filler: true,
            single: false,
            tasks: 40,
        }
    }
}

/// `None` if user code, or an allocation, was made to fail and the call unwound.
fn armed<R>(fuse: Option<u64>, afuse: Option<u64>, f: impl FnOnce() -> R) -> Option<R> {
    if let Some(n) = fuse {
        arm(n);
    }
    if let Some(n) = afuse {
        arm_alloc(n);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    disarm();
    disarm_alloc();
    r.ok()
}

pub struct Cx<'a> {
    pub rng: Rng,
    pub recs: Vec<Rec>,
    pub thr: u16,
    pub keys: u32,
    pub sync_ok: bool,
    pub prof: &'a Prof,
    pub next_uid: u64,
    pub cancelled: u64,
    pub panicked: u64,
    pub sum_visits: u64,
    pub hist: [u64; 32],
    /// Value an entry had in between, visible to lock-free readers.
    pub mid: Option<u64>,
    /// A traversal may miss an entry that is updated meanwhile, which moves it.
    pub weak_miss: bool,
    /// Keys are chosen from this part: start and length.
    pub focus: Option<(u32, u32)>,
}

/// A visited entry: key, value seen, effect, time span.
pub type Visit = (u32, u64, Eff, u64, u64);

static UID: AtomicU64 = AtomicU64::new(1);

impl<'a> Cx<'a> {
    pub fn new(rng: Rng, thr: u16, keys: u32, sync_ok: bool, prof: &'a Prof) -> Self {
        Cx {
            rng,
            recs: Vec::new(),
            thr,
            keys,
            sync_ok,
            prof,
            next_uid: UID.fetch_add(1, Relaxed) << 24,
            cancelled: 0,
            panicked: 0,
            sum_visits: 0,
            hist: [0; 32],
            mid: None,
            weak_miss: false,
            focus: None,
        }
    }
    pub fn uid(&mut self) -> u64 {
        self.next_uid += 1;
        self.next_uid
    }
    pub fn key(&mut self) -> u32 {
        if let Some((a, n)) = self.focus {
            if self.rng.chance(7, 8) {
                return (a + self.rng.below(u64::from(n)) as u32) % self.keys;
            }
        }
        self.rng.below(u64::from(self.keys)) as u32
    }
    pub fn use_sync(&mut self) -> bool {
        self.sync_ok && self.rng.chance(1, 2)
    }
    /// Awaits an operation, possibly cancelling it.
    pub async fn c<F: Future>(&mut self, f: F) -> Option<F::Output> {
        if self.prof.cancel != 0 && self.rng.chance(u64::from(self.prof.cancel), 1000) {
            let how = match self.rng.below(3) {
                0 => Drops::AtOnce,
                1 => Drops::OnWake,
                _ => Drops::Later(self.rng.below(6) as u32),
            };
            let n = if self.rng.chance(2, 3) { 0 } else { self.rng.below(4) as u32 };
            let r = cancel_after(f, n, how).await;
            if r.is_none() {
                self.cancelled += 1;
            }
            r
        } else if self.panics() {
            let (fuse, afuse) = self.fuses();
            let mut slot = Some(Box::pin(f));
            let r = std::future::poll_fn(move |cx| {
                let Some(p) = slot.as_mut() else { return Poll::Ready(None) };
                match armed(fuse, afuse, || p.as_mut().poll(cx)) {
                    Some(Poll::Ready(r)) => {
                        slot = None;
                        Poll::Ready(Some(r))
                    }
                    Some(Poll::Pending) => Poll::Pending,
                    None => {
                        slot = None;
                        Poll::Ready(None)
                    }
                }
            })
            .await;
            if r.is_none() {
                self.panicked += 1;
            }
            r
        } else {
            Some(f.await)
        }
    }
    fn panics(&mut self) -> bool {
        self.prof.panic != 0 && self.rng.chance(u64::from(self.prof.panic), 1000)
    }
    fn fuses(&mut self) -> (Option<u64>, Option<u64>) {
        if self.prof.oom && self.rng.chance(1, 2) {
            return (None, Some(self.rng.below(2)));
        }
        let n = if self.rng.chance(1, 2) { 0 } else { self.rng.below(8) };
        (Some(n), None)
    }
    /// Runs a synchronous operation, in which user code may panic.
    pub fn s<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        if !self.panics() {
            return Some(f());
        }
        let (fuse, afuse) = self.fuses();
        let r = armed(fuse, afuse, f);
        if r.is_none() {
            self.panicked += 1;
        }
        r
    }
    /// Dwells while an entry is held.
    pub async fn hold(&mut self) {
        if self.rng.chance(u64::from(self.prof.hold), 1000) {
            delay_point(U_HELD);
            for _ in 0..self.rng.below(3) {
                yield_now().await;
            }
        }
    }
    pub fn rec(&mut self, op: &'static str, key: u32, t0: u64, pre: Pre, eff: Eff) {
        let t1 = now();
        progress();
        self.rec_mid(op, key, t0, t1, pre, eff);
    }
    pub fn rec_opt(&mut self, op: &'static str, key: u32, t0: u64, pre: Pre, eff: Eff) {
        let t1 = now();
        progress();
        self.rec_at(op, key, t0, t1, pre, eff, true);
    }
    fn rec_mid(&mut self, op: &'static str, key: u32, t0: u64, t1: u64, pre: Pre, eff: Eff) {
        if let Some(u) = self.mid.take() {
            self.rec_at(op, key, t0, t1, pre, Eff::Set(u), false);
            self.rec_at(op, key, t0, t1, Pre::Is(u), eff, false);
        } else {
            self.rec_at(op, key, t0, t1, pre, eff, false);
        }
    }
    pub fn rec_at(&mut self, op: &'static str, key: u32, t0: u64, t1: u64, pre: Pre, eff: Eff, opt: bool) {
        if key >= FILLER {
            return;
        }
        self.recs.push(Rec { key, t0, t1, op, thr: self.thr, opt, many: false, weak: false, pre, eff });
    }
    /// All keys are removed some time between the two; some of them repeatedly.
    pub fn rec_sweep(&mut self, t0: u64, opt: bool) {
        let t1 = now();
        progress();
        for key in 0..self.keys {
            self.recs.push(Rec { key, t0, t1, op: "clear", thr: self.thr, opt, many: true, weak: false, pre: Pre::Any, eff: Eff::Clear });
        }
    }
    /// Records the visits of a traversal and what a complete one implies for the others.
    pub fn visits(&mut self, op: &'static str, visits: &[Visit], t0: u64, complete: bool, exact_times: bool, dups: bool) {
        let weak = self.weak_miss && (op == "guarded-iter" || op == "clone");
        let t1 = now();
        progress();
        let mut seen = vec![false; self.keys as usize];
        let mut stable = vec![0u32; self.prof.stable as usize];
        self.sum_visits += visits.len() as u64;
        for (i, &(k, v, eff, a, b)) in visits.iter().enumerate() {
            if k < self.keys {
                seen[k as usize] = true;
                let end = if exact_times {
                    visits.get(i + 1).map_or(t1, |n| n.3.max(b))
                } else {
                    t1
                };
                let start = if exact_times { a } else { t0 };
                if i + 1 == visits.len() {
                    self.rec_mid(op, k, start, end, Pre::Is(v), eff);
                } else {
                    self.rec_at(op, k, start, end, Pre::Is(v), eff, false);
                }
                if let Some(r) = self.recs.last_mut() {
                    r.weak = weak && eff == Eff::Keep;
                }
                if dups && visits[..i].iter().any(|w| w.0 == k && w.1 == v && w.2 != Eff::Clear) {
                    violation("iter", format!("{op}: entry {k} with value {v} visited twice although the table is not resized"));
                }
            } else if k >= STABLE {
                if let Some(s) = stable.get_mut((k - STABLE) as usize) {
                    *s += 1;
                } else {
                    violation("iter", format!("{op}: visited key {k} that was never inserted"));
                }
            } else if k < FILLER {
                violation("iter", format!("{op}: visited key {k} that was never inserted"));
            }
        }
        if complete {
            for k in 0..self.keys {
                if !seen[k as usize] {
                    self.rec_at(op, k, t0, t1, Pre::Absent, Eff::Keep, false);
                    if let Some(r) = self.recs.last_mut() {
                        r.weak = weak;
                    }
                }
            }
            for (i, &n) in stable.iter().enumerate() {
                if n == 0 {
                    violation("iter", format!("{op}: key {} present throughout the complete traversal was not visited", STABLE + i as u32));
                }
                if n > 1 && dups {
                    violation("iter", format!("{op}: key {} visited {n} times although the table is not resized", STABLE + i as u32));
                }
            }
        }
    }
    pub fn closure_point() {
        delay_point(U_CLOSURE);
    }
}
