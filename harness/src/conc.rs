//! Rounds of concurrent random operations on the hash containers.

use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::{AcqRel, Acquire, Relaxed, Release}};

use crate::cx::{Cx, FILLER, Prof, STABLE};
use crate::exec::{Task, block_on, run_tasks};
use crate::hash_ops::Container;
use crate::inject;
use crate::lin::{self, Eff, Pre, Rec, Stats, Verdict};
use crate::track::{self, HASH_MODES, Hb};
use crate::util::{self, BUSY, Rng, count, distinct, fnv, progress, sample, violation};

/// Sets the flag when dropped, so that others stop even when a thread unwinds.
pub struct Done<'a>(pub &'a AtomicUsize);
impl Drop for Done<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, AcqRel);
    }
}

pub struct Start {
    pub waiting: AtomicUsize,
    pub go: AtomicBool,
}

impl Start {
    pub fn new(n: usize) -> Self {
        Start { waiting: AtomicUsize::new(n), go: AtomicBool::new(false) }
    }
    pub fn wait(&self) {
        self.waiting.fetch_sub(1, AcqRel);
        while !self.go.load(Acquire) {
            if cfg!(miri) {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

/// Fills and empties the container with private keys to make it grow and shrink.
fn filler<C: Container>(c: &C, base: u32, rng: &mut Rng, left: &AtomicUsize, sync: bool, recs: &mut Vec<Rec>) -> u64 {
    let mut cycles = 0;
    loop {
        let n = if cfg!(miri) { 20 } else { [40, 80, 200, 600][rng.below(4) as usize] };
        let uid = (u64::from(base) << 32) | cycles << 16;
        let mut up = 0;
        let lost = |what: &str, id: u32, got: Option<u64>, want: u64| {
            if got == Some(want) || (got.is_none() && C::EVICTS) {
                return;
            }
            violation(
                "lin",
                format!("{}: {what} of the private key {id} found {got:?} instead of {want}", C::NAME),
            );
        };
        while up < n {
            let t0 = lin::now();
            let (ok, ev) = if sync { c.put(base + up, uid + u64::from(up)) } else { block_on(c.put_a(base + up, uid + u64::from(up))) };
            if let Some((key, v)) = ev {
                let t1 = lin::now();
                if key < FILLER {
                    recs.push(Rec { key, t0, t1, op: "evicted", thr: 98, opt: false, many: false, weak: false, pre: Pre::Is(v), eff: Eff::Clear });
                }
            }
            if !ok {
                violation("lin", format!("{}: the private key {} was rejected as a duplicate", C::NAME, base + up));
            }
            up += 1;
            if up % 4 == 0 {
                let k = rng.below(u64::from(up)) as u32;
                let r = if sync { c.look(base + k) } else { block_on(c.look_a(base + k)) };
                lost("look", base + k, r, uid + u64::from(k));
                let r = c.look(base + up);
                if r.is_some() {
                    violation("lin", format!("{}: private key {} never inserted was found", C::NAME, base + up));
                }
            }
            if left.load(Relaxed) == 0 || !track::room() {
                break;
            }
        }
        for i in 0..up {
            let r = if sync { c.take(base + i) } else { block_on(c.take_a(base + i)) };
            lost("removal", base + i, r, uid + u64::from(i));
            if i % 8 == 0 && c.look(base + i).is_some() {
                violation("lin", format!("{}: private key {} found after its removal", C::NAME, base + i));
            }
        }
        cycles += 1;
        if left.load(Relaxed) == 0 || !track::room() {
            return cycles;
        }
    }
}

pub fn round<C: Container>(rng: &mut Rng, base_prof: &Prof) {
    let miri = cfg!(miri);
    let mut prof = base_prof.clone();
    let mut mode = if rng.chance(2, 5) { 0 } else { rng.below(u64::from(HASH_MODES)) as u8 };
    let mut keys = if miri { 1 + rng.below(6) } else { [1, 2, 3, 6, 12, 24, 48][rng.below(7) as usize] } as u32;
    let mut cap = if miri { [0, 64][rng.below(2) as usize] } else { [0, 0, 64, 1024][rng.below(4) as usize] };
    if C::EVICTS && rng.chance(1, 2) {
        keys = if miri { 40 } else { 40 + rng.below(200) as u32 };
    }
    if prof.no_resize {
        // Few keys in a large table: neither an overfull nor a sparse bucket triggers anything.
        mode = 0;
        cap = 2048;
        prof.filler = false;
    }
    if prof.stable != 0 {
        prof.stable = if miri { 3 } else { 1 + rng.below(u64::from(prof.stable)) as u32 };
        if C::EVICTS {
            // Stable entries must not be evicted.
            mode = 0;
            keys = keys.min(12);
            prof.stable = prof.stable.min(24);
            cap = cap.max(1024);
            prof.filler = false;
        }
        prof.clear = 0;
    }
    // An eviction is lost with the call that reports it.
    prof.oom &= !C::EVICTS;
    let hb = Hb { mode, seed: rng.next() };
    let delays = inject::configure(rng, inject::TARGETS);
    let most = if miri { 2 } else if rng.chance(1, 3) { 7 } else { 3 };
    let mut threads = 2 + rng.below(most) as usize;
    if prof.single {
        threads = 1;
        prof.filler = false;
        if rng.chance(2, 3) {
            keys = if miri { 30 } else { 100 + rng.below(300) as u32 };
        }
    }
    let ops = if miri { 4 + rng.below(12) } else { [10, 40, 120, 300][rng.below(4) as usize] } as usize;
    let fillers = if prof.filler && rng.chance(1, 2) { 1 + usize::from(!miri && rng.chance(1, 3)) } else { 0 };
    if fillers == 0 {
        prof.filler = false;
    }
    util::set_context(format!("mode {mode} capacity {cap} keys {keys} threads {threads} x {ops} fillers {fillers} delays {delays} stable {} no_resize {} single {}", prof.stable, prof.no_resize, prof.single));
    let c = C::make(cap, hb.clone());
    let mut recs: Vec<Rec> = Vec::new();
    for i in 0..prof.stable {
        c.put(STABLE + i, u64::from(STABLE + i));
    }
    {
        let mut cx = Cx::new(rng.fork(), 99, keys, true, &prof);
        for k in 0..keys {
            if rng.chance(1, 2) {
                let t0 = lin::now();
                let u = cx.uid();
                let (ok, ev) = c.put(k, u);
                if let Some((ek, ev)) = ev {
                    cx.rec("evicted", ek, t0, Pre::Is(ev), Eff::Clear);
                }
                cx.rec("prefill", k, t0, if ok { Pre::Absent } else { Pre::Present }, if ok { Eff::Set(u) } else { Eff::Keep });
            }
        }
        recs.append(&mut cx.recs);
    }
    let left = AtomicUsize::new(threads);
    let start = Start::new(threads + fillers);
    let mut cancelled = 0;
    let mut cycles = 0;
    let mut evictions = 0;
    let mut sig = 0;
    let mut tasked = 0;
    BUSY.store(true, Relaxed);
    std::thread::scope(|s| {
        let (c, prof, left, start) = (&c, &prof, &left, &start);
        let mut hs = Vec::new();
        for t in 0..threads {
            let mut r = rng.fork();
            hs.push(s.spawn(move || {
                let _done = Done(left);
                inject::enter_thread(r.next());
                let ntasks = if r.chance(u64::from(prof.tasks), 100) { 2 + r.below(if prof.single { 10 } else { 4 }) as usize } else { 1 };
                let sync = ntasks == 1 && r.chance(9, 10);
                let mut cxs: Vec<Cx<'_>> = (0..ntasks)
                    .map(|i| {
                        let mut cx = Cx::new(r.fork(), (t * 8 + i) as u16, keys, sync, prof);
                        cx.weak_miss = C::LOCK_FREE;
                        cx
                    })
                    .collect();
                start.wait();
                let each = if prof.single { 1 + ops / 3 } else { ops.div_ceil(ntasks) };
                if ntasks == 1 && sync {
                    let cx = &mut cxs[0];
                    block_on(async {
                        for _ in 0..each {
                            c.step(cx).await;
                            progress();
                        }
                    });
                } else {
                    let tasks: Vec<Task<'_>> = cxs
                        .iter_mut()
                        .map(|cx| {
                            Box::pin(async move {
                                for _ in 0..each {
                                    c.step(cx).await;
                                    progress();
                                    if cx.rng.chance(1, 4) {
                                        crate::exec::yield_now().await;
                                    }
                                }
                            }) as Task<'_>
                        })
                        .collect();
                    run_tasks(tasks, &mut r, false);
                }
                let sig = inject::leave_thread();
                let mut out = (Vec::new(), 0, 0, sig, ntasks, 0);
                for cx in cxs {
                    out.0.extend(cx.recs);
                    out.1 += cx.cancelled + cx.panicked;
                    out.2 += cx.hist[0];
                    out.5 += cx.sum_visits;
                }
                out
            }));
        }
        let mut fs = Vec::new();
        for f in 0..fillers {
            let mut r = rng.fork();
            fs.push(s.spawn(move || {
                inject::enter_thread(r.next());
                let sync = r.chance(1, 2);
                start.wait();
                let mut recs = Vec::new();
                let n = filler(c, FILLER + 10_000 * f as u32, &mut r, left, sync, &mut recs);
                inject::leave_thread();
                (n, recs)
            }));
        }
        while start.waiting.load(Acquire) != 0 {
            std::thread::yield_now();
        }
        start.go.store(true, Release);
        for h in hs {
            let (r, cn, ev, sg, nt, vis) = h.join().unwrap();
            recs.extend(r);
            cancelled += cn;
            evictions += ev;
            sig = fnv(sig, sg);
            tasked += usize::from(nt > 1);
            count("traversal_visits", vis);
        }
        for f in fs {
            let (n, r) = f.join().unwrap();
            cycles += n;
            recs.extend(r);
        }
    });
    BUSY.store(false, Relaxed);
    inject::off();
    // Quiescent observations.
    let mut present = 0;
    let dump = c.dump();
    for k in 0..keys {
        let t0 = lin::now();
        let v = c.look(k);
        let t1 = lin::now();
        recs.push(Rec { key: k, t0, t1, op: "final", thr: 99, opt: false, many: false, weak: false, pre: v.map_or(Pre::Absent, Pre::Is), eff: Eff::Keep });
        let seen: Vec<u64> = dump.iter().filter(|d| d.0 == k).map(|d| d.1).collect();
        match v {
            Some(u) => {
                present += 1;
                if seen.len() != 1 || seen[0] != u {
                    violation("final", format!("{}: key {k} has value {u}, the final traversal found {seen:?}", C::NAME));
                }
            }
            None => {
                if !seen.is_empty() {
                    violation("final", format!("{}: key {k} is absent, the final traversal found {seen:?}", C::NAME));
                }
            }
        }
    }
    for i in 0..prof.stable {
        let id = STABLE + i;
        if c.look(id) == Some(u64::from(id)) {
            present += 1;
        } else {
            violation("lin", format!("{}: the untouched key {id} is gone or changed", C::NAME));
        }
    }
    let leftover = dump.iter().filter(|d| d.0 >= FILLER && d.0 < STABLE).count();
    if leftover != 0 {
        violation("final", format!("{}: {leftover} removed private keys are still visited", C::NAME));
    }
    if c.size() != present {
        violation("size", format!("{}: len is {} with {present} entries", C::NAME, c.size()));
    }
    let (cp, range) = (c.cap(), c.cap_range());
    if range.start() > range.end() || (cp != 0 && !range.contains(&cp)) {
        violation("capacity", format!("{}: capacity {cp}, range {range:?}, {present} entries", C::NAME));
    }
    drop(c);
    if cancelled != 0 {
        count("cancelled", cancelled);
    }
    track::check_all_dropped(C::NAME);
    let stats = check(&mut recs, keys, C::NAME);
    if stats.overlaps != 0 {
        distinct(fnv(stats.sig, sig));
    }
    count("rounds", 1);
    count(&format!("mode_{mode}"), 1);
    count("evictions", evictions);
    count("filler_cycles", cycles);
    count("task_threads", tasked as u64);
    sample(|| {
        format!(
            "{} hash mode {mode} capacity {cap}: {keys} keys, {threads} threads ({tasked} multi-task) x {ops} ops, {fillers} fillers ({cycles} cycles), delays {delays}, {} events, {} overlapping, widest {}, {} evictions, {} cancelled, {} stable, no_resize {}",
            C::NAME, recs.len(), stats.overlaps, stats.max_width, evictions, cancelled, prof.stable, prof.no_resize
        )
    });
}

/// Checks the observations of lock-free traversals, which are not linearizable with other reads: a
/// value seen must not have been replaced or removed before, and a key missed must not have been
/// present all the time without being updated. Returns the other records.
fn weak_reads(recs: &[Rec], what: &str) -> Option<Vec<Rec>> {
    if !recs.iter().any(|r| r.weak) {
        return None;
    }
    let mut out = Vec::with_capacity(recs.len());
    for r in recs {
        if !r.weak {
            out.push(*r);
            continue;
        }
        match r.pre {
            Pre::Absent => {
                let updated = recs.iter().any(|u| {
                    matches!(u.eff, Eff::Set(_)) && u.pre != Pre::Absent && u.t0 <= r.t1 && r.t0 <= u.t1
                });
                if updated {
                    count("traversal_misses_excused", 1);
                } else {
                    out.push(*r);
                }
            }
            Pre::Is(v) => {
                let Some(w) = recs.iter().find(|w| w.eff == Eff::Set(v)) else {
                    violation("iter", format!("{what}: {} visited a value nobody wrote", r.show()));
                    continue;
                };
                if w.t0 > r.t1 {
                    violation("iter", format!("{what}: {} visited a value written later by {}", r.show(), w.show()));
                }
                let gone = recs.iter().find(|x| {
                    !x.weak && !x.opt && x.t1 < r.t0 && w.t1 < x.t0
                        && (x.pre == Pre::Is(v) && x.eff != Eff::Keep || x.eff != Eff::Keep && x.eff != Eff::Set(v))
                });
                if let Some(x) = gone {
                    violation("iter", format!("{what}: {} visited a value that was gone after {}", r.show(), x.show()));
                }
            }
            _ => out.push(*r),
        }
    }
    Some(out)
}

/// Checks the recorded history key by key.
pub fn check(recs: &mut [Rec], keys: u32, what: &str) -> Stats {
    let mut stats = Stats::default();
    recs.sort_by_key(|r| (r.key, r.t0));
    let mut i = 0;
    while i < recs.len() {
        let k = recs[i].key;
        let mut j = i;
        while j < recs.len() && recs[j].key == k {
            j += 1;
        }
        debug_assert!(k < keys);
        stats.keys += 1;
        let kept = weak_reads(&recs[i..j], what);
        let hist = kept.as_deref().unwrap_or(&recs[i..j]);
        match lin::check_key(hist, 0, &mut stats) {
            Verdict::Ok => (),
            Verdict::Violation(m) => violation("lin", format!("{what}: {m}")),
            Verdict::Unknown => (),
        }
        i = j;
    }
    stats.ops = recs.len() as u64;
    count("events", stats.ops);
    count("overlapping_events", stats.overlaps);
    count("key_histories", stats.keys);
    count("key_histories_given_up", stats.unknown);
    for r in recs.iter() {
        *OPS.lock().unwrap().entry(r.op).or_insert(0u64) += 1;
    }
    stats
}

static OPS: std::sync::Mutex<std::collections::BTreeMap<&'static str, u64>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

pub fn publish_ops() {
    let m = std::mem::take(&mut *OPS.lock().unwrap_or_else(|e| e.into_inner()));
    for (k, v) in m {
        util::count(&format!("op_{k}"), v);
    }
}
