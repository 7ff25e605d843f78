//! Recording of operations and the per-key linearizability checker.

use std::collections::HashSet;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering::{AcqRel, SeqCst}, fence};
use std::time::Instant;

use crate::util::fnv;

static BASE: OnceLock<Instant> = OnceLock::new();
static TICK: AtomicU64 = AtomicU64::new(1);

/// Timestamp of an invocation or a return.
pub fn now() -> u64 {
    if cfg!(miri) {
        return TICK.fetch_add(1, AcqRel);
    }
    let _ = &TICK;
    fence(SeqCst);
    let t = BASE.get_or_init(Instant::now).elapsed().as_nanos() as u64;
    fence(SeqCst);
    t
}

/// What the operation requires of the state before it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pre {
    Any,
    Absent,
    Present,
    Is(u64),
}

/// What the operation does to the state.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Eff {
    Keep,
    Set(u64),
    Clear,
}

#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub key: u32,
    pub t0: u64,
    pub t1: u64,
    pub op: &'static str,
    pub thr: u16,
    /// The operation may also not take effect at all.
    pub opt: bool,
    /// The operation may take effect repeatedly.
    pub many: bool,
    /// The observation does not count if the entry is updated at the same time.
    pub weak: bool,
    pub pre: Pre,
    pub eff: Eff,
}

impl Rec {
    pub fn show(&self) -> String {
        format!(
            "[{}..{}] t{} {} k{} {:?}->{:?}{}",
            self.t0,
            self.t1,
            self.thr,
            self.op,
            self.key,
            self.pre,
            self.eff,
            if self.opt { " (optional)" } else if self.many { " (repeatable)" } else { "" }
        )
    }
}

/// `0` stands for an absent key.
fn apply(r: &Rec, s: u64) -> Option<u64> {
    let ok = match r.pre {
        Pre::Any => true,
        Pre::Absent => s == 0,
        Pre::Present => s != 0,
        Pre::Is(v) => s == v,
    };
    if !ok {
        return None;
    }
    Some(match r.eff {
        Eff::Keep => s,
        Eff::Set(v) => v,
        Eff::Clear => 0,
    })
}

pub enum Verdict {
    Ok,
    Violation(String),
    /// The search was given up.
    Unknown,
}

#[derive(Default)]
pub struct Stats {
    pub ops: u64,
    pub keys: u64,
    pub overlaps: u64,
    pub max_width: usize,
    pub max_configs: usize,
    pub unknown: u64,
    pub sig: u64,
}

/// Checks the history of one key, starting from `init` (`0`: absent).
///
/// `recs` must be sorted by `t0`.
pub fn check_key(recs: &[Rec], init: u64, stats: &mut Stats) -> Verdict {
    const LIMIT: usize = 200_000;
    // Events: (time, is_return, index); an invocation precedes a return at the same time, so that
    // they count as concurrent.
    let mut ev: Vec<(u64, bool, usize)> = Vec::with_capacity(recs.len() * 2);
    for (i, r) in recs.iter().enumerate() {
        ev.push((r.t0, false, i));
        ev.push((r.t1, true, i));
    }
    ev.sort_unstable();
    let mut slots: Vec<Option<usize>> = Vec::new();
    let mut slot_of = vec![usize::MAX; recs.len()];
    let mut configs: HashSet<(u64, u128)> = HashSet::new();
    configs.insert((init, 0));
    let mut pending = 0usize;
    let mut trail: Vec<usize> = Vec::new();
    let mut sig = stats.sig;
    for &(_, ret, i) in &ev {
        sig = fnv(sig, u64::from(ret) << 8 | u64::from(recs[i].thr));
        if !ret {
            let s = slots.iter().position(Option::is_none).unwrap_or_else(|| {
                slots.push(None);
                slots.len() - 1
            });
            if s >= 128 {
                stats.unknown += 1;
                return Verdict::Unknown;
            }
            slots[s] = Some(i);
            slot_of[i] = s;
            pending += 1;
            if pending > 1 {
                stats.overlaps += 1;
            }
            stats.max_width = stats.max_width.max(pending);
            if recs[i].eff == Eff::Keep {
                configs = configs
                    .into_iter()
                    .map(|(st, m)| if apply(&recs[i], st).is_some() { (st, m | 1 << s) } else { (st, m) })
                    .collect();
            }
            continue;
        }
        trail.push(i);
        let s = slot_of[i];
        let bit = 1u128 << s;
        let mut next: HashSet<(u64, u128)> = HashSet::new();
        let mut seen: HashSet<(u64, u128)> = HashSet::new();
        let mut work: Vec<(u64, u128)> = Vec::new();
        for &c in &configs {
            if c.1 & bit != 0 && !recs[i].many {
                next.insert((c.0, c.1 & !bit));
            } else {
                if c.1 & bit != 0 {
                    next.insert((c.0, c.1 & !bit));
                }
                if recs[i].opt {
                    next.insert((c.0, c.1 & !bit));
                }
                if seen.insert(c) {
                    work.push(c);
                }
            }
        }
        // Marks the pending operations that change nothing and are possible now: linearising them
        // at once never excludes anything.
        let saturate = |st: u64, mut m: u128| {
            for (p, o) in slots.iter().enumerate() {
                if let Some(o) = *o {
                    if recs[o].eff == Eff::Keep && apply(&recs[o], st).is_some() {
                        m |= 1 << p;
                    }
                }
            }
            m
        };
        while let Some((st, m)) = work.pop() {
            if let Some(n) = apply(&recs[i], st) {
                next.insert((n, saturate(n, m) & !bit));
            }
            if m & bit != 0 {
                next.insert((st, m & !bit));
            }
            for (p, o) in slots.iter().enumerate() {
                let Some(o) = *o else { continue };
                let r = &recs[o];
                if (p == s || m & (1 << p) != 0) && !r.many {
                    continue;
                }
                if r.eff == Eff::Keep {
                    continue;
                }
                if let Some(n) = apply(r, st) {
                    let c = (n, saturate(n, m | (1 << p)));
                    if seen.insert(c) {
                        work.push(c);
                    }
                }
            }
            if seen.len() > LIMIT {
                stats.unknown += 1;
                return Verdict::Unknown;
            }
        }
        slots[s] = None;
        pending -= 1;
        stats.max_configs = stats.max_configs.max(next.len());
        if next.is_empty() {
            let from = trail.len().saturating_sub(24);
            let mut msg = format!(
                "key {}: no sequential order explains {}; states possible before: {:?}; completed before (latest last): ",
                recs[i].key,
                recs[i].show(),
                configs.iter().map(|c| c.0).collect::<HashSet<_>>()
            );
            for &t in &trail[from..] {
                msg.push_str(&recs[t].show());
                msg.push_str("; ");
            }
            msg.push_str("pending: ");
            for o in slots.iter().flatten() {
                msg.push_str(&recs[*o].show());
                msg.push_str("; ");
            }
            stats.sig = sig;
            return Verdict::Violation(msg);
        }
        configs = next;
    }
    stats.sig = sig;
    Verdict::Ok
}

#[cfg(test)]
mod tests {
    use super::*;
    fn r(t0: u64, t1: u64, pre: Pre, eff: Eff) -> Rec {
        Rec { key: 0, t0, t1, op: "x", thr: t0 as u16, opt: false, many: false, weak: false, pre, eff }
    }
    fn ok(mut v: Vec<Rec>, init: u64) -> bool {
        v.sort_by_key(|r| r.t0);
        matches!(check_key(&v, init, &mut Stats::default()), Verdict::Ok)
    }
    /// All orders.
    fn brute(v: &[Rec], used: u32, s: u64) -> bool {
        let n = v.len();
        if (0..n).all(|i| used & (1 << i) != 0 || v[i].opt) {
            return true;
        }
        for i in 0..n {
            if used & (1 << i) != 0 {
                continue;
            }
            // `i` may be next only if no other mandatory or unused one returned before it started.
            if (0..n).any(|j| j != i && used & (1 << j) == 0 && v[j].t1 < v[i].t0 && !v[j].opt) {
                continue;
            }
            // Optional ones that ended before are skipped for good.
            let mut u = used | (1 << i);
            for j in 0..n {
                if u & (1 << j) == 0 && v[j].opt && v[j].t1 < v[i].t0 {
                    u |= 1 << j;
                }
            }
            if let Some(n2) = apply(&v[i], s) {
                if brute(v, u, n2) {
                    return true;
                }
            }
        }
        false
    }
    #[test]
    fn simple() {
        assert!(ok(vec![r(0, 10, Pre::Absent, Eff::Set(1)), r(5, 15, Pre::Is(1), Eff::Keep)], 0));
        assert!(ok(vec![r(0, 10, Pre::Absent, Eff::Set(1)), r(5, 15, Pre::Absent, Eff::Keep)], 0));
        assert!(!ok(vec![r(0, 4, Pre::Absent, Eff::Set(1)), r(5, 15, Pre::Absent, Eff::Keep)], 0));
    }
    #[test]
    fn against_brute_force() {
        let mut g = crate::util::Rng::new(7);
        let (mut yes, mut no) = (0, 0);
        for _ in 0..200_000 {
            let n = 1 + g.below(5) as usize;
            let mut v: Vec<Rec> = (0..n)
                .map(|_| {
                    let t0 = g.below(20);
                    let t1 = t0 + 1 + g.below(8);
                    let pre = *g.pick(&[Pre::Any, Pre::Absent, Pre::Present, Pre::Is(1), Pre::Is(2)]);
                    let eff = *g.pick(&[Eff::Keep, Eff::Keep, Eff::Set(1), Eff::Set(2), Eff::Clear]);
                    let mut x = r(t0, t1, pre, eff);
                    x.opt = g.chance(1, 5);
                    x.many = g.chance(1, 6);
                    x
                })
                .collect();
            v.sort_by_key(|r| r.t0);
            let init = g.below(3);
            // A repeatable operation equals itself and optional copies.
            let mut w = v.clone();
            for r in &v {
                if r.many {
                    for _ in 0..2 {
                        let mut c = *r;
                        c.opt = true;
                        c.many = false;
                        w.push(c);
                    }
                }
            }
            if w.len() > 8 {
                continue;
            }
            w.sort_by_key(|r| r.t0);
            let b = brute(&w, 0, init);
            let a = matches!(check_key(&v, init, &mut Stats::default()), Verdict::Ok);
            assert_eq!(a, b, "{v:?} {init}");
            if b { yes += 1 } else { no += 1 }
        }
        assert!(yes > 10_000 && no > 10_000);
    }
}
