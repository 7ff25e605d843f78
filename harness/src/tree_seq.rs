//! Random sequences of `TreeIndex` operations against an ordered map, with optional panics.

use std::collections::BTreeMap;
use std::ops::Bound;
use std::sync::atomic::Ordering::Relaxed;

use scc::{Guard, TreeIndex};

use crate::exec::block_on;
use crate::inject::{U_CLOSURE, calls, upoint};
use crate::seq::{Aff, Ent, Fired, Mode, W};
use crate::track::{Id, Key, REVERSE, Val, check_all_dropped, created, room};
use crate::util::{Rng, count, distinct, progress, sample};
use crate::{go, sa};

type T = TreeIndex<Key, Val>;
type R = Result<(), Fired>;
type B = Bound<u32>;

fn rev() -> bool {
    REVERSE.load(Relaxed)
}

/// Position in the order of the keys.
fn pos(k: u32) -> u32 {
    if rev() { !k } else { k }
}

fn above(b: B, k: u32) -> bool {
    match b {
        Bound::Included(x) => pos(k) >= pos(x),
        Bound::Excluded(x) => pos(k) > pos(x),
        Bound::Unbounded => true,
    }
}
fn below(b: B, k: u32) -> bool {
    match b {
        Bound::Included(x) => pos(k) <= pos(x),
        Bound::Excluded(x) => pos(k) < pos(x),
        Bound::Unbounded => true,
    }
}

fn idb(b: B) -> Bound<Id> {
    match b {
        Bound::Included(x) => Bound::Included(Id(x)),
        Bound::Excluded(x) => Bound::Excluded(Id(x)),
        Bound::Unbounded => Bound::Unbounded,
    }
}

/// Keys are spread, so that bounds also fall between them.
const STEP: u32 = 3;

fn a_bound(w: &mut W) -> B {
    let any = w.rng.below(u64::from(w.nkeys * STEP) + 6) as u32;
    // Keys that are there make the interesting bounds.
    let k = if w.rng.chance(1, 2) {
        w.m.range(any..).next().map_or(any, |x| *x.0)
    } else {
        any
    };
    match w.rng.below(6) {
        0 => Bound::Unbounded,
        1..=3 => Bound::Included(k),
        _ => Bound::Excluded(k),
    }
}

fn bounds(w: &mut W) -> (B, B) {
    let (a, b) = (a_bound(w), a_bound(w));
    let num = |b: B| match b {
        Bound::Included(x) | Bound::Excluded(x) => Some(x),
        Bound::Unbounded => None,
    };
    match (num(a), num(b)) {
        // Mostly in order; short ranges are as frequent as long ones.
        (Some(x), Some(y)) => {
            if w.rng.chance(1, 3) {
                let y = x.saturating_add(w.rng.below(60) as u32);
                let b = if w.rng.chance(1, 2) { Bound::Included(y) } else { Bound::Excluded(y) };
                return if rev() { (b, a) } else { (a, b) };
            }
            if pos(x) > pos(y) && w.rng.chance(9, 10) { (b, a) } else { (a, b) }
        }
        _ => (a, b),
    }
}

fn dump(t: &T) -> Vec<(u32, Ent)> {
    let g = Guard::new();
    t.iter(&g).map(|(k, v)| (k.id, W::ent(k, v))).collect()
}

fn expect(w: &W, lo: B, hi: B) -> Vec<(u32, Ent)> {
    let mut v: Vec<(u32, Ent)> = w.m.iter().filter(|x| above(lo, *x.0) && below(hi, *x.0)).map(|x| (*x.0, *x.1)).collect();
    if rev() {
        v.reverse();
    }
    v
}

fn diff(got: &[(u32, Ent)], want: &[(u32, Ent)]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{} instead of {} pairs, at {i}: {:?} instead of {:?}", got.len(), want.len(), got.get(i), want.get(i))
}

/// Walks over a range while the content changes.
fn walk(t: &T, w: &mut W) -> R {
    let (lo, hi) = if w.rng.chance(1, 2) { (Bound::Unbounded, Bound::Unbounded) } else { bounds(w) };
    w.begin_op("walk", 0, Aff::All, true);
    let g = Guard::new();
    let whole = matches!((lo, hi), (Bound::Unbounded, Bound::Unbounded)) && w.rng.chance(1, 2);
    let mut it: Box<dyn Iterator<Item = (&Key, &Val)>> =
        if whole { Box::new(t.iter(&g)) } else { Box::new(t.range((idb(lo), idb(hi)), &g)) };
    // Entries there before the first call and never removed since.
    let mut stable: BTreeMap<u32, Ent> = w.m.clone();
    let mut ever: BTreeMap<u32, Vec<Ent>> = w.m.iter().map(|(k, e)| (*k, vec![*e])).collect();
    let mut got: Vec<u32> = Vec::new();
    let mut held: Vec<(&Key, &Val, u32, Ent)> = Vec::new();
    let changes = w.rng.below(4);
    loop {
        let x = go!(w, it.next());
        let Some((k, v)) = x else { break };
        let e = W::ent(k, v);
        let id = k.id;
        held.push((k, v, id, e));
        if !above(lo, id) || !below(hi, id) {
            w.bad("iter", format!("walk over {lo:?}..{hi:?} visits {id}"));
            w.stop = true;
        }
        if got.last().is_some_and(|l| pos(*l) >= pos(id)) {
            w.bad("iter", format!("walk visits {id} after {}", got[got.len() - 1]));
            w.stop = true;
        }
        if !ever.get(&id).is_some_and(|v| v.contains(&e)) {
            w.bad("iter", format!("walk visits {id} {e:?}, which was there at no time since: {:?}", ever.get(&id)));
            w.stop = true;
        }
        got.push(id);
        if w.stop {
            return Ok(());
        }
        if w.rng.below(4) < changes {
            // Near the iterator most of the time.
            let near = if w.rng.chance(2, 3) {
                let d = w.rng.below(80) as u32;
                if w.rng.chance(1, 2) { id.saturating_sub(d) } else { id + d }
            } else {
                w.key() * STEP
            };
            match w.rng.below(8) {
                0..=2 => {
                    let u = w.uid();
                    let k = Key::new(near);
                    let e = (k.ser, u);
                    let had = w.want(near).is_some();
                    let r = go!(w, t.insert_sync(k, Val::new(u)));
                    w.chk("insert", r.is_ok(), !had);
                    if !had {
                        w.ins(near, e);
                        ever.entry(near).or_default().push(e);
                    }
                }
                3..=5 => {
                    let had = w.want(near).is_some();
                    let r = go!(w, t.remove_sync(&Id(near)));
                    w.chk("remove", r, had);
                    w.del(near);
                    stable.remove(&near);
                }
                6 => {
                    let to = near + w.rng.below(100) as u32;
                    let (a, b) = if rev() { (to, near) } else { (near, to) };
                    go!(w, t.remove_range_sync(Id(a)..=Id(b)));
                    w.calm = false;
                    let ks: Vec<u32> = w.m.range(near..=to).map(|x| *x.0).collect();
                    for k in ks {
                        w.del(k);
                        stable.remove(&k);
                    }
                }
                _ => {
                    let l = go!(w, t.len());
                    w.chk("len", l, w.m.len());
                }
            }
        }
        if w.rng.chance(1, 400) {
            drop(it);
            recheck(w, &held);
            return Ok(());
        }
    }
    for (k, _) in stable {
        if above(lo, k) && below(hi, k) && !got.contains(&k) {
            w.bad("iter", format!("walk over {lo:?}..{hi:?} does not visit {k}, present all the time"));
            w.stop = true;
            break;
        }
    }
    // The end is the end.
    for _ in 0..3 {
        if w.rng.chance(1, 2) {
            let k = w.key() * STEP;
            let u = w.uid();
            if w.want(k).is_none() {
                let k = Key::new(k);
                let e = (k.id, (k.ser, u));
                let r = go!(w, t.insert_sync(k, Val::new(u)));
                w.chk("insert", r.is_ok(), true);
                w.ins(e.0, e.1);
            }
        }
        if let Some((k, _)) = go!(w, it.next()) {
            w.bad("fused", format!("next after the end gives {}", k.id));
            w.stop = true;
        }
    }
    count("walks", 1);
    drop(it);
    recheck(w, &held);
    Ok(())
}

fn recheck(w: &mut W, held: &[(&Key, &Val, u32, Ent)]) {
    for (k, v, id, e) in held {
        k.check("held key");
        if k.id != *id || W::ent(k, v) != *e {
            w.bad("ref", format!("a held reference to {id} {e:?} shows {} {:?}", k.id, W::ent(k, v)));
            w.stop = true;
        }
    }
    count("held_references", held.len() as u64);
}

fn copies(t: &T, w: &mut W) -> R {
    w.begin_op("copy", 0, Aff::Keys(Vec::new()), false);
    match w.rng.below(3) {
        0 => {
            let d = go!(w, t.clone());
            compare(t, &d, w, true, "clone")?;
        }
        1 => {
            let s = match go!(w, serde_json::to_string(t)) {
                Ok(s) => s,
                Err(e) => {
                    w.bad("copy", format!("cannot serialize: {e}"));
                    return Ok(());
                }
            };
            match go!(w, serde_json::from_str::<T>(&s)) {
                Ok(d) => compare(t, &d, w, false, "deserialized")?,
                Err(e) => {
                    w.bad("copy", format!("cannot deserialize {s}: {e}"));
                    w.stop = true;
                }
            }
        }
        _ => {
            let s = go!(w, format!("{t:?}"));
            let want = expect(w, Bound::Unbounded, Bound::Unbounded);
            let want: Vec<String> = want.iter().map(|(k, e)| format!("K{k}: V{}", e.1)).collect();
            if s != format!("{{{}}}", want.join(", ")) {
                w.bad("copy", format!("shown as {s}"));
                w.stop = true;
            }
        }
    }
    Ok(())
}

fn compare(t: &T, d: &T, w: &mut W, sers: bool, what: &str) -> R {
    let x = dump(d);
    w.content(what, "copy", &x, sers);
    let e = go!(w, *t == *d) && go!(w, *d == *t);
    if !e {
        w.bad("copy", format!("{what}: differs from its source"));
        w.stop = true;
    }
    // Every difference in content is seen; a copy lives on independently.
    for _ in 0..1 + w.rng.below(3) {
        let k = if w.rng.chance(1, 2) { w.key() * STEP } else { w.m.keys().next().copied().unwrap_or(3) };
        if w.want(k).is_some() {
            go!(w, d.remove_sync(&Id(k)));
        } else {
            let u = w.uid();
            drop(go!(w, d.insert_sync(Key::new(k), Val::new(u))));
        }
        let e = go!(w, *t == *d) || go!(w, *d == *t);
        if e {
            w.bad("copy", format!("{what}: equal although {k} was changed in it"));
            w.stop = true;
        }
        // And back, with a different value or the same.
        if let Some(e) = w.want(k) {
            let same = w.rng.chance(1, 2);
            let u = if same { e.1 } else { w.uid() };
            drop(go!(w, d.insert_sync(Key::with_ser(k, e.0), Val::new(u))));
            let e = go!(w, *t == *d) && go!(w, *d == *t);
            if e != same {
                w.bad("copy", format!("{what}: equality is {e} with value of {k} the same: {same}"));
                w.stop = true;
            }
            if !same {
                return Ok(());
            }
        } else {
            go!(w, d.remove_sync(&Id(k)));
            let e = go!(w, *t == *d) && go!(w, *d == *t);
            if !e {
                w.bad("copy", format!("{what}: unequal after the change was undone"));
                w.stop = true;
            }
        }
    }
    let x = dump(t);
    w.content("source of a copy", "copy", &x, true);
    Ok(())
}

fn op(t: &T, w: &mut W, key: u32) -> R {
    let k = key;
    let id = Id(k);
    let old = w.want(k);
    match w.rng.below(60) {
        0..=16 => {
            let u = w.uid();
            w.begin_op("insert", k, Aff::One(k), false);
            let kk = Key::new(k);
            let e = (kk.ser, u);
            match sa!(w, t, insert_sync / insert_async(kk, Val::new(u))) {
                Ok(()) => {
                    w.chk("insert", None, old);
                    w.ins(k, e);
                }
                Err((rk, rv)) => {
                    w.pair("insert gives back", k, Some((&rk, &rv)), Some(e));
                    w.chk("insert rejects", true, old.is_some());
                }
            }
        }
        17..=30 => {
            w.begin_op("remove", k, Aff::One(k), true);
            let r = sa!(w, t, remove_sync / remove_async(&id));
            w.chk("remove", r, old.is_some());
            w.del(k);
        }
        31..=34 => {
            w.begin_op("remove_if", k, Aff::One(k), true);
            let yes = w.rng.chance(2, 3);
            let mut seen = Vec::new();
            let r = sa!(w, t, remove_if_sync / remove_if_async(&id, |v: &Val| {
                seen.push(v.check("remove_if"));
                upoint(U_CLOSURE);
                yes
            }));
            w.chk("remove_if", r, yes && old.is_some());
            w.chk("remove_if asks about", seen, old.map(|e| e.1).into_iter().collect());
            if r {
                w.del(k);
            }
        }
        35..=37 => {
            w.begin_op("peek", k, Aff::Keys(Vec::new()), false);
            let g = Guard::new();
            let v = go!(w, t.peek(&id, &g));
            w.val("peek", v, old);
        }
        38..=40 => {
            w.begin_op("peek_with", k, Aff::Keys(Vec::new()), false);
            let r = go!(w, t.peek_with(&id, |k, v| {
                upoint(U_CLOSURE);
                (k.id, W::ent(k, v))
            }));
            w.chk("peek_with", r, old.map(|e| (k, e)));
        }
        41..=42 => {
            w.begin_op("peek_entry", k, Aff::Keys(Vec::new()), false);
            let g = Guard::new();
            let r = go!(w, t.peek_entry(&id, &g));
            w.pair("peek_entry", k, r, old);
        }
        43..=44 => {
            w.begin_op("contains", k, Aff::Keys(Vec::new()), false);
            let r = go!(w, t.contains(&id));
            w.chk("contains", r, old.is_some());
        }
        45 => {
            w.begin_op("len", 0, Aff::Keys(Vec::new()), false);
            let n = go!(w, t.len());
            if n != w.m.len() {
                let m = w.m.len();
                w.bad("size", format!("len is {n} instead of {m}"));
                w.stop = true;
            }
            let e = go!(w, t.is_empty());
            w.chk("is_empty", e, w.m.is_empty());
        }
        46..=47 => {
            let (lo, hi) = (Bound::Unbounded, Bound::Unbounded);
            w.begin_op("iter", 0, Aff::Keys(Vec::new()), false);
            let x = go!(w, dump(t));
            let want = expect(w, lo, hi);
            if x != want {
                w.bad("iter", format!("iter: {}", diff(&x, &want)));
                w.stop = true;
            }
        }
        48..=52 => {
            let (lo, hi) = bounds(w);
            w.begin_op("range", k, Aff::Keys(Vec::new()), false);
            let g = Guard::new();
            let limit = if w.rng.chance(1, 3) { w.rng.below(30) as usize } else { usize::MAX };
            let key_bounds = w.rng.chance(1, 4);
            let x: Vec<(u32, Ent)> = if key_bounds {
                let kb = |b: B| match b {
                    Bound::Included(x) => Bound::Included(Key::new(x)),
                    Bound::Excluded(x) => Bound::Excluded(Key::new(x)),
                    Bound::Unbounded => Bound::Unbounded,
                };
                go!(w, t.range((kb(lo), kb(hi)), &g).take(limit).map(|(k, v)| (k.id, W::ent(k, v))).collect())
            } else {
                go!(w, t.range((idb(lo), idb(hi)), &g).take(limit).map(|(k, v)| (k.id, W::ent(k, v))).collect())
            };
            let mut want = expect(w, lo, hi);
            want.truncate(limit);
            if x != want {
                w.bad("iter", format!("range {lo:?}..{hi:?}: {}", diff(&x, &want)));
                w.stop = true;
            }
        }
        53..=54 => walk(t, w)?,
        55..=57 => {
            let (lo, hi) = bounds(w);
            let gone: Vec<u32> = expect(w, lo, hi).iter().map(|x| x.0).collect();
            // Everything only now and then.
            if gone.len() * 3 > w.m.len() && w.m.len() > 20 && w.rng.chance(4, 5) {
                return Ok(());
            }
            w.begin_op("remove_range", gone.len() as u32, Aff::Keys(gone.clone()), true);
            sa!(w, t, remove_range_sync / remove_range_async((idb(lo), idb(hi))));
            let before = w.m.len();
            for k in gone {
                w.del(k);
            }
            let x = dump(t);
            let want = expect(w, Bound::Unbounded, Bound::Unbounded);
            if x != want {
                w.bad("range", format!("after remove_range {lo:?}..{hi:?} of {before}: {}", diff(&x, &want)));
                w.stop = true;
            }
            for _ in 0..4 {
                let (a, b) = bounds(w);
                let p = match (w.rng.below(4), lo, hi, a, b) {
                    (0, Bound::Included(x) | Bound::Excluded(x), _, _, _) | (1, _, Bound::Included(x) | Bound::Excluded(x), _, _) => x,
                    (_, _, _, Bound::Included(x) | Bound::Excluded(x), _) => x,
                    _ => w.key() * STEP,
                };
                let v = t.peek_with(&Id(p), W::ent);
                if v != w.want(p) {
                    let e = w.want(p);
                    w.bad("range", format!("after remove_range {lo:?}..{hi:?}: {p} is {v:?} instead of {e:?}"));
                    w.stop = true;
                }
            }
            count("range_removals", 1);
        }
        58 => {
            if w.rng.chance(1, 10) {
                w.begin_op("clear", 0, Aff::All, true);
                go!(w, t.clear());
                w.m.clear();
                let d = t.depth();
                w.chk("depth after clear", d, 0);
                w.extra = 0;
            }
        }
        _ => {
            let d = go!(w, t.depth());
            depth(w, d);
        }
    }
    Ok(())
}

/// `extra` is the largest number of entries since the tree was last cleared.
fn depth(w: &mut W, d: usize) {
    let n = w.extra.max(1);
    // A node that is split is full: half of it, more than 3 entries, stays on either side.
    let mut most = 3;
    let mut m = n;
    while m > 1 {
        m /= 3;
        most += 1;
    }
    count(&format!("depth_{d:02}_bound_{most:02}"), 1);
    if d > most {
        w.bad("model", format!("depth {d} with {} entries, at most {n} so far", w.m.len()));
        w.stop = true;
    }
    if d == 0 && !w.m.is_empty() {
        w.bad("model", "depth 0 with entries".into());
        w.stop = true;
    }
}

/// A check of the whole structure after a panic.
fn after_panic(t: &T, w: &mut W) {
    let d = dump(t);
    for p in d.windows(2) {
        if pos(p[0].0) >= pos(p[1].0) {
            w.bad("unwind", format!("iteration visits {} after {} once a panic happened", p[1].0, p[0].0));
            w.stop = true;
        }
    }
    w.reconcile(&d);
    let n = t.len();
    if n != d.len() {
        w.bad("unwind", format!("len is {n} after a panic, {} entries are there", d.len()));
        w.stop = true;
    }
    for _ in 0..6 {
        let k = w.key() * STEP;
        let v = t.peek_with(&Id(k), W::ent);
        if v != w.want(k) {
            let e = w.want(k);
            w.bad("unwind", format!("after a panic, {k} is found as {v:?}, iteration shows {e:?}"));
            w.stop = true;
        }
    }
    // Locks left behind would stop these.
    if w.rng.chance(1, 4) {
        for _ in 0..20 {
            let k = w.key() * STEP;
            let u = w.uid();
            if w.want(k).is_some() {
                if !t.remove_sync(&Id(k)) {
                    w.bad("unwind", format!("{k} cannot be removed after a panic"));
                    w.stop = true;
                }
                w.del(k);
            } else {
                let kk = Key::new(k);
                let e = (kk.ser, u);
                if t.insert_sync(kk, Val::new(u)).is_err() {
                    w.bad("unwind", format!("{k} cannot be inserted after a panic"));
                    w.stop = true;
                }
                w.ins(k, e);
            }
        }
    }
}

pub fn round(rng: &mut Rng, mode: Mode) {
    let nkeys = match rng.below(6) {
        0 => 10,
        1 => 60,
        2 => 300,
        3 => 1500,
        4 => 6000,
        _ => if mode == Mode::Panic { 200 } else { 30_000 },
    };
    let nkeys = if cfg!(miri) { nkeys.min(60) } else { nkeys };
    REVERSE.store(rng.chance(1, 4), Relaxed);
    let before = calls();
    let mut w = W::new(rng.fork(), nkeys, mode);
    let t: T = if w.rng.chance(1, 2) { TreeIndex::new() } else { TreeIndex::default() };
    let steps = if cfg!(miri) { 100 } else { [200, 1000, 5000, 20_000][w.rng.below(4) as usize] };
    let (mut bulk, mut at, mut up) = (0u32, 0u32, true);
    let mut max_depth = 0;
    for i in 0..steps {
        if w.stop || !room() {
            break;
        }
        if i % 64 == 0 {
            progress();
            // Runs of neighbouring keys, or of random ones.
            bulk = w.rng.below(8) as u32;
            at = w.key();
            up = w.rng.chance(1, 2);
        }
        let k = if bulk < 3 {
            at = if up { (at + 1) % nkeys } else { (at + nkeys - 1) % nkeys };
            at * STEP
        } else if bulk == 3 {
            (at + w.rng.below(40) as u32) % nkeys * STEP
        } else {
            w.key() * STEP
        };
        let r = match (bulk, mode, w.rng.below(100)) {
            // Grow or shrink at once.
            (0 | 4 | 5, _, 0..=69) if w.rng.chance(9, 10) => insert(&t, &mut w, k),
            (1, _, 0..=79) => remove(&t, &mut w, k),
            (_, Mode::Copy, 0..=9) | (_, _, 0) if w.m.len() < 3000 => copies(&t, &mut w),
            _ => op(&t, &mut w, k),
        };
        w.extra = w.extra.max(w.m.len() as u64);
        if r.is_err() {
            after_panic(&t, &mut w);
        }
        if i % 100 == 0 {
            let d = t.depth();
            max_depth = max_depth.max(d);
            depth(&mut w, d);
        }
    }
    if !w.stop {
        let d = dump(&t);
        w.content("content", "final", &d, true);
        let want = expect(&w, Bound::Unbounded, Bound::Unbounded);
        if d != want {
            w.bad("final", format!("content: {}", diff(&d, &want)));
        }
        let n = t.len();
        if n != want.len() {
            w.bad("size", format!("len is {n} instead of {}", want.len()));
        }
    }
    // References outlive the tree.
    let g = Guard::new();
    let held: Vec<(&Key, &Val, u32, Ent)> = if w.rng.chance(1, 2) {
        let n = w.m.len().min(200) as u64;
        (0..n).filter_map(|_| {
            let k = w.key() * STEP;
            t.peek_entry(&Id(k), &g).map(|(k, v)| (k, v, k.id, W::ent(k, v)))
        }).collect()
    } else {
        Vec::new()
    };
    drop(t);
    for _ in 0..20 {
        let g = Guard::new();
        g.accelerate();
    }
    recheck(&mut w, &held);
    drop(g);
    let n = created();
    check_all_dropped("TreeIndex");
    count("ops", w.ops);
    count("instances", u64::from(n));
    count("injected_panics", w.fired);
    count("user_calls", calls() - before);
    count("rounds", 1);
    count(&format!("max_depth_{max_depth:02}"), 1);
    if w.ops > 20 {
        distinct(w.sig);
    }
    sample(|| format!("TreeIndex {:?}: {} operations on {} keys, depth up to {}, {} panics; last: {}", mode, w.ops, nkeys, max_depth, w.fired,
        w.log.iter().cloned().collect::<Vec<_>>().join(" ")));
    REVERSE.store(false, Relaxed);
}

fn insert(t: &T, w: &mut W, k: u32) -> R {
    let old = w.want(k);
    let u = w.uid();
    w.begin_op("insert", k, Aff::One(k), false);
    let kk = Key::new(k);
    let e = (kk.ser, u);
    let r = sa!(w, t, insert_sync / insert_async(kk, Val::new(u)));
    w.chk("insert", r.is_ok(), old.is_none());
    if r.is_ok() {
        w.ins(k, e);
    }
    Ok(())
}

fn remove(t: &T, w: &mut W, k: u32) -> R {
    let old = w.want(k);
    w.begin_op("remove", k, Aff::One(k), true);
    let r = sa!(w, t, remove_sync / remove_async(&Id(k)));
    w.chk("remove", r, old.is_some());
    w.del(k);
    Ok(())
}

#[allow(dead_code)]
fn unused() {
    block_on(async {});
}
