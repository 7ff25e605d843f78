//! Delays at the hook points of the crate and in user code, and injected panics.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

use crate::util::{Injected, PROGRESS, Rng, count};

pub const U_EQ: u32 = 100;
pub const U_CMP: u32 = 101;
pub const U_CLONE: u32 = 102;
pub const U_CLOSURE: u32 = 103;
pub const U_HELD: u32 = 104;
pub const U_SET: u32 = 105;
pub const POINTS: usize = 112;

static MODE: AtomicU32 = AtomicU32::new(0);
static TARGET: AtomicU32 = AtomicU32::new(0);
static DENOM: AtomicU32 = AtomicU32::new(64);
static STALL_US: AtomicU32 = AtomicU32::new(200);

pub const OFF: u32 = 0;
pub const NOISE: u32 = 1;
pub const TARGETED: u32 = 2;

static HITS: [AtomicU64; POINTS] = [const { AtomicU64::new(0) }; POINTS];
static STALLS: AtomicU64 = AtomicU64::new(0);

struct Local {
    rng: Rng,
    hits: [u32; POINTS],
    sig: u64,
}

thread_local! {
    static FIRED: Cell<u32> = const { Cell::new(0) };
    static LOCAL: RefCell<Option<Box<Local>>> = const { RefCell::new(None) };
    /// Number of calls into user code before a panic; negative if off.
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

/// Points worth stalling at.
pub const TARGETS: &[u32] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32,
];
pub const TREE_TARGETS: &[u32] = &[
    40, 41, 42, 43, 44, 45, 46, 47, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65,
    66, 67, 68, 69, 70, 71, 72, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96,
    97, 98, 99,
];

pub fn install() {
    #[cfg(scc_vhook)]
    scc::vhook::set(hook);
}

/// Chooses the delays of a round.
pub fn configure(rng: &mut Rng, targets: &[u32]) -> String {
    let m = rng.below(100);
    if m < 25 {
        MODE.store(OFF, Relaxed);
        "off".into()
    } else if m < 55 {
        let d = [8, 32, 128, 512][rng.below(4) as usize];
        DENOM.store(d, Relaxed);
        MODE.store(NOISE, Relaxed);
        format!("noise 1/{d}")
    } else {
        let t = *rng.pick(targets);
        // Sometimes delay user code instead.
        let t = if rng.chance(1, 12) { *rng.pick(&[U_EQ, U_CMP, U_CLONE, U_CLOSURE, U_HELD, U_SET]) } else { t };
        let d = [1, 2, 4, 16][rng.below(4) as usize];
        let us = [20, 100, 300, 1000][rng.below(4) as usize];
        DENOM.store(d, Relaxed);
        TARGET.store(t, Relaxed);
        STALL_US.store(us, Relaxed);
        MODE.store(TARGETED, Relaxed);
        format!("stall at {t} 1/{d} {us}us")
    }
}

pub fn off() {
    MODE.store(OFF, Relaxed);
}

pub fn describe() -> String {
    match MODE.load(Relaxed) {
        OFF => "delays off".into(),
        NOISE => format!("noise 1/{}", DENOM.load(Relaxed)),
        _ => format!("stall at {}", TARGET.load(Relaxed)),
    }
}

/// Makes the current thread subject to delays.
pub fn enter_thread(seed: u64) {
    LOCAL.with(|l| {
        *l.borrow_mut() = Some(Box::new(Local { rng: Rng::new(seed), hits: [0; POINTS], sig: 0 }));
    });
}

/// Flushes the counters of the thread; returns the signature of the points it passed.
pub fn leave_thread() -> u64 {
    LOCAL.with(|l| {
        if let Some(l) = l.borrow_mut().take() {
            for (i, &h) in l.hits.iter().enumerate() {
                if h != 0 {
                    HITS[i].fetch_add(u64::from(h), Relaxed);
                }
            }
            l.sig
        } else {
            0
        }
    })
}

pub fn publish_hits() {
    for (i, h) in HITS.iter().enumerate() {
        let h = h.swap(0, Relaxed);
        if h != 0 {
            count(&format!("point_{i}"), h);
        }
    }
    count("stalls", STALLS.swap(0, Relaxed));
}

#[cfg_attr(not(scc_vhook), allow(dead_code))]
fn hook(id: u32) {
    delay_point(id);
}

pub fn delay_point(id: u32) {
    let mode = MODE.load(Relaxed);
    let stall = LOCAL.try_with(|l| {
        let Ok(mut l) = l.try_borrow_mut() else { return 0 };
        let Some(l) = l.as_mut() else { return 0 };
        if (id as usize) < POINTS {
            l.hits[id as usize] += 1;
        }
        l.sig = crate::util::fnv(l.sig, u64::from(id));
        match mode {
            NOISE => {
                if l.rng.chance(1, u64::from(DENOM.load(Relaxed))) {
                    1 + l.rng.below(64)
                } else {
                    0
                }
            }
            TARGETED => {
                if TARGET.load(Relaxed) == id
                    && l.rng.chance(1, u64::from(DENOM.load(Relaxed)))
                {
                    1000 + l.rng.below(30)
                } else {
                    0
                }
            }
            _ => 0,
        }
    });
    match stall.unwrap_or(0) {
        0 => (),
        n if cfg!(miri) => {
            for _ in 0..(n % 4) + 1 {
                std::thread::yield_now();
            }
        }
        n @ 1..=40 => {
            for _ in 0..n * 8 {
                std::hint::spin_loop();
            }
        }
        n @ 41..=62 => {
            for _ in 0..n - 40 {
                std::thread::yield_now();
            }
        }
        63..=999 => std::thread::sleep(Duration::from_micros(30)),
        n => {
            // Waits for the others to complete operations.
            STALLS.fetch_add(1, Relaxed);
            let goal = PROGRESS.load(Relaxed) + (n - 1000);
            let limit = Duration::from_micros(u64::from(STALL_US.load(Relaxed)));
            let start = Instant::now();
            while PROGRESS.load(Relaxed) < goal && start.elapsed() < limit {
                std::thread::yield_now();
            }
        }
    }
}

/// A call into user code: may be delayed and may panic.
pub fn upoint(id: u32) {
    CALLS.with(|c| c.set(c.get() + 1));
    let fire = FUSE.with(|f| {
        let n = f.get();
        if n < 0 || MASK.load(std::sync::atomic::Ordering::Relaxed) & (1 << (id % 32)) == 0 {
            return false;
        }
        f.set(n - 1);
        n == 0
    });
    if fire && !std::thread::panicking() {
        FIRED.with(|f| f.set(id));
        std::panic::panic_any(Injected);
    }
    delay_point(id);
}

/// Calls that may panic.
pub static MASK: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(u32::MAX);

/// What the last injected panic interrupted.
pub fn fired() -> &'static str {
    match FIRED.with(Cell::get) {
        U_EQ => "eq",
        U_CMP => "cmp",
        U_CLONE => "clone",
        U_CLOSURE => "closure",
        _ => "?",
    }
}

/// Lets the `n`-th call into user code from now on panic.
pub fn arm(n: u64) {
    FUSE.with(|f| f.set(n as i64));
}

/// Returns `true` if the panic has been raised.
pub fn disarm() -> bool {
    FUSE.with(|f| f.replace(-1) < 0)
}

/// Lets large allocations fail on demand; small ones, which abort the process, never do.
pub struct FailAlloc;

thread_local! {
    /// Number of large allocations that succeed before one fails; negative if off.
    static AFUSE: Cell<i64> = const { Cell::new(-1) };
    static AFIRED: Cell<bool> = const { Cell::new(false) };
}

fn alloc_fails() -> bool {
    AFUSE
        .try_with(|f| {
            let n = f.get();
            if n < 0 {
                return false;
            }
            f.set(n - 1);
            if n == 0 {
                let _ = AFIRED.try_with(|f| f.set(true));
            }
            n == 0
        })
        .unwrap_or(false)
}

unsafe impl std::alloc::GlobalAlloc for FailAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 2048 && alloc_fails() {
            return std::ptr::null_mut();
        }
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() >= 256 && alloc_fails() {
            return std::ptr::null_mut();
        }
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}

#[global_allocator]
static ALLOC: FailAlloc = FailAlloc;

/// Lets the `n`-th large allocation from now on fail.
pub fn arm_alloc(n: u64) {
    AFIRED.with(|f| f.set(false));
    AFUSE.with(|f| f.set(n as i64));
}

pub fn disarm_alloc() {
    AFUSE.with(|f| f.set(-1));
}

/// Whether a size that cannot be allocated is being asked for.
pub fn expect_alloc_failure(yes: bool) {
    AFIRED.with(|f| f.set(yes));
}

/// Whether an allocation has failed since they were last armed.
pub fn alloc_failed() -> bool {
    AFIRED.with(Cell::get)
}

pub fn calls() -> u64 {
    CALLS.with(Cell::get)
}
