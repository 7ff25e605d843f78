//! Random numbers, violations, counters and the result file.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xA5A5_1234))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { (self.next() >> 11) % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| u64::from(x)).sum();
        let mut r = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if r < u64::from(x) {
                return i;
            }
            r -= u64::from(x);
        }
        unreachable!()
    }
}

pub fn fnv(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(5)
}

#[derive(Clone)]
pub struct Violation {
    pub kind: &'static str,
    pub msg: String,
    pub round: u64,
}

static VIOLATIONS: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
static NUM_VIOLATIONS: AtomicU64 = AtomicU64::new(0);
pub static ROUND: AtomicU64 = AtomicU64::new(0);
static FATAL: AtomicBool = AtomicBool::new(false);

static CONTEXT: Mutex<String> = Mutex::new(String::new());

/// Describes the current round; appended to the violations.
pub fn set_context(s: String) {
    *CONTEXT.lock().unwrap_or_else(|e| e.into_inner()) = s;
}

pub fn violation(kind: &'static str, mut msg: String) {
    {
        let c = CONTEXT.lock().unwrap_or_else(|e| e.into_inner());
        if !c.is_empty() {
            msg.push_str(" <");
            msg.push_str(&c);
            msg.push('>');
        }
    }
    NUM_VIOLATIONS.fetch_add(1, Relaxed);
    let mut v = VIOLATIONS.lock().unwrap_or_else(|e| e.into_inner());
    if v.iter().filter(|x| x.kind == kind).count() < 20 {
        v.push(Violation {
            kind,
            msg,
            round: ROUND.load(Relaxed),
        });
    }
}

pub fn num_violations() -> u64 {
    NUM_VIOLATIONS.load(Relaxed)
}

pub fn fatal() -> bool {
    FATAL.load(Relaxed)
}

static COUNTERS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
static SAMPLES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static DISTINCT: Mutex<Option<std::collections::HashSet<u64>>> = Mutex::new(None);

pub fn count(name: &str, n: u64) {
    if n == 0 {
        return;
    }
    let mut c = COUNTERS.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = c.get_mut(name) {
        *x += n;
    } else {
        c.insert(name.to_string(), n);
    }
}

pub fn counter(name: &str) -> u64 {
    let c = COUNTERS.lock().unwrap_or_else(|e| e.into_inner());
    c.get(name).copied().unwrap_or(0)
}

pub fn sample(s: impl FnOnce() -> String) {
    let mut v = SAMPLES.lock().unwrap_or_else(|e| e.into_inner());
    if v.len() < 6 {
        v.push(s());
    }
}

/// Records the signature of a non-trivial case.
pub fn distinct(sig: u64) {
    let mut d = DISTINCT.lock().unwrap_or_else(|e| e.into_inner());
    let d = d.get_or_insert_with(Default::default);
    if d.len() < 4_000_000 {
        d.insert(sig);
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

static OUT: Mutex<Option<String>> = Mutex::new(None);

pub fn set_out(path: Option<String>) {
    *OUT.lock().unwrap_or_else(|e| e.into_inner()) = path;
}

pub fn write_results(status: &str) {
    crate::inject::publish_hits();
    let mut o = String::new();
    let _ = write!(o, "{{\"status\":\"{}\",\"round\":{},\"counters\":{{", esc(status), ROUND.load(Relaxed));
    {
        let c = COUNTERS.lock().unwrap_or_else(|e| e.into_inner());
        for (i, (k, v)) in c.iter().enumerate() {
            let _ = write!(o, "{}\"{}\":{}", if i == 0 { "" } else { "," }, esc(k), v);
        }
    }
    let n = DISTINCT
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .as_ref()
        .map_or(0, |d| d.len());
    let _ = write!(o, "}},\"distinct\":{n},\"samples\":[");
    {
        let s = SAMPLES.lock().unwrap_or_else(|e| e.into_inner());
        for (i, x) in s.iter().enumerate() {
            let _ = write!(o, "{}\"{}\"", if i == 0 { "" } else { "," }, esc(x));
        }
    }
    let _ = write!(o, "],\"num_violations\":{},\"violations\":[", num_violations());
    {
        let v = VIOLATIONS.lock().unwrap_or_else(|e| e.into_inner());
        for (i, x) in v.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"kind\":\"{}\",\"round\":{},\"msg\":\"{}\"}}",
                if i == 0 { "" } else { "," },
                x.kind,
                x.round,
                esc(&x.msg)
            );
        }
    }
    o.push_str("]}\n");
    let out = OUT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    match out {
        Some(p) => {
            let tmp = format!("{p}.tmp");
            if std::fs::write(&tmp, &o).is_ok() {
                let _ = std::fs::rename(&tmp, &p);
            }
        }
        None => print!("{o}"),
    }
}

/// Ends the process because the state cannot be trusted any more.
pub fn die(status: &str, code: i32) -> ! {
    if !FATAL.swap(true, Relaxed) {
        write_results(status);
        unsafe { _exit(code) }
    }
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
    }
}

unsafe extern "C" {
    fn _exit(code: i32) -> !;
}

/// Panic payload of injected panics.
pub struct Injected;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if crate::inject::alloc_failed() {
            // What else runs while unwinding is not to fail.
            crate::inject::disarm_alloc();
            return;
        }
        eprintln!("panic at {loc}: {msg}");
        if std::env::var_os("VERIF_BT").is_some() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        if loc.starts_with("src/") {
            die(&format!("harness panic at {loc}: {msg}"), 3);
        }
        violation("panic", format!("panic at {loc}: {msg}"));
        die("unexpected panic", 10);
    }));
}

/// Counts completed operations; the watchdog looks at it.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// `true` while threads run operations.
pub static BUSY: AtomicBool = AtomicBool::new(false);

pub fn progress() {
    PROGRESS.fetch_add(1, Relaxed);
}

pub fn start_watchdog(ticks: u64) {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(move || {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let now = PROGRESS.load(Relaxed);
            if now == last && BUSY.load(Relaxed) {
                same += 1;
                if same >= ticks {
                    violation(
                        "hang",
                        format!("no operation completed during {ticks} ticks of 100 ms; {}", crate::inject::describe()),
                    );
                    if std::env::var_os("VERIF_HANG_WAIT").is_some() {
                        eprintln!("hang");
                        std::thread::sleep(std::time::Duration::from_secs(60));
                    }
                    die("hang", 11);
                }
            } else {
                same = 0;
                last = now;
            }
        }
    });
}
