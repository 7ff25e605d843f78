mod conc;
mod cx;
mod exec;
mod hash_ops;
mod inject;
mod lin;
mod scenario;
#[macro_use]
mod seq;
mod track;
mod tree;
mod tree_seq;
mod types;
mod util;

use std::time::{Duration, Instant};

use cx::Prof;
use util::Rng;

struct Args {
    engine: String,
    prof: String,
    seed: u64,
    ms: u64,
    rounds: u64,
    only: Option<u64>,
    skip: u64,
}

fn parse() -> Args {
    let mut a = Args { engine: String::new(), prof: String::new(), seed: 1, ms: 1000, rounds: u64::MAX, only: None, skip: 0 };
    let mut it = std::env::args().skip(1);
    a.engine = it.next().unwrap_or_default();
    while let Some(x) = it.next() {
        let mut v = || it.next().unwrap_or_default();
        match x.as_str() {
            "--prof" => a.prof = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--ms" => a.ms = v().parse().unwrap(),
            "--rounds" => a.rounds = v().parse().unwrap(),
            "--only" => a.only = Some(v().parse().unwrap()),
            "--skip" => a.skip = v().parse().unwrap(),
            "--out" => util::set_out(Some(v())),
            x => panic!("unknown argument {x}"),
        }
    }
    a
}

fn profile(name: &str, r: &mut Rng) -> Prof {
    let d = Prof::default();
    match name {
        "lin" => match r.below(4) {
            0 => Prof { filler: false, ..d },
            1 => Prof { point: 90, entry: 5, cursor: 0, scan: 1, clear: 0, ..d },
            _ => d,
        },
        "iter" => Prof {
            point: 30, entry: 5, cursor: 15, scan: 30, clear: 0, misc: 2,
            stable: 64, no_resize: r.chance(1, 3), filler: true, ..d
        },
        "entry" => Prof { point: 30, entry: 60, cursor: 8, scan: 6, clear: 0, hold: 500, ..d },
        "cancel" => {
            let single = r.chance(1, 3);
            Prof {
                point: 50, entry: 30, cursor: 8, scan: 8, clear: 1, cancel: 400, hold: 600,
                tasks: if single { 100 } else { 90 }, single, ..d
            }
        }
        "panic" => Prof {
            point: 60, entry: 25, cursor: 6, scan: 6, clear: 1, panic: 300,
            oom: r.chance(1, 2), cancel: if r.chance(1, 3) { 200 } else { 0 }, ..d
        },
        "drop" => Prof { point: 50, entry: 15, cursor: 5, scan: 8, clear: 4, hold: 50, ..d },
        _ => panic!("unknown profile {name}"),
    }
}

fn mode(prof: &str) -> seq::Mode {
    match prof {
        "panic" => seq::Mode::Panic,
        "cap" => seq::Mode::Cap,
        "copy" => seq::Mode::Copy,
        "lru" => seq::Mode::Lru,
        "oom" => seq::Mode::Oom,
        _ => seq::Mode::Model,
    }
}

fn main() {
    let a = parse();
    if a.engine == "nothing" {
        return;
    }
    util::install_panic_hook();
    inject::install();
    // The collector of `sdd` frees what other garbage kept alive at once when the last thread known
    // to it exits, even if another is just becoming known.
    drop(scc::Guard::new());
    let start = Instant::now();
    if !cfg!(miri) {
        util::start_watchdog(200);
    }
    let mut n = a.skip;
    while n - a.skip < a.rounds && start.elapsed() < Duration::from_millis(a.ms) {
        let round = a.only.unwrap_or(n);
        util::ROUND.store(round, std::sync::atomic::Ordering::Relaxed);
        let mut rng = Rng::new(util::mix(a.seed) ^ round.wrapping_mul(0x1234_5678_9ABC_DEF1));
        let p = |r: &mut Rng| profile(if a.prof.is_empty() { "lin" } else { &a.prof }, r);
        match a.engine.as_str() {
            "map" => { let p = p(&mut rng); conc::round::<hash_ops::Map>(&mut rng, &p) }
            "set" => { let p = p(&mut rng); conc::round::<hash_ops::Set>(&mut rng, &p) }
            "index" => { let p = p(&mut rng); conc::round::<hash_ops::Index>(&mut rng, &p) }
            "cache" => { let p = p(&mut rng); conc::round::<hash_ops::Cache>(&mut rng, &p) }
            "tree" => {
                let p = tree::TreeProf::named(if a.prof.is_empty() { "lin" } else { &a.prof }, &mut rng);
                tree::round(&mut rng, &p);
            }
            "seq-map" => seq::round::<hash_ops::Map>(&mut rng, mode(&a.prof)),
            "seq-set" => seq::round::<hash_ops::Set>(&mut rng, mode(&a.prof)),
            "seq-index" => seq::round::<hash_ops::Index>(&mut rng, mode(&a.prof)),
            "seq-cache" => seq::round::<hash_ops::Cache>(&mut rng, mode(&a.prof)),
            "seq-tree" => tree_seq::round(&mut rng, mode(&a.prof)),
            "types" => types::round(&mut rng, &a.prof),
            "scenario" => scenario::run(&a.prof),
            x => panic!("unknown engine {x}"),
        }
        n += 1;
        if util::num_violations() > 200 {
            break;
        }
    }
    conc::publish_ops();
    util::write_results("done");
    std::process::exit(if util::num_violations() != 0 { 1 } else { 0 });
}
