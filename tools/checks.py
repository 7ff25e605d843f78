"""What each check runs and which of the reports decide it."""

from runner import Check, Job

J = Job
LIN = {"lin", "final"}
HASH = ("map", "set", "index", "cache")

CONC_RULE = (
    "One evaluation is a round: a container with randomly chosen hash function, capacity and key set, "
    "operated on at the same time by 2 to 8 threads (some running several tasks), with seeded delays at "
    "named points inside the library, fillers that force growing, shrinking, splitting and merging, and "
    "every call recorded with its real-time interval. Rounds count as distinct when the hash of the "
    "interleaving of the recorded calls and of the delay points passed by each thread is new; a round "
    "with no overlapping calls is not counted."
)

CHECKS = {}


def check(prop, *a, **k):
    CHECKS[prop] = Check(prop, *a, **k)


check("C01", [J("map", "lin", 2, procs=3), J("set", "lin", 1, procs=1), J("map", "entry", 1), J("map", "iter", 1), J("map", "cancel", 1)], LIN, CONC_RULE)
check("C02", [J("index", "lin", 3, procs=3), J("index", "entry", 1), J("index", "iter", 1), J("index", "lin", 3, flavour="miri", procs=2)], LIN, CONC_RULE)
check("C03", [J("cache", "lin", 3, procs=3), J("cache", "entry", 1), J("cache", "iter", 1), J("cache", "drop", 1)], LIN | {"leak"}, CONC_RULE)
check("C05", [J("tree", "lin", 3, procs=4), J("tree", "iter", 1), J("tree", "drop", 1), J("tree", "lin", 3, flavour="miri")], LIN | {"depth"}, CONC_RULE)
check("C06", [J("tree", "iter", 3, procs=4), J("tree", "lin", 1), J("tree", "ref", 1), J("seq-tree", "seq", 1)], LIN | {"iter", "ref", "fused"}, CONC_RULE)
check("C07", [J(e, "iter", 1, procs=2) for e in HASH], LIN | {"iter"}, CONC_RULE)
check("C08", [J(e, "drop", 1) for e in HASH + ("tree",)] + [J("map", "cancel", 1), J("tree", "ref", 1), J("types", "all", 1)], {"leak", "own"}, CONC_RULE)
check("C11", [J(e, "entry", 1, procs=2) for e in HASH], LIN | {"exclusive", "size"}, CONC_RULE)
check("C12", [J(e, "cancel", 1) for e in HASH] + [J("tree", "cancel", 1, procs=2)], LIN | {"exclusive", "leak", "size", "iter"}, CONC_RULE)

SEQ_RULE = (
    "One evaluation is a round: one container with randomly chosen hash function, capacity bounds and key "
    "space, driven through hundreds to thousands of random public calls (synchronous, asynchronous, try_ and "
    "entry based), each result compared with a model. Rounds count as distinct when the hash of the sequence "
    "of calls, keys and presence of those keys is new; rounds of 20 calls or less are not counted."
)
SEQ = {"model", "iter", "final", "size"}

check("C04", [J("seq-cache", "lru", 3, procs=3), J("seq-cache", "seq", 1), J("seq-cache", "cap", 1), J("cache", "lin", 1)], {"lru", "cap", "size"}, SEQ_RULE)
check("C14", [J("seq-" + e, "cap", 1) for e in HASH] + [J("seq-" + e, "oom", 0.5) for e in HASH] + [J(e, "lin", 0.5) for e in HASH], {"cap", "size"}, SEQ_RULE)
check("C17", [J("seq-" + e, "seq", 1, procs=2) for e in HASH] + [J("seq-cache", "cap", 0.5), J("types", "hash", 1, procs=2)], SEQ | {"copy", "lru", "own"}, SEQ_RULE)

PANIC_RULE = SEQ_RULE + " Calls into user code (comparison, equality, clone, closure) panic at random."
TREE_RULE = SEQ_RULE.replace("hash function, capacity bounds and key space", "key space, order of keys and mix of growing and shrinking phases").replace(
    "(synchronous, asynchronous, try_ and entry based)", "(synchronous and asynchronous)"
)
MIRI_RULE = " Rounds run natively, under AddressSanitizer and in the Miri interpreter, which checks every access of the library."

check("C09", [J("tree", "ref", 2, procs=2), J("index", "iter", 1), J("index", "drop", 1), J("index", "lin", 1), J("seq-index", "seq", 0.5), J("seq-tree", "seq", 0.5), J("index", "lin", 1, flavour="miri")], {"ref"}, CONC_RULE)
check("C10", [J(e, "drop", 1, flavour="asan") for e in HASH + ("tree",)]
      + [J("tree", "ref", 1, flavour="asan"), J("seq-tree", "panic", 0.5, flavour="asan"), J("seq-index", "panic", 0.5, flavour="asan"), J("seq-cache", "panic", 0.5, flavour="asan")]
      + [J("map", "cancel", 1, flavour="asan"), J("types", "all", 1, flavour="asan"), J("map", "panic", 0.5, flavour="asan"), J("tree", "panic", 0.5, flavour="asan"), J("seq-index", "oom", 0.5, flavour="asan"), J("scenario", "huge", 0.1, args=["--rounds", "1"])]
      + [J("types", "map", 1, flavour="miri"), J("types", "set", 1, flavour="miri"), J("types", "all", 1, flavour="miri")]
      + [J("index", "lin", 2, flavour="miri"), J("tree", "lin", 2, flavour="miri"), J("tree", "range", 2, flavour="miri"), J("map", "cancel", 2, flavour="miri"), J("cache", "entry", 2, flavour="miri"), J("tree", "panic", 1, flavour="miri"), J("seq-tree", "seq", 1, flavour="miri"), J("index", "iter", 2, flavour="miri")],
      {"ref"}, CONC_RULE + MIRI_RULE, procs=7)
check("C13", [J(e, "cancel", 1) for e in HASH + ("tree",)] + [J(e, "entry", 1) for e in HASH] + [J("tree", "lin", 1), J("tree", "range", 1), J("map", "lin", 1), J("index", "lin", 1)], set(), CONC_RULE)
check("C15", [J("seq-" + e, "panic", 1) for e in HASH] + [J("seq-" + e, "oom", 0.5) for e in HASH] + [J("seq-tree", "panic", 1, procs=2)] + [J(e, "panic", 0.7) for e in HASH + ("tree",)], SEQ | LIN | {"unwind", "leak", "exclusive", "range"}, PANIC_RULE + " Or as follows, with such panics in a third of the calls. " + CONC_RULE)
check("C16", [J("seq-tree", "seq", 1, procs=3), J("seq-tree", "panic", 1), J("tree", "range", 2, procs=3), J("tree", "cancel", 1)], LIN | {"range", "iter", "unwind"}, TREE_RULE + " " + CONC_RULE)
check("C18", [J("seq-tree", "seq", 1, procs=4), J("seq-tree", "copy", 0.5), J("types", "tree", 1)], SEQ | {"range", "own"}, TREE_RULE)
check("C19", [J("seq-" + e, "copy", 1) for e in HASH + ("tree",)], {"copy"}, SEQ_RULE)
check("C20", [J("tree", "iter", 1, procs=2), J("seq-tree", "seq", 1), J("seq-index", "seq", 1), J("index", "iter", 1)], {"fused"}, CONC_RULE)

_CONC = "monitored stress: real code under seeded delays; recorded histories checked offline; "
_TRUST = (
    "Says the property held on the executions observed (counts in the evidence file); schedules not "
    "produced are not covered. Trusts the harness oracle, the clock that orders calls (one atomic counter) "
    "and the delay points behind cfg(scc_vhook)."
)
_SEQ = "monitored random call sequences on the real code; online oracle: "
_TRUSTS = "Says the property held on the call sequences observed (counts in the evidence file). Trusts the model in harness/src/seq.rs."
NOTES = {
    "C01": (_CONC + "linearizability per key", _TRUST),
    "C02": (_CONC + "linearizability per key including lock-free reads", _TRUST),
    "C03": (_CONC + "linearizability per key with reported evictions, conservation of values", _TRUST),
    "C05": (_CONC + "linearizability per key", _TRUST),
    "C06": (_CONC + "trace specification of iterators", _TRUST),
    "C07": (_CONC + "trace specification of traversals", _TRUST),
    "C08": (_CONC + "exactly-once drop ledger over instrumented keys and values", _TRUST),
    "C11": (_CONC + "occupancy monitor in every value, linearizability of read-modify-write calls", _TRUST),
    "C12": (_CONC + "futures dropped at random suspension points, optional transitions in the histories", _TRUST),
    "C04": (_SEQ + "a set-wise LRU model with the sets taken from HashMap::bucket_index", _TRUSTS),
    "C14": (_SEQ + "a capacity model over reservations, growing, emptying", _TRUSTS),
    "C17": (_SEQ + "a plain map with key and value identities", _TRUSTS),
    "C09": (_CONC + "references held and checked again against instance identities; also under Miri", _TRUST),
    "C10": ("the same stress and sequence workloads under AddressSanitizer and in the Miri interpreter (aliasing, data races, weak memory), with liveness canaries in every key and value", _TRUST),
    "C13": (_CONC + "watchdog on progress, confirmed by running the stuck round again; futures driven by executors that poll only when woken", _TRUST),
    "C15": (_SEQ + "the model is reconciled after each injected panic: only what the call was to change may differ", _TRUSTS),
    "C16": (_CONC + "an ordered map compared after every range removal; linearizability per key and trace specification of iterators with concurrent range removals", _TRUST),
    "C18": (_SEQ + "an ordered map, with a bound on depth from the entries ever held", _TRUSTS),
    "C19": (_SEQ + "contents and equality against the model before and after changes of either copy", _TRUSTS),
    "C20": (_CONC + "iterators called on after their end", _TRUST),
}
