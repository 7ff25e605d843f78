"""Runs the instrumented workloads of one check and decides."""

import concurrent.futures as cf
import json
import os
import resource
import signal
import subprocess
import sys
import time

from build import VERIF, Broken, build, miri_command, miri_env

EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

# Memory that is corrupt, calls that never return, panics nobody caused: whatever property is
# being checked, the container does not do what it states.
GENERIC = {"dead", "drop", "torn", "panic", "hang", "signal", "ub", "scenario"}


class Job:
    """One process: an engine, a profile and its share of the time."""

    def __init__(self, engine, prof, share=1.0, flavour="native", args=(), procs=1):
        self.engine, self.prof, self.share, self.flavour = engine, prof, share, flavour
        self.args, self.procs = list(args), procs

    def name(self):
        return f"{self.engine}-{self.prof}" + ("" if self.flavour == "native" else f"-{self.flavour}")


class Result:
    def __init__(self, job, seed, cmd):
        self.job, self.seed, self.cmd = job, seed, cmd
        self.data, self.violations, self.error, self.hang, self.note = {}, [], None, None, None


def limits():
    # Runaway recursion and core files must not harm the sandbox.
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_process(cmd, out, seconds, env=None):
    """Returns (return code, result file content or {}, stderr)."""
    if os.path.exists(out):
        os.remove(out)
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", env=e, preexec_fn=limits, start_new_session=True)
    try:
        _, err = p.communicate(timeout=seconds)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
        rc = "timeout"
    data = {}
    try:
        with open(out) as fh:
            data = json.load(fh)
    except (OSError, ValueError):
        pass
    return rc, data, err[-20000:]


def run_job(binary, job, seed, ms, out, extra=()):
    args = [job.engine, "--prof", job.prof, "--seed", str(seed), "--ms", str(ms), "--out", out, *job.args, *extra]
    if job.flavour == "miri":
        return run_miri(job, seed, ms, out, args)
    cmd = [binary, *args]
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:allocator_may_return_null=0"}
    rc, data, err = run_process(cmd, out, ms / 1000 + 150, env)
    r = Result(job, seed, cmd)
    r.data = data
    for v in data.get("violations", []):
        if v["kind"] != "hang":
            r.violations.append(v)
    rnd = data.get("round")
    if rc in (0, 1, 10):
        if not data:
            r.error = f"no result file, exit {rc}: {err[-500:]}"
    elif rc == 11 or rc == "timeout":
        hv = [v for v in data.get("violations", []) if v["kind"] == "hang"]
        r.hang = hv[0] if hv else {"kind": "hang", "round": None, "msg": "the process did not end"}
    elif rc == 99 and "AddressSanitizer" in err:
        i = err.index("AddressSanitizer")
        r.violations.append({"kind": "ub", "round": rnd, "msg": err[max(0, i - 80) : i + 3000]})
    elif isinstance(rc, int) and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        r.violations.append({"kind": "signal", "round": rnd, "msg": f"killed by signal {-rc}; {err[-600:]}"})
    elif isinstance(rc, int) and -rc == signal.SIGABRT and "memory allocation of" not in err:
        r.violations.append({"kind": "signal", "round": rnd, "msg": f"aborted; {err[-600:]}"})
    else:
        r.error = f"exit {rc}: {data.get('status')} {err[-800:]}"
    return r


def run_miri(job, seed, ms, out, args):
    """Under the interpreter; threads are scheduled at random and weak memory is emulated."""
    flags = ("", "-Zmiri-tree-borrows", "-Zmiri-preemption-rate=0.05", "-Zmiri-preemption-rate=0.002")[seed % 4]
    cmd = miri_command(args)
    env = miri_env(seed % (1 << 31), flags)
    # A round may be long: it is cut off without a verdict.
    rc, data, err = run_process(cmd, out, ms / 1000 * 2 + 60, env)
    r = Result(job, seed, [f"MIRIFLAGS='{env['MIRIFLAGS']}'", f"RUSTFLAGS='{env['RUSTFLAGS']}'", "rustup", "run", "nightly", *cmd])
    r.data = data
    r.violations = [v for v in data.get("violations", []) if v["kind"] != "hang"]
    if "Undefined Behavior" in err:
        i = err.index("Undefined Behavior")
        r.violations.append({"kind": "ub", "round": None, "msg": err[max(0, i - 20) : i + 3500]})
    elif "the evaluated program deadlocked" in err:
        i = err.index("the evaluated program deadlocked")
        r.violations.append({"kind": "hang", "round": None, "msg": err[max(0, i - 20) : i + 2500]})
    elif rc == "timeout":
        r.note = "cut off"
    elif rc not in (0, 1, 10) or not data:
        r.error = f"exit {rc}: {err[-1500:]}"
    return r


def short(m):
    return m if len(m) <= 1500 else m[:900] + " ..... " + m[-600:]


def load_known():
    try:
        with open(KNOWN) as fh:
            return json.load(fh)["findings"]
    except OSError:
        return []


def confirm_hang(binary, r, out):
    """Runs the stuck workload again: a machine that stalled does not stall again there."""
    job = r.job
    seeds = [r.seed] * 4 + [r.seed + 7919 * i for i in range(1, 3)]
    rnd = r.hang.get("round")

    def again(i):
        extra = ["--only", str(rnd), "--rounds", "400"] if rnd is not None and i < 4 else []
        return run_job(binary, job, seeds[i], 30000, f"{out}.again{i}", extra)

    with cf.ThreadPoolExecutor(3) as ex:
        for x in ex.map(again, range(len(seeds))):
            if x.hang is not None:
                return x
    return None


class Check:
    def __init__(self, prop, jobs, kinds, rule, level="exploration", budget=40, procs=5, assumptions=()):
        self.prop, self.jobs, self.kinds, self.rule, self.level = prop, jobs, set(kinds) | GENERIC, rule, level
        self.budget, self.procs, self.assumptions = budget, procs, list(assumptions)

    def run(self):
        t0 = time.time()
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        tier = tier if tier in ("quick", "thorough") else "quick"
        os.makedirs(EVIDENCE, exist_ok=True)
        work = os.path.join(EVIDENCE, "work", self.prop)
        os.makedirs(work, exist_ok=True)
        try:
            bins = {f: build(f) for f in sorted({j.flavour for j in self.jobs})}
        except Broken as e:
            print(e)
            return 2
        built = time.time()
        scale = {"quick": 1, "thorough": 10}[tier]
        total = sum(j.share * j.procs for j in self.jobs)
        budget = self.budget * scale * self.procs / total
        tasks = []
        for j in self.jobs:
            # Many short processes see more than a long one; the registry of instances is per process.
            n = j.procs * (1 if tier == "quick" else 2)
            for i in range(n):
                ms = int(1000 * budget * j.share * (1 if tier == "quick" else 0.5))
                s = seed * 1_000_003 + len(tasks) * 101 + 17
                tasks.append((j, s, ms, os.path.join(work, f"{j.name()}-{i}.json")))
        tasks.sort(key=lambda t: -t[2])
        results = []
        with cf.ThreadPoolExecutor(self.procs) as ex:
            fs = {ex.submit(run_job, bins[j.flavour], j, s, ms, out): (j, out) for j, s, ms, out in tasks}
            for f in cf.as_completed(fs):
                results.append((f.result(), fs[f][1]))
        violations, errors, notes = [], [], []
        hangs = [(r, out) for r, out in results if r.hang is not None]
        for r, out in hangs:
            c = r if len(hangs) > 1 else confirm_hang(bins[r.job.flavour], r, out)
            if c is not None:
                violations.append((c, c.hang))
                break
            notes.append(f"a stall was not confirmed by running it again: {r.hang['msg'][:300]}")
        counters, distinct, samples, other = {}, 0, [], {}
        for r, _ in results:
            if r.error:
                errors.append((r, r.error))
            for k, v in r.data.get("counters", {}).items():
                counters[k] = counters.get(k, 0) + v
            distinct += r.data.get("distinct", 0)
            if r.data.get("samples"):
                samples.append(f"[{r.job.name()} seed {r.seed}] " + r.data["samples"][0])
            for v in r.violations:
                if v["kind"] in self.kinds:
                    violations.append((r, v))
                else:
                    other[v["kind"]] = other.get(v["kind"], 0) + 1
        known_lines = []
        for k in load_known():
            if k["property"] != self.prop:
                continue
            # A finding is reported as long as its own scenario fails; nothing else is excused.
            j = Job("scenario", k["id"])
            out = os.path.join(work, f"scenario-{k['id']}.json")
            r = run_job(bins["native"], j, seed, 20000, out, ["--rounds", "1"])
            if r.error or r.hang:
                errors.append((r, r.error or "the scenario does not end"))
            for v in r.violations:
                if v["kind"] == "scenario" and v["msg"].startswith(k["match"]):
                    known_lines.append(f"KNOWN-FINDING: property={self.prop} {k['what']} [{v['msg']}]")
                else:
                    violations.append((r, v))
            if not r.violations and not r.error:
                notes.append(f"the known finding {k['id']} did not show")
        coverage = {
            "evaluations": counters.get("rounds", 0),
            "distinct_nontrivial": distinct,
            "rule": self.rule,
            "samples": sorted(samples)[:12],
            "observed": {k: counters[k] for k in sorted(counters)},
            "processes": len(results),
            "build_s": round(built - t0, 1),
        }
        if other:
            coverage["reports_of_other_properties"] = other
        if notes:
            coverage["notes"] = notes
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 1),
            "violations": len(violations),
        }
        for line in known_lines:
            print(line)
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        for n in notes:
            print("note:", n)
        if violations:
            path = os.path.join(EVIDENCE, f"replay-{self.prop}.json")
            with open(path, "w") as fh:
                json.dump(
                    [
                        {
                            "property": self.prop,
                            "kind": v["kind"],
                            "what": v["msg"],
                            "round": v.get("round"),
                            "seed": getattr(r, "seed", None),
                            "command": " ".join(map(str, r.cmd)) + (f" --only {v['round']} --rounds 200" if v.get("round") is not None else ""),
                        }
                        for r, v in violations[:40]
                    ],
                    fh,
                    indent=1,
                )
            for r, v in violations[:6]:
                print(f"  [{' '.join(map(str, r.cmd[1:6]))}] round {v.get('round')} {v['kind']}: {short(v['msg'])}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if errors:
            for r, e in errors[:5]:
                print(f"error: {' '.join(map(str, r.cmd))}: {e}")
            return 2
        print(
            f"{self.prop}: held; {coverage['evaluations']} evaluations, {distinct} distinct, "
            f"{counters.get('events', 0)} recorded events, {ev['wall_s']} s"
        )
        return 0
