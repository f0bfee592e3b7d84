"""Batches of runs over worker processes, reporting, evidence, replay.

A run is a pure function of its seed. Runs are grouped in chunks; each chunk is
executed in a process forked from a parent that never imports the code under
test, so the history a run can see is at most its own chunk."""
import importlib
import json
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import known, shrink
from .kernel import CpuGuard, Ctx, Hang, Skip, Violation
from .rng import derive

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def load(prop):
    return importlib.import_module("prophysim.props.%s" % prop.lower()).Sim()


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix="prophysim-", dir=base)


# --------------------------------------------------------- executing a run

def run_trace(sim, trace, workdir, verbose=False):
    """Execute one trace. -> (result dict, Ctx)"""
    os.makedirs(workdir, exist_ok=True)
    ctx = Ctx(workdir, verbose)
    result = {"violation": None, "skip": None}
    try:
        with CpuGuard(sim.cpu_budget):
            sim.execute(trace, ctx)
    except Violation as v:
        result["violation"] = {"class": v.cls, "detail": v.detail, "signature": v.signature}
    except Skip as s:
        result["skip"] = str(s)
    except Hang as h:
        result["violation"] = {"class": "hang", "detail": str(h), "signature": "hang"}
    finally:
        sim.cleanup()
        shutil.rmtree(workdir, ignore_errors=True)
    result["digest"] = ctx.digest()
    return result, ctx


def run_seed(sim, prop, base_seed, index, tier, workdir, verbose=False):
    seed = derive(base_seed, prop, index)
    trace = sim.generate(seed, index, tier)
    result, ctx = run_trace(sim, trace, workdir, verbose)
    result.update(index=index, seed=seed)
    return result, ctx, trace


def _chunk_child(prop, base_seed, indices, tier, root, shared, keep_traces, fd):
    sim = load(prop)
    sim.shared = shared
    out = os.fdopen(fd, "w")
    sim.open(root)
    try:
        for index in indices:
            workdir = os.path.join(root, "run")
            try:
                result, ctx, trace = run_seed(sim, prop, base_seed, index, tier, workdir)
            except Exception:
                out.write(json.dumps({"index": index, "error": traceback.format_exc()}) + "\n")
                out.flush()
                continue
            result.update(counts=ctx.counts, faults=ctx.faults, states=sorted(ctx.states), orders=sorted(ctx.orders),
                          simtime=ctx.simtime, maxima=ctx.maxima, notes=ctx.notes, events=ctx._nevents)
            v = result["violation"]
            matched = v and known.match(prop, v["signature"])
            if matched:
                result["notes"].append(matched)
                result["violation"] = v = None
            if v or index in keep_traces:
                result["trace"] = trace
            out.write(json.dumps(result) + "\n")
            out.flush()
            if v:
                break
    finally:
        sim.close()
        out.close()


def fork(fn, *args):
    """Run fn in a forked child with a pipe. -> (pid, read fd)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            fn(*args, w)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    return pid, r


def kill_group(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


class Pool(object):
    """Chunks over N workers. Results are a function of the chunk list only."""

    def __init__(self, workers):
        self.workers = workers

    def run(self, jobs, deadline, on_line, stop, kill_after):
        """jobs: iterator of (key, fn, args). on_line(key, parsed). stop() -> bool."""
        active = {}
        jobs = iter(jobs)
        exhausted = False
        failures = []
        while True:
            while not exhausted and len(active) < self.workers and not stop() and time.monotonic() < deadline:
                try:
                    key, fn, args = next(jobs)
                except StopIteration:
                    exhausted = True
                    break
                pid, fd = fork(fn, *args)
                active[fd] = [key, pid, b"", time.monotonic()]
            if not active:
                break
            ready, _, _ = select.select(list(active), [], [], 1.0)
            for fd in ready:
                data = os.read(fd, 1 << 16)
                slot = active[fd]
                slot[3] = time.monotonic()
                if data:
                    slot[2] += data
                    while b"\n" in slot[2]:
                        line, slot[2] = slot[2].split(b"\n", 1)
                        on_line(slot[0], json.loads(line))
                    continue
                os.close(fd)
                _, status = os.waitpid(slot[1], 0)
                kill_group(slot[1])
                del active[fd]
                if status != 0:
                    failures.append((slot[0], "worker exit status %d" % status))
            now = time.monotonic()
            for fd in list(active):
                slot = active[fd]
                if now - slot[3] > kill_after:
                    kill_group(slot[1])
                    os.waitpid(slot[1], 0)
                    os.close(fd)
                    del active[fd]
                    failures.append((slot[0], "worker made no progress for %d s" % kill_after))
        return failures


# -------------------------------------------------------------- reporting

def _exec_child(prop, traces, root, fd):
    """Execute a list of traces in order; report the last one's result."""
    sim = load(prop)
    sim.open(root)
    out = os.fdopen(fd, "w")
    try:
        for trace in traces:
            result, _ = run_trace(sim, trace, os.path.join(root, "run"))
        out.write(json.dumps(result) + "\n")
    finally:
        sim.close()
        out.close()


def execute_fresh(prop, traces, timeout=300):
    """-> result dict of the last trace, executed in a fresh process."""
    root = scratch_root()
    got = []
    try:
        Pool(1).run([(0, _exec_child, (prop, traces, root))], time.monotonic() + 1,
                    lambda _, line: got.append(line), lambda: False, timeout)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return got[0] if got else {"violation": None, "skip": "no result", "digest": ""}


def _shrink_child(prop, trace, cls, budget, root, fd):
    sim = load(prop)
    sim.open(root)
    out = os.fdopen(fd, "w")

    def execute(candidate):
        try:
            result, _ = run_trace(sim, candidate, os.path.join(root, "run"))
        except Exception:
            return None
        return result["violation"] and result["violation"]["class"]

    try:
        small, executions = shrink.minimise(sim, trace, cls, execute, budget)
        out.write(json.dumps({"trace": small, "executions": executions}) + "\n")
    finally:
        sim.close()
        out.close()


def report_violation(prop, base_seed, tier, result, prelude_indices):
    """Minimise, confirm in a fresh process, write the replay file."""
    cls = result["violation"]["class"]
    trace = result["trace"]
    sim = load(prop)
    first = execute_fresh(prop, [trace])
    prelude = []
    minimised = None
    executions = 0
    if not (first["violation"] and first["violation"]["class"] == cls):
        # needs the earlier runs of its chunk: keep them, smallest suffix that works
        earlier = [sim.generate(derive(base_seed, prop, i), i, tier) for i in prelude_indices]
        for k in range(1, len(earlier) + 1):
            got = execute_fresh(prop, earlier[-k:] + [trace])
            if got["violation"] and got["violation"]["class"] == cls:
                prelude = earlier[-k:]
                first = got
                break
    else:
        got = []
        root = scratch_root()
        try:
            Pool(1).run([(0, _shrink_child, (prop, trace, cls, sim.shrink_budget, root))], time.monotonic() + 1,
                        lambda _, line: got.append(line), lambda: False, 240)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        if got:
            small = got[0]["trace"]
            executions = got[0]["executions"]
            confirm = execute_fresh(prop, [small])
            if confirm["violation"] and confirm["violation"]["class"] == cls:
                trace, first, minimised = small, confirm, True
    replay_dir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replay_dir, exist_ok=True)
    path = os.path.join(replay_dir, "%s-%s-%d.json" % (prop, base_seed, result["index"]))
    reproduced = bool(first["violation"] and first["violation"]["class"] == cls)
    with open(path, "w") as f:
        json.dump({"property": prop, "verif_seed": base_seed, "run": result["index"], "run_seed": result["seed"],
                   "violation": first["violation"] if reproduced else result["violation"],
                   "digest": first.get("digest"), "minimised": bool(minimised), "shrink_executions": executions,
                   "reproduced_in_fresh_process": reproduced, "prelude": prelude, "trace": trace}, f, indent=1)
    return path, (first["violation"] if reproduced else result["violation"]), trace


def replay(path, verbose=True):
    with open(path) as f:
        data = json.load(f)
    prop = data["property"]
    root = scratch_root()
    sim = load(prop)
    sim.open(root)
    try:
        for trace in data["prelude"]:
            run_trace(sim, trace, os.path.join(root, "run"))
        result, _ = run_trace(sim, data["trace"], os.path.join(root, "run"), verbose)
    finally:
        sim.close()
        shutil.rmtree(root, ignore_errors=True)
    got = result["violation"]
    if got and got["class"] == data["violation"]["class"]:
        print("reproduced: %s" % got["class"])
        print(got["detail"])
        same = result["digest"] == data.get("digest")
        print("event log %s the recorded one" % ("identical to" if same else "differs from"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("not reproduced: expected %s, got %s" % (data["violation"]["class"], got and got["class"]))
    return 0


# ------------------------------------------------------------- main check

def chunks(n, size):
    for start in range(0, n, size):
        yield list(range(start, min(n, start + size)))


def run_batch(prop, base_seed, tier, n_runs, workers, deadline, keep_traces=()):
    sim = load(prop)
    results, errors, found = {}, [], []

    def on_line(key, line):
        if "error" in line:
            errors.append(line)
            return
        results[line["index"]] = line
        if line["violation"]:
            found.append((key, line))

    root = scratch_root()
    shared = os.path.join(root, "shared")
    os.makedirs(shared)
    sim.prepare(shared)

    def jobs():
        for indices in chunks(n_runs, sim.chunk):
            sub = os.path.join(root, "c%d" % indices[0])
            os.makedirs(sub)
            yield indices[0], _chunk_child, (prop, base_seed, indices, tier, sub, shared, keep_traces)

    try:
        failures = Pool(workers).run(jobs(), deadline, on_line, lambda: bool(found), sim.kill_after)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return results, errors, failures, found


def check(prop, tier, base_seed, workers=None, n_runs=None):
    started = time.monotonic()
    sim = load(prop)
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    n_runs = n_runs or sim.runs[tier]
    cap = sim.wall_cap[tier]
    print("%s tier=%s VERIF_SEED=%d runs=%d workers=%d" % (prop, tier, base_seed, n_runs, workers), flush=True)
    sample_at = {0, n_runs // 2}
    results, errors, failures, found = run_batch(
        prop, base_seed, tier, n_runs, workers, started + cap, sample_at)
    wall = time.monotonic() - started

    verdict = sorted(found, key=lambda kl: kl[1]["index"])[:1]
    seen = set()
    for line in results.values():
        for note in line["notes"]:
            if note not in seen:
                seen.add(note)
                print("KNOWN-FINDING: property=%s %s" % (prop, note))

    code = 0
    if verdict:
        key, line = verdict[0]
        prelude = list(range(key, line["index"]))
        path, violation, trace = report_violation(prop, base_seed, tier, line, prelude)
        print("violated: %s (run %d, run seed %d)" % (violation["class"], line["index"], line["seed"]))
        print(violation["detail"])
        print("minimised trace: %s" % json.dumps(trace)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    write_evidence(sim, prop, tier, base_seed, results, wall, workers, n_runs, code)
    done = [r for r in results.values() if not r["skip"]]
    print("%s: %d of %d runs done (%d skipped) in %.1f s" % (prop, len(results), n_runs, len(results) - len(done), wall))
    if code == 0:
        problems = []
        if errors:
            problems.append("harness error in run %d:\n%s" % (errors[0]["index"], errors[0]["error"]))
        problems += ["chunk %s: %s" % f for f in failures]
        if len(done) < max(1, sim.min_done * min(n_runs, len(results) or 1)):
            reasons = sorted({r["skip"] for r in results.values() if r["skip"]})
            problems.append("too few runs had anything to check: %d of %d; %s" % (len(done), len(results), reasons[:3]))
        if problems:
            for p in problems:
                print("CHECK-ERROR: %s" % p)
            code = 2
    return code


def write_evidence(sim, prop, tier, base_seed, results, wall, workers, n_runs, code):
    import collections
    counts, faults = collections.Counter(), collections.Counter()
    states, orders, maxima = set(), set(), {}
    simtime = 0.0
    events = 0
    samples = []
    for index in sorted(results):
        r = results[index]
        counts.update(r["counts"])
        faults.update(r["faults"])
        states.update(r["states"])
        orders.update(r["orders"])
        simtime += r["simtime"]
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, 0), v)
        events += r["events"]
        if "trace" in r and len(samples) < 2:
            samples.append({"run": index, "seed": r["seed"], "trace": abbreviate(r["trace"])})
    done = len(results)
    data = {
        "property": prop, "tier": tier, "seed": base_seed, "level": sim.level,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(states),
            "rule": sim.rule,
            "samples": samples or [{"none": "no run finished"}],
            "runs_planned": n_runs,
            "runs_skipped": sum(1 for r in results.values() if r["skip"]),
            "seeds_per_hour": round(done / wall * 3600) if wall else 0,
            "simulated_time_units": round(simtime, 3),
            "events_logged": events,
            "faults_fired": dict(sorted(faults.items())),
            "distinct_interleavings": len(orders),
            "interleaving_measure": sim.order_measure,
            "operations": dict(sorted(counts.items())),
            "largest_seen": dict(sorted(maxima.items())),
            "components_real": sim.real,
            "components_stubbed": sim.stubs,
            "workers": workers,
        },
        "assumptions": sim.assumptions,
        "wall_s": round(wall, 3),
        "violations": 1 if code == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "%s.json" % prop)
    with open(path + ".tmp", "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def abbreviate(value, limit=6000):
    text = json.dumps(value)
    if len(text) <= limit:
        return value
    return text[:limit] + "... (%d characters)" % len(text)


class BaseSim(object):
    """Defaults every property simulation may override."""
    level = "exploration"
    chunk = 8
    cpu_budget = 60
    kill_after = 240
    shrink_budget = 60
    min_done = 0.5
    runs = {"quick": 100, "thorough": 1000}
    wall_cap = {"quick": 400, "thorough": 780}
    order_measure = "hash of the ordered (actor, operation) sequence of a run"
    rule = ""
    real = []
    stubs = []
    assumptions = []

    shared = None

    def prepare(self, shared):
        """Called once per batch in the parent, which must stay free of code under
        test; fills a directory all workers may read."""

    def open(self, root):
        """Called once per worker process."""

    def close(self):
        pass

    def cleanup(self):
        """Called after every run."""

    def generate(self, seed, index, tier):
        raise NotImplementedError

    def execute(self, trace, ctx):
        raise NotImplementedError

    def simplify(self, trace):
        return iter(())
