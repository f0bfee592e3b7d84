"""check.py selftest [--seeds N] [property ...]

Shows that a run is a function of its seed alone: the same seeds are executed by
different numbers of workers, in other company, under other hash seeds and after a
delay; event logs, faults and states must be the same in all of them."""
import json
import os
import subprocess
import sys
import time

from . import runner

PROPERTIES = ("C03", "C05", "C06", "C07", "C10", "C11", "C13", "C15", "C16", "C20")
SETTINGS = (("one worker", 1, None, "0"), ("eight workers", 8, None, "0"), ("every run in its own process", 6, 1, "0"),
            ("other hash seed", 4, None, "31337"))


def collect(prop, seed, runs, workers, chunk):
    """-> {index: [digest, faults, states, interleavings, violation]}"""
    real = runner.load

    def load(name):
        sim = real(name)
        if chunk:
            sim.chunk = chunk
        return sim

    runner.load = load
    try:
        results, errors, failures, found = runner.run_batch(prop, seed, "quick", runs, workers, time.monotonic() + 3600)
    finally:
        runner.load = real
    if errors or failures:
        raise RuntimeError("%s: %s %s" % (prop, errors[:1], failures[:1]))
    return {str(i): [r["digest"], r["events"], sorted(r["faults"].items()), r["states"], r["orders"], bool(r["violation"])]
            for i, r in results.items()}


def main(props, seed, runs):
    if props and props[0] == "collect":
        prop, workers, chunk = props[1], int(props[2]), int(props[3])
        json.dump(collect(prop, seed, runs, workers, chunk), sys.stdout)
        return 0
    bad = 0
    for prop in [p.upper() for p in props] or PROPERTIES:
        first = None
        for title, workers, chunk, hash_seed in SETTINGS:
            env = dict(os.environ, PROPHYSIM_HASHSEED=hash_seed)
            env.pop("PROPHYSIM_REEXEC", None)
            env.pop("PYTHONHASHSEED", None)
            argv = [sys.executable, os.path.join(runner.VERIF, "sim", "check.py"), "selftest", "collect", prop, str(workers),
                    str(chunk or 0), "--seed", str(seed), "--seeds", str(runs)]
            got = json.loads(subprocess.run(argv, env=env, stdout=subprocess.PIPE, check=True).stdout)
            first = first or got
            differ = [i for i in first if first[i] != got.get(i)]
            events = sum(r[1] for r in got.values())
            print("%s %-30s %d runs, %d events, %d differ%s" % (
                prop, title, len(got), events, len(differ), " e.g. run %s" % differ[0] if differ else ""), flush=True)
            bad += bool(differ) or len(got) != len(first)
    print("NOT DETERMINISTIC" if bad else "deterministic")
    return 1 if bad else 0
