"""Machines that run the compiler: interpreters that differ in everything the
output must not depend on (hash seed, clock, heap, locale, user, listing order).
Every job runs in a fresh fork of the machine, so it starts from the same state;
two jobs may share a machine with their file accesses interleaved by a schedule."""
import json
import os
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROFILES = {
    "reference": {"hash": "0", "clock": 1700000000, "heap": 0, "list": "sorted", "env": {}},
    "other_hash": {"hash": "1", "clock": 1700000000, "heap": 0, "list": "sorted", "env": {}},
    "all_else": {"hash": "4242", "clock": 86399, "heap": 5003, "list": "reversed",
                 "env": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Tokyo", "USER": "nobody",
                         "HOME": "/nonexistent", "COLUMNS": "20"}},
    "late": {"hash": "77777", "clock": 4102444800, "heap": 71, "list": "reversed",
             "env": {"LC_ALL": "C.UTF-8", "TZ": "UTC", "USER": "somebody", "PYTHONOPTIMIZE": "1"}},
}


class Machine(object):
    """Client side."""

    def __init__(self, name):
        from . import pynode
        profile = PROFILES[name]
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": profile["hash"],
               "PROPHY_REPO": pynode.REPO, "PROPHYSIM_MACHINE": name}
        env.update(profile["env"])
        if "LD_LIBRARY_PATH" in os.environ:
            env["LD_LIBRARY_PATH"] = os.environ["LD_LIBRARY_PATH"]
        self.process = subprocess.Popen(
            [sys.executable, "-c", "import sys; sys.path.insert(0, %r); from prophysim import machine; machine.serve()" % HERE],
            env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, preexec_fn=_fixed_addresses)

    def run(self, jobs, schedule=None):
        """jobs: lists of steps, one list per party. -> their lists of outcomes, interleaving"""
        self.process.stdin.write(json.dumps({"jobs": jobs, "schedule": schedule or []}).encode() + b"\n")
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            raise RuntimeError("machine died")
        answer = json.loads(line)
        if "error" in answer:
            raise RuntimeError(answer["error"])
        return answer["outcomes"], answer["order"]

    def close(self):
        try:
            self.process.stdin.close()
        except OSError:
            pass
        self.process.kill()
        self.process.wait()
        self.process.stdout.close()


def _fixed_addresses():
    """No address space randomisation: what depends on addresses must repeat."""
    import ctypes
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except (OSError, AttributeError):
        pass


# ------------------------------------------------------------- server side

def serve():
    profile = PROFILES[os.environ["PROPHYSIM_MACHINE"]]
    _set_clock(profile["clock"])
    _set_listing(profile["list"])
    ballast = [object() for _ in range(profile["heap"])]
    import random
    random.seed(profile["hash"])
    from . import compiler
    shared = compiler.Compiler()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        job = json.loads(line)
        out.write(json.dumps(_run(shared, job)) + "\n")
        out.flush()
    del ballast


def _run(shared, job):
    parties = []
    for steps in job["jobs"]:
        to_r, to_w = os.pipe()
        from_r, from_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(to_w)
                os.close(from_r)
                for p in parties:
                    os.close(p["to"])
                    p["from"].close()
                _party(shared, steps, to_r, from_w, gated=len(job["jobs"]) > 1)
                code = 0
            except BaseException as e:
                try:
                    os.write(from_w, ("X%s: %s\n" % (type(e).__name__, e)).encode())
                except OSError:
                    pass
            finally:
                os._exit(code)
        os.close(to_r)
        os.close(from_w)
        parties.append({"pid": pid, "to": to_w, "from": os.fdopen(from_r, "r"), "done": None})
    order, schedule, at = [], job["schedule"], 0
    error = None
    try:
        # everybody runs up to the first gate, then one at a time as scheduled
        for i, p in enumerate(parties):
            error = error or _wait(p)
        while not error and any(p["done"] is None for p in parties):
            waiting = [i for i, p in enumerate(parties) if p["done"] is None]
            choice = schedule[at] if at < len(schedule) else 0
            at += 1
            i = waiting[choice % len(waiting)]
            order.append(i)
            os.write(parties[i]["to"], b"g")
            error = _wait(parties[i])
    finally:
        for p in parties:
            os.close(p["to"])
            p["from"].close()
            try:
                os.kill(p["pid"], signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(p["pid"], 0)
    if error:
        return {"error": error}
    return {"outcomes": [p["done"] for p in parties], "order": order}


def _wait(party):
    line = party["from"].readline()
    if line.startswith("D"):
        party["done"] = json.loads(line[1:])
    elif not line.startswith("o"):
        return "party failed: %s" % line
    return None


def _party(shared, steps, to_r, from_w, gated):
    """steps: [{root, cwd, argv, faults, steps}] or [{root, write: {path: text}}]"""
    if gated:
        def gate(path, writing):
            os.write(from_w, b"o\n")
            os.read(to_r, 1)
        shared.gate = gate
        gate(None, False)
    done = []
    for step in steps:
        if "write" in step:
            shared.write(step["root"], {path: text.encode() for path, text in step["write"].items()})
            continue
        outcome = shared.run(step["root"], step["argv"], cwd=step["cwd"], faults=step.get("faults", ()), steps=step["steps"])
        done.append({"kind": outcome.kind, "brief": list(outcome.brief()), "stderr": outcome.stderr,
                     "steps": outcome.steps, "fired": outcome.fired})
    data = ("D" + json.dumps(done) + "\n").encode()
    while data:
        data = data[os.write(from_w, data):]


def _set_clock(now):
    """Everything that tells the time tells this time."""
    import datetime
    import time
    real_local, real_gm, real_strftime = time.localtime, time.gmtime, time.strftime
    time.time = lambda: float(now)
    time.time_ns = lambda: now * 10 ** 9
    time.localtime = lambda *a: real_local(*(a or (now,)))
    time.gmtime = lambda *a: real_gm(*(a or (now,)))
    time.strftime = lambda f, *a: real_strftime(f, *(a or (time.localtime(),)))
    time.ctime = lambda *a: time.asctime(time.localtime(*a))

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(now)

    class DateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now, tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(now, datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(now)

    datetime.date, datetime.datetime = Date, DateTime


def _set_listing(order):
    real = os.listdir

    def listdir(*args):
        return sorted(real(*args), reverse=order == "reversed")

    os.listdir = listdir
