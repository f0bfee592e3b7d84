"""Delta debugging over traces. A trace is JSON data with a list under "steps"."""
import copy
import time


def ddmin(items, still_fails, deadline):
    """Smallest sublist found that still fails (classic ddmin, then one-by-one)."""
    n = 2
    while len(items) >= 2 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        for start in range(0, len(items), size):
            candidate = items[:start] + items[start + size:]
            if time.monotonic() > deadline:
                return items
            if candidate and still_fails(candidate):
                items = candidate
                n = max(2, n - 1)
                reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(sim, trace, cls, execute, budget_s):
    """execute(trace) -> violation class or None. Returns (trace, executions)."""
    deadline = time.monotonic() + budget_s
    executions = [0]

    def fails(candidate):
        executions[0] += 1
        return execute(candidate) == cls

    def with_steps(steps):
        candidate = dict(trace)
        candidate["steps"] = steps
        return candidate

    if trace.get("steps"):
        steps = ddmin(trace["steps"], lambda s: fails(with_steps(s)), deadline)
        trace = with_steps(steps)
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for candidate in sim.simplify(copy.deepcopy(trace)):
            if time.monotonic() > deadline:
                break
            if candidate != trace and fails(candidate):
                trace = candidate
                progress = True
                break
    return trace, executions[0]
