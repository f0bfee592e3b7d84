"""Run context, violations, step budgets: what every simulation shares."""
import collections
import hashlib
import heapq
import signal
import sys


class Violation(Exception):
    """The property under test is broken.

    cls: short stable class, what shrinking and replay compare.
    detail: text for humans. signature: identifies the specific input for the
    known-findings file."""

    def __init__(self, cls, detail="", signature=""):
        super().__init__(cls)
        self.cls = cls
        self.detail = detail
        self.signature = signature or cls


class Skip(Exception):
    """The run has nothing to say (for example the schema is not accepted)."""


class Hang(BaseException):
    """Raised inside code under test when its step or CPU budget is exhausted.
    BaseException, so that `except Exception` in that code cannot swallow it."""


class Ctx(object):
    """What one run records. Recording never draws random numbers and never
    reads a clock, so it cannot perturb the run."""

    def __init__(self, workdir, verbose=False):
        self.workdir = workdir
        self.verbose = verbose
        self.counts = collections.Counter()   # operations and probes
        self.faults = collections.Counter()   # faults that actually fired
        self.states = set()                   # distinct states reached (64-bit hashes)
        self.orders = set()                   # distinct interleavings (64-bit hashes)
        self.maxima = {}                      # largest value seen per measure
        self.simtime = 0.0
        self.notes = []                       # known findings hit
        self._sha = hashlib.sha256()
        self._nevents = 0

    def log(self, *event):
        self._nevents += 1
        line = repr(event)
        self._sha.update(line.encode())
        if self.verbose:
            print("  [%04d] %s" % (self._nevents, line if len(line) < 2000 else line[:2000] + "..."))

    def state(self, *parts):
        self.states.add(short_hash(repr(parts)))

    def order(self, *parts):
        self.orders.add(short_hash(repr(parts)))

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def maximum(self, name, value):
        self.maxima[name] = max(self.maxima.get(name, 0), value)

    def digest(self):
        return self._sha.hexdigest()


def short_hash(text):
    return int.from_bytes(hashlib.blake2b(text.encode(), digest_size=8).digest(), "big")


class Scheduler(object):
    """Discrete-event scheduler over simulated time; total order by (time, seq)."""

    def __init__(self):
        self.now = 0.0
        self._seq = 0
        self._heap = []

    def at(self, delay, item):
        self._seq += 1
        heapq.heappush(self._heap, (self.now + delay, self._seq, item))

    def pop(self):
        when, _, item = heapq.heappop(self._heap)
        self.now = when
        return item

    def __bool__(self):
        return bool(self._heap)


# ------------------------------------------------------------- step budget

_TOOL = 4


class StepBudget(object):
    """Deterministic bound on work: counts function entries and jumps executed in
    code objects of the given packages, and raises Hang beyond the limit."""

    def __init__(self, packages):
        self.mon = sys.monitoring
        self.count = 0
        self.limit = None
        self.packages = tuple(packages)
        self.known = set()
        try:
            self.mon.use_tool_id(_TOOL, "prophysim")
        except ValueError:
            pass
        events = self.mon.events
        self.mask = events.PY_START | events.JUMP
        self.mon.register_callback(_TOOL, events.PY_START, self._start)
        self.mon.register_callback(_TOOL, events.JUMP, self._jump)
        self.refresh()

    def refresh(self):
        """Instrument code of every loaded module of the packages."""
        for name in sorted(sys.modules):
            if name in self.packages or name.startswith(tuple(p + "." for p in self.packages)):
                self._module(sys.modules[name])

    def _module(self, module):
        filename = getattr(module, "__file__", None)
        if not filename or filename in self.known:
            return
        self.known.add(filename)
        try:
            with open(filename) as f:
                compile(f.read(), filename, "exec")
        except (OSError, SyntaxError, ValueError):
            pass
        import gc
        import types
        for obj in gc.get_objects():
            if isinstance(obj, types.FunctionType) and obj.__code__.co_filename == filename:
                self._code(obj.__code__)

    def _code(self, code):
        if id(code) in self.known:
            return
        self.known.add(id(code))
        self.mon.set_local_events(_TOOL, code, self.mask)
        for const in code.co_consts:
            if hasattr(const, "co_code"):
                self._code(const)

    def _start(self, code, offset):
        self._tick()

    def _jump(self, code, offset, dest):
        self._tick()

    def _tick(self):
        if self.limit is not None:
            self.count += 1
            if self.count > self.limit:
                self.limit = None
                raise Hang("step budget exhausted")

    def __call__(self, limit):
        self.pending = limit
        return self

    def __enter__(self):
        self.count = 0
        self.limit = self.pending

    def __exit__(self, *exc):
        self.limit = None
        return False


def _on_cpu_timer(signum, frame):
    raise Hang("CPU budget exhausted")


class CpuGuard(object):
    """Backstop for loops the step budget cannot see."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _on_cpu_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False
