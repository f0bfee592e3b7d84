"""The compiler as an actor: prophyc.main run in this process against files in a
scratch directory, with I/O faults injected at the interpreter's own audit
events (they see every open, however the code spells it)."""
import contextlib
import errno
import importlib
import io
import os
import resource
import sys

from . import pynode
from .kernel import Hang, StepBudget

EXTENSIONS = {"python": [".py"], "cpp": [".pp.hpp", ".pp.cpp"], "cpp_full": [".ppf.hpp", ".ppf.cpp"],
              "prophy": [".prophy"]}

MEMORY = 4 << 30

_current = []


def _audit(event, args):
    if event == "open" and _current:
        _current[-1]._on_open(*args)


_installed = []


class Outcome(object):
    """kind: ok, designed, io, exit, internal, hang"""

    def __init__(self):
        self.kind = None
        self.type = None
        self.message = ""
        self.exit = None
        self.stdout = ""
        self.stderr = ""
        self.nodes = None
        self.opens = []
        self.fired = []
        self.steps = 0

    def brief(self):
        return (self.kind, self.type, self.message, self.exit)


class Compiler(object):
    """One compiler process. root: directory the run may write below."""

    def __init__(self):
        pynode.setup_path()
        import prophyc
        for name in ("__main__", "parsers.prophy", "parsers.isar", "parsers.sack", "patch", "generators.python",
                     "generators.cpp", "generators.cpp_full", "generators.prophy"):
            try:
                importlib.import_module("prophyc." + name)
            except ImportError:
                pass
        self.prophyc = prophyc
        self.budget = StepBudget(["prophyc"])
        if not _installed:
            sys.addaudithook(_audit)
            _installed.append(True)
        self._busy = False
        self.gate = None        # called before every file access of the run

    # -------------------------------------------------------------- files

    @staticmethod
    def write(root, files):
        """files: {relative path: bytes, or None for a directory}"""
        for path in sorted(files):
            full = os.path.join(root, path)
            if files[path] is None:
                os.makedirs(full, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(files[path])

    @staticmethod
    def snapshot(root):
        out = {}
        for base, dirs, names in os.walk(root):
            dirs.sort()
            for name in sorted(names):
                full = os.path.join(base, name)
                if os.path.isfile(full) and not os.path.islink(full):
                    with open(full, "rb") as f:
                        out[os.path.relpath(full, root)] = f.read()
        return out

    # ------------------------------------------------------------- faults

    def _on_open(self, path, mode, flags):
        if not self._busy or not isinstance(path, (str, bytes)):
            return
        head, tail = os.path.split(os.path.abspath(os.fsdecode(path)))
        path = os.path.join(os.path.realpath(head), tail)
        if not path.startswith(self._root + os.sep):
            return
        rel = os.path.relpath(path, self._root)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR)) if isinstance(flags, int) else bool(mode and "w" in mode)
        self._outcome.opens.append((rel, "w" if writing else "r"))
        if self.gate:
            self.gate(rel, writing)
        for fault in self._faults:
            if fault.get("done") or fault["path"] != rel:
                continue
            fault["n"] = fault.get("n", 1) - 1
            if fault["n"] > 0:
                continue
            fault["done"] = True
            self._outcome.fired.append(fault["kind"])
            self._busy = False
            try:
                if fault["kind"] == "vanish":
                    if os.path.isfile(path):
                        os.unlink(path)
                elif fault["kind"] == "truncate":
                    if os.path.isfile(path) and not writing:
                        os.truncate(path, os.path.getsize(path) // 2)
                else:
                    code = getattr(errno, fault["kind"])
                    raise OSError(code, os.strerror(code), path)
            finally:
                self._busy = True

    # ---------------------------------------------------------------- run

    def run(self, root, argv, cwd=".", faults=(), steps=4000000, entry=False, file_limit=None):
        """argv may contain '<W>', which stands for the root directory.
        file_limit: bytes after which writing to a file fails."""
        outcome = self._outcome = Outcome()
        self._root = os.path.realpath(root)
        self._faults = [dict(f) for f in faults]
        argv = [a.replace("<W>", self._root) for a in argv]
        out, err = io.StringIO(), io.StringIO()
        here = os.getcwd()
        os.chdir(os.path.join(root, cwd))
        _current.append(self)
        limits = {r: resource.getrlimit(r) for r in (resource.RLIMIT_FSIZE, resource.RLIMIT_AS)}
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, limits[resource.RLIMIT_AS][1]))
        if file_limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (file_limit, limits[resource.RLIMIT_FSIZE][1]))
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                with self.budget(steps):
                    self._busy = True
                    try:
                        if entry:
                            from prophyc.__main__ import entry_main
                            entry_main(argv)
                        else:
                            nodes = self.prophyc.main(argv)
                            outcome.nodes = nodes if isinstance(nodes, dict) else None
                        outcome.kind = "ok"
                    finally:
                        self._busy = False
        except Hang as e:
            if "CPU" in str(e):
                raise
            outcome.kind = "hang"
            outcome.type = "Hang"
        except SystemExit as e:
            outcome.kind = "exit"
            outcome.type = "SystemExit"
            outcome.exit = e.code
        except Exception as e:
            outcome.type = type(e).__name__
            outcome.message = str(e)
            outcome.exception = e
            if isinstance(e, self.prophyc.ProphycError):
                outcome.kind = "designed"
            elif isinstance(e, OSError):
                outcome.kind = "io"
                if e.errno == errno.EFBIG and file_limit is not None:
                    outcome.fired.append("disk_full")
            else:
                outcome.kind = "internal"
        finally:
            for r, old in limits.items():
                resource.setrlimit(r, old)
            _current.pop()
            os.chdir(here)
        outcome.steps = self.budget.count
        outcome.message = outcome.message.replace(self._root, "<W>")
        if isinstance(outcome.exit, str):
            outcome.exit = outcome.exit.replace(self._root, "<W>")
        outcome.stdout = out.getvalue().replace(self._root, "<W>")
        outcome.stderr = err.getvalue().replace(self._root, "<W>")
        return outcome


def expected_outputs(stems, outs):
    """[(out dir, file name)] for {kind: dir}"""
    return [(outs[kind], stem + ext) for stem in stems for kind in sorted(outs) for ext in EXTENSIONS[kind]]
