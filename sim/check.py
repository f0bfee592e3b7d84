#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--runs N] [--workers N]
   check.py setup
   check.py replay <file>
   check.py selftest [--seeds N] [property ...]"""
import os
import sys

PYTHON = "/opt/venv/bin/python"


def reexec():
    """One interpreter, one hash seed, no bytecode written into /repo."""
    want = {"PYTHONHASHSEED": os.environ.get("PROPHYSIM_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1"}
    python = PYTHON if os.path.exists(PYTHON) else sys.executable
    if any(os.environ.get(k) != v for k, v in want.items()) or os.path.realpath(sys.prefix) != os.path.realpath(
            os.path.dirname(os.path.dirname(python))):
        if os.environ.get("PROPHYSIM_REEXEC") == "1":
            return
        os.environ.update(want, PROPHYSIM_REEXEC="1")
        os.execv(python, [python] + sys.argv)


reexec()
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import argparse  # noqa: E402


def setup():
    """Nothing to build ahead: checks build from /repo. Report missing tools now."""
    import shutil
    import ply  # noqa: F401
    for tool in ("g++",):
        if not shutil.which(tool):
            print("missing: %s" % tool)
            return 2
    print("ready")
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("what")
    parser.add_argument("rest", nargs="*")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--runs", type=int)
    parser.add_argument("--workers", type=int)
    parser.add_argument("--seed", type=int)
    parser.add_argument("--seeds", type=int, default=40)
    parser.add_argument("--quiet", action="store_true")
    args = parser.parse_intermixed_args()
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or "1")
    from prophysim import runner
    if args.what == "setup":
        return setup()
    if args.what == "replay":
        return runner.replay(args.rest[0], verbose=not args.quiet)
    if args.what == "selftest":
        from prophysim import selftest
        return selftest.main(args.rest, seed, args.seeds)
    return runner.check(args.what.upper(), args.tier, seed, args.workers, args.runs)


if __name__ == "__main__":
    sys.exit(main())
