"""The committed known-findings file. Lines:
  fixed: property=<id> <commit> <what failed>          (suppresses nothing)
  known: property=<id> signature=<signature> <what fails>
Read-only at run time."""
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "KNOWN_FINDINGS")


def entries():
    if not os.path.exists(PATH):
        return
    with open(PATH) as f:
        for line in f:
            if line.startswith("known:"):
                parts = line[len("known:"):].strip().split(" ", 2)
                yield parts[0].split("=", 1)[1], parts[1].split("=", 1)[1], parts[2]


def match(prop, signature):
    for p, s, what in entries():
        if p == prop and s == signature:
            return what
    return None
