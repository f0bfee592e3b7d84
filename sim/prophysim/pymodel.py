"""Reference model of the Python message API: plain objects with identity.

A model value is an int, a float (Python float), bytes, None, or a node. Nodes
are MStruct, MUnion and MArr. Operations mirror the list/attribute semantics the
API documents; nothing here imports the code under test."""
import struct as _struct

from .schema import FIXED, SCALARS, SIZED
from .wire import float_to_bits


class MStruct(object):
    def __init__(self, lay, t):
        self.lay, self.t = lay, lay.types.resolve(t)
        self.f = {}
        for m in lay.value_members(self.t):
            self.f[m["n"]] = default_member(lay, m)

    def member(self, name):
        return next(m for m in self.lay.types.by_name[self.t]["m"] if m["n"] == name)


class MUnion(object):
    def __init__(self, lay, t):
        self.lay, self.t = lay, lay.types.resolve(t)
        self.switch(lay.types.by_name[self.t]["m"][0])

    def switch(self, arm):
        self.arm = arm
        self.v = default_of(self.lay, arm["t"])


class MArr(object):
    """kind: fix, lim, dyn, greedy, ext. limit: None or most elements allowed."""

    def __init__(self, lay, m, limit):
        self.lay, self.m, self.t = lay, m, lay.types.resolve(m["t"])
        self.kind, self.limit = m["a"][0], limit
        self.v = [default_of(lay, m["t"]) for _ in range(m["a"][1])] if self.kind == "fix" else []


def default_of(lay, t):
    cat = lay.types.category(t)
    if cat == "struct":
        return MStruct(lay, t)
    if cat == "union":
        return MUnion(lay, t)
    if cat == "enum":
        return lay.types.decl(t)["m"][0][1]
    return 0.0 if cat == "float" else 0


def sizer_range(lay, owner, sizer):
    m = next(m for m in owner["m"] if m["n"] == sizer)
    size, signed = SCALARS[lay.types.resolve(m["t"])]
    return (1 << (8 * size - (1 if signed else 0))) - 1 - m.get("shift", 0)


def array_limit(lay, m):
    a = m["a"]
    if a[0] in ("lim", "elim"):
        return a[1]
    if a[0] == "ext":
        for owner in lay.types.structs():
            if any(x is m for x in owner["m"]):
                return sizer_range(lay, owner, a[1])
    return None


def default_member(lay, m):
    if m["o"]:
        return None
    if m["a"]:
        if m["t"] == "bytes":
            return b"\0" * m["a"][1] if m["a"][0] == "fix" else b""
        return MArr(lay, m, array_limit(lay, m))
    return default_of(lay, m["t"])


# ------------------------------------------------------------- snapshots

def snapshot(v):
    """Plain comparable data of a model value."""
    if isinstance(v, MStruct):
        return {k: snapshot(x) for k, x in v.f.items()}
    if isinstance(v, MUnion):
        return [v.arm["n"], snapshot(v.v)]
    if isinstance(v, MArr):
        return [snapshot(x) for x in v.v]
    if isinstance(v, float):
        return _struct.pack("<d", v).hex()
    return v


def wire_value(lay, v, t=None):
    """The reference-encoder value of a model value."""
    if isinstance(v, MStruct):
        out = {}
        for m in lay.value_members(v.t):
            x = v.f[m["n"]]
            out[m["n"]] = None if x is None else wire_value(lay, x, m["t"])
        return out
    if isinstance(v, MUnion):
        return [v.arm["n"], wire_value(lay, v.v, v.arm["t"])]
    if isinstance(v, MArr):
        return [wire_value(lay, x, v.t) for x in v.v]
    if isinstance(v, float):
        return float_to_bits(v, lay.types.resolve(t))
    return v


def real_snapshot(lay, t, msg):
    """Same shape as snapshot(), read from a real message."""
    types = lay.types
    t = types.resolve(t)
    if types.category(t) == "union":
        disc = msg.discriminator
        arm = next((m for m in types.by_name[t]["m"] if m["d"] == disc), None)
        if arm is None:
            return ["?", repr(disc)]
        return [arm["n"], real_item(lay, arm["t"], getattr(msg, arm["n"]))]
    out = {}
    for m in lay.value_members(t):
        v = getattr(msg, m["n"])
        if m["a"]:
            if m["t"] == "bytes":
                out[m["n"]] = b"" if v == "" else v
            else:
                out[m["n"]] = [real_item(lay, m["t"], v[i]) for i in range(len(v))]
        elif m["o"]:
            out[m["n"]] = None if v is None else real_item(lay, m["t"], v)
        else:
            out[m["n"]] = real_item(lay, m["t"], v)
    return out


def real_item(lay, t, v):
    cat = lay.types.category(t)
    if cat in ("struct", "union"):
        return real_snapshot(lay, t, v)
    if cat == "float":
        return _struct.pack("<d", float(v)).hex() if isinstance(v, (int, float)) else repr(v)
    return int(v) if isinstance(v, int) else repr(v)


def valid(lay, snap, t):
    """Problem text if a snapshot holds anything no message may hold."""
    types = lay.types
    t = types.resolve(t)
    cat = types.category(t)
    if cat == "struct":
        for m in lay.value_members(t):
            v = snap[m["n"]]
            if m["a"]:
                limit = m["a"][1] if m["a"][0] in SIZED else array_limit(lay, m)
                if limit is not None and len(v) > limit or m["a"][0] == "fix" and len(v) != m["a"][1]:
                    return "%s.%s has %d elements" % (t, m["n"], len(v))
                if m["t"] != "bytes":
                    for x in v:
                        bad = valid(lay, x, m["t"])
                        if bad:
                            return bad
                elif not isinstance(v, bytes):
                    return "%s.%s is %r" % (t, m["n"], v)
            elif not (m["o"] and v is None):
                bad = valid(lay, v, m["t"])
                if bad:
                    return bad
        return None
    if cat == "union":
        arm = next((m for m in types.by_name[t]["m"] if m["n"] == snap[0]), None)
        return "no such arm %r" % (snap,) if arm is None else valid(lay, snap[1], arm["t"])
    if cat == "enum":
        return None if snap in [e[1] for e in types.by_name[t]["m"]] else "enum %s holds %r" % (t, snap)
    if cat == "int":
        size, signed = SCALARS[t]
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        return None if isinstance(snap, int) and lo <= snap <= hi else "%s holds %r" % (t, snap)
    return None


def audit(lay, t, msg, error):
    """Problem text if different ways of reading a message disagree."""
    types = lay.types
    t = types.resolve(t)
    if types.category(t) == "union":
        disc = msg.discriminator
        for m in types.by_name[t]["m"]:
            if m["d"] == disc:
                if types.category(m["t"]) in ("struct", "union"):
                    bad = audit(lay, m["t"], getattr(msg, m["n"]), error)
                    if bad:
                        return bad
                continue
            try:
                got = getattr(msg, m["n"])
            except error:
                continue
            return "%s exposes arm %s (%r) while %r is discriminated" % (t, m["n"], got, disc)
        return None
    for m in types.by_name[t]["m"]:
        composite = types.category(m["t"]) in ("struct", "union") if m["t"] != "bytes" else False
        if m["n"] not in {x["n"] for x in lay.value_members(t)}:
            if hasattr(msg, m["n"]):
                return "%s.%s: a counter is readable" % (t, m["n"])
            continue
        v = getattr(msg, m["n"])
        if m["a"] and m["t"] != "bytes":
            items = [v[i] for i in range(len(v))]
            walked = list(v)
            if len(walked) != len(items) or any(a is not b and a != b for a, b in zip(walked, items)):
                return "%s.%s iterates to %r but indexes to %r" % (t, m["n"], walked, items)
            sliced = v[:]
            if len(sliced) != len(items) or any(a is not b and a != b for a, b in zip(sliced, items)):
                return "%s.%s slices to %r but indexes to %r" % (t, m["n"], sliced, items)
            if not composite and all(x == x for x in items) and not v == items:
                return "%s.%s is not equal to its own elements" % (t, m["n"])
            if composite:
                for x in items:
                    bad = audit(lay, m["t"], x, error)
                    if bad:
                        return bad
        elif composite and v is not None:
            bad = audit(lay, m["t"], v, error)
            if bad:
                return bad
    return None


__all__ = ["MStruct", "MUnion", "MArr", "FIXED"]
