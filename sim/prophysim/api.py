"""Operations of the Python message API: generated against the reference model,
applied to model and real messages alike.

Step: [time, actor, target, op, args...]
target: ["m", k] or ["h", k] followed by a path of field names and indices.
Literals are JSON: {"i": int} {"f": hex} {"b": hex} {"s": str} {"n": 0} {"t": bool}
{"o": kind}; sequences {"q": shape, "v": [literals]} with shape list, tuple, gen,
liar, fail (fails after its last item), reent (appends to the array it feeds);
{"q": "ref", "v": target} is another live array; {"m": target} a live message."""
import struct as _struct

from .pymodel import MArr, MStruct, MUnion
from .schema import SCALARS, SIZED

OK, REJECT, MAY = "ok", "reject", "may"


# odd objects that happen to be iterable
ODD_ITEMS = {"bytearray": [1, 2], "set": [1], "memoryview": [1], "dict": []}


class Boom(Exception):
    """Raised by a failing iterator."""


# ---------------------------------------------------------------- verdicts

def scalar_verdict(lay, t, lit):
    """-> (OK|REJECT|MAY, model value)"""
    types = lay.types
    t = types.resolve(t)
    cat = types.category(t)
    kind = next(iter(lit))
    v = lit[kind]
    if cat == "int":
        size, signed = SCALARS[t]
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        if kind == "i":
            return (OK, v) if lo <= v <= hi else (REJECT, None)
        if kind == "t":
            return MAY, int(v)
        return REJECT, None
    if cat == "float":
        if kind == "t":
            return MAY, float(v)
        if kind not in "fi":
            return REJECT, None
        x = float.fromhex(v) if kind == "f" else v
        try:
            _struct.pack("<f" if t == "r32" else "<d", x)
            return OK, float(x)
        except (OverflowError, _struct.error):
            return REJECT, None
    if cat == "enum":
        entries = types.by_name[t]["m"]
        if kind == "i":
            return (OK, v) if v in [e[1] for e in entries] else (REJECT, None)
        if kind == "s":
            hit = [e[1] for e in entries if e[0] == v]
            return (OK, hit[0]) if hit else (REJECT, None)
        if kind == "t":
            return (MAY, int(v)) if int(v) in [e[1] for e in entries] else (REJECT, None)
    return REJECT, None


def bytes_verdict(lay, m, limit, lit):
    kind = next(iter(lit))
    if kind != "b":
        return REJECT, None
    v = bytes.fromhex(lit[kind])
    a = m["a"]
    if a[0] in SIZED and len(v) > a[1] or limit is not None and len(v) > limit:
        return REJECT, None
    return OK, v.ljust(a[1], b"\0") if a[0] == "fix" else v


def elements(lay, arr, seq, resolve):
    """Items of a sequence literal for a scalar array -> (verdict, values)."""
    kind = seq.get("q")
    if kind is None:
        lit = next(iter(seq))
        if lit == "b":
            seq = {"q": "list", "v": [{"i": x} for x in bytes.fromhex(seq["b"])]}
        elif lit == "s":
            seq = {"q": "list", "v": [{"s": c} for c in seq["s"]]}
        elif lit == "o" and seq["o"] in ODD_ITEMS:
            seq = {"q": "gen", "v": [{"i": x} for x in ODD_ITEMS[seq["o"]]]}
        else:
            return REJECT, None
        kind = seq["q"]
    if kind == "ref":
        node = resolve(seq["v"])
        if not isinstance(node, MArr):
            return None, None
        if lay.types.category(node.t) in ("struct", "union"):
            return (OK, []) if not node.v else (REJECT, None)
        items = [{"f": x.hex()} if isinstance(x, float) else {"i": x} for x in node.v]
    else:
        items = seq["v"]
    verdict, values = OK, []
    for lit in items:
        what, value = scalar_verdict(lay, arr.t, lit)
        if what == REJECT:
            return REJECT, None
        if what == MAY:
            verdict = MAY
        values.append(value)
    if kind in ("gen", "liar"):
        verdict = MAY
    return verdict, values


# ------------------------------------------------------- real-side literals

class Liar(object):
    """A sized iterable whose len() is wrong."""

    def __init__(self, values):
        self.values = values

    def __len__(self):
        return 1 if len(self.values) != 1 else 0

    def __iter__(self):
        return iter(self.values)


class Indexish(object):
    def __index__(self):
        return 1

    def __int__(self):
        return 1


ODD = {"object": object, "bytearray": lambda: bytearray(b"\1\2"), "indexish": Indexish, "complex": lambda: 1j,
       "dict": dict, "set": lambda: {1}, "type": lambda: int, "memoryview": lambda: memoryview(b"\1"),
       "ellipsis": lambda: Ellipsis, "function": lambda: (lambda: 0), "nan_str": lambda: "nan"}


def real_literal(lit, resolve, target=None):
    if "q" in lit:
        if lit["q"] == "ref":
            return resolve(lit["v"])
        values = [real_literal(x, resolve) for x in lit["v"]]
        if lit["q"] == "tuple":
            return tuple(values)
        if lit["q"] == "gen":
            return (x for x in values)
        if lit["q"] == "liar":
            return Liar(values)
        if lit["q"] == "fail":
            def failing():
                for x in values:
                    yield x
                raise Boom()
            return failing()
        if lit["q"] == "reent":
            def reentrant():
                for i, x in enumerate(values):
                    if i < 4:
                        try:
                            target.append(x)
                        except Exception:
                            pass
                    yield x
            return reentrant()
        return values
    kind = next(iter(lit))
    v = lit[kind]
    if kind in ("i", "s", "t"):
        return v
    if kind == "f":
        return float.fromhex(v)
    if kind == "b":
        return bytes.fromhex(v)
    if kind == "n":
        return None
    if kind == "m":
        return resolve(v)
    return ODD[v]()


# -------------------------------------------------------------- resolution

def model_child(node, step):
    if isinstance(node, MStruct):
        return node.f.get(step) if isinstance(step, str) else None
    if isinstance(node, MUnion):
        return node.v if step == node.arm["n"] else None
    if isinstance(node, MArr) and isinstance(step, int):
        return node.v[step] if -len(node.v) <= step < len(node.v) else None
    return None


def model_at(roots, handles, target):
    node = (roots if target[0] == "m" else handles).get(target[1])
    for step in target[2:]:
        if node is None:
            return None
        node = model_child(node, step)
    return node if isinstance(node, (MStruct, MUnion, MArr)) else None


def real_at(roots, handles, target):
    obj = (roots if target[0] == "m" else handles)[target[1]]
    for step in target[2:]:
        obj = getattr(obj, step) if isinstance(step, str) else obj[step]
    return obj


# -------------------------------------------------------------- generation

def random_scalar(rng, lay, t, bad=0.0):
    """A literal for a scalar type; with probability bad an arbitrary one."""
    types = lay.types
    t = types.resolve(t)
    cat = types.category(t)
    if rng.chance(bad):
        return odd_literal(rng, lay, t)
    if cat == "int":
        size, signed = SCALARS[t]
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        return {"i": rng.pick([lo, hi, 0, 1, hi - 1, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(0, 9)])}
    if cat == "float":
        if rng.chance(0.3):
            return {"i": rng.pick([0, 1, -7, 1 << 24, 10 ** 15])}
        return {"f": rng.pick([0.0, -0.0, 1.5, -2.25, float("inf"), float("-inf"), 3.4028234663852886e+38, 1e-45, 1e-300,
                               rng.random(), rng.uniform(-1e9, 1e9)]).hex()}
    entry = rng.pick(types.by_name[t]["m"])
    return {"s": entry[0]} if rng.chance(0.4) else {"i": entry[1]}


def odd_literal(rng, lay, t):
    cat = lay.types.category(t)
    pool = [{"n": 0}, {"t": rng.chance(0.5)}, {"s": rng.pick(["", "x", "E0_0", "nope", "1"])}, {"b": rng.pick(["", "00", "3132"])},
            {"f": rng.pick([1.0, 0.5, 1e39, -1e39, 3.5e38, 1e308]).hex()},
            {"i": rng.pick([-1, 128, 255, 256, -129, 65535, 65536, -32769, 1 << 31, 1 << 32, -(1 << 31) - 1, 1 << 63, 1 << 64,
                            -(1 << 63) - 1, 10 ** 30, -10 ** 400, 10 ** 400, 10 ** 39])},
            {"o": rng.pick(sorted(ODD))}, {"q": "list", "v": [{"i": 1}]}]
    if cat == "float":
        # an integer no float equals may come back as it was given or rounded
        pool = [{"i": int(float(x["i"]))} if abs(x.get("i", 0)) in range(1 << 53, 10 ** 300) else x for x in pool]
    if cat == "int":
        size, signed = SCALARS[lay.types.resolve(t)]
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        pool += [{"i": lo - 1}, {"i": hi + 1}] * 3
    return rng.pick(pool)


def random_seq(rng, lay, arr, bad, size, live, shapes):
    """A sequence literal for a scalar array."""
    roll = rng.random()
    if roll < 0.1 and live:
        return {"q": "ref", "v": rng.pick(live)}
    if roll < 0.1 + bad / 3:
        return odd_literal(rng, lay, arr.t)
    values = [random_scalar(rng, lay, arr.t) for _ in range(size)]
    if values and rng.chance(bad):
        values[rng.randrange(len(values))] = odd_literal(rng, lay, arr.t)
    return {"q": rng.pick(shapes), "v": values}


def random_index(rng, n):
    return rng.pick([0, -1, 1, n - 1, -n, n, -n - 1, rng.randint(-n - 2, n + 2), 10 ** 6, -10 ** 6])


def random_slice(rng, n):
    def end():
        return rng.pick([None, None, 0, 1, -1, n, rng.randint(-n - 2, n + 2)])
    return [end(), end(), rng.pick([None, None, None, 1, 2, -1, 3, -2])]


def walk(node, target, out, depth=0):
    """All composite and array nodes below (and including) a node."""
    if node is None or depth > 12:
        return
    if isinstance(node, MArr):
        out.append((target, node))
        for i, x in enumerate(node.v[:6]):
            if isinstance(x, (MStruct, MUnion)):
                walk(x, target + [i], out, depth + 1)
        return
    if isinstance(node, MStruct):
        out.append((target, node))
        for k, x in node.f.items():
            if isinstance(x, (MStruct, MUnion, MArr)):
                walk(x, target + [k], out, depth + 1)
    elif isinstance(node, MUnion):
        out.append((target, node))
        if isinstance(node.v, (MStruct, MUnion)):
            walk(node.v, target + [node.arm["n"]], out, depth + 1)
