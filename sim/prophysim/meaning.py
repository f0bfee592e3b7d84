"""Do generated Python modules mean what the schema says? Constants,
enumerators, and the encodings of random values against the wire reference."""
from . import pynode, wire
from .kernel import Violation
from .rng import Rng, derive
from .schema import UNLIMITED, Types


def check(get, decls, seed, where, ctx, values=1):
    """get(name) -> object of that name, or raises."""
    lay = wire.Layout(Types(decls))
    for d in decls:
        if d["k"] == "const":
            same(get, d["n"], d["v"], where)
        elif d["k"] == "enum":
            for e in d["m"]:
                same(get, e[0], e[1], where)
        elif d["k"] == "typedef":
            fetch(get, d["n"], where)
    for d in decls:
        name = d["n"]
        if d["k"] == "typedef" and lay.types.category(name) not in ("struct", "union"):
            continue
        if d["k"] not in ("struct", "union", "typedef"):
            continue
        cls = fetch(get, name, where)
        rng = Rng(derive(seed, name))
        for _ in range(values):
            value = wire.random_value(rng, lay, name)
            for endian in "<>":
                expected = lay.encode(name, value, endian)
                try:
                    msg = cls()
                    pynode.assign(lay, name, msg, value)
                    got = msg.encode(endian)
                except Exception as e:
                    raise Violation("encoding-differs", "%s: %s with value %r raised %s: %s" % (
                        where, name, value, type(e).__name__, e))
                if got != expected:
                    raise Violation("encoding-differs", "%s: %s with value %r\nencodes to %s\nexpected   %s" % (
                        where, name, value, got.hex(), expected.hex()))
                if lay.types.kind(name) == UNLIMITED:
                    continue    # padding behind a greedy array reads as elements
                back = cls()
                try:
                    back.decode(expected, endian)
                    again = pynode.read(lay, name, back)
                except Exception as e:
                    raise Violation("decoding-differs", "%s: %s refuses %s: %s: %s" % (
                        where, name, expected.hex(), type(e).__name__, e))
                if again != value:
                    raise Violation("decoding-differs", "%s: %s of %s gives %r, expected %r" % (
                        where, name, expected.hex(), again, value))
            ctx.counts["values_encoded"] += 1


def fetch(get, name, where):
    try:
        return get(name)
    except Exception as e:
        raise Violation("definition-missing", "%s: %s: %s: %s" % (where, name, type(e).__name__, e))


def same(get, name, value, where):
    got = fetch(get, name, where)
    if got != value or isinstance(got, float):
        raise Violation("constant-differs", "%s: %s is %r, expected %r" % (where, name, got, value))
