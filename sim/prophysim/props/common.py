"""Pieces several property simulations share."""
import copy
import os

from .. import pynode, schema
from ..kernel import Skip, Violation
from ..wire import Unencodable


def compile_python(decls, ctx, outs=("python",)):
    """Compile with the real prophyc and import the module; Skip when refused."""
    if schema.by_hand(decls):
        return descriptors_by_hand(decls, ctx)
    text = schema.to_prophy(decls)
    try:
        pynode.compile_prophy(text, ctx.workdir, outs=outs, patch=schema.to_patch(decls))
    except (Exception, SystemExit) as e:
        ctx.counts["schema_refused"] += 1
        raise Skip("schema refused: %s: %s" % (type(e).__name__, e))
    try:
        module = pynode.import_module(os.path.join(ctx.workdir, "proto.py"))
    except Exception as e:
        raise Violation("generated-module-does-not-import", "%r\n%s" % (e, text))
    ctx.counts["schemas"] += 1
    return module


def descriptors_by_hand(decls, ctx):
    """The runtime used without prophyc; Skip when it refuses the descriptors."""
    path = os.path.join(ctx.workdir, "proto.py")
    with open(path, "w") as f:
        f.write(schema.to_python(decls))
    try:
        module = pynode.import_module(path)
    except Exception as e:
        ctx.counts["schema_refused"] += 1
        raise Skip("descriptors refused: %s: %s" % (type(e).__name__, e))
    ctx.counts["schemas"] += 1
    ctx.counts["schemas_written_by_hand"] += 1
    return module


def shape(lay, t, depth=2):
    """Coarse structural signature of a type."""
    types = lay.types
    t = types.resolve(t)
    d = types.by_name.get(t)
    if d is None:
        return t
    if d["k"] == "enum":
        return "enum"
    if depth == 0:
        return d["k"]
    out = [d["k"]]
    for m in d["m"]:
        a = m.get("a")
        out.append((("?" if m.get("o") else "") + (a[0] if a else ""), shape(lay, m["t"], depth - 1)))
    return tuple(out)


def memory_bound(n):
    """Bytes a decode of n input bytes may allocate at its peak."""
    return (1 << 20) + 2048 * n


def padded_greedy_tail(lay, t, value):
    """True when the encoding of value puts padding behind a greedy array."""
    try:
        return not lay.greedy_aligned(t, value)
    except (Unencodable, KeyError, StopIteration, TypeError):
        return False


def simplify_schema(trace, names_of):
    """Candidates with unused declarations dropped, then single members dropped."""
    roots = []
    for step in trace["steps"]:
        roots += [n for n in names_of(step) if n]
    kept = schema.used_types(trace["schema"], roots)
    if len(kept) < len(trace["schema"]):
        yield dict(trace, schema=kept)
    for i, d in enumerate(kept):
        if d["k"] in ("struct", "union") and len(d["m"]) > 1:
            sizers = schema.sizers(d)
            for j, m in enumerate(d["m"]):
                if m["n"] in sizers:
                    continue
                smaller = copy.deepcopy(kept)
                del smaller[i]["m"][j]
                left = schema.sizers(smaller[i])
                smaller[i]["m"] = [x for x in smaller[i]["m"] if x["n"] not in sizers or x["n"] in left]
                if smaller[i]["m"]:
                    yield dict(trace, schema=smaller)


def shorter(data):
    n = len(data)
    for cut in (n // 2, n - 8, n - 4, n - 1):
        if 0 <= cut < n:
            yield data[:cut]
    for at in range(0, min(n, 64), 4):
        if any(data[at:at + 4]):
            yield data[:at] + b"\0" * len(data[at:at + 4]) + data[at + 4:]
