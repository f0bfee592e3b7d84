"""C10: interleaved histories of API operations against a reference model."""
from .. import schema
from ..kernel import Violation
from ..pymodel import MArr, MStruct, MUnion
from ..wire import Layout
from ..world import World
from . import common
from .apisim import ApiSim

COMPOSITES = ("struct", "union")


class Sim(ApiSim):
    runs = {"quick": 12000, "thorough": 100000}
    rule = ("one state per distinct (operation, argument kind, outcome, declared shape of the node it hit, array fill "
            "level capped at 3); histories interleave 1-4 actors over 2-5 live messages and stale handles")
    assumptions = ["integer indices stay within +-10**6; non-integer indices may raise TypeError like a list",
                   "an iterator that raises may leave a prefix of its items behind, as with a plain list",
                   "arguments are generated from a fixed set of kinds (ints, floats, str, bytes, None, bool, odd objects, "
                   "lists, tuples, generators, iterables with a wrong len, failing and reentrant iterators, live arrays)"]
    stubs = ["callers: simulated actors; iterables passed in may fail part way or call back into the message"]

    def execute(self, trace, ctx):
        module = common.compile_python(trace["schema"], ctx)
        lay = Layout(schema.Types(trace["schema"]))
        world = World(lay, trace["roots"], module)
        order = []
        for i, step in enumerate(trace["steps"]):
            now, actor, target, op, args = step[0], step[1], step[2], step[3], step[4:]
            where = "step %d: %s %s %s" % (i, target, op, repr(args)[:400])
            if op == "observe":
                if target[1] < len(world.names):
                    ctx.log(i, repr(world.observe(target[1], self.error, where)))
                    ctx.counts["observe"] += 1
                continue
            if op == "encode":
                if target[1] < len(world.names):
                    data = world.encode(target[1], args[0], self.error, where)
                    ctx.log(i, data and data.hex())
                    ctx.counts["encode" if data is not None else "encode_refused_unequal_lengths"] += 1
                continue
            plan = self.plan(world, target, op, args)
            if plan is None:
                ctx.counts["not_applicable_step"] += 1
                continue
            fill = len(plan_array(world, target)) if plan_array(world, target) is not None else -1
            outcome = world.perform(plan, target, self.budget, self.error, where)
            ctx.log(i, op, outcome)
            ctx.counts[op + "_" + outcome] += 1
            for lit in args:
                if isinstance(lit, dict) and lit.get("q") in ("fail", "reent", "liar"):
                    ctx.fault({"fail": "iterator_raises", "reent": "iterator_reenters", "liar": "iterable_lies_about_len"}
                              [lit["q"]])
            if target[0] == "h":
                ctx.fault("operation_through_stale_or_shared_handle")
            order.append((actor, target[0], target[1], op))
            ctx.state(op, arg_kind(args), outcome, node_shape(lay, world, target), min(fill, 3))
        for k in range(len(world.names)):
            ctx.log(repr(world.observe(k, self.error, "at the end")))
            world.encode(k, "<", self.error, "at the end")
        self.equalities(world, ctx)
        if trace["steps"]:
            ctx.simtime += trace["steps"][-1][0]
        ctx.order(order)

    def equalities(self, world, ctx):
        """Arrays of scalars compare like the lists they stand for."""
        arrays = [(t, x) for t, x in self.live(world) if isinstance(x, MArr) and all(not is_node(y) and y == y for y in x.v)]
        for (t, x), (u, y) in list(zip(arrays, arrays[1:]))[:20] + list(zip(arrays, arrays[2:]))[:20]:
            if world.lay.types.category(x.t) in COMPOSITES or world.lay.types.category(y.t) in COMPOSITES:
                continue
            a, b = world.real_at(t), world.real_at(u)
            ctx.counts["array_comparison"] += 1
            if bool(a == b) != (x.v == y.v) or bool(a != b) != (x.v != y.v):
                raise Violation("equality-differs", "%s == %s gives %r, != gives %r for %r and %r" % (
                    t, u, a == b, a != b, x.v[:50], y.v[:50]))

    def plan(self, world, target, op, args):
        if target[0] == "m" and target[1] >= len(world.names):
            return None
        try:
            return world.plan(target, op, args)
        except (KeyError, StopIteration, AttributeError, IndexError):
            return None


def is_node(x):
    return isinstance(x, (MStruct, MUnion))


def plan_array(world, target):
    node = world.at(target)
    return getattr(node, "v", None) if type(node).__name__ == "MArr" else None


def arg_kind(args):
    out = []
    for a in args:
        if isinstance(a, dict):
            out.append(a.get("q") or next(iter(a)))
        elif isinstance(a, list):
            out.append("slice" if len(a) == 3 else "kw")
        elif isinstance(a, int):
            out.append("neg" if a < 0 else "pos")
        else:
            out.append("name")
    return tuple(out)


def node_shape(lay, world, target):
    node = world.at(target)
    if node is None:
        return "gone"
    if type(node).__name__ == "MArr":
        return (node.kind, common.shape(lay, node.t, 1))
    return common.shape(lay, node.t, 1)


__all__ = ["Sim", "Violation"]
