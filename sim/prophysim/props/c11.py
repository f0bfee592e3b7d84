"""C11: copies between live messages, interleaved with mutation of both sides."""
from .. import api, schema
from ..kernel import Violation
from ..pymodel import MArr, MStruct, MUnion, default_of, real_snapshot, snapshot
from ..wire import Layout
from ..world import World, difference
from . import common
from .apisim import ApiSim
from .c10 import arg_kind, node_shape


class Sim(ApiSim):
    BAD = False
    runs = {"quick": 12000, "thorough": 100000}
    rule = ("one state per distinct (operation or copy, declared shape of source and target, which optionals and arms were "
            "occupied on both sides); histories interleave copies and mutations by 1-4 actors over 2-5 messages")
    assumptions = ["only operations that are valid on the reference model are issued; refusals belong to C10",
                   "a handle into a message that was overwritten by copy_from is dropped: whether it stays attached is not "
                   "part of the property"]
    stubs = ["callers: simulated actors sharing messages and handles"]

    def make_schema(self, rng):
        return schema.generate(rng, patched=True, byhand=True, n_structs=rng.randint(3, 6))

    def roots(self, rng, lay):
        names = [d["n"] for d in lay.types.composites()]
        classes = rng.sample(names[-4:], min(len(names), rng.randint(1, 2)))
        return [rng.pick(classes) for _ in range(rng.randint(2, 5))]

    def generate(self, seed, index, tier):
        trace = ApiSim.generate(self, seed, index, tier)
        trace["eager"] = seed % 3 != 0
        return trace

    def special(self, rng, world, mix, target, node):
        if not isinstance(node, (MStruct, MUnion)) or not rng.chance(mix.p_copy):
            return None
        same = [t for t, x in self.live(world) if type(x) is type(node) and x.t == node.t and t != target]
        if not same:
            return None
        source = rng.pick(same)
        blank = occupancy(default_of(world.lay, node.t))
        if rng.chance(0.7) and occupancy(world.at(source)) == blank:
            source = rng.pick(same)
        if inside(source, target) or inside(target, source):
            return None
        return [target, "copy", [source]]

    def before_effect(self, world, target, op):
        if op == "copy" and world.at(target) is not None:
            drop_handles(world, target)

    def execute(self, trace, ctx):
        module = common.compile_python(trace["schema"], ctx)
        lay = Layout(schema.Types(trace["schema"]))
        world = World(lay, trace["roots"], module)
        order = []
        for i, step in enumerate(trace["steps"]):
            now, actor, target, op, args = step[0], step[1], step[2], step[3], step[4:]
            if target[0] == "m" and target[1] >= len(world.names):
                continue
            where = "step %d: %s %s %s" % (i, target, op, repr(args)[:300])
            if op == "observe":
                ctx.log(i, repr(self.compare(world, target[1], where)))
                continue
            if op == "encode":
                data = encoding(world.real[target[1]], args[0])
                ctx.log(i, repr(data))
                continue
            plan = self.plan(world, target, op, args)
            if plan is None or plan.verdict != api.OK:
                ctx.counts["not_applicable_step"] += 1
                continue
            shapes = None
            if op in ("copy", "cextend"):
                shapes = (occupancy(world.at(target)),) + tuple(occupancy(world.at(t)) for t in sources(op, args))
            self.before_effect(world, target, op)
            before = self.snapshots(world) if trace["eager"] else None
            src_before = [self.node_state(world, t) for t in sources(op, args)] if trace["eager"] else []
            fill = len(world.at(target).v) if op == "cextend" else 0
            self.do(world, plan, target, op, where)
            plan.effect()
            ctx.counts[op] += 1
            order.append((actor, target[0], target[1], op))
            if trace["eager"]:
                self.judge(world, target, op, args, before, src_before, fill, where)
            if op == "copy":
                blank = shapes[0] == occupancy(default_of(lay, world.at(target).t))
                ctx.fault("copy_over_default_target" if blank else "copy_over_occupied_target")
            elif target[0] == "h":
                ctx.fault("mutation_through_handle")
            ctx.state(op, arg_kind(args) if shapes is None else shapes, node_shape(lay, world, target))
        for k in range(len(world.names)):
            ctx.log(repr(self.compare(world, k, "at the end")))
        if trace["steps"]:
            ctx.simtime += trace["steps"][-1][0]
        ctx.order(order)

    def plan(self, world, target, op, args):
        try:
            if op == "copy" and (inside(args[0], target) or inside(target, args[0])):
                return None
            return world.plan(target, op, args)
        except (KeyError, StopIteration, AttributeError, IndexError):
            return None

    def do(self, world, plan, target, op, where):
        copying = op in ("copy", "cextend")
        try:
            obj = world.real_at(target)
            with self.budget(400000):
                plan.call(obj)
        except Exception as e:
            raise Violation("copy-fails" if copying else "message-unusable-after-copy", "%s raised %r" % (where, e))

    # -- judging
    def snapshots(self, world):
        out = {}
        for k in world.real:
            try:
                out[k] = (real_snapshot(world.lay, world.names[k], world.real[k]), encoding(world.real[k], "<"))
            except Exception as e:
                raise Violation("message-unreadable", "message %d (%s) raised %r" % (k, world.names[k], e))
        return out

    def node_state(self, world, target):
        node = world.at(target)
        obj = world.real_at(target)
        if isinstance(node, MArr):
            return [(real_snapshot(world.lay, node.t, x), encoding(x, "<")) for x in obj]
        return real_snapshot(world.lay, node.t, obj), encoding(obj, "<")

    def judge(self, world, target, op, args, before, src_before, fill, where):
        after = self.snapshots(world)
        touched = {target[1]} if target[0] == "m" else self.owners(world, target)
        for k in after:
            if k not in touched and after[k] != before[k]:
                source = {t[1] for t in sources(op, args) if t[0] == "m"}
                raise Violation("source-changed" if k in source else "messages-share-state",
                                "%s changed message %d (%s) from %s to %s" % (
                                    where, k, world.names[k], difference(before[k][0], after[k][0]),
                                    difference(after[k][0], before[k][0])))
        if op == "copy":
            mine, theirs = self.node_state(world, target), src_before[0]
            self.equal(mine, theirs, where)
            if self.node_state(world, args[0]) != theirs:
                raise Violation("source-changed", where)
        elif op == "cextend":
            new = self.node_state(world, target)[fill:]
            want = []
            for t, state in zip(sources(op, args), src_before):
                want += state if isinstance(state, list) else [state]
            if len(new) != len(want):
                raise Violation("copy-differs", "%s appended %d elements instead of %d" % (where, len(new), len(want)))
            for mine, theirs in zip(new, want):
                self.equal(mine, theirs, where)

    def equal(self, mine, theirs, where):
        if mine[0] != theirs[0]:
            raise Violation("copy-differs", "%s: the copy holds %s, the source %s" % (
                where, difference(mine[0], theirs[0]), difference(theirs[0], mine[0])))
        if mine[1] != theirs[1]:
            raise Violation("copy-encodes-differently", "%s: %r against %r" % (where, mine[1], theirs[1]))

    def owners(self, world, target):
        """Messages the node of a handle is part of."""
        node = world.mhandles.get(target[1])
        out = set()
        for k in world.model:
            nodes = []
            api.walk(world.model[k], ["m", k], nodes)
            if any(x is node for _, x in nodes):
                out.add(k)
        return out

    def compare(self, world, k, where):
        try:
            real = real_snapshot(world.lay, world.names[k], world.real[k])
        except Exception as e:
            raise Violation("message-unreadable", "%s: message %d (%s) raised %r" % (where, k, world.names[k], e))
        model = snapshot(world.model[k])
        if real != model:
            raise Violation("state-differs", "%s: message %d (%s) is %s, expected %s" % (
                where, k, world.names[k], difference(real, model), difference(model, real)))
        return real


def encoding(msg, endian):
    """Bytes, or the type name of what encode() raised (unequal shared arrays)."""
    try:
        return msg.encode(endian)
    except Exception as e:
        return type(e).__name__


def sources(op, args):
    if op == "copy":
        return [args[0]]
    if op == "cextend":
        seq = args[0]
        if seq.get("q") == "ref":
            return [seq["v"]]
        return [x["m"] for x in seq.get("v", []) if "m" in x]
    return []


def inside(a, b):
    """True when target a lies strictly within target b."""
    return len(a) > len(b) and a[:len(b)] == b


def drop_handles(world, target):
    """Forget handles that point strictly below a node about to be overwritten."""
    node = world.at(target)
    below = []
    api.walk(node, target, below)
    for h in sorted(world.mhandles):
        if any(x is world.mhandles[h] and x is not node for _, x in below):
            world.mhandles.pop(h)
            world.rhandles.pop(h, None)


def occupancy(node, depth=2):
    """Which optionals, arms and arrays of a node are occupied."""
    if isinstance(node, MStruct):
        return tuple(occupancy(x, depth - 1) if depth else "s" for x in node.f.values())
    if isinstance(node, MUnion):
        return (node.arm["n"], occupancy(node.v, depth - 1) if depth else "u")
    if isinstance(node, MArr):
        return (node.kind, min(len(node.v), 2)) + ((occupancy(node.v[0], depth - 1),) if node.v and depth > 0 else ())
    return "-" if node is None else "x"
