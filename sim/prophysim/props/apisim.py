"""Generation shared by the API-history simulations."""
from .. import api, pynode, schema
from ..kernel import Scheduler, StepBudget
from ..pymodel import MArr, MStruct, MUnion, array_limit
from ..rng import Rng
from ..runner import BaseSim
from ..wire import Layout
from ..world import World
from . import common


class Mix(object):
    """Swarm configuration of a history."""

    def __init__(self, rng, bad):
        self.bad = rng.pick([0.0, 0.15, 0.4]) if bad else 0.0
        self.p_handle = rng.pick([0.0, 0.1, 0.3])
        self.p_observe = rng.pick([0.02, 0.1, 0.5])
        self.p_copy = rng.pick([0.05, 0.12, 0.3])
        self.p_array = rng.pick([0.0, 0.3])
        self.p_big = rng.pick([0.0, 0.05, 0.2])
        self.shapes = [s for s in ("tuple", "gen", "liar", "fail", "reent") if bad and rng.chance(0.4)] + ["list", "list"]
        self.weights = {op: rng.pick([0.2, 1, 3]) for op in
                        ("append", "insert", "extend", "setitem", "setslice", "delitem", "delslice", "remove", "sort",
                         "getitem", "add", "cextend", "set", "disc", "arm", "getarm")}


class ApiSim(BaseSim):
    chunk = 20
    real = ["prophyc (schema to Python module)", "prophy runtime: every message and array operation"]
    stubs = []
    BAD = True

    def open(self, root):
        pynode.setup_path()
        import prophy
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        self.error = prophy.ProphyError
        self.budget = StepBudget(["prophy"])

    def make_schema(self, rng):
        return schema.generate(rng, patched=True, byhand=True, n_structs=rng.randint(2, 6))

    def roots(self, rng, lay):
        """Several messages of few classes, so that same-class messages interleave."""
        names = [d["n"] for d in lay.types.composites()]
        classes = rng.sample(names, min(len(names), rng.randint(1, 3)))
        return [rng.pick(classes) for _ in range(rng.randint(2, 5))]

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        decls = self.make_schema(rng)
        lay = Layout(schema.Types(decls))
        roots = self.roots(rng, lay)
        world = World(lay, roots)
        mix = Mix(rng, self.BAD)
        steps = []
        sched = Scheduler()
        for actor in range(rng.randint(1, 4)):
            sched.at(rng.expovariate(1.0), actor)
        for _ in range(rng.randint(20, 120)):
            actor = sched.pop()
            sched.at(rng.expovariate(1.0), actor)
            step = self.choose(rng, world, mix, actor)
            if step is None:
                continue
            target, op, args = step
            steps.append([round(sched.now, 4), actor, target, op] + args)
            if op in ("observe", "encode"):
                continue
            plan = world.plan(target, op, args)
            if plan is not None and plan.verdict != api.REJECT and plan.mode == "normal":
                self.before_effect(world, target, op)
                plan.effect()
        return {"schema": decls, "roots": roots, "steps": steps}

    def before_effect(self, world, target, op):
        pass

    def choose(self, rng, world, mix, actor):
        roots = len(world.names)
        roll = rng.random()
        if roll < mix.p_observe:
            k = rng.randrange(roots)
            return [["m", k], "observe", []] if rng.chance(0.6) else [["m", k], "encode", [rng.pick("<>")]]
        if rng.chance(0.01):
            return [["m", rng.randrange(roots)], "fresh", []]
        nodes = []
        if world.mhandles and rng.chance(mix.p_handle):
            h = rng.pick(sorted(world.mhandles))
            api.walk(world.mhandles[h], ["h", h], nodes)
        else:
            k = (actor + rng.pick([0, 0, 0, 1])) % roots
            api.walk(world.model[k], ["m", k], nodes)
        target, node = rng.pick(nodes)
        arrays = [n for n in nodes if isinstance(n[1], MArr) and world.lay.types.category(n[1].t) in ("struct", "union")]
        if arrays and rng.chance(mix.p_array):
            target, node = rng.pick(arrays)
        if rng.chance(mix.p_handle / 2) and len(target) > 2:
            return [target, "grab", [rng.randrange(6)]]
        special = self.special(rng, world, mix, target, node)
        if special is not None:
            return special
        op, args = self.operation(rng, world, mix, target, node)
        if op is None:
            return None
        return [target, op, args]

    def special(self, rng, world, mix, target, node):
        return None

    def operation(self, rng, world, mix, target, node):
        lay = world.lay
        if isinstance(node, MStruct):
            return self.struct_operation(rng, lay, mix, node)
        if isinstance(node, MUnion):
            arms = lay.types.by_name[node.t]["m"]
            op = rng.weighted([(mix.weights[o], o) for o in ("disc", "arm", "getarm")])
            arm = rng.pick(arms) if rng.chance(0.3) else node.arm
            if op == "disc":
                arm = rng.pick(arms)
                if rng.chance(mix.bad):
                    return op, [api.odd_literal(rng, lay, "u32")]
                return op, [{"s": arm["n"]} if rng.chance(0.5) else {"i": arm["d"]}]
            if not self.BAD and arm is not node.arm:
                arm = node.arm
            if op == "getarm":
                return op, [arm["n"]]
            if lay.types.category(arm["t"]) in ("struct", "union"):
                return (op, [arm["n"], api.odd_literal(rng, lay, "u32")]) if self.BAD else (None, None)
            return op, [arm["n"], api.random_scalar(rng, lay, arm["t"], mix.bad)]
        return self.array_operation(rng, world, mix, target, node)

    def struct_operation(self, rng, lay, mix, node):
        members = lay.types.by_name[node.t]["m"]
        m = rng.pick(members)
        name = m["n"]
        if name not in node.f:
            return ("set", [name, {"i": 1}]) if self.BAD else (None, None)
        return self.field_value(rng, lay, mix, node.t, m)

    def field_value(self, rng, lay, mix, owner, m):
        name = m["n"]
        if m["a"] and m["t"] == "bytes":
            if rng.chance(mix.bad):
                return "set", [name, api.odd_literal(rng, lay, "u8")]
            top = m["a"][1] if m["a"][0] in schema.SIZED else rng.pick([3, 8])
            if self.BAD and rng.chance(mix.bad):
                top += 1
            n = rng.pick([0, top, rng.randint(0, top)])
            if m["a"][0] == "ext" and rng.chance(mix.p_big) and self.BAD:
                limit = array_limit(lay, m)
                n = limit + rng.pick([-1, 0, 1]) if limit < 400 else rng.pick([127, 128, 255, 256, 300])
            return "set", [name, {"b": rng.randbytes(n).hex()}]
        composite = lay.types.category(m["t"]) in ("struct", "union")
        if m["a"] or composite and not m["o"]:
            return ("set", [name, api.odd_literal(rng, lay, "u8")]) if self.BAD else (None, None)
        if m["o"] and rng.chance(0.3):
            return "set", [name, {"n": 0}]
        if composite:
            return "set", [name, {"t": True} if rng.chance(0.8) or not self.BAD else api.odd_literal(rng, lay, "u8")]
        return "set", [name, api.random_scalar(rng, lay, m["t"], mix.bad)]

    def array_operation(self, rng, world, mix, target, node):
        lay = world.lay
        n = len(node.v)
        composite = lay.types.category(node.t) in ("struct", "union")
        if composite:
            ops = ["getitem"] if node.kind == "fix" else ["add", "add", "cextend", "delitem", "delslice", "getitem"]
        elif node.kind == "fix":
            ops = ["setitem", "setitem", "setslice", "sort", "getitem"]
        else:
            ops = ["append", "append", "insert", "extend", "setitem", "setslice", "delitem", "delslice", "remove", "sort",
                   "getitem"]
        op = rng.weighted([(mix.weights[o], o) for o in ops])
        index = api.random_index(rng, n)
        if not self.BAD and not -n <= index < n:
            if not n:
                op = "add" if composite else ("append" if node.kind != "fix" else "sort")
            index = 0
        if op == "append":
            return op, [api.random_scalar(rng, lay, node.t, mix.bad)]
        if op == "insert":
            return op, [index, api.random_scalar(rng, lay, node.t, mix.bad)]
        if op in ("setitem", "delitem"):
            if rng.chance(mix.bad / 8):
                index = {"s": "a"}
            return op, [index] + ([api.random_scalar(rng, lay, node.t, mix.bad)] if op == "setitem" else [])
        if op == "getitem":
            return op, [index]
        if op == "remove":
            if node.v and rng.chance(0.6):
                x = rng.pick(node.v)
                return op, [{"f": x.hex()} if isinstance(x, float) else {"i": x}]
            return (op, [api.random_scalar(rng, lay, node.t)]) if self.BAD else (None, None)
        if op == "sort":
            return op, []
        if op == "delslice":
            return op, [api.random_slice(rng, n)]
        if op == "add":
            return op, [self.attributes(rng, lay, mix, node)]
        if op == "cextend":
            return op, [self.composite_seq(rng, world, mix, target, node)]
        live = [t for t, x in self.live(world) if isinstance(x, MArr) and x.t == node.t]
        if op == "extend":
            size = self.size(rng, mix, node, node.limit)
            return op, [api.random_seq(rng, lay, node, mix.bad, size, live, mix.shapes)]
        sl = api.random_slice(rng, n)
        if rng.chance(mix.bad / 8):
            sl[2] = 0
        hit = len(node.v[slice(*sl)]) if sl[2] != 0 else 0
        simple = sl[2] in (None, 1)
        if node.kind == "fix" or not simple:
            size = hit if rng.chance(0.8) or not self.BAD else rng.randint(0, 4)
        else:
            size = self.size(rng, mix, node, None if node.limit is None else node.limit + hit)
        return op, [sl, api.random_seq(rng, lay, node, mix.bad, size, live if self.BAD else [], mix.shapes)]

    def size(self, rng, mix, node, limit):
        if limit is None:
            return rng.pick([0, 1, 2, 3, 5])
        room = limit - len(node.v)
        if room > 12:
            if self.BAD and rng.chance(mix.p_big) and room < 400:
                return room + rng.pick([-1, 0, 1])
            return rng.pick([0, 1, 2, 3, 5])
        top = max(0, room)
        return rng.pick([0, top, rng.randint(0, top), top + (1 if self.BAD else 0)])

    def live(self, world):
        out = []
        for k in world.model:
            api.walk(world.model[k], ["m", k], out)
        return out

    def attributes(self, rng, lay, mix, node):
        out = []
        if rng.chance(0.5):
            return out
        d = lay.types.by_name[node.t]
        if d["k"] == "union":
            arm = rng.pick(d["m"])
            out.append(["discriminator", {"s": arm["n"]}])
            if lay.types.category(arm["t"]) not in ("struct", "union"):
                out.append([arm["n"], api.random_scalar(rng, lay, arm["t"], mix.bad)])
            return out
        for m in d["m"]:
            if not rng.chance(0.5):
                continue
            if m["a"] and m["t"] != "bytes":
                if lay.types.category(m["t"]) in ("struct", "union"):
                    if self.BAD and rng.chance(mix.bad):
                        out.append([m["n"], {"q": "list", "v": []}])
                    continue
                n = m["a"][1] if m["a"][0] == "fix" else rng.randint(0, m["a"][1]) if m["a"][0] in ("lim", "elim") else rng.randint(0, 3)
                if self.BAD and rng.chance(mix.bad):
                    n += 1
                values = [api.random_scalar(rng, lay, m["t"], mix.bad) for _ in range(n)]
                out.append([m["n"], {"q": "list", "v": values}])
                continue
            op, args = self.field_value(rng, lay, mix, node.t, m)
            if op is not None:
                out.append(args)
        if self.BAD and rng.chance(mix.bad):
            out.append([rng.pick(["bogus", "encode", "n0", "discriminator"]), {"i": 1}])
        seen = set()
        return [a for a in out if not (a[0] in seen or seen.add(a[0]))]

    def composite_seq(self, rng, world, mix, target, node):
        same = [t for t, x in self.live(world) if isinstance(x, (MStruct, MUnion)) and x.t == node.t
                and self.plain(world, t)]
        arrays = [t for t, x in self.live(world) if isinstance(x, MArr) and x.t == node.t]
        if arrays and rng.chance(0.15):
            return {"q": "ref", "v": rng.pick(arrays)}
        if rng.chance(mix.bad / 4):
            return api.odd_literal(rng, world.lay, "u8")
        room = 3 if node.limit is None else max(0, node.limit - len(node.v)) + (1 if self.BAD else 0)
        n = rng.randint(0, min(3, room))
        items = [{"m": rng.pick(same)} for _ in range(n)] if same else []
        if items and rng.chance(mix.bad):
            items[rng.randrange(len(items))] = rng.pick([{"i": 5}, {"n": 0}, {"o": "object"}])
        shape = rng.pick([s for s in mix.shapes if s != "reent"])
        return {"q": shape, "v": items}

    def plain(self, world, target):
        """True when the target is not the value of an optional field."""
        return True

    # ------------------------------------------------------------ shrinking
    def simplify(self, trace):
        roots = {"schema": trace["schema"], "steps": [[r] for r in trace["roots"]]}
        for candidate in common.simplify_schema(roots, lambda s: s):
            yield dict(trace, schema=candidate["schema"])
        used = {s[2][1] for s in trace["steps"] if s[2][0] == "m"}
        while len(trace["roots"]) - 1 not in used and len(trace["roots"]) > 1:
            trace = dict(trace, roots=trace["roots"][:-1])
            yield trace
