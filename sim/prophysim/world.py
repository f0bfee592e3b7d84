"""Model and real messages side by side; one operation at a time."""
from . import api, pynode
from .api import MAY, OK, REJECT, Boom
from .kernel import Hang, Violation
from .pymodel import (MArr, MStruct, MUnion, array_limit, audit, default_of, real_snapshot, snapshot, valid,
                      wire_value)
from .wire import Unencodable


def deep_copy(v):
    if isinstance(v, MStruct):
        new = MStruct.__new__(MStruct)
        new.lay, new.t = v.lay, v.t
        new.f = {k: deep_copy(x) for k, x in v.f.items()}
        return new
    if isinstance(v, MUnion):
        new = MUnion.__new__(MUnion)
        new.lay, new.t, new.arm, new.v = v.lay, v.t, v.arm, deep_copy(v.v)
        return new
    if isinstance(v, MArr):
        new = MArr.__new__(MArr)
        new.lay, new.m, new.t, new.kind, new.limit = v.lay, v.m, v.t, v.kind, v.limit
        new.v = [deep_copy(x) for x in v.v]
        return new
    return v


class Plan(object):
    """What an operation should do: verdict, model effect, real call."""

    def __init__(self, verdict, effect=None, call=None, also=(), mode="normal", array=None):
        self.verdict = verdict
        self.effect = effect or (lambda: None)
        self.call = call
        self.also = also
        self.mode = mode
        self.array = array


def is_noop_argument(lit):
    """Arguments extend() may quietly treat as empty."""
    return "n" in lit or lit.get("t") is False or lit.get("i") == 0 or lit.get("o") == "dict"


class World(object):
    def __init__(self, lay, types_of_roots, module=None):
        self.lay = lay
        self.module = module
        self.names = list(types_of_roots)
        self.model = {k: default_of(lay, t) for k, t in enumerate(self.names)}
        self.mhandles = {}
        self.real = {}
        self.rhandles = {}
        if module is not None:
            self.real = {k: getattr(module, t)() for k, t in enumerate(self.names)}

    def at(self, target):
        return api.model_at(self.model, self.mhandles, target)

    def real_at(self, target):
        return api.real_at(self.real, self.rhandles, target)

    def lit(self, lit, target=None):
        return api.real_literal(lit, self.real_at, target)

    # ---------------------------------------------------------------- plan
    def plan(self, target, op, args):
        """-> Plan, or None when the step does not apply."""
        node = self.at(target)
        if op == "fresh":
            if target[0] != "m" or len(target) != 2:
                return None
            k = target[1]

            def effect():
                self.model[k] = default_of(self.lay, self.names[k])

            def call(_):
                self.real[k] = getattr(self.module, self.names[k])()
            return Plan(OK, effect, call)
        if op == "drop":
            return Plan(OK, lambda: self.mhandles.pop(args[0], None), lambda _: self.rhandles.pop(args[0], None))
        if node is None:
            return None
        if op == "grab":
            hid = args[0]

            def effect():
                self.mhandles[hid] = node

            def call(obj):
                self.rhandles[hid] = obj
            return Plan(OK, effect, call)
        method = getattr(self, "plan_" + op)
        return method(node, target, *args)

    # -- structs
    def field_plan(self, node, name, lit):
        """-> (verdict, effect, also) of assigning a field of a model struct."""
        lay = self.lay
        m = next((x for x in lay.types.by_name[node.t]["m"] if x["n"] == name), None)
        if m is None or name not in node.f:
            return REJECT, None, (AttributeError,)
        if m["a"]:
            if m["t"] != "bytes":
                return REJECT, None, ()
            verdict, value = api.bytes_verdict(lay, m, array_limit(lay, m), lit)
        elif lay.types.category(m["t"]) in ("struct", "union"):
            if m["o"] and "n" in lit:
                verdict, value = OK, None
            elif m["o"] and lit.get("t") is True:
                return OK, (lambda: node.f.__setitem__(name, default_of(lay, m["t"]))), ()
            else:
                verdict, value = REJECT, None
        elif m["o"] and "n" in lit:
            verdict, value = OK, None
        else:
            verdict, value = api.scalar_verdict(lay, m["t"], lit)
        return verdict, (lambda: node.f.__setitem__(name, value)), ()

    def plan_set(self, node, target, name, lit):
        if not isinstance(node, MStruct):
            return None
        verdict, effect, also = self.field_plan(node, name, lit)
        return Plan(verdict, effect, lambda obj: setattr(obj, name, self.lit(lit)), also)

    # -- unions
    def plan_disc(self, node, target, lit):
        if not isinstance(node, MUnion):
            return None
        arms = self.lay.types.by_name[node.t]["m"]
        verdict, arm = REJECT, None
        kind = next(iter(lit))
        if kind in ("i", "s"):
            arm = next((a for a in arms if lit[kind] in (a["n"], a["d"])), None)
            verdict = OK if arm else REJECT
        elif kind in ("t", "f"):
            number = float.fromhex(lit["f"]) if kind == "f" else int(lit["t"])
            arm = next((a for a in arms if a["d"] == number), None)
            verdict = MAY if arm else REJECT
        elif kind == "o" or kind == "q":
            verdict = REJECT

        def effect():
            if arm is not node.arm:
                node.switch(arm)
        return Plan(verdict, effect, lambda obj: setattr(obj, "discriminator", self.lit(lit)))

    def plan_arm(self, node, target, name, lit):
        if not isinstance(node, MUnion):
            return None
        verdict, value = REJECT, None
        if name == node.arm["n"] and self.lay.types.category(node.arm["t"]) not in ("struct", "union"):
            verdict, value = api.scalar_verdict(self.lay, node.arm["t"], lit)

        def effect():
            node.v = value
        return Plan(verdict, effect, lambda obj: setattr(obj, name, self.lit(lit)))

    def plan_getarm(self, node, target, name):
        if not isinstance(node, MUnion):
            return None
        return Plan(OK if name == node.arm["n"] else REJECT, None, lambda obj: getattr(obj, name))

    # -- arrays
    def scalar_array(self, node):
        return isinstance(node, MArr) and self.lay.types.category(node.t) not in ("struct", "union")

    def plan_append(self, node, target, lit):
        return self._insert(node, lambda v, x: v.append(x), lit, lambda obj: obj.append(self.lit(lit)))

    def plan_insert(self, node, target, idx, lit):
        return self._insert(node, lambda v, x: v.insert(idx, x), lit, lambda obj: obj.insert(idx, self.lit(lit)))

    def _insert(self, node, act, lit, call):
        if not self.scalar_array(node) or node.kind == "fix":
            return None
        verdict, value = api.scalar_verdict(self.lay, node.t, lit)
        if node.limit is not None and len(node.v) >= node.limit:
            verdict = REJECT
        return Plan(verdict, lambda: act(node.v, value), call)

    def plan_extend(self, node, target, seq):
        if not self.scalar_array(node) or node.kind == "fix":
            return None

        def call(obj):
            obj.extend(self.lit(seq, obj))
        if is_noop_argument(seq):
            return Plan(MAY, None, call)
        verdict, values = api.elements(self.lay, node, seq, self.at)
        if verdict is None:
            return None
        if seq.get("q") == "reent":
            return Plan(MAY, None, call, mode="resync", array=(node, target))
        if seq.get("q") == "fail":
            return Plan(REJECT, None, call, also=(Boom,), mode="prefix", array=(node, target, values or []))
        if verdict != REJECT and node.limit is not None and len(node.v) + len(values) > node.limit:
            verdict = REJECT
        if seq.get("q") == "liar":
            return Plan(MAY, None, call, mode="some", array=(node, target, values or []))
        return Plan(verdict, lambda: node.v.extend(values), call)

    def plan_setitem(self, node, target, idx, lit):
        if not self.scalar_array(node):
            return None
        if isinstance(idx, dict):
            return Plan(REJECT, None, lambda obj: obj.__setitem__(self.lit(idx), self.lit(lit)), (TypeError,))
        verdict, value = api.scalar_verdict(self.lay, node.t, lit)
        if not -len(node.v) <= idx < len(node.v):
            verdict = REJECT
        return Plan(verdict, lambda: node.v.__setitem__(idx, value),
                    lambda obj: obj.__setitem__(idx, self.lit(lit)), (IndexError,))

    def plan_setslice(self, node, target, sl, seq):
        if not self.scalar_array(node):
            return None
        s = slice(*sl)

        def call(obj):
            obj[s] = self.lit(seq, obj)
        if seq.get("q") in ("reent", "fail"):
            if seq["q"] == "reent" and node.kind == "fix":
                return None
            mode = "resync" if seq["q"] == "reent" else "normal"
            return Plan(MAY if mode == "resync" else REJECT, None, call, (Boom, ValueError), mode, (node, target))
        verdict, values = api.elements(self.lay, node, seq, self.at)
        if verdict is None:
            return None
        if verdict != REJECT:
            after = list(node.v)
            try:
                after[s] = values
            except ValueError:
                verdict = REJECT
            if node.kind == "fix" and len(after) != len(node.v):
                verdict = REJECT
            if node.limit is not None and len(after) > node.limit:
                verdict = REJECT

        def effect():
            node.v[:] = after
        return Plan(verdict, effect, call, (ValueError,))

    def plan_delitem(self, node, target, idx):
        if not isinstance(node, MArr) or node.kind == "fix":
            return None
        if isinstance(idx, dict):
            return Plan(REJECT, None, lambda obj: obj.__delitem__(self.lit(idx)), (TypeError,))
        verdict = OK if -len(node.v) <= idx < len(node.v) else REJECT
        return Plan(verdict, lambda: node.v.__delitem__(idx), lambda obj: obj.__delitem__(idx), (IndexError,))

    def plan_delslice(self, node, target, sl):
        if not isinstance(node, MArr) or node.kind == "fix":
            return None
        s = slice(*sl)
        if sl[2] == 0:
            return Plan(REJECT, None, lambda obj: obj.__delitem__(s), (ValueError,))
        return Plan(OK, lambda: node.v.__delitem__(s), lambda obj: obj.__delitem__(s))

    def plan_remove(self, node, target, lit):
        if not self.scalar_array(node) or node.kind == "fix":
            return None
        kind = next(iter(lit))
        value = {"i": lambda: lit["i"], "f": lambda: float.fromhex(lit["f"])}.get(kind, lambda: None)()
        verdict = OK if value is not None and value in node.v else REJECT
        if kind in ("t", "o"):
            return None
        return Plan(verdict, lambda: node.v.remove(value), lambda obj: obj.remove(self.lit(lit)), (ValueError,))

    def plan_sort(self, node, target):
        if not self.scalar_array(node):
            return None
        return Plan(OK, lambda: node.v.sort(), lambda obj: obj.sort())

    def plan_getitem(self, node, target, idx):
        if not isinstance(node, MArr):
            return None
        return Plan(OK if -len(node.v) <= idx < len(node.v) else REJECT, None, lambda obj: obj[idx], (IndexError,))

    # -- composite arrays
    def composite_array(self, node):
        return isinstance(node, MArr) and not self.scalar_array(node) and node.kind != "fix"

    def plan_add(self, node, target, attributes):
        if not self.composite_array(node):
            return None
        new = default_of(self.lay, node.t)
        verdict = OK
        for name, lit in attributes:
            what, effect = self.attribute(new, name, lit)
            if what is None:
                return None
            if what == REJECT:
                verdict = REJECT
                break
            if what == MAY:
                verdict = MAY
            effect()
        if node.limit is not None and len(node.v) >= node.limit:
            verdict = REJECT

        def call(obj):
            kwargs = {name: self.lit(lit) for name, lit in attributes}
            return obj.add(**kwargs)
        return Plan(verdict, lambda: node.v.append(new), call)

    def attribute(self, new, name, lit):
        if isinstance(new, MUnion):
            plan = self.plan_disc(new, None, lit) if name == "discriminator" else self.plan_arm(new, None, name, lit)
            return plan.verdict, plan.effect
        value = new.f.get(name)
        if isinstance(value, MArr):
            if not self.scalar_array(value):
                return REJECT, None
            plan = self.plan_setslice(value, None, [None, None, None], lit)
            if plan is None or plan.mode != "normal" or lit.get("q") in ("reent", "fail"):
                return None, None
            return plan.verdict, plan.effect
        verdict, effect, _ = self.field_plan(new, name, lit)
        return verdict, effect

    def plan_cextend(self, node, target, seq):
        if not self.composite_array(node):
            return None

        def call(obj):
            obj.extend(self.lit(seq, obj))
        if is_noop_argument(seq):
            return Plan(MAY, None, call)
        shape = seq.get("q")
        if shape == "ref":
            other = self.at(seq["v"])
            if not isinstance(other, MArr):
                return None
            items = list(other.v)
        elif shape is None:
            if "b" in seq or "s" in seq:
                text = seq.get("b") or seq.get("s")
                return Plan(REJECT if text else MAY, None, call)
            return Plan(REJECT, None, call)
        else:
            items = []
            for lit in seq["v"]:
                if "m" not in lit:
                    items.append(None)
                    continue
                source = self.at(lit["m"])
                if source is None:
                    return None
                items.append(source)
        good = [isinstance(x, (MStruct, MUnion)) and x.t == node.t for x in items]
        copies = [deep_copy(x) for x, ok in zip(items, good) if ok]
        if shape == "fail":
            valid_prefix = copies if all(good) else copies[:good.index(False)]
            return Plan(REJECT, None, call, (Boom,), "prefix", (node, target, valid_prefix))
        verdict = MAY if shape in ("gen", "liar") else OK
        if not all(good) or node.limit is not None and len(node.v) + len(copies) > node.limit:
            verdict = REJECT
        if shape == "liar":
            copies = copies if all(good) else []
            return Plan(MAY, None, call, mode="some", array=(node, target, copies))
        return Plan(verdict, lambda: node.v.extend(copies), call)

    # -- copies
    def plan_copy(self, node, target, source):
        other = self.at(source)
        if not isinstance(node, (MStruct, MUnion)) or type(other) is not type(node) or other.t != node.t:
            return None

        def effect():
            if other is node:
                return
            copied = deep_copy(other)
            if isinstance(node, MStruct):
                node.f = copied.f
            else:
                node.arm, node.v = copied.arm, copied.v
        return Plan(OK, effect, lambda obj: obj.copy_from(self.real_at(source)))

    # ----------------------------------------------------------- execution
    def perform(self, plan, target, budget, error, where):
        """Apply to the real side, judge, apply to the model. -> outcome text"""
        try:
            obj = None if plan.call is None else (self.real_at(target) if target is not None else None)
        except Hang:
            raise
        except Exception as e:
            raise Violation("state-differs", "%s: the model has a node the message cannot reach: %r" % (where, e))
        try:
            with budget(200000):
                plan.call(obj)
            raised = None
        except Hang as h:
            raise Violation("operation-does-not-terminate", "%s: %s" % (where, h))
        except MemoryError:
            raise Violation("operation-does-not-terminate", "%s: memory exhausted" % where)
        except Exception as e:
            raised = e
        if raised is None:
            if plan.mode == "resync":
                self.resync(plan, where)
                return "accepted"
            if plan.mode == "some":
                self.prefix(plan, where)
                return "accepted"
            if plan.verdict == REJECT:
                raise Violation("invalid-operation-accepted", where)
            plan.effect()
            return "accepted"
        if not isinstance(raised, (error,) + tuple(plan.also)):
            raise Violation("operation-raises-%s" % type(raised).__name__, "%s raised %r" % (where, raised))
        if plan.mode == "resync":
            self.resync(plan, where)
        elif plan.mode in ("prefix", "some"):
            self.prefix(plan, where)
        elif plan.verdict == OK:
            raise Violation("valid-operation-refused", "%s raised %r" % (where, raised))
        return "rejected"

    def resync(self, plan, where):
        """The outcome of a reentrant call is open; only validity is required."""
        node, target = plan.array[:2]
        obj = self.real_at(target)
        if node.limit is not None and len(obj) > node.limit:
            raise Violation("limit-exceeded", "%s left %d elements" % (where, len(obj)))
        values = [obj[i] for i in range(len(obj))]
        isf = self.lay.types.category(node.t) == "float"
        node.v[:] = [float(x) if isf else int(x) for x in values]

    def prefix(self, plan, where):
        """A failing iterator may have delivered some of its items."""
        node, target, values = plan.array
        got = len(self.real_at(target)) - len(node.v)
        room = len(values) if node.limit is None else min(len(values), node.limit - len(node.v))
        if not 0 <= got <= room:
            raise Violation("state-differs", "%s left %+d elements" % (where, got))
        node.v.extend(values[:got])

    def observe(self, k, error, where):
        t = self.names[k]
        try:
            real = real_snapshot(self.lay, t, self.real[k])
        except Exception as e:
            raise Violation("state-unreadable", "%s: reading %s raised %r" % (where, t, e))
        bad = None
        try:
            bad = valid(self.lay, real, t)
        except Exception as e:
            bad = repr(e)
        if bad:
            raise Violation("state-invalid", "%s: %s" % (where, bad))
        try:
            bad = audit(self.lay, t, self.real[k], error)
            str(self.real[k])
        except Exception as e:
            raise Violation("state-unreadable", "%s: reading %s raised %r" % (where, t, e))
        if bad:
            raise Violation("reads-disagree", "%s: %s" % (where, bad))
        model = snapshot(self.model[k])
        if real != model:
            raise Violation("state-differs", "%s: message %d (%s) is %s, expected %s" % (
                where, k, t, difference(real, model), difference(model, real)))
        return real

    def encode(self, k, endian, error, where):
        t = self.names[k]
        spans = []
        try:
            want = self.lay.encode(t, wire_value(self.lay, self.model[k]), endian, spans)
        except Unencodable:
            want = None
        try:
            got = self.real[k].encode(endian)
        except error as e:
            if want is None:
                return None
            raise Violation("reachable-message-does-not-encode", "%s: %s raised %r" % (where, t, e))
        except Exception as e:
            raise Violation("reachable-message-does-not-encode", "%s: %s raised %r" % (where, t, e))
        if want is None:
            raise Violation("unequal-shared-arrays-encoded", "%s: %s encoded to %s" % (where, t, got.hex()[:400]))
        rebuilt = getattr(self.module, t)()
        try:
            pynode.assign(self.lay, t, rebuilt, wire_value(self.lay, self.model[k]))
            again = rebuilt.encode(endian)
        except Exception as e:
            raise Violation("reachable-message-does-not-encode", "%s: rebuilding %s raised %r" % (where, t, e))
        if again != got:
            raise Violation("encoding-depends-on-history", "%s: %s encodes to %s but to %s when built afresh" % (
                where, t, got.hex()[:400], again.hex()[:400]))
        if len(got) == len(want):
            for off, size, role in spans:
                if role == "counter" and got[off:off + size] != want[off:off + size]:
                    raise Violation("counter-differs", "%s: %s encoded to %s, expected %s" % (
                        where, t, got.hex()[:400], want.hex()[:400]))
        return got


def difference(a, b, limit=600):
    """Text of a, cut down to the part that differs from b."""
    if isinstance(a, dict) and isinstance(b, dict):
        return "{%s}" % ", ".join("%s: %s" % (k, difference(a[k], b.get(k))) for k in a if a[k] != b.get(k))
    return repr(a)[:limit]
