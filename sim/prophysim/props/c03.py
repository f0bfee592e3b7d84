"""C03: Python and C++ peers exchanging messages over a simulated link."""
from ..kernel import Violation
from ..link import FaultMix, session
from ..rng import Rng
from ..wire import Layout, bits_to_float, from_json, to_json
from .. import known, pynode, schema
from . import common
from .cppsession import CppSim

HOST = "<"


def is_value(types, t, held):
    """C++ objects hold more than the values of the schema: new elements of vectors
    are zeros, which need not be enumerators, and memory not set yet may be any NaN."""
    if held is None:
        return True
    if types.category(t) == "float":
        return bits_to_float(held, types.resolve(t)) == bits_to_float(held, types.resolve(t))
    d = types.decl(t)
    if d is None:
        return True
    if d["k"] == "enum":
        return held in [e[1] for e in d["m"]]
    if d["k"] == "union":
        return held[0] != "?" and is_value(types, next(m["t"] for m in d["m"] if m["n"] == held[0]), held[1])
    return all(is_value(types, m["t"], x) for m in d["m"] if m["n"] in held
               for x in (held[m["n"]] if m["a"] else [held[m["n"]]]))


class Sim(CppSim):
    runs = {"quick": 200, "thorough": 1600}
    rule = ("one state per distinct (declared shape of the type, endianness, receiver history: kind of the last two "
            "deliveries to the object, encoded size)")
    real = ["prophyc (schema to Python module and C++ full codec)", "prophy runtime (sender and receiver)"] \
        + CppSim.real[1:]
    stubs = ["reference encoder written from docs/encoding.rst (canonical bytes)"] + CppSim.stubs
    assumptions = ["one externally sized array per sizer; values whose greedy tail ends aligned; no NaN payloads"]

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        decls, lang = self.schema(rng)
        lay = Layout(schema.Types(decls))
        names = [d["n"] for d in lay.types.composites()]
        faulty = rng.chance(0.5)      # fault-free and fault-injecting configurations run separately
        mix = FaultMix(rng, rate=None if faulty else 0.0)
        if not faulty:
            mix.p_drop = mix.p_stream = 0.0
        p_alloc = rng.pick([0.0, 0.15]) if faulty else 0.0
        steps = []
        for now, item in session(rng, lay, names, mix, rng.randint(150, 300), self.SLOTS, rng.pick([None, 20, 60, 300]),
                                 max_stream=48):
            intact = not item["f"] and lay.greedy_aligned(item["t"], item["v"])
            if not intact and not faulty:
                continue
            fail_at = rng.randint(1, 4) if rng.chance(p_alloc) else 0
            steps.append([round(now, 4), "recv", item["t"], item["s"], item["e"], item["b"].hex(), item["f"],
                          to_json(item["v"]) if intact else None, fail_at])
            if rng.chance(0.2):
                steps.append([round(now, 4), "send", rng.pick(names), rng.randrange(self.SLOTS), rng.pick("<>"),
                              rng.getrandbits(48), rng.pick(["self", "copy", "clone"]), rng.randrange(self.SLOTS)])
        return {"lang": lang, "schema": decls, "steps": steps}

    def build_failed(self, output, text):
        raise Violation("generated-cpp-does-not-compile", output + "\n" + text)

    def execute(self, trace, ctx):
        lay, module, driver = self.start(trace, ctx, ("python", "cpp_full"))
        past = {}

        def step_fn(i, step):
            if step[1] == "send":
                return self.send(ctx, driver, lay, module, i, step, past)
            _, _, t, slot, endian, data, faults, value, fail_at = step
            data = bytes.fromhex(data)
            for f in faults:
                ctx.fault(f)
            before = past.get((t, slot), ())
            if value is None:
                verdict = driver.decode(t, slot, endian, data, fail_at)[0]
                ctx.log(i, "faulted", t, slot, verdict)
                ctx.counts["faulted_decode_" + verdict] += 1
                past[t, slot] = (before + (verdict,))[-2:]
                return (t, slot, tuple(faults))
            value = from_json(value)
            if fail_at:
                verdict = driver.decode(t, slot, endian, data, fail_at)[0]
                if verdict == "bad_alloc":
                    ctx.fault("allocation_failure_then_retry")
                    before = (before + (verdict,))[-2:]
            cls = getattr(module, t)
            sender = cls()
            try:
                pynode.assign(lay, t, sender, value)
                wrote = {e: sender.encode(e) for e in "<>"}
            except Exception as e:
                raise Violation("python-sender-fails", "step %d: Python %s cannot send %r: %r" % (i, t, value, e))
            canonical = {e: lay.encode(t, value, e) for e in "<>"}
            for source, packet in (("documented format", data), ("Python", wrote[endian])):
                self.exchange(ctx, driver, lay, cls, i, t, slot, endian, source, packet,
                              canonical if source != "Python" else wrote)
                if wrote[endian] == data:
                    break
            ctx.counts["intact"] += 1
            ctx.state(common.shape(lay, t), endian, before, len(data))
            past[t, slot] = (before + ("intact",))[-2:]
            return (t, slot, "intact")

        self.run_steps(trace, ctx, step_fn)

    def exchange(self, ctx, driver, lay, cls, i, t, slot, endian, source, packet, both):
        where = "step %d: %s from %s, %d bytes %s (%s)" % (i, t, source, len(packet), packet.hex()[:600], endian)
        for call in ([endian, "="] if endian == HOST else [endian]):
            verdict = driver.decode(t, slot, call, packet)[0]
            ctx.counts["cpp_decode"] += 1
            if verdict != "ok":
                raise Violation("cpp-refuses", "%s: C++ decode (%s) says %s" % (where, call, verdict))
        holds = lay.encode(t, driver.dump(t, slot), endian)
        if holds != packet:
            raise Violation("cpp-object-differs", "%s: decoded C++ object has the value of bytes %s" % (
                where, holds.hex()[:600]))
        self.transmit(ctx, driver, lay, cls, i, t, slot, endian, where, both, "cpp-re-encodes-differently")

    def send(self, ctx, driver, lay, module, i, step, past):
        """The C++ application fills an object on its own and sends it, or a copy."""
        _, _, t, slot, endian, seed, how, to = step
        if past.get((t, slot), ("new",))[-1] not in ("new", "intact", "sent"):
            driver.fresh(t, slot)
        driver.mutate(t, slot, seed)
        past[t, slot] = ("sent",)
        value = driver.dump(t, slot)
        if not is_value(lay.types, t, value) or not lay.greedy_aligned(t, value):
            ctx.counts["not_a_value_of_the_schema"] += 1
            return (t, slot, "not a value")
        if how != "self" and to != slot:
            getattr(driver, how)(t, to, slot)
            past[t, to] = ("sent",)
        else:
            how, to = "self", slot
        where = "step %d: C++ %s holding %r (%s)" % (i, t, value, {
            "self": "set member by member", "copy": "assigned", "clone": "copy constructed"}[how])
        ctx.counts["sent_" + how] += 1
        self.transmit(ctx, driver, lay, getattr(module, t), i, t, to, endian, where,
                      {e: lay.encode(t, value, e) for e in "<>"}, "cpp-sends-other-bytes")
        ctx.state(common.shape(lay, t), endian, how, "sent")
        return (t, to, "sent", how)

    def transmit(self, ctx, driver, lay, cls, i, t, slot, endian, where, both, kind):
        other = ">" if endian == "<" else "<"
        for out in (endian, "=", other):
            enc = driver.encode(t, slot, out)
            ctx.counts["cpp_encode"] += 1
            want = both[HOST if out == "=" else out]
            if isinstance(enc, str) or enc["bytes"] != want:
                raise Violation(kind, "%s: C++ encode (%s) gives %s, expected %s" % (
                    where, out, enc if isinstance(enc, str) else enc["bytes"].hex()[:600], want.hex()[:600]))
            ctx.log(i, out, enc["bytes"].hex())
        receiver = cls()
        back = enc["bytes"]
        try:
            receiver.decode(back, other)
            again = receiver.encode(other)
        except Exception as e:
            import prophy
            signature = "array-over-65536" if self.longest(lay, driver, t, slot) > 65536 and \
                isinstance(e, prophy.ProphyError) else None
            what = signature and known.match("C03", signature)
            if what:
                ctx.counts["python_refuses_over_65536_elements"] += 1
                ctx.notes.append(what)
                return
            raise Violation("python-refuses", "%s: Python cannot read the C++ bytes %s (%s): %r" % (
                where, back.hex()[:600], other, e), signature)
        if again != back:
            raise Violation("python-re-encodes-differently", "%s: Python re-encodes C++ bytes %s as %s (%s)" % (
                where, back.hex()[:600], again.hex()[:600], other))

    def longest(self, lay, driver, t, slot):
        """The highest counter of the arrays in the message."""
        spans = []
        data = lay.encode(t, driver.dump(t, slot), "<", spans)
        return max([int.from_bytes(data[at:at + size], "little") for at, size, role in spans if role == "counter"],
                   default=0)

    def simplify(self, trace):
        yield from common.simplify_schema(
            dict(trace, steps=[s for s in trace["steps"]]), lambda s: [s[2]])
