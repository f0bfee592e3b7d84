"""C06: a Python receiver on a faulty link."""
import tracemalloc

from .. import pynode, schema
from ..kernel import StepBudget, Violation
from ..link import FaultMix, session
from ..rng import Rng
from ..runner import BaseSim
from ..wire import Layout
from . import common


class Sim(BaseSim):
    runs = {"quick": 6000, "thorough": 60000}
    chunk = 10
    rule = ("one state per distinct (fault kinds applied, declared shape of the decoded type, outcome of decode, "
            "endianness); runs decode into long-lived objects whose previous contents come from earlier deliveries")
    real = ["prophyc (schema to Python module)", "prophy runtime: decode, encode, attribute reads"]
    stubs = ["sender: reference encoder written from docs/encoding.rst",
             "link: simulated delays, reordering, duplication, fragmentation, corruption"]
    assumptions = ["schemas come from the generator's grammar (up to 8 structs, 6 members, depth 8)",
                   "values compared bitwise; a greedy tail followed by padding is exempt from the fixpoint, as the "
                   "format itself cannot tell padding from elements"]
    SLOTS = 2

    def open(self, root):
        pynode.setup_path()
        import prophy
        self.error = prophy.ProphyError
        self.budget = StepBudget(["prophy"])

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        decls = schema.generate(rng, patched=True, byhand=True, empty=True)
        lay = Layout(schema.Types(decls))
        names = [d["n"] for d in lay.types.composites()]
        names = rng.sample(names, min(len(names), rng.randint(1, 4)))
        mix = FaultMix(rng)
        bias = rng.pick([None, None, 20, 100, 300])
        steps = []
        for now, item in session(rng, lay, names, mix, rng.randint(20, 60), self.SLOTS, bias):
            steps.append([round(now, 4), "recv", item["t"], item["s"], item["e"], item["b"].hex(), item["f"]])
        return {"schema": decls, "steps": steps}

    def execute(self, trace, ctx):
        import prophy
        decls = trace["schema"]
        lay = Layout(schema.Types(decls))
        module = common.compile_python(decls, ctx)
        objects = {}
        order = []
        for i, step in enumerate(trace["steps"]):
            now, _, t, slot, endian, data, faults = step
            data = bytes.fromhex(data)
            cls = getattr(module, t)
            msg = objects.get((t, slot))
            if msg is None:
                msg = objects[(t, slot)] = cls()
            for f in faults:
                ctx.fault(f)
            measured = i % 5 == 0 or "counter" in faults
            outcome = self.decode(prophy, msg, data, endian, ctx, measured, t)
            ctx.counts["decode"] += 1
            ctx.counts["decode_" + outcome] += 1
            ctx.log(i, "recv", t, slot, endian, len(data), outcome)
            order.append((t, slot, tuple(faults)))
            ctx.state(tuple(sorted(set(faults))), common.shape(lay, t), outcome, endian)
            if outcome == "returned":
                self.fixpoint(lay, cls, msg, t, endian, data, ctx)
        if trace["steps"]:
            ctx.simtime += trace["steps"][-1][0]
        ctx.order(order)

    def decode(self, prophy, msg, data, endian, ctx, measured, t):
        where = "%s.decode(%d bytes %s, %r)" % (t, len(data), data.hex()[:400], endian)
        if measured:
            tracemalloc.start()
        try:
            with self.budget(200000 + 4000 * len(data)):
                msg.decode(data, endian)
            outcome = "returned"
        except prophy.ProphyError as e:
            outcome = "rejected"
            ctx.log(str(e))
        except Exception as e:
            raise Violation("decode-raises-%s" % type(e).__name__, "%s raised %r" % (where, e))
        except BaseException as e:
            if type(e).__name__ == "Hang":
                raise Violation("decode-does-not-terminate", "%s: %s" % (where, e))
            raise
        finally:
            if measured:
                peak = tracemalloc.get_traced_memory()[1]
                tracemalloc.stop()
        if measured:
            ctx.counts["memory_measured"] += 1
            ctx.maximum("decode_peak_bytes", peak)
            ctx.maximum("decode_peak_bytes_per_256_input_bytes", peak * 256 // (len(data) + 256))
            if peak > common.memory_bound(len(data)):
                raise Violation("decode-memory", "%s allocated %d bytes at peak" % (where, peak))
        return outcome

    def fixpoint(self, lay, cls, msg, t, endian, data, ctx):
        where = "%s decoded from %s (%r)" % (t, data.hex()[:400], endian)
        try:
            wire = msg.encode(endian)
        except Exception as e:
            raise Violation("decoded-message-does-not-encode", "%s: encode raised %r" % (where, e))
        value = pynode.read(lay, t, msg)
        again = cls()
        try:
            again.decode(wire, endian)
        except Exception as e:
            if isinstance(e, self.error) and common.padded_greedy_tail(lay, t, value):
                ctx.counts["fixpoint_exempt_greedy_tail"] += 1
                return
            raise Violation("re-decode-fails", "%s: encodes to %s, which decode refuses: %r" % (where, wire.hex(), e))
        try:
            wire2 = again.encode(endian)
        except Exception as e:
            raise Violation("decoded-message-does-not-encode", "%s: second encode raised %r" % (where, e))
        value2 = pynode.read(lay, t, again)
        ctx.log(wire.hex(), wire2.hex())
        ctx.counts["fixpoint_checked"] += 1
        if wire != wire2 or value != value2:
            if common.padded_greedy_tail(lay, t, value):
                ctx.counts["fixpoint_exempt_greedy_tail"] += 1
                return
            raise Violation("not-a-fixpoint", "%s: encodes to %s, decoded again to %r, encodes to %s" % (
                where, wire.hex(), value2, wire2.hex()))

    def simplify(self, trace):
        yield from common.simplify_schema(trace, lambda s: [s[2]])
        for i, step in enumerate(trace["steps"]):
            data = bytes.fromhex(step[5])
            for cut in common.shorter(data):
                yield dict(trace, steps=trace["steps"][:i] + [step[:5] + [cut.hex(), step[6]]] + trace["steps"][i + 1:])
