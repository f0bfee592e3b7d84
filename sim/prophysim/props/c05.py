"""C05: encoding the states a C++ object reaches through mutation, faulted decodes
and failed allocations."""
from ..cppnode import Died, overfill_lines
from ..kernel import Violation
from ..link import FaultMix, session
from ..rng import Rng
from ..wire import Layout
from ..schema import FIXED
from .. import schema
from . import common
from .cppsession import CppSim, report_kind


class Sim(CppSim):
    runs = {"quick": 200, "thorough": 1600}
    rule = ("one state per distinct (declared shape of the type, how the state was reached: last operation, its fault "
            "kinds and verdict, number of operations since construction capped at 4, encoded size)")
    assumptions = ["limited arrays are filled up to 3 elements beyond their limit",
                   "arrays hold few elements, except that some runs end by putting 300 behind a one-byte counter"]

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        decls, lang = self.schema(rng)
        lay = Layout(schema.Types(decls))
        names = [d["n"] for d in lay.types.composites()]
        mix = FaultMix(rng)
        p_alloc = rng.pick([0.0, 0.1, 0.3])
        steps = []
        for now, item in session(rng, lay, names, mix, rng.randint(150, 300), self.SLOTS, rng.pick([None, 20, 100, 300]),
                                 max_stream=64):
            fail_at = rng.randint(1, 4) if rng.chance(p_alloc) else 0
            t, s = item["t"], item["s"]
            steps.append([round(now, 4), "recv", t, s, item["e"], item["b"].hex(), item["f"], fail_at])
            for _ in range(rng.randint(0, 2)):
                roll = rng.random()
                t, s = rng.pick(names), rng.randrange(self.SLOTS)
                if roll < 0.6:
                    steps.append([round(now, 4), "mutate", t, s, rng.pick("<>="), rng.getrandbits(48)])
                elif roll < 0.8:
                    steps.append([round(now, 4), rng.pick(["copy", "clone"]), t, s, rng.pick("<>="),
                                  rng.randrange(self.SLOTS)])
                else:
                    steps.append([round(now, 4), "fresh", t, s, rng.pick("<>=")])
        narrow = [d["n"] for d in lay.types.composites() if overfill_lines(lay.types, d)]
        if narrow and rng.chance(0.1):
            steps.append([round(now, 4), "overfill", rng.pick(narrow), rng.randrange(self.SLOTS), rng.pick("<>=")])
        return {"lang": lang, "schema": decls, "steps": steps}

    def execute(self, trace, ctx):
        lay, _, driver = self.start(trace, ctx, ("cpp_full",))
        types = lay.types
        age = {}
        for d in types.composites():
            if types.kind(d["n"]) == FIXED:
                ctx.counts["fixed_types"] += 1

        def step_fn(i, step):
            op, t, slot, endian = step[1:5]
            if op == "overfill":
                return self.overfilled(ctx, lay, driver, i, t, slot, endian)
            age[t, slot] = min(4, age.get((t, slot), 0) + 1)
            how = (op,)
            if op == "recv":
                data, faults, fail_at = bytes.fromhex(step[5]), step[6], step[7]
                for f in faults:
                    ctx.fault(f)
                verdict = driver.decode(t, slot, endian, data, fail_at)[0]
                if verdict == "bad_alloc" and fail_at:
                    ctx.fault("allocation_failure_in_decode")
                how = (op, tuple(sorted(set(faults))), verdict)
                ctx.counts["decode_" + verdict] += 1
            elif op == "mutate":
                driver.mutate(t, slot, step[5])
            elif op == "copy":
                driver.copy(t, slot, step[5])
            elif op == "clone":
                driver.clone(t, slot, step[5])
            else:
                driver.fresh(t, slot)
                age[t, slot] = 0
            enc = driver.encode(t, slot, endian)
            if isinstance(enc, str):
                raise Violation("encode-throws", "step %d %s: encode threw %s" % (i, step[1:5], enc))
            ctx.counts["encode"] += 1
            ctx.log(i, how, enc["size"], enc["bytes"].hex())
            ctx.state(common.shape(lay, t), how, age[t, slot], enc["size"])
            where = "step %d: %s after %s: get_byte_size %d, encode() %d bytes, encode(ptr) %d" % (
                i, t, how, enc["size"], enc["vector"], enc["written"])
            if not enc["size"] == enc["vector"] == enc["written"]:
                raise Violation("sizes-differ", where)
            if not enc["same"]:
                raise Violation("vector-and-pointer-encode-differ", where)
            if types.kind(t) == FIXED:
                ctx.counts["encode_fixed"] += 1
                if driver.sizes[t][1] != enc["size"]:
                    raise Violation("encoded-byte-size-differs", where + ", encoded_byte_size %d" % driver.sizes[t][1])
            return (t, slot, how)

        self.run_steps(trace, ctx, step_fn)

    def overfilled(self, ctx, lay, driver, i, t, slot, endian):
        """Arrays longer than their one-byte counter can say; the last step of a run."""
        driver.fresh(t, slot)
        driver.overfill(t, slot)
        ctx.fault("array_longer_than_its_counter")
        try:
            enc = driver.encode(t, slot, endian)
        except Died as e:
            driver.restart()
            raise Violation("cpp-" + report_kind(e.report), "step %d: %s with 300 elements behind a one-byte counter\n%s" % (
                i, t, e.report[:3000]), "array-longer-than-counter")
        if not enc["size"] == enc["vector"] == enc["written"]:
            raise Violation("sizes-differ", "step %d: %s with 300 elements behind a one-byte counter: get_byte_size %d, "
                            "encode(ptr) %d" % (i, t, enc["size"], enc["written"]), "array-longer-than-counter")
        return (t, slot, "overfill")

    def simplify(self, trace):
        yield from common.simplify_schema(trace, lambda s: [s[2]])
        for i, step in enumerate(trace["steps"]):
            if step[1] == "recv":
                for cut in common.shorter(bytes.fromhex(step[5])):
                    yield dict(trace, steps=trace["steps"][:i] + [step[:5] + [cut.hex()] + step[6:]]
                               + trace["steps"][i + 1:])
