"""C07: a C++ receiver on a faulty link."""
from ..kernel import Violation
from ..link import FaultMix, session
from ..rng import Rng
from ..wire import Layout
from .. import known, schema
from . import common
from .cppsession import CppSim


class Sim(CppSim):
    runs = {"quick": 200, "thorough": 1600}
    rule = ("one state per distinct (fault kinds applied, declared shape of the decoded type, verdict of decode, "
            "endianness) reached on a long-lived C++ object")
    assumptions = ["input buffers are aligned as the format requires; the buffer ends exactly at the input's last byte "
                   "and is poisoned around",
                   "memory bound: all requests of one decode together at most 16 KiB + 4 * S * n for n input bytes "
                   "(largest input the object has seen), S the largest sizeof of a generated type of the schema"]

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        decls, lang = self.schema(rng)
        lay = Layout(schema.Types(decls))
        names = [d["n"] for d in lay.types.composites()]
        mix = FaultMix(rng)
        bias = rng.pick([None, None, 20, 100, 300])
        steps = []
        for now, item in session(rng, lay, names, mix, rng.randint(200, 400), self.SLOTS, bias, max_stream=96):
            steps.append([round(now, 4), "recv", item["t"], item["s"], item["e"], item["b"].hex(), item["f"]])
            if rng.chance(0.05):
                steps.append([round(now, 4), "fresh", item["t"], item["s"]])
        return {"lang": lang, "schema": decls, "steps": steps}

    def execute(self, trace, ctx):
        lay, _, driver = self.start(trace, ctx, ("cpp_full",))
        largest_sizeof = max(size for size, _ in driver.sizes.values())
        largest = {}
        host = "<"

        def step_fn(i, step):
            t, slot = step[2], step[3]
            if step[1] == "fresh":
                driver.fresh(t, slot)
                largest[t, slot] = 0
                return ("fresh", t, slot)
            endian, data, faults = step[4], bytes.fromhex(step[5]), step[6]
            for f in faults:
                ctx.fault(f)
            call = "=" if endian == host and i % 3 == 0 else endian
            where = "step %d: %s::decode(%d bytes %s, %s)" % (i, t, len(data), data.hex()[:400], call)
            verdict, total, biggest, _ = driver.decode(t, slot, call, data)
            n = largest[t, slot] = max(largest.get((t, slot), 0), len(data))
            ctx.counts["decode"] += 1
            ctx.counts["decode_" + verdict] += 1
            ctx.log(i, t, slot, call, len(data), verdict, total)
            ctx.state(tuple(sorted(set(faults))), common.shape(lay, t), verdict, endian)
            bound = 16384 + 4 * largest_sizeof * n
            ctx.maximum("requested_permille_of_bound", total * 1000 // bound)
            if total > bound:
                raise Violation("decode-memory", "%s requested %d bytes (largest request %d), bound %d, verdict %s" % (
                    where, total, biggest, bound, verdict))
            if verdict not in ("ok", "no"):
                raise Violation("decode-throws", "%s threw %s" % (where, verdict))
            if verdict == "ok":
                enc = driver.encode(t, slot, endian)
                if isinstance(enc, str):
                    raise Violation("encode-throws", "%s succeeded, encode threw %s" % (where, enc))
                ctx.counts["accepted_reencoded"] += 1
                ctx.log(enc["bytes"].hex())
                if not len(data) == enc["size"] == enc["vector"] == enc["written"]:
                    raise Violation("accepted-input-size-differs", "%s succeeded; get_byte_size %d, encode() %d bytes, "
                                    "encode(ptr) %d" % (where, enc["size"], enc["vector"], enc["written"]))
            return (t, slot, tuple(faults))

        self.run_steps(trace, ctx, step_fn)

    def finished(self, ctx):
        reports = self.driver.enum_reports()
        if reports:
            ctx.counts["runs_with_out_of_range_enum_load"] += 1
            what = known.match("C07", "enum-out-of-range-load")
            if what is None:
                raise Violation("cpp-ub-enum-out-of-range-load", reports[0], "enum-out-of-range-load")
            ctx.notes.append(what)

    def simplify(self, trace):
        yield from common.simplify_schema(trace, lambda s: [s[2]])
        for i, step in enumerate(trace["steps"]):
            if step[1] == "recv":
                for cut in common.shorter(bytes.fromhex(step[5])):
                    yield dict(trace, steps=trace["steps"][:i] + [step[:5] + [cut.hex(), step[6]]]
                               + trace["steps"][i + 1:])
