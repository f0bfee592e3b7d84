"""Shared parts of the simulations that drive the generated C++ codec."""
import os

from .. import cppnode, pynode, schema, spell
from ..kernel import Skip, Violation
from ..runner import BaseSim
from ..wire import Layout


class CppSim(BaseSim):
    SLOTS = 3
    chunk = 4
    kill_after = 300
    shrink_budget = 100
    real = ["prophyc (schema to C++ full codec)", "generated .ppf.hpp/.ppf.cpp and prophy_cpp headers, "
            "g++ -O0 with AddressSanitizer and UBSan"]
    stubs = ["link: simulated delays, reordering, duplication, fragmentation, corruption",
             "allocator: counting operator new that can fail the n-th request"]

    def prepare(self, shared):
        cppnode.precompile(shared)

    def open(self, root):
        pynode.setup_path()
        self.pch = os.path.join(self.shared, "pch") if self.shared else cppnode.precompile(root)
        self.driver = None

    def cleanup(self):
        if self.driver is not None:
            self.driver.close()
            self.driver = None

    def schema(self, rng):
        """-> declarations, language they are written in"""
        decls = schema.generate(rng, cpp=True, patched=True, n_structs=rng.randint(5, 9))
        lang = rng.pick(["prophy", "prophy", "prophy", "isar"])
        if rng.chance(0.4):     # values that C++ can calculate with in 32 bits
            decls = spell.decorate(rng, decls, lang, rng.pick([0.3, 0.7]), 1 << 24)
        return decls, lang

    def start(self, trace, ctx, outs):
        """Compile the schema, build and start the driver."""
        decls = trace["schema"]
        types = schema.Types(decls)
        lay = Layout(types)
        module = None
        isar = trace.get("lang") == "isar"
        if isar:
            plain, patch = spell.isar_patched(decls)
            text = spell.to_isar(plain)
            ctx.counts["schemas_in_isar"] += 1
        else:
            text, patch = schema.to_prophy(decls), schema.to_patch(decls)
        try:
            pynode.compile_prophy(text, ctx.workdir, outs=outs, patch=patch, isar=isar)
        except (Exception, SystemExit) as e:
            ctx.counts["schema_refused"] += 1
            raise Skip("schema refused: %s: %s" % (type(e).__name__, e))
        if "python" in outs:
            try:
                module = pynode.import_module(os.path.join(ctx.workdir, "proto.py"))
            except Exception as e:
                raise Violation("generated-module-does-not-import", "%r\n%s" % (e, text))
        try:
            binary = cppnode.build(types, ctx.workdir, self.pch)
        except cppnode.BuildError as e:
            self.build_failed(str(e), text)
        ctx.counts["schemas"] += 1
        try:
            self.driver = cppnode.Driver(binary, types)
        except cppnode.Died as e:
            raise Violation("cpp-" + report_kind(e.report), "driver died at start\n" + e.report[:3000])
        return lay, module, self.driver

    def finished(self, ctx):
        pass

    def build_failed(self, output, text):
        raise Skip("generated C++ does not compile")

    def run_steps(self, trace, ctx, step_fn):
        order = []
        for i, step in enumerate(trace["steps"]):
            try:
                label = step_fn(i, step)
            except cppnode.Died as e:
                raise Violation("cpp-" + report_kind(e.report), "step %d %s: process died in %r\n%s" % (
                    i, step[1:5], e.command[:600], e.report[:3000]))
            except cppnode.Hung:
                raise Violation("hang", "step %d %s: no answer from the C++ process" % (i, step[1:5]))
            order.append(label)
        self.finished(ctx)
        if trace["steps"]:
            ctx.simtime += trace["steps"][-1][0]
        ctx.order(order)


def report_kind(report):
    """Stable short class of a sanitizer report."""
    for line in report.splitlines():
        if "ERROR: AddressSanitizer:" in line:
            return line.split("AddressSanitizer:")[1].split()[0].strip(":")
        if "runtime error:" in line and "not a valid value for type" not in line:
            words = line.split("runtime error:")[1].split()
            return "ub-" + "-".join(w for w in words[:4] if w.isalpha())
        if "Assertion" in line:
            return "assertion"
        if "terminate called" in line:
            return "terminate"
    return "died"
