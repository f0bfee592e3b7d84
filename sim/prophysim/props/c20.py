"""C20: the same project compiled by different machines, from different places, in
different company and order, after crashes and beside other compilers, must give
the same bytes."""
import copy
import os
import shutil

from .. import compiler, machine, schema, spell
from ..kernel import Violation
from ..rng import Rng
from ..runner import BaseSim
from .c15 import OUTS, simpler_decls
from .c16 import EXT, Sim as Arrangements

PLACES = ("r", "r/nested/deeper place", "R2")
COMMENTS = ("plain words", "Grüße, żółw, 記号", "a 'quoted' \"text\"", "two\nlines", "trailing \\ backslash", "*/ end")

UNNAMED = """\
    struct { int32_t a; struct { int8_t c; } b; } unnamed_s;
    enum { @_one = 1, @_two = 2 } unnamed_e;
    union { int8_t a; struct { uint64_t c; } b; } unnamed_u;
"""


class Sim(BaseSim):
    runs = {"quick": 1500, "thorough": 25000}
    chunk = 50
    cpu_budget = 120
    rule = ("one state per distinct combination of language, include graph shape and kind of variant (machine, company, "
            "order, place, what happened before)")
    order_measure = "hash of the interleaving of file accesses of compilers that run at the same time"
    real = ["prophyc with all parsers and generators, run by separate interpreters with their own PYTHONHASHSEED, locale "
            "and user", "two compiler processes working in one directory at the same time"]
    stubs = ["clock, order of directory listings and address space layout of the machines",
             "disk faults injected where files are opened", "scheduler that lets one compiler process run at a time"]
    assumptions = ["inputs have distinct base names unless a run is about equal ones", "the inputs do not change meanwhile"]

    def open(self, root):
        self.files = compiler.Compiler
        self.layout = Arrangements()
        self.machines = {}

    def close(self):
        for m in self.machines.values():
            m.close()
        self.machines = {}

    def on(self, name):
        if name not in self.machines:
            self.machines[name] = machine.Machine(name)
        return self.machines[name]

    # ----------------------------------------------------------- generate

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        trace = Arrangements().generate(rng.getrandbits(48), index, tier)
        trace["fault"] = None
        trace["cxx"] = False
        if trace["lang"] in ("sack", "mixed") and rng.chance(0.5):
            trace = Arrangements().generate(rng.getrandbits(48), index, tier)
            trace["fault"] = None
            trace["cxx"] = False
        full = "cpp_full" in trace["outs"]
        trace["outs"] = [o for o in OUTS if o != "cpp_full" or full]
        if trace["lang"] == "isar" and rng.chance(0.4):
            trace["comments"] = [[d["n"], rng.pick(COMMENTS)] for d in trace["decls"] if rng.chance(0.4)]
        else:
            trace["comments"] = []
        trace["unnamed"] = []
        if trace["lang"] in ("sack", "mixed"):
            trace["unnamed"] = [d["n"] for d in trace["decls"] if d["k"] == "struct" and rng.chance(0.15)]
        other = schema.generate(rng, cpp=True, n_structs=rng.randint(1, 4))
        # strangers sometimes use the same names for other things
        trace["other"] = spell.isar_ready(other) if trace["lang"] == "isar" else (
            spell.isar_ready(spell.sack_ready(other)) if trace["lang"] in ("sack", "mixed") else other)
        trace["patch"] = self.patch(rng, trace["decls"] + other) if rng.chance(0.25) else None
        trace["variants"] = [self.variant(rng, trace) for _ in range(rng.randint(2, 5))]
        return trace

    @staticmethod
    def patch(rng, decls):
        """Rules most of which can be followed."""
        structs = [d for d in decls if d["k"] == "struct"]
        lines = []
        for d in rng.sample(structs, min(len(structs), rng.randint(1, 3))):
            plain = [m["n"] for m in d["m"] if not m["a"] and not m["o"]]
            rules = ["%s insert %d extra_%d u%d" % (d["n"], rng.pick([0, 1, 999]), k, rng.pick([8, 16, 32])) for k in range(2)]
            rules += ["%s type %s u%d" % (d["n"], n, rng.pick([8, 16, 64])) for n in plain]
            lines += rng.sample(rules, rng.randint(1, min(3, len(rules))))
        rng.shuffle(lines)
        return "".join(line + "\n" for line in lines)

    @staticmethod
    def variant(rng, trace):
        stems = [f["stem"] for f in trace["files"]]
        order = list(stems)
        rng.shuffle(order)
        v = {"machine": rng.pick(sorted(machine.PROFILES)), "place": rng.pick(PLACES), "cwd": rng.pick(
            ["", "a", "b", "elsewhere", "elsewhere/deep"]), "style": rng.pick(["relative", "absolute", "dot"]),
            "kind": rng.pick(["again", "all", "all", "subset", "company", "company", "warm", "failed_before", "crashed_before",
                              "dirty", "dirty", "edited", "beside", "beside", "twin", "needy"]),
            "order": order[:rng.randint(1, len(order))] if rng.chance(0.4) else order,
            "outs": rng.sample(trace["outs"], len(trace["outs"])), "seed": rng.getrandbits(32)}
        return v

    # ------------------------------------------------------------ execute

    def execute(self, trace, ctx):
        top = os.path.join(ctx.workdir, "t")
        os.makedirs(top)
        try:
            self.run(trace, ctx, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def run(self, trace, ctx, top):
        lang = {f["stem"]: self.layout.language(trace, k) for k, f in enumerate(trace["files"])}
        path = {f["stem"]: os.path.join(f["dir"], f["stem"] + EXT[lang[f["stem"]]]) for f in trace["files"]}
        disk = self.disk(trace, lang, path)
        inputs = [f["stem"] for f in trace["files"]]
        if trace["lang"] == "mixed" and len(inputs) > 1:
            inputs = [s for s in inputs if lang[s] == "sack"]
        self.ext = EXT[lang[inputs[0]]]
        self.size = sum(len(d) for d in disk.values() if d)
        ref = {}
        for s in inputs:
            root = self.place(trace, top, "ref", disk)
            step = self.step(trace, root, [s], path, lang, "", "relative", trace["outs"])
            outcome = self.on("reference").run([[step]])[0][0][0]
            ctx.log("reference", s, outcome["brief"])
            self.tally(ctx, outcome)
            if outcome["kind"] != "ok" and trace["patch"]:
                return self.without_patch(trace, ctx, top)
            if outcome["kind"] != "ok":
                raise Violation("valid-input-refused", "%s\n%s" % (self.describe(disk, step), outcome["brief"]))
            ref[s] = self.files.snapshot(os.path.join(root, "out"))
            shutil.rmtree(root)
        other = self.other_text(trace)
        root = self.place(trace, top, "ref", disk)
        self.files.write(root, {"other/stranger" + self.ext: other})
        step = dict(self.stranger(trace), root=root)
        outcome = self.on("reference").run([[step]])[0][0][0]
        if outcome["kind"] != "ok" and trace["patch"]:
            return self.without_patch(trace, ctx, top)
        if outcome["kind"] != "ok":
            raise Violation("valid-input-refused", "%s\n%s" % (other.decode(), outcome["brief"]))
        ref["stranger"] = self.files.snapshot(os.path.join(root, "out"))
        shutil.rmtree(root)
        for v in trace["variants"]:
            self.vary(trace, v, top, lang, path, disk, inputs, ref, ctx)
            shutil.rmtree(os.path.join(top, v["place"].split("/")[0]))

    def without_patch(self, trace, ctx, top):
        ctx.counts["patches_dropped"] += 1
        shutil.rmtree(os.path.join(top, "ref"))
        self.run(dict(trace, patch=None), ctx, top)

    def vary(self, trace, v, top, lang, path, disk, inputs, ref, ctx):
        stems = [s for s in v["order"] if s in inputs] or inputs[:1]
        rng = Rng(v["seed"])
        kind = v["kind"]
        root = self.place(trace, top, v["place"], disk)
        step = self.step(trace, root, stems, path, lang, v["cwd"], v["style"], v["outs"])
        stranger = dict(self.stranger(trace), root=root)
        self.files.write(root, {"other/stranger" + self.ext: self.other_text(trace)})
        before, expected, schedule, jobs = [], set(stems), None, None
        twin = False
        if kind == "company" and trace["lang"] == "mixed":
            kind = "all"        # definitions from --include_isar are meant for all inputs
        if kind == "again":
            before = [step] * rng.randint(1, 3)
        elif kind == "company":
            step["argv"].insert(rng.randint(0, len(stems)), os.path.relpath("other/stranger" + self.ext, v["cwd"] or "."))
            expected.add("stranger")
        elif kind == "warm":
            before = [stranger] * rng.randint(1, 2)
            expected.add("stranger")
        elif kind == "failed_before":
            bad = self.broken(rng, trace)
            self.files.write(root, {"other/broken" + self.ext: bad})
            before = [dict(stranger, argv=[a.replace("stranger", "broken") for a in stranger["argv"]])]
            ctx.fault("failed_compilation_before")
        elif kind == "crashed_before":
            name = rng.pick(sorted(ref[stems[0]]))
            before = [dict(step, faults=[{"path": "out/" + name, "kind": rng.pick(["ENOSPC", "EIO", "EACCES"])}])]
            ctx.fault("disk_fault_before")
        elif kind == "dirty":
            for s in stems:
                for name in ref[s]:
                    self.files.write(root, {"out/" + name: self.stale(rng, ref[s][name])})
            ctx.fault("stale_outputs")
        elif kind == "edited":
            # the files were something else when this process compiled them before
            old = {path[s]: rng.pick([b"", self.broken(rng, trace), disk[path[rng.pick(sorted(path))]], disk[path[s]][:-3]])
                   for s in sorted(path) if rng.chance(0.7)}
            before = [{"write": old, "root": root}, step, {"write": {p: disk[p] for p in old}, "root": root}]
            ctx.fault("edited_between_runs")
        elif kind == "beside":
            jobs = [[step], [stranger]] if rng.chance(0.5) else [[step], [self.step(
                trace, root, list(reversed(inputs)), path, lang, v["cwd"], "relative", v["outs"])]]
            expected |= {"stranger"} if jobs[1] == [stranger] else set(inputs)
            schedule = [rng.randrange(2) for _ in range(60)]
            ctx.fault("concurrent_compiler")
        elif kind == "needy":
            return self.needy(trace, v, rng, root, step, path, ref, stems, ctx)
        elif kind == "twin":
            parts = [s for s in lang if s not in inputs]
            s = rng.pick(parts or stems)
            name = "other/" + os.path.basename(path[s])
            self.files.write(root, {name: spell.to_isar(trace["other"]).encode() if parts else self.other_text(trace)})
            name = os.path.relpath(name, v["cwd"] or ".")
            if parts:
                at = rng.pick([i for i, a in enumerate(step["argv"]) if a == "--include_isar"])
                step["argv"][at:at] = ["--include_isar", name]
            else:
                step["argv"].insert(rng.randint(0, 1) * len(stems), name)
            twin = True
            ctx.fault("equal_base_names")
        for job in before:
            if "write" in job:
                job["write"] = {p: data.decode() for p, data in job["write"].items()}
        outcomes, order = self.on(v["machine"]).run(jobs or [before + [step]], schedule)
        ctx.log("variant", {k: v[k] for k in ("machine", "kind", "place", "cwd", "style")}, stems, outcomes, order)
        for o in (o for party in outcomes for o in party):
            self.tally(ctx, o)
        ctx.counts["variants_" + kind] += 1
        if schedule:
            ctx.order(order)
        ctx.state(trace["lang"], self.layout.shape(trace), v["machine"], kind, len(stems) > 1, v["cwd"] != "")
        where = lambda: "%s\nvariant %s" % (self.describe(disk, step), v)  # noqa: E731
        last = [party[-1] for party in outcomes]
        if twin:
            if all(o["kind"] == "ok" for o in last):
                raise Violation("outputs-of-two-inputs-collide", where())
            return
        for o in last:
            if o["kind"] != "ok":
                raise Violation("refused-in-this-setting", "%s\n%s" % (where(), o["brief"]))
        self.compare(root, expected, ref, where, ctx)

    def needy(self, trace, v, rng, root, step, path, ref, stems, ctx):
        """An input that names another file it perhaps cannot reach: the files it is
        compiled with must not help it."""
        wanted = os.path.basename(path[rng.pick(sorted(path))])
        text = {".prophy": '#include "%s"\nstruct Needy\n{\n    u8 x;\n};\n',
                ".xml": '<x xmlns:xi="http://www.xyz.com/1984/XInclude"><xi:include href="%s"/><struct name="Needy">'
                        '<member name="x" type="u8"/></struct></x>',
                ".hpp": '#include "%s"\n#include <stdint.h>\nstruct Needy { int8_t x; };\n'}[self.ext] % wanted
        name = "other/needy" + self.ext
        self.files.write(root, {name: text.encode()})
        name = os.path.relpath(name, v["cwd"] or ".")
        alone = dict(step, argv=[name] + step["argv"][len(stems):])
        first = self.on("reference").run([[alone]])[0][0][0]
        files = {n: d for n, d in self.files.snapshot(os.path.join(root, "out")).items()}
        for n in files:
            os.unlink(os.path.join(root, "out", n))
        step["argv"].insert(rng.randint(0, len(stems)), name)
        outcomes, order = self.on(v["machine"]).run([[step]])
        second = outcomes[0][0]
        ctx.log("needy", first, second)
        for o in (first, second):
            self.tally(ctx, o)
        ctx.counts["variants_needy"] += 1
        ctx.fault("include_out_of_reach", first["kind"] != "ok" or bool(first["stderr"]))
        ctx.state(trace["lang"], self.layout.shape(trace), v["machine"], "needy", first["kind"])
        where = lambda: "other/needy: %s\n%s\nvariant %s\nalone: %s\nhere: %s" % (  # noqa: E731
            text, self.describe({}, step), v, first["brief"], second["brief"])
        if (first["kind"] == "ok") != (second["kind"] == "ok"):
            raise Violation("company-changes-verdict", where())
        if first["kind"] == "ok":
            self.compare(root, set(stems) | {"needy"}, dict(ref, needy=files), where, ctx)

    def compare(self, root, expected, ref, where, ctx):
        got = {n: data for n, data in self.files.snapshot(os.path.join(root, "out")).items() if not n.startswith("broken.")}
        want = {}
        for s in sorted(expected):
            want.update(ref[s])
        for name in sorted(set(got) | set(want)):
            if name not in want:
                raise Violation("unexpected-output", "%s\n%s" % (where(), name))
            if name not in got:
                raise Violation("output-missing", "%s\n%s" % (where(), name))
            if got[name] != want[name]:
                raise Violation("output-differs", "%s\n%s:\n%s" % (where(), name, difference(want[name], got[name])))
            ctx.counts["outputs_compared"] += 1

    # -------------------------------------------------------------- files

    @staticmethod
    def tally(ctx, outcome):
        ctx.counts["invocations"] += 1
        ctx.simtime += outcome["steps"] * 1e-6
        for fired in outcome["fired"]:
            ctx.fault("io_" + fired)

    def disk(self, trace, lang, path):
        by_name = {d["n"]: d for d in trace["decls"]}
        disk = {"out": None}
        for d in ("a", "a/c", "b", "lib", "elsewhere/deep", "other"):
            disk[d] = None
        for f in trace["files"]:
            disk[path[f["stem"]]] = self.layout.text(trace, f, lang, path, by_name).encode()
        for name in trace["unnamed"]:
            for p in disk:
                if disk[p]:
                    old = "struct %s {\n" % name
                    disk[p] = disk[p].replace(old.encode(), (old + UNNAMED.replace("@", name)).encode())
        if trace["patch"]:
            disk["rules.txt"] = trace["patch"].encode()
        for name, text in trace["comments"]:
            for p in disk:
                if disk[p]:
                    for k in ("struct", "message", "union", "enum", "typedef", "constant"):
                        old = '<%s name="%s"' % (k, name)
                        new = '%s comment=%s' % (old, spell.quoteattr(text))
                        disk[p] = disk[p].replace(old.encode(), new.encode())
        return disk

    def place(self, trace, top, name, disk):
        root = os.path.join(top, name)
        os.makedirs(root)
        self.files.write(root, disk)
        if trace["link"]:
            os.symlink(trace["link"], os.path.join(root, "ln"))
        return root

    def step(self, trace, root, stems, path, lang, cwd, style, outs):
        variant = dict(trace, cwd=cwd, outs=outs)
        argv = self.layout.argv(variant, root, [[s, style] for s in stems], path, lang)
        at = next(i for i, a in enumerate(argv) if os.path.basename(a) == os.path.basename(path[stems[0]]) and (
            i == 0 or argv[i - 1] not in ("--include_isar", "-I")))
        # inputs first, so that company can be added among them
        argv = argv[at:at + len(stems)] + argv[:at] + argv[at + len(stems):]
        if trace["patch"]:
            argv += ["--patch", os.path.relpath("rules.txt", cwd or ".")]
        return {"root": root, "cwd": cwd or ".", "argv": argv, "steps": 20000000 + 20000 * self.size}

    def stranger(self, trace):
        argv = ["other/stranger" + self.ext]
        if trace["lang"] != "prophy":
            argv.append("--isar" if self.ext == ".xml" else "--sack")
        for o in trace["outs"]:
            argv += ["--%s_out" % o, "out"]
        if trace["patch"]:
            argv += ["--patch", "rules.txt"]
        return {"cwd": ".", "argv": argv, "steps": 20000000}

    def other_text(self, trace):
        spelling = {".prophy": schema.to_prophy, ".xml": spell.to_isar, ".hpp": spell.to_sack}[self.ext]
        return spelling(trace["other"]).encode()

    def broken(self, rng, trace):
        from .. import damage
        text = self.other_text(trace).decode()
        if trace["lang"] == "prophy":
            return damage.token_damage(rng, text)[0].encode() if rng.chance(0.5) else text[:rng.randint(0, len(text))].encode()
        return text[:rng.randint(0, len(text))].encode()

    @staticmethod
    def stale(rng, good):
        """What an earlier, perhaps interrupted, run may have left."""
        n = len(good)
        return rng.pick([
            lambda: b"stale content\n" * rng.randint(1, 400), lambda: b"", lambda: good[:rng.randint(0, n)],
            lambda: good + b"more\n", lambda: b"#" * n, lambda: bytes(b ^ 1 if b > 64 else b for b in good),
            lambda: good.replace(b"u8", b"u4"), lambda: good.rstrip(b"\n"), lambda: b"\0" * n])()

    @staticmethod
    def describe(disk, step):
        lines = ["--- %s\n%s" % (p, disk[p].decode()) for p in sorted(disk) if disk[p]]
        return "\n".join(lines) + "\ncwd %s: prophyc %s" % (step["cwd"], " ".join(step["argv"]))

    # ----------------------------------------------------------- simplify

    def simplify(self, trace):
        if len(trace["variants"]) > 1:
            for i in range(len(trace["variants"])):
                yield dict(trace, variants=trace["variants"][:i] + trace["variants"][i + 1:])
        for i, v in enumerate(trace["variants"]):
            for key, plain in (("machine", "reference"), ("place", "r"), ("cwd", ""), ("style", "relative"), ("kind", "all"),
                               ("order", sorted(v["order"])), ("outs", list(trace["outs"]))):
                if v[key] != plain:
                    yield dict(trace, variants=trace["variants"][:i] + [dict(v, **{key: plain})] + trace["variants"][i + 1:])
        if len(trace["outs"]) > 1:
            for o in trace["outs"]:
                new = copy.deepcopy(trace)
                new["outs"].remove(o)
                for v in new["variants"]:
                    v["outs"].remove(o)
                yield new
        for i in range(len(trace["unnamed"])):
            yield dict(trace, unnamed=trace["unnamed"][:i] + trace["unnamed"][i + 1:])
        if trace["patch"]:
            yield dict(trace, patch=None)
            lines = trace["patch"].splitlines(True)
            for i in range(len(lines) if len(lines) > 1 else 0):
                yield dict(trace, patch="".join(lines[:i] + lines[i + 1:]))
        for i in range(len(trace["comments"])):
            yield dict(trace, comments=trace["comments"][:i] + trace["comments"][i + 1:])
        for new in simpler_decls(trace["other"]):
            if new:
                yield dict(trace, other=new)
        names = {"variants": trace["variants"], "other": trace["other"], "comments": trace["comments"],
                 "patch": trace["patch"], "unnamed": trace["unnamed"]}
        for new in Arrangements().simplify(dict(trace, calls=[[[f["stem"], "relative"] for f in trace["files"]]])):
            if new["outs"] == trace["outs"]:
                yield dict(new, **names)


def difference(a, b):
    import difflib
    lines = list(difflib.unified_diff(a.decode("utf-8", "replace").split("\n"), b.decode("utf-8", "replace").split("\n"),
                                      "alone", "here", lineterm="", n=1))
    return "\n".join(lines[:40])
