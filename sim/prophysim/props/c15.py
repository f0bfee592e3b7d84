"""C15: the order of definitions in isar and sack inputs is a schedule; every
schedule must give the same, dependency-ordered and complete output."""
import collections
import copy
import os
import re
import shutil
import subprocess

from .. import compiler, cppnode, meaning, pynode, schema, spell, wire
from ..kernel import Violation
from ..rng import Rng
from ..runner import BaseSim

OUTS = ("python", "cpp", "cpp_full", "prophy")


class Sim(BaseSim):
    runs = {"quick": 4000, "thorough": 60000}
    chunk = 20
    cpu_budget = 90
    rule = ("one state per distinct ordered input: sequence of (declaration kind, kinds and directions of its "
            "dependencies), so equal shapes in equal order count once")
    order_measure = "hash of (language, order of definition names) over all inputs of a run"
    real = ["prophyc: isar and sack parsers (real libclang), patch, model sort and evaluation, all four generators",
            "generated Python modules and the prophy runtime", "g++ front end on generated C++ for a sample of runs"]
    stubs = ["the editor that shuffles definitions"]
    assumptions = ["names are unique and everything referred to is defined",
                   "sack inputs are valid C++, so only orders that respect the dependencies exist for them",
                   "enum values do not refer to each other in a circle of enums"]

    def open(self, root):
        self.compiler = compiler.Compiler()

    # ----------------------------------------------------------- generate

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        lang = "sack" if rng.chance(0.12) else "isar"
        cxx = rng.chance(0.03)
        big = rng.chance(0.15)
        knobs = dict(n_structs=rng.randint(6, 14) if big else rng.randint(1, 6), n_unions=rng.randint(0, 3),
                     n_typedefs=rng.randint(0, 6 if big else 4), n_enums=rng.randint(0, 4),
                     p_nested=rng.pick([0.2, 0.5, 0.8]), max_members=rng.pick([1, 2, 3, 5]))
        # the full C++ codec refuses arrays that share a counter, so it only gets schemas without them
        full = cxx or rng.chance(0.5)
        decls = schema.generate(rng, cpp=full, **knobs)
        trace = {"lang": lang, "vseed": rng.getrandbits(32), "cxx": cxx, "patch": [], "messages": []}
        if lang == "isar" and rng.chance(0.05):
            decls += self.chain(rng, rng.randint(10, 70))
        if lang == "sack":
            decls = spell.sack_ready(decls)
        else:
            decls = spell.decorate(rng, spell.isar_ready(decls), "isar", rng.pick([0, 0.3, 0.6, 0.9]),
                                   below=1 << 24 if cxx else 1 << 64)
            trace["messages"] = [n for n in spell.isar_messages(decls) if rng.chance(0.25)]
            if rng.chance(0.25):
                trace["patch"] = self.patches(rng, decls)
        trace["decls"] = decls
        names = [d["n"] for d in decls]
        trace["orders"] = [self.order(rng, lang, decls, names, k) for k in range(rng.randint(3, 6))]
        trace["together"] = rng.chance(0.3)
        trace["outs"] = sorted(rng.sample(OUTS, rng.randint(1, 4)))
        if not full:
            trace["outs"] = [o for o in trace["outs"] if o != "cpp_full"] or ["python"]
        if cxx:
            trace["outs"] = sorted(OUTS)
        return trace

    @staticmethod
    def chain(rng, length):
        """Definitions that each need the one before."""
        kind = rng.pick(["const", "typedef", "struct", "mixed"])
        out, last, number = [], "u32", None
        for i in range(length):
            k = rng.pick(["const", "typedef", "struct"]) if kind == "mixed" else kind
            name = "C%d" % i
            if k == "const":
                value = (number[1] if number else 0) + 1
                out.append({"k": "const", "n": name, "v": value, "e": "%s + 1" % number[0] if number else "1"})
                number = (name, value)
            elif k == "typedef":
                out.append({"k": "typedef", "n": name, "t": last})
                last = name
            else:
                out.append({"k": "struct", "n": name, "m": [{"n": "f0", "t": last, "o": False, "a": None}]})
                last = name
        return out

    @staticmethod
    def patches(rng, decls):
        """Changes a patch makes to the file: [kind, struct, member, stand-in type]"""
        out = []
        own = [d["n"] for d in decls if d["k"] in ("struct", "union", "typedef", "enum")]
        for d in decls:
            if d["k"] == "struct" and rng.chance(0.3):
                sizers = {m["a"][1] for m in d["m"] if m["a"] and m["a"][0] == "ext"}
                plain = [m for m in d["m"] if not m["a"] and m["n"] not in sizers]
                if plain:
                    m = rng.pick(plain)
                    # the stand-in may even be something defined later
                    out.append(["type", d["n"], m["n"], rng.pick(own + ["u8", "u64"])])
            elif d["k"] in ("struct", "union", "enum", "typedef") and rng.chance(0.15):
                out.append(["rename", d["n"], "Old" + d["n"], ""])
        return out

    @staticmethod
    def order(rng, lang, decls, names, k):
        if lang == "sack":      # a random order that C++ accepts
            deps = spell.dependencies(decls)
            left, out = set(range(len(decls))), []
            while left:
                ready = sorted(i for i in left if not (deps[i] & left))
                i = rng.pick(ready)
                left.remove(i)
                out.append(names[i])
            return ["extension", out]
        how = "as_written" if k == 0 else rng.pick(["reverse", "shuffle", "shuffle", "shuffle", "rotate", "adjacent",
                                                    "dependents_first", "hubs_last"])
        out = list(names)
        if how == "reverse":
            out.reverse()
        elif how == "shuffle":
            rng.shuffle(out)
        elif how == "rotate":
            cut = rng.randint(0, len(out))
            out = out[cut:] + out[:cut]
        elif how == "adjacent":
            for _ in range(rng.randint(1, len(out))):
                i = rng.randrange(max(1, len(out) - 1))
                out[i:i + 2] = reversed(out[i:i + 2])
        elif how == "dependents_first":
            deps = spell.dependencies(decls)
            by = sorted(range(len(decls)), key=lambda i: (-len(deps[i]), rng.random()))
            out = [names[i] for i in by]
        elif how == "hubs_last":
            deps = spell.dependencies(decls)
            used = collections.Counter(j for i in deps for j in deps[i])
            out = [names[i] for i in sorted(range(len(decls)), key=lambda i: (used[i], rng.random()))]
        return [how, out]

    # ------------------------------------------------------------ execute

    def execute(self, trace, ctx):
        root = os.path.join(ctx.workdir, "w")
        try:
            self.run(trace, ctx, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def run(self, trace, ctx, root):
        decls = trace["decls"]
        lang = trace["lang"]
        by_name = {d["n"]: d for d in decls}
        ext = {"isar": ".xml", "sack": ".hpp"}[lang]
        files = {"out": None}
        rules, shown = self.rules(trace, by_name)
        if rules:
            files["rules.txt"] = rules.encode()
        stems, orders = [], []
        for k, (how, names) in enumerate(trace["orders"]):
            names = [n for n in names if n in by_name]
            names += [d["n"] for d in decls if d["n"] not in names]
            body = [shown[n] for n in names]
            text = spell.to_isar(body, (), trace["messages"]) if lang == "isar" else spell.to_sack(body)
            files["p%d%s" % (k, ext)] = text.encode()
            stems.append("p%d" % k)
            orders.append((how, names))
            if how not in ("as_written", "extension"):
                ctx.fault("order_" + how)
        if rules:
            ctx.fault("patch", len(trace["patch"]))
        os.makedirs(root)
        self.compiler.write(root, files)
        options = ["--" + lang] + [x for o in trace["outs"] for x in ("--%s_out" % o, "out")]
        if rules:
            options += ["--patch", "rules.txt"]
        batches = [stems] if trace["together"] else [[s] for s in stems]
        results = {}
        size = sum(len(d) for d in files.values() if d)
        for batch in batches:
            outcome = self.compiler.run(root, [s + ext for s in batch] + options, steps=2000000 + 3000 * size)
            ctx.log("compile", batch, outcome.brief(), outcome.stderr)
            ctx.counts["invocations"] += 1
            ctx.simtime += outcome.steps * 1e-6
            ctx.maximum("steps_in_prophyc", outcome.steps)
            if outcome.kind != "ok":
                raise Violation("valid-input-refused", "%s\n%s" % (
                    self.describe(files, batch, ext), outcome.brief()))
            for s in batch:
                results[s] = (outcome.nodes or {}).get(s)
        expected = self.listed(lang, decls)
        for s, (how, names) in zip(stems, orders):
            where = self.describe(files, [s], ext)
            self.listing(lang, decls, expected, results[s], where, ctx)
            if "python" in trace["outs"]:
                self.module(trace, root, s, expected, where, ctx)
            ctx.counts["orderings"] += 1
            ctx.state(lang, self.shape(decls, names))
        self.same_text(files, root, stems, ext, ctx)
        self.same_sizes(files, stems, results, ext, decls, ctx)
        if trace["cxx"]:
            self.cxx(trace, root, stems, files, ext, ctx)
        ctx.order(lang, [names for _, names in orders])

    @staticmethod
    def rules(trace, by_name):
        """-> patch text, declarations as the file spells them"""
        shown = copy.deepcopy(by_name)
        lines = []
        for kind, owner, what, stand_in in trace["patch"]:
            if owner not in shown:
                continue
            if kind == "type":
                m = next((m for m in shown[owner]["m"] if m["n"] == what), None)
                if m and not m["a"]:
                    current = shown[owner]["n"]
                    lines.append("%s type %s %s" % (current, what, m["t"]))
                    m["t"] = stand_in
            elif shown[owner]["n"] == owner:
                shown[owner]["n"] = what
                lines.append("%s rename %s" % (what, owner))
        return "\n".join(lines), shown

    @staticmethod
    def listed(lang, decls):
        """Names the compiler must list."""
        if lang == "isar":
            return [d["n"] for d in decls]
        used = {r for d in decls for r in schema.references(d)}
        types = schema.Types(decls)
        structs = [d for d in decls if d["k"] == "struct"]
        reach, todo = set(), [d["n"] for d in structs]
        while todo:
            n = types.resolve(todo.pop())
            if n in reach or n not in types.by_name:
                continue
            reach.add(n)
            d = types.by_name[n]
            if d["k"] in ("struct", "union"):
                todo += [m["t"] for m in d["m"]]
        del used
        return [d["n"] for d in decls if d["k"] in ("struct", "enum") or (d["k"] == "union" and d["n"] in reach)]

    @staticmethod
    def listing(lang, decls, expected, nodes, where, ctx):
        """Every definition once and after everything it depends on."""
        if nodes is None:
            return
        got = [n.name for n in nodes]
        counts = collections.Counter(got)
        for name in expected:
            if counts[name] != 1:
                raise Violation("definition-not-once", "%s\n%s listed %d times: %s" % (where, name, counts[name], got))
        extra = sorted(set(got) - set(expected))
        if extra:
            raise Violation("definition-invented", "%s\n%s" % (where, extra))
        at = {n: i for i, n in enumerate(got)}
        deps = spell.dependencies(decls)
        types = schema.Types(decls)
        for i, d in enumerate(decls):
            for j in deps[i]:
                dep = decls[j]["n"]
                if lang == "sack":
                    dep = types.resolve(dep)
                if d["n"] in at and dep in at and at[dep] > at[d["n"]]:
                    raise Violation("order-broken", "%s\n%s comes before %s, which it uses: %s" % (where, d["n"], dep, got))
                ctx.counts["dependencies_checked"] += 1

    @staticmethod
    def module(trace, root, stem, expected, where, ctx):
        path = os.path.join(root, "out", stem + ".py")
        try:
            module = pynode.import_module(path)
        except Exception as e:
            with open(path) as f:
                text = f.read()
            raise Violation("module-does-not-import", "%s\n%s: %s\n%s" % (where, type(e).__name__, e, text))
        decls = trace["decls"]
        if trace["lang"] == "sack":
            types = schema.Types(decls)
            decls = copy.deepcopy([d for d in decls if d["n"] in expected])
            for d in decls:
                for m in d["m"] if d["k"] in ("struct", "union") else []:
                    m["t"] = types.resolve(m["t"])
        meaning.check(lambda n: getattr(module, n), decls, trace["vseed"], where, ctx)
        ctx.counts["modules_imported"] += 1

    def same_text(self, files, root, stems, ext, ctx):
        """Generated text differs only in the order of its lines."""
        outs = self.compiler.snapshot(os.path.join(root, "out"))
        first = {}
        for path in sorted(outs):
            stem, kind = path.split(".", 1)
            lines = collections.Counter(
                line.strip() for line in outs[path].decode().replace(stem, "p#").replace(stem.upper(), "P#").split("\n")
                if line.strip())
            if kind not in first:
                first[kind] = (stem, lines)
            elif first[kind][1] != lines:
                a, b = first[kind][1], lines
                raise Violation("output-depends-on-order", "%s\n.%s of %s has %s, of %s has %s" % (
                    self.describe(files, [first[kind][0], stem], ext), kind, first[kind][0], sorted((a - b).elements())[:6],
                    stem, sorted((b - a).elements())[:6]))
            ctx.counts["outputs_compared"] += 1

    def same_sizes(self, files, stems, results, ext, decls, ctx):
        lay = wire.Layout(schema.Types(decls))
        first = {}
        for s in stems:
            for node in results[s] or ():
                size = getattr(node, "byte_size", None)
                if size is None or node.name not in lay.types.by_name:
                    continue
                pair = (size, getattr(node, "alignment", None))
                if first.setdefault(node.name, pair) != pair:
                    raise Violation("layout-depends-on-order", "%s\n%s has size, alignment %s and %s" % (
                        self.describe(files, [stems[0], s], ext), node.name, first[node.name], pair))
                if lay.types.by_name[node.name]["k"] in ("struct", "union") and lay.types.kind(node.name) == schema.FIXED:
                    want = (lay.size(node.name), lay.align(node.name))
                    if pair != want:
                        raise Violation("layout-wrong", "%s\n%s has size, alignment %s, expected %s" % (
                            self.describe(files, [s], ext), node.name, pair, want))
                ctx.counts["sizes_compared"] += 1

    def cxx(self, trace, root, stems, files, ext, ctx):
        """The C++ front end accepts both headers and sources."""
        out = os.path.join(root, "out")
        stem = stems[-1]
        for name in (stem + ".pp.cpp", stem + ".ppf.cpp"):
            done = subprocess.run([cppnode.CXX, "-std=c++11", "-fsyntax-only", "-w", "-I", out, "-I",
                                   os.path.join(pynode.REPO, "prophy_cpp", "include"), os.path.join(out, name)],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if done.returncode:
                raise Violation("generated-cpp-refused", "%s\n%s" % (
                    self.describe(files, [stem], ext), done.stdout.decode("utf-8", "replace").replace(root, "<W>")[:2000]))
            ctx.counts["cpp_files_accepted"] += 1

    @staticmethod
    def describe(files, batch, ext):
        lines = []
        for s in batch:
            lines.append("--- %s%s\n%s" % (s, ext, files[s + ext].decode()))
        if "rules.txt" in files:
            lines.append("--- rules.txt\n%s" % files["rules.txt"].decode())
        return "\n".join(lines)

    @staticmethod
    def shape(decls, names):
        at = {n: i for i, n in enumerate(names)}
        deps = spell.dependencies(decls)
        index = {d["n"]: i for i, d in enumerate(decls)}
        return [(decls[index[n]]["k"], sorted((decls[j]["k"], at[decls[j]["n"]] > at[n]) for j in deps[index[n]]))
                for n in names]

    # ----------------------------------------------------------- simplify

    def simplify(self, trace):
        if trace["together"]:
            yield dict(trace, together=False)
        if len(trace["orders"]) > 1:
            for i in range(len(trace["orders"])):
                yield dict(trace, orders=trace["orders"][:i] + trace["orders"][i + 1:])
        if trace["cxx"]:
            yield dict(trace, cxx=False)
        if len(trace["outs"]) > 1:
            for o in trace["outs"]:
                yield dict(trace, outs=[x for x in trace["outs"] if x != o])
        for i in range(len(trace["patch"])):
            yield dict(trace, patch=trace["patch"][:i] + trace["patch"][i + 1:])
        for i in range(len(trace["messages"])):
            yield dict(trace, messages=trace["messages"][:i] + trace["messages"][i + 1:])
        for new in simpler_decls(trace["decls"]):
            yield dict(trace, decls=new)


def simpler_decls(decls):
    """Smaller schemas that are still complete."""
    deps = spell.dependencies(decls)
    needed = {j for i in deps for j in deps[i]}
    for i in range(len(decls) - 1, -1, -1):
        if i not in needed:
            yield decls[:i] + decls[i + 1:]
    for i, d in enumerate(decls):
        if d["k"] in ("struct", "union", "enum") and len(d["m"]) > 1:
            used = {r for x in decls for r in schema.references(x)}
            sizers = {m["a"][1] for m in d["m"] if d["k"] == "struct" and m["a"] and m["a"][0] == "ext"}
            for j in range(len(d["m"])):
                m = d["m"][j]
                if (d["k"] == "enum" and m[0] in used) or (d["k"] == "struct" and m["n"] in sizers):
                    continue
                yield decls[:i] + [dict(d, m=d["m"][:j] + d["m"][j + 1:])] + decls[i + 1:]
        if d["k"] == "const" and d.get("e"):
            yield decls[:i] + [dict(d, e=None)] + decls[i + 1:]
        if d["k"] in ("struct", "union"):
            for j, m in enumerate(d["m"]):
                simpler = []
                if m.get("ds"):
                    simpler.append(dict(m, ds=None))
                if m.get("a") and m["a"][0] in ("fix", "lim") and len(m["a"]) > 2:
                    simpler.append(dict(m, a=m["a"][:2]))
                if m.get("o"):
                    simpler.append(dict(m, o=False))
                if m.get("a") and m["a"][0] != "ext":
                    simpler.append(dict(m, a=None))
                if not re.match(r"[uir]\d", m["t"]):
                    simpler.append(dict(m, t="u8"))
                for s in simpler:
                    yield decls[:i] + [dict(d, m=d["m"][:j] + [s] + d["m"][j + 1:])] + decls[i + 1:]
        if d["k"] == "enum":
            for j, e in enumerate(d["m"]):
                if len(e) > 2:
                    yield decls[:i] + [dict(d, m=d["m"][:j] + [e[:2]] + d["m"][j + 1:])] + decls[i + 1:]
