"""C16: a schema spread over files is a system of parts that find each other by
include lines, search directories and a working directory. Every arrangement must
mean what the one concatenated file means; broken links must be reported."""
import collections
import os
import re
import shutil
import subprocess

from .. import compiler, cppnode, meaning, pynode, schema, spell
from ..kernel import Skip, Violation
from ..rng import Rng
from ..runner import BaseSim
from .c15 import OUTS, simpler_decls

EXT = {"prophy": ".prophy", "isar": ".xml", "sack": ".hpp"}
DIRS = ("", "a", "a/c", "b", "lib")
FAULTS = ("missing", "astray", "astray", "cycle", "self", "vanish", "EIO")


class Sim(BaseSim):
    runs = {"quick": 4000, "thorough": 60000}
    chunk = 20
    cpu_budget = 90
    rule = ("one state per distinct arrangement: include graph with the way each link is found (own directory, "
            "search directory, through other directories), number of files per invocation, fault and where it strikes")
    order_measure = "hash of (files per invocation in order, order in which the compiler opened them)"
    real = ["prophyc: all three parsers, file search and cache, model evaluation, all four generators",
            "generated Python packages and the prophy runtime", "g++ front end on generated C++ for a sample of runs"]
    stubs = ["the disk that loses a file between lookup and open"]
    assumptions = ["file names are unique identifiers, outputs of one schema share one directory",
                   "each file includes the files whose names it uses",
                   "sack headers carry include guards, so circles of them are legal C++ and not broken"]

    def open(self, root):
        self.compiler = compiler.Compiler()

    # ----------------------------------------------------------- generate

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        lang = rng.pick(["prophy"] * 12 + ["isar"] * 6 + ["mixed"] * 2 + ["sack"])
        cxx = lang != "sack" and rng.chance(0.025)
        full = cxx or rng.chance(0.5)
        knobs = dict(n_structs=rng.randint(1, 7), n_unions=rng.randint(0, 3), n_typedefs=rng.randint(0, 4),
                     n_enums=rng.randint(0, 4), p_nested=rng.pick([0.2, 0.5, 0.8]), max_members=rng.pick([1, 2, 3, 5]))
        decls = schema.generate(rng, cpp=full, **knobs)
        density = rng.pick([0, 0.3, 0.6, 0.9])
        below = 1 << 24 if cxx else 1 << 64
        if lang == "prophy":
            decls = spell.decorate(rng, decls, "prophy", density, below)
        elif lang == "isar":
            decls = spell.decorate(rng, spell.isar_ready(decls), "isar", density, below)
        else:
            decls = spell.sack_ready(decls)
        trace = {"lang": lang, "vseed": rng.getrandbits(32), "cxx": cxx, "decls": decls}
        files = spell.split(rng, decls, rng.pick([2, 3, 4, 5, 8]))
        if lang == "mixed":
            files = self.mixed(decls, files)
        naming = rng.pick(["plain", "plain", "decl", "mixed_case"])
        names = {}
        for k, (stem, group, includes) in enumerate(files):
            names[stem] = {"plain": stem, "decl": decls[group[0]]["n"], "mixed_case": "Part_%d_x" % k}[naming]
        flat = rng.chance(0.25)
        dirs = [""] if flat else rng.sample(DIRS, rng.randint(1, len(DIRS)))
        trace["cwd"] = rng.pick(["", "", "a", "b", "elsewhere", "elsewhere/deep"])
        trace["files"] = []
        search = [] if rng.chance(0.3) else rng.sample(DIRS, rng.randint(0, 3))
        for stem, group, includes in files:
            trace["files"].append({"stem": names[stem], "dir": rng.pick(dirs), "decls": [decls[i]["n"] for i in group],
                                   "includes": [], "lazy": rng.chance(0.3)})
        place = {f["stem"]: f["dir"] for f in trace["files"]}
        for f, (stem, group, includes) in zip(trace["files"], files):
            for other in includes:
                how = rng.pick(["own", "search", "search"])
                root = f["dir"]
                if how == "search":
                    near = [d for d in search if within(place[names[other]], d)]
                    root = rng.pick(near or search or [place[names[other]]])
                    if root not in search:
                        search.append(root)
                f["includes"].append([names[other], root if how == "search" else None, rng.chance(0.1)])
            if f["includes"] and rng.chance(0.06):
                f["includes"].append(list(rng.pick(f["includes"])))
        rng.shuffle(search)
        trace["search"] = [[d, rng.pick(["relative", "absolute", "slash", "joined", "dot"])] for d in search]
        self.invocations(rng, trace)
        trace["outs"] = sorted(OUTS) if cxx else sorted(rng.sample(OUTS, rng.randint(1, 4)))
        if not full:
            trace["outs"] = [o for o in trace["outs"] if o != "cpp_full"] or ["python"]
        self.detours(rng, trace)
        trace["fault"] = self.fault(rng, trace) if rng.chance(0.25) else None
        return trace

    @staticmethod
    def detours(rng, trace):
        """A symbolic link to one of the directories, and files of the same name
        in places the search must not reach."""
        used = sorted({f["dir"] for f in trace["files"] if f["dir"]})
        trace["link"] = rng.pick(used) if used and rng.chance(0.1) else None
        if trace["link"] and rng.chance(0.4):
            trace["search"].insert(rng.randint(0, len(trace["search"])), ["ln", "relative"])
        for f in trace["files"]:
            for edge in f["includes"]:
                edge.append(bool(trace["link"]) and rng.chance(0.5))
        trace["decoys"] = []
        if trace["files"][-1]["includes"] and rng.chance(0.2):
            for _ in range(rng.randint(1, 3)):
                f = rng.pick(trace["files"])
                trace["decoys"].append([f["stem"], rng.pick(DIRS)])
        # where a search in the wrong order would look
        dirs = [d for d, _ in trace["search"]]
        for f in trace["files"]:
            for stem, via, dotted, linked in f["includes"]:
                if dirs and not linked and rng.chance(0.15):
                    place = next(x["dir"] for x in trace["files"] if x["stem"] == stem)
                    text = os.path.relpath(os.path.join(place, "x"), (f["dir"] if via is None else via) or ".")
                    there = os.path.normpath(os.path.join(rng.pick(dirs), text))
                    if not there.startswith(".."):
                        trace["decoys"].append([stem, os.path.dirname(there)])

    @staticmethod
    def mixed(decls, files):
        """isar parts and one sack header on top of them"""
        structs = [k for k, (stem, group, inc) in enumerate(files) if any(decls[i]["k"] == "struct" for i in group)]
        used = {s for _, _, inc in files for s in inc}
        tops = [k for k in structs if files[k][0] not in used]
        top = tops[-1] if tops else None
        return [f for k, f in enumerate(files) if k != top] + ([files[top]] if top is not None else [])

    @staticmethod
    def invocations(rng, trace):
        stems = [f["stem"] for f in trace["files"]]
        style = rng.pick(["all", "all", "each", "groups", "some_twice"])
        order = list(stems)
        if rng.chance(0.6):
            rng.shuffle(order)
        if style == "all":
            calls = [order]
        elif style == "each":
            calls = [[s] for s in order]
        else:
            calls, rest = [], list(order)
            while rest:
                n = rng.randint(1, len(rest))
                calls.append(rest[:n])
                rest = rest[n:]
            if style == "some_twice":
                calls.append([rng.pick(stems) for _ in range(rng.randint(1, 3))])
        trace["calls"] = [[[s, rng.pick(["relative", "absolute", "dot"])] for s in c] for c in calls]

    @staticmethod
    def fault(rng, trace):
        lang, files = trace["lang"], trace["files"]
        edges = [(f["stem"], i[0]) for f in files for i in f["includes"]]
        kind = rng.pick(FAULTS if lang in ("prophy", "isar") else ["missing", "astray"] if lang == "sack" else ["missing"])
        if kind == "astray":
            # a neighbour of the file uses its bare name, or includes the one that strays
            searched = {trace["link"] if d == "ln" else d for d, _ in trace["search"]}
            apart = [d for d in DIRS if d not in searched and d != trace["link"]]
            cases = [(at, to, h) for h in files for i in h["includes"] for at in files for to in files
                     if i[0] in (at["stem"], to["stem"]) and at is not to and at is not h and to is not h]
            if not apart or not cases:
                return None
            at, to, h = rng.pick(cases)
            h["dir"] = to["dir"] = rng.pick(apart)
            at["dir"] = rng.pick([d for d in DIRS if d != to["dir"]])
            for i in h["includes"]:
                if i[0] == to["stem"] and rng.chance(0.8):
                    i[1:] = [None, False, False]
            if in_reach(trace, at, to):
                return None
            at, to = at["stem"], to["stem"]
            return {"kind": kind, "at": at, "to": to}
        if kind in ("missing", "vanish", "EIO"):
            if not edges or (kind != "missing" and lang == "sack"):
                return None
            return {"kind": kind, "at": rng.pick(edges)[1]}
        if kind == "self":
            return {"kind": kind, "at": rng.pick(files)["stem"]}
        pairs = [(a, b) for a in closure_map(files) for b in closure_map(files)[a] if a != b]
        if not pairs:
            return None
        above, below = rng.pick(sorted(pairs))
        return {"kind": "cycle", "at": below, "to": above}

    # ------------------------------------------------------------ execute

    def execute(self, trace, ctx):
        root = os.path.join(ctx.workdir, "w")
        try:
            self.run(trace, ctx, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def language(self, trace, k):
        if trace["lang"] != "mixed":
            return trace["lang"]
        return "sack" if k == len(trace["files"]) - 1 and len(trace["files"]) > 1 else "isar"

    def run(self, trace, ctx, root):
        decls, files = trace["decls"], trace["files"]
        by_name = {d["n"]: d for d in decls}
        lang = {f["stem"]: self.language(trace, k) for k, f in enumerate(files)}
        path = {f["stem"]: os.path.join(f["dir"], f["stem"] + EXT[lang[f["stem"]]]) for f in files}
        fault = trace["fault"]
        if fault and fault["kind"] == "astray":
            at, to = [next((f for f in files if f["stem"] == fault[k]), None) for k in ("at", "to")]
            if not at or not to or in_reach(trace, at, to):
                raise Skip("the file is within reach")
        disk = {"out": None, "whole": None}
        for d in DIRS + (trace["cwd"],):
            disk[os.path.join(d, "keep")] = b""
        for f in files:
            disk[path[f["stem"]]] = self.text(trace, f, lang, path, by_name).encode()
        for name in self.decoys(trace, path, lang, disk):
            disk[name] = {".prophy": b"const DECOY = 1;\n", ".xml": b"<x><constant name=\"DECOY\" value=\"1\"/></x>",
                          ".hpp": b"struct DECOY { int x; };\n"}[os.path.splitext(name)[1]]
            ctx.fault("decoy")
        missing = None
        if fault and fault["kind"] == "missing":
            missing = fault["at"]
            disk.pop(path[missing])
        os.makedirs(root)
        self.compiler.write(root, disk)
        if trace["link"]:
            os.symlink(trace["link"], os.path.join(root, "ln"))
            ctx.fault("symlink")
        show = lambda: self.describe(disk, trace)  # noqa: E731

        reach = closure_map(files)
        if fault and fault["kind"] == "cycle":
            reach = closure_map(files, (fault["at"], fault["to"]))
        size = sum(len(d) for d in disk.values() if d)
        seen = {}
        for call in self.calls(trace, lang):
            stems = [s for s, _ in call]
            if missing in stems and lang[missing] != "isar" and trace["lang"] == "mixed":
                continue
            call = [c for c in call if c[0] != missing]
            if not call:
                continue
            touched = set(s for s, _ in call).union(*[reach[s] for s, _ in call])
            if trace["lang"] == "mixed":
                touched |= {f["stem"] for k, f in enumerate(files[:-1])}
                touched |= set().union(*[reach[s] for s in sorted(touched)])
            struck = bool(fault) and fault["at"] in touched
            faults = []
            if struck and fault["kind"] in ("vanish", "EIO"):
                faults = [{"path": path[fault["at"]], "kind": fault["kind"]}]
            argv = self.argv(trace, root, call, path, lang)
            outcome = self.compiler.run(root, argv, cwd=trace["cwd"], faults=faults, steps=4000000 + 4000 * size)
            ctx.log("compile", argv, outcome.brief(), outcome.stderr, outcome.opens)
            ctx.counts["invocations"] += 1
            ctx.simtime += outcome.steps * 1e-6
            ctx.order(stems, [o for o in outcome.opens if o[1] == "r"])
            if struck:
                ctx.fault(fault["kind"] + "_" + trace["lang"])
                self.reported(trace, fault, outcome, lang, path, argv, show, ctx)
                if fault["kind"] == "vanish":
                    self.compiler.write(root, disk)
                continue
            if outcome.kind != "ok":
                raise Violation("valid-split-refused", "%s\nprophyc %s\n%s" % (show(), " ".join(argv), outcome.brief()))
            if outcome.stderr:
                raise Violation("valid-split-warned", "%s\nprophyc %s\n%s" % (show(), " ".join(argv), outcome.stderr))
            self.once(outcome, [path[s] for s in sorted(touched)], trace, argv, show, ctx)
            for s in stems:
                seen[s] = (outcome.nodes or {}).get(s)
        ctx.state(trace["lang"], self.shape(trace), len(trace["calls"]), fault and [fault["kind"]])
        if fault:
            return
        whole = self.whole(trace, root, decls, ctx)
        if "python" in trace["outs"]:
            self.packages(trace, root, lang, show, ctx)
        if trace["lang"] in ("prophy", "isar"):
            self.same_layouts(seen, whole, show, ctx)
            self.same_text(root, files, show, ctx)
        if trace["cxx"]:
            self.cxx(root, files, lang, trace, show, ctx)

    def calls(self, trace, lang):
        if trace["lang"] == "mixed" and len(trace["files"]) > 1:
            # the header is the input, the parts below are given as isar includes
            return [[c] for call in trace["calls"] for c in call if lang[c[0]] == "sack"]
        return trace["calls"]

    # -------------------------------------------------------------- files

    def text(self, trace, f, lang, path, by_name):
        mine = lang[f["stem"]]
        body = [by_name[n] for n in f["decls"] if n in by_name]
        lines = []
        for edge in f["includes"]:
            if mine == "sack" and lang[edge[0]] == "isar":
                continue
            lines.append((edge[0], self.spelled(trace, f, edge, path)))
        fault = trace["fault"]
        if fault and fault["at"] == f["stem"]:
            if fault["kind"] == "self":
                lines.append((f["stem"], f["stem"] + EXT[mine]))
            elif fault["kind"] == "astray":
                lines.append((fault["to"], fault["to"] + EXT[mine]))
            elif fault["kind"] == "cycle":
                lines.append((fault["to"], os.path.relpath(path[fault["to"]], f["dir"] or ".")))
        if mine == "isar":
            return spell.to_isar(body, [s for _, s in lines])
        if mine == "sack":
            return "#pragma once\n" + spell.to_sack(body, [s for _, s in lines])
        if not f["lazy"]:
            return "".join('#include "%s"\n' % s for _, s in lines) + schema.to_prophy(body)
        # includes as late as possible
        owner = {n: x["stem"] for x in trace["files"] for n in x["decls"]}
        symbols = {e[0]: d["n"] for d in by_name.values() if d["k"] == "enum" for e in d["m"]}
        out, left = [], list(lines)
        for d in body:
            need = {owner.get(symbols.get(r, r)) for r in schema.references(d)}
            for line in list(left):
                if line[0] in need:
                    out.append('#include "%s"\n' % line[1])
                    left.remove(line)
            out.append(schema.decl_text(d))
        return "".join(out) + "".join('#include "%s"\n' % s for _, s in left)

    @staticmethod
    def spelled(trace, f, edge, path):
        stem, via, dotted, linked = edge
        target, start = path[stem], (f["dir"] if via is None else via)
        link = trace["link"]
        if linked and link and within(os.path.dirname(target), link) and not within(start, link):
            target = "ln" + target[len(link):]
        text = os.path.relpath(target, start or ".")
        return "./" + text if dotted else text

    def decoys(self, trace, path, lang, disk):
        """Those that every include line leaves aside: the own directory comes
        first, then the search directories in their order."""
        out = []
        if trace["link"] or trace["lang"] in ("sack", "mixed"):
            return out
        for stem, where in trace["decoys"]:
            name = os.path.join(where, stem + EXT[lang[stem]]) if stem in path else None
            if name is None or name in disk or (trace["fault"] and trace["fault"]["kind"] in ("missing", "astray")):
                continue
            there = set(path.values()) | set(out) | {name}
            reached = set()
            for f in trace["files"]:
                for edge in f["includes"]:
                    text = self.spelled(trace, f, edge, path)
                    tries = [os.path.normpath(os.path.join(d, text)) for d in [f["dir"]] + [d for d, _ in trace["search"]]]
                    reached.add((edge[0], next((t for t in tries if t in there), None)))
            if all(path[s] == found for s, found in reached):
                out.append(name)
        return out

    def argv(self, trace, root, call, path, lang):
        cwd = trace["cwd"] or "."
        argv = []

        def spelled(rel, how):
            if how == "absolute":
                return "<W>/" + rel if rel else "<W>"
            out = os.path.relpath(rel or ".", cwd)
            return "./" + out if how == "dot" else out

        if trace["lang"] != "prophy":
            argv.append("--sack" if trace["lang"] == "sack" or any(lang[s] == "sack" for s, _ in call) else "--isar")
        for d, how in trace["search"]:
            text = spelled(d, how) + ("/" if how == "slash" else "")
            argv += ["-I" + text] if how == "joined" else ["-I", text]
        if trace["lang"] == "mixed" and len(trace["files"]) > 1:
            for f in trace["files"][:-1]:
                argv += ["--include_isar", spelled(path[f["stem"]], "relative")]
        argv += [spelled(path[s], how) for s, how in call]
        out = spelled("out", "relative")
        for o in trace["outs"]:
            argv += ["--%s_out" % o, out]
        return argv

    # ------------------------------------------------------------- oracles

    @staticmethod
    def reported(trace, fault, outcome, lang, path, argv, show, ctx):
        where = "%s\nprophyc %s\n%s\n%s" % (show(), " ".join(argv), outcome.brief(), outcome.stderr)
        if outcome.kind in ("internal", "hang"):
            raise Violation("include-fault-crashes", where)
        if outcome.kind == "ok":
            at = lang[fault["at"]]
            if at == "isar" and fault["kind"] in ("missing", "astray", "cycle", "self"):
                if "warning" in outcome.stderr:
                    raise Violation("include-fault-accepted", where, "isar-include-fault-only-warned")
            raise Violation("include-fault-accepted", where)
        circle = {fault["to"] if fault["kind"] == "astray" else fault["at"]}
        if fault["kind"] == "cycle":
            reach = closure_map(trace["files"], (fault["at"], fault["to"]))
            circle = {s for s in reach if fault["at"] in reach[s] and s in reach[fault["at"]]}
        text = outcome.message + outcome.stderr
        if fault["kind"] in ("missing", "astray", "cycle", "self") and not any(s in text for s in circle):
            raise Violation("include-fault-not-named", where)
        ctx.counts["broken_links_reported"] += 1

    @staticmethod
    def once(outcome, paths, trace, argv, show, ctx):
        """Each file processed once: read again and its definitions made again."""
        reads = collections.Counter(p for p, mode in outcome.opens if mode == "r")
        made = collections.defaultdict(set)

        def walk(stem, nodes, visited):
            for n in nodes or ():
                members = getattr(n, "members", None)
                if type(n).__name__ == "Include":
                    if id(n.members) not in visited:
                        visited.add(id(n.members))
                        walk(os.path.basename(n.name), n.members, visited)
                else:
                    made[stem, n.name].add(id(n))
                del members

        visited = set()
        for stem, nodes in (outcome.nodes or {}).items():
            walk(os.path.basename(stem), nodes, visited)
        again = {stem for (stem, name), ids in made.items() if len(ids) > 1}
        for p in paths:
            stem = os.path.splitext(os.path.basename(p))[0]
            if reads[p] > 1 and stem in again:
                raise Violation("file-processed-twice", "%s\nprophyc %s\n%s read %d times" % (
                    show(), " ".join(argv), p, reads[p]))
            ctx.counts["files_processed"] += 1

    def whole(self, trace, root, decls, ctx):
        """The concatenated file."""
        lang = {"mixed": "sack"}.get(trace["lang"], trace["lang"])
        order = [n for f in trace["files"] for n in f["decls"]]
        by_name = {d["n"]: d for d in decls}
        body = [by_name[n] for n in order if n in by_name]
        text = {"prophy": schema.to_prophy, "isar": spell.to_isar, "sack": spell.to_sack}[lang](body)
        self.compiler.write(root, {"whole/whole" + EXT[lang]: text.encode()})
        argv = ["whole" + EXT[lang]] + ([] if lang == "prophy" else ["--" + lang])
        for o in trace["outs"]:
            argv += ["--%s_out" % o, "."]
        outcome = self.compiler.run(root, argv, cwd="whole", steps=4000000 + 8000 * len(text))
        ctx.log("whole", outcome.brief(), outcome.stderr)
        if outcome.kind != "ok":
            raise Violation("valid-input-refused", "%s\n%s" % (text, outcome.brief()))
        if "python" in trace["outs"] and trace["lang"] in ("prophy", "isar"):
            try:
                module = pynode.import_module(os.path.join(root, "whole", "whole.py"))
            except Exception as e:
                raise Violation("module-does-not-import", "%s\n%s: %s" % (text, type(e).__name__, e))
            meaning.check(lambda n: getattr(module, n), decls, trace["vseed"], text, ctx)
        return (outcome.nodes or {}).get("whole")

    def packages(self, trace, root, lang, show, ctx):
        out = os.path.join(root, "out")
        with open(os.path.join(out, "__init__.py"), "w"):
            pass
        files = trace["files"]
        with pynode.Package(out) as package:
            modules = {}
            for f in files:
                if lang[f["stem"]] == "sack" and f is not files[-1]:
                    continue
                try:
                    modules[f["stem"]] = package.load(f["stem"])
                except Exception as e:
                    path = os.path.join(out, f["stem"] + ".py")
                    text = open(path).read() if os.path.isfile(path) else "no such file"
                    raise Violation("module-does-not-import", "%s\n%s: %s: %s\n%s" % (
                        show(), f["stem"], type(e).__name__, e, text))
                ctx.counts["modules_imported"] += 1
            home = {n: f["stem"] for f in files for n in f["decls"]}
            for d in trace["decls"]:
                if d["k"] == "enum":
                    home.update((e[0], home[d["n"]]) for e in d["m"])
            decls = trace["decls"]
            if any(x == "sack" for x in lang.values()):
                decls, home = self.sack_view(trace, lang, home)
            meaning.check(lambda n: getattr(modules[home[n]], n), decls, trace["vseed"], show(), ctx)

    @staticmethod
    def sack_view(trace, lang, home):
        """Sack knows no typedefs and lists only unions that structs use; its
        output holds everything the header and its includes define."""
        from .c15 import Sim as Orders
        import copy
        top = trace["files"][-1]["stem"]
        decls = copy.deepcopy(trace["decls"])
        types = schema.Types(trace["decls"])
        sack = [d for d in decls if lang[home[d["n"]]] == "sack"]
        if trace["lang"] == "sack":
            reach = closure_map(trace["files"])[top] | {top}
            sack = [d for d in sack if home[d["n"]] in reach]
        listed = set(Orders.listed("sack", sack))
        keep = [d for d in decls if lang[home[d["n"]]] != "sack" or d["n"] in listed]
        for d in keep:
            if d["n"] in listed:
                home[d["n"]] = top
                for e in d["m"] if d["k"] == "enum" else []:
                    home[e[0]] = top
        names = {d["n"] for d in keep}
        for d in keep:
            for m in d["m"] if d["k"] in ("struct", "union") else []:
                if m["t"] not in names:
                    m["t"] = types.resolve(m["t"])
        return keep, home

    @staticmethod
    def same_layouts(seen, whole, show, ctx):
        def facts(n):
            out = [getattr(n, "byte_size", None), getattr(n, "alignment", None), getattr(n, "kind", None)]
            for m in getattr(n, "members", None) or () if type(n).__name__ in ("Struct", "Union") else ():
                out.append((m.name, m.byte_size, m.alignment, getattr(m, "numeric_size", None), getattr(m, "padding", None)))
            return out

        expected = {n.name: n for n in whole or ()}
        for stem in sorted(seen):
            for n in seen[stem] or ():
                if type(n).__name__ == "Include":
                    continue
                if n.name not in expected:
                    raise Violation("definition-invented", "%s\n%s in %s" % (show(), n.name, stem))
                if facts(n) != facts(expected[n.name]):
                    raise Violation("layout-differs-from-whole", "%s\n%s in %s: %s, in the whole file: %s" % (
                        show(), n.name, stem, facts(n), facts(expected[n.name])))
                ctx.counts["layouts_compared"] += 1

    def same_text(self, root, files, show, ctx):
        """The parts' definitions read like those of the whole file."""
        outs = self.compiler.snapshot(os.path.join(root, "out"))
        whole = self.compiler.snapshot(os.path.join(root, "whole"))
        stems = sorted((f["stem"] for f in files), key=len, reverse=True)
        for ext in sorted(x[len("whole"):] for x in whole if x.startswith("whole.") and not x.endswith((".xml"))):
            if "whole" + ext not in whole or f"{stems[0]}{ext}" not in outs:
                continue
            parts = collections.Counter()
            for s in stems:
                parts.update(definition_lines(outs[s + ext].decode(), ext))
            one = collections.Counter(definition_lines(whole["whole" + ext].decode(), ext))
            if parts != one:
                # headers and footers repeat with every file
                extra, lost = set(parts) - set(one), set(one) - set(parts)
                fewer = {x for x in one if one[x] > parts[x]}
                if extra or lost or fewer:
                    raise Violation("text-differs-from-whole", "%s\nin %s only in the parts: %s\nonly in the whole: %s" % (
                        show(), ext, sorted(extra)[:6], sorted(lost | fewer)[:6]))
            ctx.counts["outputs_compared"] += 1

    def cxx(self, root, files, lang, trace, show, ctx):
        out = os.path.join(root, "out")
        tops = [f["stem"] for f in files]
        for stem in tops:
            for name in (stem + ".pp.cpp", stem + ".ppf.cpp"):
                if not os.path.isfile(os.path.join(out, name)):
                    continue
                done = subprocess.run([cppnode.CXX, "-std=c++11", "-fsyntax-only", "-w", "-I", out, "-I",
                                       os.path.join(pynode.REPO, "prophy_cpp", "include"), os.path.join(out, name)],
                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                if done.returncode:
                    raise Violation("generated-cpp-refused", "%s\n%s" % (
                        show(), done.stdout.decode("utf-8", "replace").replace(root, "<W>")[:2000]))
                ctx.counts["cpp_files_accepted"] += 1

    @staticmethod
    def describe(disk, trace):
        lines = []
        for p in sorted(disk):
            if disk[p]:
                lines.append("--- %s\n%s" % (p, disk[p].decode()))
        return "\n".join(lines) + "\ncwd <W>/%s fault %s" % (trace["cwd"], trace["fault"])

    @staticmethod
    def shape(trace):
        index = {f["stem"]: k for k, f in enumerate(trace["files"])}
        out = []
        for f in trace["files"]:
            place = {x["stem"]: x["dir"] for x in trace["files"]}
            out.append(sorted((index[s], "own" if via is None else "search", f["dir"] == place[s])
                              for s, via, _, _ in f["includes"]))
        return out

    # ----------------------------------------------------------- simplify

    def simplify(self, trace):
        if len(trace["calls"]) > 1:
            for i in range(len(trace["calls"])):
                yield dict(trace, calls=trace["calls"][:i] + trace["calls"][i + 1:])
        if trace["cxx"]:
            yield dict(trace, cxx=False)
        if len(trace["outs"]) > 1:
            for o in trace["outs"]:
                yield dict(trace, outs=[x for x in trace["outs"] if x != o])
        if trace["cwd"]:
            yield dict(trace, cwd="")
        if trace["link"]:
            yield dict(trace, link=None, search=[x for x in trace["search"] if x[0] != "ln"])
        for i in range(len(trace["decoys"])):
            yield dict(trace, decoys=trace["decoys"][:i] + trace["decoys"][i + 1:])
        for new in simpler_decls(trace["decls"]):
            yield self.fit(dict(trace, decls=new))
        for k, f in enumerate(trace["files"]):
            for simple in ({"dir": ""}, {"lazy": False}):
                if any(f[key] != v for key, v in simple.items()):
                    yield dict(trace, files=trace["files"][:k] + [dict(f, **simple)] + trace["files"][k + 1:])
            needed = self.needed(trace, f)
            for i, inc in enumerate(f["includes"]):
                again = [x[0] for x in f["includes"]].count(inc[0]) > 1
                if again or inc[0] not in needed:
                    shorter = dict(f, includes=f["includes"][:i] + f["includes"][i + 1:])
                    yield dict(trace, files=trace["files"][:k] + [shorter] + trace["files"][k + 1:])
                if inc[1] is not None or inc[2] or inc[3]:
                    plain = dict(f, includes=f["includes"][:i] + [[inc[0], None, False, False]] + f["includes"][i + 1:])
                    yield dict(trace, files=trace["files"][:k] + [plain] + trace["files"][k + 1:])
        used = {i[1] for f in trace["files"] for i in f["includes"]}
        for i, (d, how) in enumerate(trace["search"]):
            if d not in used:
                yield dict(trace, search=trace["search"][:i] + trace["search"][i + 1:])

    @staticmethod
    def needed(trace, f):
        owner = {n: x["stem"] for x in trace["files"] for n in x["decls"]}
        by_name = {d["n"]: d for d in trace["decls"]}
        symbols = {e[0]: d["n"] for d in trace["decls"] if d["k"] == "enum" for e in d["m"]}
        return {owner.get(symbols.get(r, r)) for n in f["decls"] if n in by_name for r in schema.references(by_name[n])}

    def fit(self, trace):
        """Drop files that lost all their declarations."""
        names = {d["n"] for d in trace["decls"]}
        gone = {f["stem"] for f in trace["files"] if not any(n in names for n in f["decls"])}
        fault = trace["fault"]
        if fault:
            gone -= {fault["at"], fault.get("to")}
        gone -= {i[0] for f in trace["files"] if f["stem"] not in gone for i in f["includes"] if i[0] in self.needed(trace, f)}
        files = [dict(f, decls=[n for n in f["decls"] if n in names], includes=[i for i in f["includes"] if i[0] not in gone])
                 for f in trace["files"] if f["stem"] not in gone]
        calls = [[c for c in call if c[0] not in gone] for call in trace["calls"]]
        return dict(trace, files=files, calls=[c for c in calls if c])


def in_reach(trace, f, g):
    """Whether the bare name of file g means something in file f."""
    places = {f["dir"]} | {trace["link"] if d == "ln" else d for d, _ in trace["search"]}
    return g["dir"] in places


def within(path, directory):
    return not directory or path == directory or path.startswith(directory + "/")


def closure_map(files, extra=None):
    direct = {f["stem"]: [i[0] for i in f["includes"]] for f in files}
    if extra:
        direct[extra[0]] = direct[extra[0]] + [extra[1]]
    out = {}
    for s in direct:
        seen, todo = set(), list(direct[s])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += direct.get(x, [])
        out[s] = seen
    return out


def definition_lines(text, ext):
    """Lines without includes, imports, guards and comments."""
    if ext == ".py":
        text = re.sub(r"(?m)^if sys\.version_info.*\n(?:^[ \t].*\n|^else:\n)*", "", text)
    text = re.sub(r"(?m)^\s*(#|//|/\*).*$", "", text)
    return [line.strip() for line in text.split("\n") if line.strip() and "PROPHY_GENERATED" not in line]
