"""C13: the compiler on damaged inputs and failing storage."""
import copy
import os
import re
import shutil
import subprocess
import sys

from .. import compiler, damage, pynode, schema, spell
from ..kernel import Violation
from ..rng import Rng
from ..runner import BaseSim

OUTS = ("python", "cpp", "cpp_full", "prophy")
IO_ERRORS = ("EIO", "EACCES", "ENOENT", "EMFILE", "ENOSPC", "EISDIR")
MARK = "NOPE"
LOCATION = re.compile(r"(?:^|error: )([^\n:]+):(\d+):(\d+): error: (.+)", re.M)


def pack(data):
    try:
        text = data.decode("utf-8")
        if "\r" not in text:
            return text
    except UnicodeDecodeError:
        pass
    return {"hex": data.hex()}


def unpack(value):
    if value is None:
        return None
    return bytes.fromhex(value["hex"]) if isinstance(value, dict) else value.encode("utf-8")

# status 3: the designed error; 1: any other exception
PLAIN_MAIN = """import sys, prophyc
try:
    prophyc.main(sys.argv[1:])
except Exception as e:
    if not isinstance(e, prophyc.ProphycError) and not (type(e) is Exception and "-p" in str(sys.argv)):
        raise
    sys.stderr.write(str(e))
    sys.exit(3)
"""


class Sim(BaseSim):
    runs = {"quick": 1500, "thorough": 26000}
    chunk = 20
    cpu_budget = 90
    rule = ("one state per distinct (input language, kinds of damage, kinds of I/O fault, kind of outcome, error text "
            "with names and numbers blanked)")
    order_measure = "hash of the ordered (language, damage kinds, fault kinds, outcome) sequence of invocations in a run"
    real = ["prophyc: options, file processor, prophy, isar and sack parsers, patch, calc, model, all four generators",
            "the scratch filesystem", "python -m prophyc in a real process for a sample of invocations"]
    stubs = ["editors and disks: damaged input files", "I/O errors raised at the interpreter's open audit event",
             "full disk: limit on the size of files"]
    assumptions = ["bounded time is a bound on function entries and jumps inside prophyc, "
                   "2,000,000 + 3,000 per input byte, with a CPU limit behind it",
                   "base names of input files given together are distinct",
                   "an error of the operating system may surface as OSError when a fault was injected"]

    def open(self, root):
        self.compiler = compiler.Compiler()

    # ----------------------------------------------------------- generate

    def generate(self, seed, index, tier):
        rng = Rng(seed)
        decls = schema.generate(rng, n_structs=rng.randint(1, 4), n_enums=rng.randint(0, 2), n_unions=rng.randint(0, 1),
                                n_typedefs=rng.randint(0, 2))
        lang = rng.weighted([(5, "prophy"), (4, "isar"), (0.5, "sack")])
        steps = []
        for _ in range(rng.randint(8, 16)):
            steps.append(self.invocation(rng, decls, lang))
        return {"steps": steps}

    def project(self, rng, decls, lang):
        """-> files {path: text}, inputs [path], include dirs"""
        if lang == "isar":
            base = spell.decorate(rng, spell.isar_ready(decls), "isar", rng.pick([0, 0.3, 0.6]))
        elif lang == "sack":
            base = spell.sack_ready(decls)
        else:
            base = spell.decorate(rng, decls, "prophy", rng.pick([0, 0.3, 0.6]))
        ext = {"prophy": ".prophy", "isar": ".xml", "sack": ".hpp"}[lang]
        parts = spell.split(rng, base, rng.pick([1, 1, 2, 3]))
        files, inputs = {}, []
        dirs = {stem: rng.pick(["", "", "inc/"]) for stem, _, _ in parts}
        for stem, members, includes in parts:
            if lang == "isar":
                members = rng.sample(members, len(members))
            body = [base[i] for i in members]
            paths = [i + ext for i in includes]
            path = dirs[stem] + stem + ext
            if lang == "isar":
                files[path] = spell.to_isar(body, paths)
            elif lang == "sack":
                files[path] = spell.to_sack(body, paths)
            else:
                files[path] = "".join('#include "%s"\n' % p for p in paths) + schema.to_prophy(body)
            inputs.append(path)
        if rng.chance(0.5):
            inputs = inputs[-1:]
        else:
            rng.shuffle(inputs)
        return base, files, inputs

    def invocation(self, rng, decls, lang):
        base, files, inputs = self.project(rng, decls, lang)
        kinds = []
        files = {p: t.encode() for p, t in files.items()}
        files["out"] = None
        files["inc"] = None
        argv = list(inputs)
        if lang != "prophy":
            argv.append("--" + lang)
        argv += ["-I", "inc"] if rng.chance(0.9) else []
        argv += ["-I", "."] if rng.chance(0.9) else []
        outs = [o for o in OUTS if rng.chance(0.6)]
        for o in outs:
            argv += ["--%s_out" % o, "out"]
        if rng.chance(0.1) or (not outs and rng.chance(0.9)):
            argv.append("--void_out")
        if rng.chance(0.1):
            argv.append("--quiet")
        roll = rng.random()
        io = []
        if lang != "sack" and rng.chance(0.02):
            kinds.append(rng.pick(["long_chain", "dense"]))
            files[rng.pick(inputs)] = getattr(damage, kinds[-1])(rng, lang).encode()
        elif lang == "sack" and roll < 0.6:
            self.hurt_sack(rng, files, kinds)
        elif lang != "sack" and roll < 0.72:
            for _ in range(rng.pick([1, 1, 1, 2, 3])):
                self.hurt(rng, files, inputs, lang, kinds)
        elif roll < 0.87 and outs:
            io = self.io_faults(rng, files, inputs, outs)
        if lang != "prophy" and rng.chance(0.3) or rng.chance(0.05):
            files["rules.txt"] = damage.patch_text(rng, base).encode()
            if rng.chance(0.1):
                files["rules.txt"], what = damage.byte_damage(rng, files["rules.txt"])
            kinds.append("patch")
            argv += ["--patch", "rules.txt"]
        if lang == "sack" and rng.chance(0.5):
            files["more.xml"] = spell.to_isar(spell.isar_ready([d for d in decls if d["k"] == "enum"])).encode()
            if rng.chance(0.5):
                files["more.xml"] = damage.xml_damage(rng, files["more.xml"].decode()).encode()
                kinds.append("xml")
            argv += ["-S", "more.xml"]
        if rng.chance(0.2):
            argv = self.bad_options(rng, argv)
            kinds.append("options")
        probe = None
        if lang == "prophy" and not kinds and not io and argv.count("-I") == 2 and rng.chance(0.8):
            probe = rng.pick(inputs)
            files[probe] = damage.plant_error(rng, files[probe].decode(), MARK).encode()
            kinds.append("known_error")
        how = rng.weighted([(90, "main"), (10, "entry"), (0.6, "process"), (6 if lang == "sack" else 0, "noclang")])
        step = {"lang": lang, "kinds": sorted(set(kinds)), "argv": argv, "how": how,
                "files": {p: (None if d is None else pack(d)) for p, d in files.items()}}
        if io:
            step["io"] = io
        if probe:
            step["probe"] = probe
        return step

    @staticmethod
    def hurt_sack(rng, files, kinds):
        path = rng.pick(sorted(p for p in files if files[p] is not None))
        text = files[path].decode()
        for _ in range(rng.pick([1, 1, 2, 4])):
            if rng.chance(0.5):
                text = damage.token_damage(rng, text)
                kinds.append("token")
            else:
                text = damage.sack_structure(rng, text)
                kinds.append("structure")
        files[path] = text.encode()

    def hurt(self, rng, files, inputs, lang, kinds):
        path = rng.pick(sorted(p for p in files if files[p] is not None))
        data = files[path]
        roll = rng.random()
        ext = path[path.rindex("."):]
        if roll < 0.12:
            kind = rng.randrange(7)
            stem = os.path.basename(path)
            line = lambda p: (b'#include "%s"\n' if lang == "prophy" else b'<include href="%s"/>\n') % p.encode()  # noqa: E731

            def add(target, what):
                old = files[target]
                if lang == "prophy":
                    files[target] = line(what) + old
                else:
                    files[target] = old.replace(b"</x>", line(what) + b"</x>")
            if kind == 0:
                add(path, rng.pick(["missing" + ext, "inc", ".", "", "./" + stem, "inc/../nope" + ext, "out"]))
                kinds.append("include_missing")
            elif kind == 1:
                add(path, stem)
                kinds.append("include_self")
            elif kind == 2:
                present = sorted(p for p in files if files[p] is not None)
                first, last = inputs[0] if inputs[0] in files else present[0], present[-1]
                add(first, os.path.basename(last))
                add(last, os.path.basename(first))
                kinds.append("include_cycle")
            elif kind == 3:
                add(path, stem)
                files[rng.pick(["", "inc/"]) + stem] = data
                kinds.append("include_shadow")
            elif kind == 4:     # a chain of includes
                n = rng.pick([5, 30, 120])
                for i in range(n):
                    files["c%d%s" % (i, ext)] = self.plain(lang, "C%d" % i, ["c%d%s" % (i + 1, ext)] if i + 1 < n else [])
                add(path, "c0" + ext)
                kinds.append("include_chain")
            elif kind == 5:     # diamonds on top of each other
                n = rng.pick([3, 8, 18])
                for i in range(n):
                    below = ["d%d%s%s" % (i + 1, s, ext) for s in "ab"] if i + 1 < n else []
                    for s in "ab":
                        files["d%d%s%s" % (i, s, ext)] = self.plain(lang, "D%d%s" % (i, s), below)
                add(path, "d0a" + ext)
                kinds.append("include_ladder")
            else:
                if len(files) > 3:
                    victim = rng.pick([p for p in sorted(files) if files[p] is not None])
                    del files[victim]
                    kinds.append("file_lost")
            return
        if roll < 0.27:
            files[path], kind = damage.byte_damage(rng, data)
            kinds.append(kind)
            return
        if roll < 0.32:
            files[path] = damage.random_text(rng).encode()
            kinds.append("random_text")
            return
        text = data.decode("utf-8", "replace")
        for _ in range(rng.pick([1, 1, 2, 4])):
            if lang == "isar":
                text = damage.xml_damage(rng, text)
                kinds.append("xml")
            elif roll < 0.65:
                text = damage.token_damage(rng, text)
                kinds.append("token")
            else:
                text = damage.prophy_structure(rng, text)
                kinds.append("structure")
        files[path] = text.encode("utf-8", "replace")

    @staticmethod
    def plain(lang, name, includes):
        decl = {"k": "const", "n": name, "v": 1}
        if lang == "isar":
            return spell.to_isar([decl], includes).encode()
        return ("".join('#include "%s"\n' % i for i in includes) + schema.to_prophy([decl])).encode()

    @staticmethod
    def io_faults(rng, files, inputs, outs):
        sources = sorted(p for p in files if files[p] is not None)
        stems = [os.path.splitext(os.path.basename(p))[0] for p in inputs]
        targets = [os.path.join(d, f) for d, f in compiler.expected_outputs(stems, {o: "out" for o in outs})]
        out = []
        for _ in range(rng.pick([1, 1, 2])):
            roll = rng.random()
            if roll < 0.25:
                out.append({"kind": rng.pick(IO_ERRORS), "path": rng.pick(sources)})
            elif roll < 0.5:
                out.append({"kind": rng.pick(IO_ERRORS), "path": rng.pick(targets)})
            elif roll < 0.62:
                out.append({"kind": "vanish", "path": rng.pick(sources)})
            elif roll < 0.7:
                out.append({"kind": "truncate", "path": rng.pick(sources)})
            elif roll < 0.9:
                out.append({"kind": "disk_full", "path": "", "room": rng.pick([0, 1, 100, 512, 1000, 4096])})
            else:
                out.append({"kind": "target_is_directory", "path": rng.pick(targets)})
        return out

    @staticmethod
    def bad_options(rng, argv):
        argv = list(argv)
        for _ in range(rng.pick([1, 1, 2, 3])):
            op = rng.randrange(8)
            paths = [i for i, a in enumerate(argv) if not a.startswith("-")]
            if op > 5 and paths:
                # a file where a directory is expected and the other way round
                argv[rng.pick(paths)] = rng.pick([argv[rng.pick(paths)], argv[rng.pick(paths)], "inc", "out", "nope", "out/nope",
                                                  argv[rng.pick(paths)] + "/", argv[rng.pick(paths)] + "/x", ".", "/dev/null"])
            elif op == 0 and argv:
                del argv[rng.randrange(len(argv))]
            elif op == 1 and argv:
                at = rng.randrange(len(argv))
                argv.insert(at, argv[at])
            elif op == 2 and len(argv) > 1:
                i, j = rng.randrange(len(argv)), rng.randrange(len(argv))
                argv[i], argv[j] = argv[j], argv[i]
            else:
                argv.insert(rng.randint(0, len(argv)), rng.pick([
                    "--isar", "--sack", "--version", "--help", "-h", "--nonsense", "-x", "--", "", "nope.prophy", "nope", "-I",
                    "--python_out", "--cpp_out=out", "--prophy_out=nope", "--cpp_full_out=", "--void_out", "--quiet", "-Iinc",
                    "-I=inc", "-Inope", "-S", "-Sinc", "--patch=nope", "-p", "--patch=rules.txt", "--python", "--cpp", "out", "inc",
                    "--void_out=1", "@args", "--include_dir=out", "ż", "-", "--inc"]))
        return argv

    # ------------------------------------------------------------ execute

    def execute(self, trace, ctx):
        order = []
        for i, step in enumerate(trace["steps"]):
            root = os.path.join(ctx.workdir, "w")
            try:
                outcome = self.step(step, root, ctx)
            finally:
                shutil.rmtree(root, ignore_errors=True)
            ctx.log(i, step["lang"], step["kinds"], outcome.brief(), outcome.fired, outcome.stderr)
            text = re.sub(r"'[^']*'|\d+|[A-Z]\w*|<W>\S*", "#", outcome.message or str(outcome.exit))[:60]
            ctx.state(step["lang"], tuple(step["kinds"]), tuple(sorted(set(outcome.fired))), outcome.kind, text)
            order.append((step["lang"], tuple(step["kinds"]), tuple(outcome.fired), outcome.kind))
            ctx.counts["invocations"] += 1
            ctx.counts["outcome_" + outcome.kind] += 1
            ctx.counts["how_" + step["how"]] += 1
            for kind in step["kinds"]:
                ctx.fault(kind)
            for kind in outcome.fired:
                ctx.fault("io_" + kind)
            ctx.maximum("steps_in_prophyc", outcome.steps)
            ctx.simtime += outcome.steps * 1e-6
        ctx.order(order)

    def step(self, step, root, ctx):
        files = {p: unpack(v) for p, v in step["files"].items()}
        argv = step["argv"]
        os.makedirs(root)
        self.compiler.write(root, files)
        size = sum(len(d) for d in files.values() if d)
        budget = 2000000 + 3000 * size
        describe = self.describe(step)
        baseline = None
        if step.get("io"):
            first = self.compiler.run(root, argv, steps=budget)
            self.judge(step, files, first, root, describe, ctx, [])
            if first.kind == "ok":
                baseline = self.outputs(root)
            self.reset(root, files)
            self.arm(root, step["io"])
        faults = [f for f in step.get("io", []) if f["kind"] not in ("disk_full", "target_is_directory")]
        room = [f["room"] for f in step.get("io", []) if f["kind"] == "disk_full"]
        outcome = self.compiler.run(root, argv, steps=budget, faults=faults, file_limit=min(room) if room else None)
        planted = self.planted_hit(root, step.get("io", []), outcome)
        outcome.fired += planted
        self.judge(step, files, outcome, root, describe, ctx, outcome.fired, baseline)
        if step.get("io"):
            if outcome.kind == "ok" and baseline is not None and "truncate" not in outcome.fired:
                if self.outputs(root) != baseline:
                    raise Violation("success-with-wrong-outputs", "%s\nI/O faults %s; outputs differ from the fault-free "
                                    "run in %s" % (describe, outcome.fired, differing(baseline, self.outputs(root))))
            # the fault is gone: the same process must compile the same project as before
            self.reset(root, files)
            again = self.compiler.run(root, argv, steps=budget)
            self.judge(step, files, again, root, describe, ctx, [])
            ctx.counts["recoveries"] += 1
            if (again.kind == "ok") != (baseline is not None) or (baseline is not None and
                                                                  self.outputs(root) != baseline):
                raise Violation("does-not-recover", "%s\nafter I/O faults %s the same command gives %s" % (
                    describe, outcome.fired, again.brief()))
            return outcome
        if step.get("probe"):
            self.known_error(step, files, outcome, describe, ctx)
        if outcome.kind == "designed":
            self.location(step, files, root, budget, outcome, describe, ctx)
        if step["how"] != "main" and outcome.kind in ("ok", "designed", "exit"):
            self.reset(root, files)
            if step["how"] == "noclang":
                self.without_libclang(step, root, describe, ctx)
                outcome.fired.append("libclang_missing")
            else:
                self.front_end(step, root, budget, outcome, describe, ctx)
        return outcome

    def reset(self, root, files):
        shutil.rmtree(root)
        os.makedirs(root)
        self.compiler.write(root, files)

    @staticmethod
    def arm(root, faults):
        for f in faults:
            full = os.path.join(root, f["path"])
            if f["kind"] != "target_is_directory" or os.path.lexists(full) or not os.path.isdir(os.path.dirname(full)):
                continue
            os.mkdir(full)

    @staticmethod
    def planted_hit(root, faults, outcome):
        opened = {p for p, mode in outcome.opens if mode == "w"}
        if outcome.kind == "io":        # outputs may also be put in place by renaming
            e = outcome.exception
            opened |= {os.path.relpath(os.path.realpath(os.path.join(root, name)), os.path.realpath(root))
                       for name in (e.filename, e.filename2) if isinstance(name, str)}
        return [f["kind"] for f in faults if f["kind"] == "target_is_directory" and f["path"] in opened]

    def outputs(self, root):
        return self.compiler.snapshot(os.path.join(root, "out"))

    def judge(self, step, files, outcome, root, describe, ctx, fired, baseline=None):
        argv = step["argv"]
        if outcome.kind == "hang":
            raise Violation("does-not-terminate", "%s\nmore than the allowed steps inside prophyc" % describe)
        if outcome.kind == "internal":
            if outcome.type == "Exception" and any(a.startswith(("-p", "--p")) for a in argv):
                outcome.kind = "designed"       # patch rules report through plain Exception
            else:
                raise Violation("internal-%s" % outcome.type, "%s\nraised %s: %s" % (describe, outcome.type, outcome.message))
        if outcome.kind == "io" and not fired:
            raise Violation("internal-%s" % outcome.type, "%s\nraised %s: %s" % (describe, outcome.type, outcome.message))
        if outcome.kind == "exit":
            if outcome.exit not in (0, None) or not any(a.startswith("-h") or a.startswith("--h") for a in argv):
                raise Violation("unexpected-exit", "%s\nSystemExit(%r)" % (describe, outcome.exit))
        if outcome.kind == "designed" and not outcome.message.strip():
            raise Violation("empty-diagnostic", describe)
        if outcome.kind == "ok":
            self.complete(argv, root, describe, ctx, baseline or {})
        after = {p: None if d is None else d for p, d in files.items()}
        for path, data in after.items():
            if data is None or "vanish" in fired or "truncate" in fired or not path.endswith((".prophy", ".xml", ".hpp", ".txt")):
                continue
            full = os.path.join(root, path)
            if "--prophy_out" in " ".join(argv) and path.endswith(".prophy"):
                continue
            with open(full, "rb") as f:
                if f.read() != data:
                    raise Violation("input-file-changed", "%s\n%s was modified" % (describe, path))

    def complete(self, argv, root, describe, ctx, baseline):
        """Success means every requested output is there."""
        plain = plain_options(argv)
        if plain is None or plain["version"]:
            return
        stems = [os.path.splitext(os.path.basename(p))[0] for p in plain["inputs"]]
        for directory, name in compiler.expected_outputs(stems, plain["outs"]):
            full = os.path.join(root, directory, name)
            if os.path.islink(full) and baseline.get(name) == b"":
                continue        # a full disk still takes an empty file
            if not os.path.isfile(full) or os.path.islink(full):
                raise Violation("missing-output", "%s\nsucceeded without writing %s/%s" % (describe, directory, name))
            ctx.counts["outputs_present"] += 1

    def location(self, step, files, root, budget, outcome, describe, ctx):
        """Errors in prophy text carry file:line:column."""
        plain = plain_options(step["argv"])
        if plain is None or step["lang"] != "prophy" or not plain["inputs"]:
            return
        if not all(files.get(os.path.normpath(p)) is not None and not p.endswith("/") for p in plain["inputs"]):
            return
        if not all(d and os.path.isdir(os.path.join(root, d)) for d in plain["dirs"]):
            return
        argv = plain["inputs"] + [x for d in plain["dirs"] for x in ("-I", d)] + ["--void_out"]
        bare = self.compiler.run(root, argv, steps=budget)
        self.judge(dict(step, argv=argv), files, bare, root, describe, ctx, [])
        if bare.kind != "designed":
            return
        found = LOCATION.findall(bare.message)
        if not found:
            raise Violation("error-without-location", "%s\nmessage: %s" % (describe, bare.message))
        for path, line, column, _ in found:
            data = files.get(os.path.normpath(path))
            if data is None:
                raise Violation("error-location-not-a-file", "%s\nmessage: %s" % (describe, bare.message))
            lines = data.split(b"\n")
            if not 1 <= int(line) <= len(lines) + 1:
                raise Violation("error-location-out-of-range", "%s\n%s has %d lines; message: %s" % (
                    describe, path, len(lines), bare.message))
            if not 0 <= int(column) <= max(len(x) for x in lines) + 2:
                raise Violation("error-location-out-of-range", "%s\nno line of %s has such a column; message: %s" % (
                    describe, path, bare.message))
        ctx.counts["locations_checked"] += len(found)

    @staticmethod
    def known_error(step, files, outcome, describe, ctx):
        """The only error of the project is in a known line: the report must say so."""
        lines = files.get(step["probe"], b"").decode().split("\n")
        marked = [n for n, line in enumerate(lines, 1) if MARK in line]
        if not marked:
            return
        if outcome.kind != "designed":
            raise Violation("error-not-reported", "%s\nline %d of %s is wrong, outcome %s" % (
                describe, marked[0], step["probe"], outcome.brief()))
        for path, line, column, _ in LOCATION.findall(outcome.message)[:1]:
            if os.path.normpath(path) != os.path.normpath(step["probe"]) or int(line) != marked[0] or not (
                    1 <= int(column) <= len(lines[marked[0] - 1])):
                raise Violation("error-location-wrong", "%s\nthe error is in line %d of %s; message: %s" % (
                    describe, marked[0], step["probe"], outcome.message))
            ctx.counts["known_errors_located"] += 1

    def front_end(self, step, root, budget, outcome, describe, ctx):
        """python -m prophyc: status and message agree with prophyc.main."""
        ok = outcome.kind in ("ok", "exit")
        if step["how"] == "entry":
            front = self.compiler.run(root, step["argv"], steps=budget, entry=True)
            if ok and not (front.kind == "ok" or (front.kind == "exit" and front.exit in (0, None))):
                raise Violation("front-end-disagrees", "%s\nmain succeeded, front end: %s" % (describe, front.brief()))
            if not ok and not (front.kind == "exit" and isinstance(front.exit, str) and front.exit.strip()):
                raise Violation("front-end-disagrees", "%s\nmain failed with %r, front end: %s" % (
                    describe, outcome.message, front.brief()))
            return
        done, text = self.process(step, root)
        if "Traceback" in text or (done.returncode == 0) != ok or (not ok and not text.strip()):
            raise Violation("front-end-disagrees", "%s\nmain: %s; python -m prophyc: status %d, stderr %s" % (
                describe, outcome.brief(), done.returncode, text[-800:]))

    def without_libclang(self, step, root, describe, ctx):
        """A machine where libclang cannot be loaded: a diagnostic, or the outputs."""
        done, text = self.process(step, root, ["-c", PLAIN_MAIN], PROPHY_NOCLANG="1")
        if done.returncode not in (0, 3) or (done.returncode == 3 and not text.strip()):
            raise Violation("no-diagnostic-without-libclang", "%s\nstatus %d, stderr %s" % (
                describe, done.returncode, text[-800:]))
        if done.returncode == 0:
            self.complete(step["argv"], root, describe, ctx, {})

    @staticmethod
    def process(step, root, what=("-m", "prophyc"), **extra):
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONPATH": pynode.REPO, "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8"}
        done = subprocess.run([sys.executable] + list(what) + [a.replace("<W>", root) for a in step["argv"]], cwd=root,
                              env=dict(env, **extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        return done, done.stderr.decode("utf-8", "replace")

    @staticmethod
    def describe(step):
        lines = ["prophyc %s  (%s)" % (" ".join(repr(a) if not a or " " in a else a for a in step["argv"]), step["lang"])]
        for path in sorted(step["files"]):
            value = step["files"][path]
            if value is not None:
                text = value if isinstance(value, str) else "hex " + value["hex"]
                lines.append("--- %s\n%s" % (path, text if len(text) < 1500 else text[:1500] + "..."))
        return "\n".join(lines)

    # ----------------------------------------------------------- simplify

    def simplify(self, trace):
        for i, step in enumerate(trace["steps"]):
            def with_step(new):
                return dict(trace, steps=trace["steps"][:i] + [new] + trace["steps"][i + 1:])
            if step["how"] != "main":
                yield with_step(dict(step, how="main"))
            if step.get("probe"):
                yield with_step({k: v for k, v in step.items() if k != "probe"})
                continue
            for j in range(len(step.get("io", [])) - 1, -1, -1):
                yield with_step(dict(step, io=step["io"][:j] + step["io"][j + 1:]))
            for path in sorted(step["files"]):
                if step["files"][path] is not None:
                    less = copy.deepcopy(step)
                    del less["files"][path]
                    yield with_step(less)
            for j in range(len(step["argv"])):
                for width in (2, 1):
                    yield with_step(dict(step, argv=step["argv"][:j] + step["argv"][j + width:]))
            for path in sorted(step["files"]):
                value = step["files"][path]
                if value is None:
                    continue
                if isinstance(value, dict):
                    data = unpack(value)
                    cuts = [data[:len(data) // 2], data[len(data) // 2:], data[:-1], data[1:]]
                    for cut in cuts:
                        yield with_step(dict(step, files=dict(step["files"], **{path: pack(cut)})))
                    continue
                lines = value.split("\n")
                size = max(1, len(lines) // 2)
                while size:
                    for at in range(0, len(lines), size):
                        yield with_step(dict(step, files=dict(step["files"], **{
                            path: "\n".join(lines[:at] + lines[at + size:])})))
                    size //= 2
                if len(value) < 400:
                    toks = damage.tokens(value)
                    for at in range(len(toks)):
                        yield with_step(dict(step, files=dict(step["files"], **{
                            path: "".join(toks[:at] + toks[at + 1:])})))


def plain_options(argv):
    """Meaning of an argument list written only in the plain long forms the
    simulation itself uses; None when it has anything else."""
    out = {"inputs": [], "outs": {}, "dirs": [], "patch": None, "version": False}
    values = {"--%s_out" % o: o for o in OUTS}
    i = 0
    while i < len(argv):
        a = argv[i]
        if a in values or a in ("-I", "--patch", "-S"):
            if i + 1 >= len(argv) or argv[i + 1].startswith("-"):
                return None
            if a in values:
                out["outs"][values[a]] = argv[i + 1]
            elif a == "-I":
                out["dirs"].append(argv[i + 1])
            i += 2
            continue
        if a in ("--isar", "--sack", "--void_out", "--quiet"):
            pass
        elif a == "--version":
            out["version"] = True
        elif a.startswith("-"):
            return None
        else:
            out["inputs"].append(a)
        i += 1
    return out


def differing(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))
