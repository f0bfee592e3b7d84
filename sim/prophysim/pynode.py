"""Bridge to the real Python side: run prophyc, import generated modules, move
reference values in and out of real message objects."""
import importlib
import importlib.util
import os
import sys
import types

from . import wire

REPO = os.environ.get("PROPHY_REPO", "/repo")


def setup_path():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def compile_prophy(text, workdir, name="proto", outs=("python",), patch="", isar=False):
    """Run the real compiler on one schema file. Returns output dir."""
    setup_path()
    import prophyc
    path = os.path.join(workdir, name + (".xml" if isar else ".prophy"))
    with open(path, "w") as f:
        f.write(text)
    args = [path] + ["--isar"] * isar
    for out in outs:
        args += ["--%s_out" % out, workdir]
    if patch:
        rules = os.path.join(workdir, name + ".patch")
        with open(rules, "w") as f:
            f.write(patch)
        args += ["--patch", rules]
    prophyc.main(args)
    return workdir


_counter = [0]


def import_module(path):
    """Import a generated file under a unique module name, leaving no trace."""
    setup_path()
    _counter[0] += 1
    name = "_prophysim_gen_%d" % _counter[0]
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def assign(lay, name, msg, value):
    """Set a real message of struct/union type `name` to a reference value
    through the public API. msg must be freshly constructed."""
    types = lay.types
    name = types.resolve(name)
    if types.category(name) == "union":
        arm = next(m for m in types.by_name[name]["m"] if m["n"] == value[0])
        msg.discriminator = arm["d"]
        _assign_plain(lay, arm["t"], msg, arm["n"], value[1])
        return
    for m in lay.value_members(name):
        v = value[m["n"]]
        if m["a"]:
            if m["t"] == "bytes":
                setattr(msg, m["n"], v)
            elif types.category(m["t"]) in ("struct", "union"):
                arr = getattr(msg, m["n"])
                for i, item in enumerate(v):
                    assign(lay, m["t"], arr[i] if m["a"][0] == "fix" else arr.add(), item)
            else:
                getattr(msg, m["n"])[:] = [native(types, m["t"], item) for item in v]
        elif m["o"]:
            if v is None:
                setattr(msg, m["n"], None)
            else:
                if types.category(m["t"]) in ("struct", "union"):
                    setattr(msg, m["n"], True)
                _assign_plain(lay, m["t"], msg, m["n"], v)
        else:
            _assign_plain(lay, m["t"], msg, m["n"], v)


def _assign_plain(lay, t, msg, fname, v):
    if lay.types.category(t) in ("struct", "union"):
        assign(lay, t, getattr(msg, fname), v)
    else:
        setattr(msg, fname, native(lay.types, t, v))


def native(types, t, v):
    t = types.resolve(t)
    if types.category(t) == "float":
        return wire.bits_to_float(v, t)
    return v


def read(lay, name, msg):
    """Reference value of a real message, through public attribute reads."""
    types = lay.types
    name = types.resolve(name)
    if types.category(name) == "union":
        disc = msg.discriminator
        arm = next((m for m in types.by_name[name]["m"] if m["d"] == disc), None)
        if arm is None:
            return ["?", int(disc)]
        return [arm["n"], read_item(lay, arm["t"], getattr(msg, arm["n"]))]
    out = {}
    for m in lay.value_members(name):
        v = getattr(msg, m["n"])
        if m["a"]:
            if m["t"] == "bytes":
                out[m["n"]] = b"" if v == "" else v
            else:
                out[m["n"]] = [read_item(lay, m["t"], item) for item in v]
        elif m["o"]:
            out[m["n"]] = None if v is None else read_item(lay, m["t"], v)
        else:
            out[m["n"]] = read_item(lay, m["t"], v)
    return out


def read_item(lay, t, v):
    cat = lay.types.category(t)
    if cat in ("struct", "union"):
        return read(lay, t, v)
    if cat == "float":
        return wire.float_to_bits(float(v), lay.types.resolve(t))
    return int(v)


class Package(object):
    """Generated files of one directory as a package; all traces of it leave with it."""

    def __init__(self, path):
        setup_path()
        _counter[0] += 1
        self.name = "_prophysim_pkg_%d" % _counter[0]
        self.path = path

    def __enter__(self):
        importlib.invalidate_caches()
        package = types.ModuleType(self.name)
        package.__path__ = [self.path]
        sys.modules[self.name] = package
        return self

    def load(self, stem):
        return importlib.import_module("%s.%s" % (self.name, stem))

    def __exit__(self, *exc):
        for name in [n for n in sys.modules if n == self.name or n.startswith(self.name + ".")]:
            del sys.modules[name]
        sys.path_importer_cache.pop(self.path, None)
