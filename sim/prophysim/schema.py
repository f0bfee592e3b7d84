"""Random valid schemas as plain JSON data, and their prophy / isar spellings.

A schema is a list of declarations:
  {"k": "const",   "n": name, "v": int, "e": expression text}
  {"k": "enum",    "n": name, "m": [[enumerator, int], ...]}
  {"k": "typedef", "n": name, "t": type}
  {"k": "struct",  "n": name, "m": [member, ...]}
  {"k": "union",   "n": name, "m": [{"n", "t", "d"}, ...]}
member: {"n": name, "t": type or "bytes", "a": array or None, "o": bool}
array:  ["fix", N] ["lim", N] ["dyn"] ["greedy"] ["ext", sizer_name] ["elim", N, sizer_name]
"elim" (limited, counted by a named member) has no spelling in the prophy language:
it is written as a fixed array plus a patch rule. A counting member may carry a
"shift" added to the count on the wire, which only descriptors written by hand
(to_python) can express.
A fixed or limited array may carry the spelling of its size: ["fix", N, "NAME"].
"""

SCALARS = {
    "u8": (1, False), "u16": (2, False), "u32": (4, False), "u64": (8, False),
    "i8": (1, True), "i16": (2, True), "i32": (4, True), "i64": (8, True),
}
FLOATS = {"r32": 4, "r64": 8}
PROPHY_SPELLING = {"r32": "float", "r64": "double"}

FIXED, DYNAMIC, UNLIMITED = 0, 1, 2
SIZED = ("fix", "lim", "elim")


def sizer(m):
    """Name of the member that counts an array, if it is a member of its own."""
    a = m.get("a")
    return a[{"ext": 1, "elim": 2}[a[0]]] if a and a[0] in ("ext", "elim") else None


def sizers(d):
    return {sizer(m) for m in d["m"]} - {None}


def shift(d, m):
    """What the counter of an array adds to the count."""
    return next((x.get("shift", 0) for x in d["m"] if x["n"] == sizer(m)), 0)


class Types(object):
    """Resolved view of a schema: typedef chasing, kinds."""

    def __init__(self, decls):
        self.decls = decls
        self.by_name = {d["n"]: d for d in decls}
        self._kind = {}
        self.lay = {}

    def resolve(self, name):
        while name in self.by_name and self.by_name[name]["k"] == "typedef":
            name = self.by_name[name]["t"]
        return name

    def decl(self, name):
        return self.by_name.get(self.resolve(name))

    def category(self, name):
        name = self.resolve(name)
        if name in SCALARS:
            return "int"
        if name in FLOATS:
            return "float"
        if name == "bytes":
            return "bytes"
        return self.by_name[name]["k"]

    def kind(self, name):
        name = self.resolve(name)
        if name not in self._kind:
            decl = self.by_name.get(name)
            result = FIXED
            if decl and decl["k"] == "struct":
                for m in decl["m"]:
                    result = max(result, self.member_kind(m))
            self._kind[name] = result
        return self._kind[name]

    def member_kind(self, m):
        if m["a"]:
            if m["a"][0] == "greedy":
                return UNLIMITED
            if m["a"][0] in ("dyn", "ext"):
                return DYNAMIC
            return FIXED
        return self.kind(m["t"])

    def nothing(self, name):
        """True for structs that take no bytes."""
        d = self.decl(name)
        return bool(d) and d["k"] == "struct" and all(
            not m["o"] and (not m["a"] or m["a"][0] in ("fix", "greedy")) and self.nothing(m["t"]) for m in d["m"])

    def structs(self):
        return [d for d in self.decls if d["k"] == "struct"]

    def composites(self):
        return [d for d in self.decls if d["k"] in ("struct", "union")]


def used_types(decls, roots):
    """Declarations reachable from the named roots, in original order."""
    by_name = {d["n"]: d for d in decls}
    owner = {}
    for d in decls:
        if d["k"] == "enum":
            for e in d["m"]:
                owner[e[0]] = d["n"]
    todo, seen = list(roots), set()
    while todo:
        name = todo.pop()
        name = owner.get(name, name)
        if name in seen or name not in by_name:
            continue
        seen.add(name)
        todo.extend(references(by_name[name]))
    return [d for d in decls if d["n"] in seen]


def references(d):
    """Names of declarations (or enumerators) a declaration refers to."""
    import re
    refs = []
    if d["k"] == "const":
        refs += re.findall(r"[A-Za-z_]\w*", d.get("e") or "")
    elif d["k"] == "typedef":
        refs.append(d["t"])
    elif d["k"] == "enum":
        for entry in d["m"]:
            if len(entry) > 2:
                refs += re.findall(r"[A-Za-z_]\w*", entry[2])
    else:
        for m in d["m"]:
            refs.append(m["t"])
            a = m.get("a")
            if a and len(a) > 2 and a[0] in ("fix", "lim"):
                refs += re.findall(r"[A-Za-z_]\w*", a[2])
            if d["k"] == "union" and m.get("ds"):
                refs += re.findall(r"[A-Za-z_]\w*", m["ds"])
    return [r for r in refs if r not in SCALARS and r not in FLOATS and r != "bytes"]


# --------------------------------------------------------------------- text

def spell_type(t):
    return PROPHY_SPELLING.get(t, t)


def array_size_text(a):
    return a[2] if len(a) > 2 else str(a[1])


def member_text(m):
    t = spell_type(m["t"])
    a = m["a"]
    if m["o"]:
        return "%s* %s" % (t, m["n"])
    if not a:
        return "%s %s" % (t, m["n"])
    if a[0] == "elim":
        return "%s %s[%d]" % (t, m["n"], a[1])
    if a[0] == "fix":
        return "%s %s[%s]" % (t, m["n"], array_size_text(a))
    if a[0] == "lim":
        return "%s %s<%s>" % (t, m["n"], array_size_text(a))
    if a[0] == "dyn":
        return "%s %s<>" % (t, m["n"])
    if a[0] == "greedy":
        return "%s %s<...>" % (t, m["n"])
    return "%s %s<@%s>" % (t, m["n"], a[1])


def decl_text(d):
    if d["k"] == "const":
        return "const %s = %s;\n" % (d["n"], d.get("e") or d["v"])
    if d["k"] == "enum":
        body = ",\n".join("    %s = %s" % (e[0], e[2] if len(e) > 2 else e[1]) for e in d["m"])
        return "enum %s\n{\n%s\n};\n" % (d["n"], body)
    if d["k"] == "typedef":
        return "typedef %s %s;\n" % (spell_type(d["t"]), d["n"])
    if d["k"] == "struct":
        return "struct %s\n{\n%s\n};\n" % (d["n"], "\n".join("    %s;" % member_text(m) for m in d["m"]))
    return "union %s\n{\n%s\n};\n" % (
        d["n"], "\n".join("    %s: %s %s;" % (m.get("ds") or m["d"], spell_type(m["t"]), m["n"]) for m in d["m"]))


def to_prophy(decls):
    return "\n".join(decl_text(d) for d in decls)


def to_patch(decls):
    """Patch rules the prophy text of the schema needs."""
    return "".join("%s limited %s %s\n" % (d["n"], m["n"], m["a"][2]) for d in decls if d["k"] == "struct"
                   for m in d["m"] if m["a"] and m["a"][0] == "elim")


def by_hand(decls):
    """True if only hand-written descriptors can express the schema."""
    structs = [d for d in decls if d["k"] == "struct"]
    return any("small" in d for d in decls) or any(
        "packed" in d or not d["m"] or any("shift" in m for m in d["m"]) for d in structs)


def python_type(t):
    return "prophy." + t if t in SCALARS or t in FLOATS else t


def python_field(d, m):
    a = m["a"]
    if m["o"]:
        return [(m["n"], "prophy.optional(%s)" % python_type(m["t"]))]
    if not a:
        return [(m["n"], python_type(m["t"]))]
    args = [] if m["t"] == "bytes" else [python_type(m["t"])]
    counter = sizer(m) or ("num_of_" + m["n"] if a[0] in ("lim", "dyn") else None)
    if counter:
        args.append("bound=%r" % counter)
    if a[0] in SIZED:
        args.append("size=%d" % a[1])
    if shift(d, m):
        args.append("shift=%d" % shift(d, m))
    field = (m["n"], "prophy.%s(%s)" % ("bytes" if m["t"] == "bytes" else "array", ", ".join(args)))
    return [field] if sizer(m) or not counter else [(counter, "prophy.u32"), field]


def to_python(decls):
    """The schema as descriptors of the Python runtime, written without prophyc."""
    out = ["import prophy\n"]
    for d in decls:
        if d["k"] == "enum":
            out.append("class %s(prophy.with_metaclass(prophy.enum_generator, prophy.%s)):\n    _enumerators = %r\n"
                       % (d["n"], "enum8" if "small" in d else "enum", [(e[0], e[1]) for e in d["m"]]))
        elif d["k"] == "typedef":
            out.append("%s = %s\n" % (d["n"], python_type(d["t"])))
        elif d["k"] == "union":
            arms = "".join("        (%r, %s, %d),\n" % (m["n"], python_type(m["t"]), m["d"]) for m in d["m"])
            out.append("class %s(prophy.with_metaclass(prophy.union_generator, prophy.union)):\n"
                       "    _descriptor = [\n%s    ]\n" % (d["n"], arms))
        elif d["k"] == "struct":
            fields = "".join("        (%r, %s),\n" % f for m in d["m"] for f in python_field(d, m))
            out.append("class %s(prophy.with_metaclass(prophy.struct_generator, prophy.%s)):\n"
                       "    _descriptor = [\n%s    ]\n" % (d["n"], "struct_packed" if "packed" in d else "struct", fields))
    return "\n".join(out)


# ---------------------------------------------------------------- generator

class Knobs(object):
    """Swarm configuration drawn per run: which shapes are enabled and how big."""

    def __init__(self, rng, **fixed):
        self.n_enums = rng.randint(1, 3)
        self.n_typedefs = rng.randint(0, 3)
        self.n_structs = rng.randint(4, 8)
        self.n_unions = rng.randint(0, 2)
        self.max_members = rng.choice([2, 3, 4, 4, 6])
        self.arrays = [k for k in ("fix", "lim", "dyn", "greedy", "ext") if rng.chance(0.75)] or ["dyn"]
        if rng.chance(0.25):
            self.arrays = rng.sample(["fix", "lim", "dyn", "greedy", "ext", "ext"], 2)
        self.p_array = rng.choice([0.15, 0.35, 0.5, 0.7])
        self.p_optional = rng.choice([0.0, 0.15, 0.35, 0.5])
        self.p_nested = rng.choice([0.1, 0.3, 0.5, 0.7])
        self.p_bytes = rng.choice([0.0, 0.1, 0.25, 0.6])
        self.p_enum = rng.choice([0.0, 0.1, 0.3])
        self.p_float = rng.choice([0.0, 0.1, 0.2])
        self.widths = rng.choice([
            ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"],
            ["u8", "u64"], ["u8", "u16", "u64", "i64"], ["u8", "i8", "u16"], ["u32", "u64", "u8"]])
        self.sizers = rng.choice([["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"], ["i8"], ["u8", "i8", "i64"]])
        self.shared_sizers = rng.chance(0.3)
        self.max_fix = rng.choice([2, 3, 5])
        self.long_fix = rng.chance(0.03)
        for key, value in fixed.items():
            setattr(self, key, value)


def generate(rng, **fixed):
    """A random valid schema. With cpp=True every sizer serves one array, with
    patched=True it may need the rules of to_patch(), with byhand=True some need to_python(),
    with empty=True some have a struct without members."""
    knobs = Knobs(rng, **{k: v for k, v in fixed.items() if k not in ("cpp", "patched", "byhand", "empty")})
    cpp, patched = fixed.get("cpp", False), fixed.get("patched", False)
    if patched and rng.chance(0.5):
        knobs.arrays.append("elim")
    byhand = fixed.get("byhand", False)
    shifted = byhand and "ext" in knobs.arrays and rng.chance(0.15)
    packed = byhand and rng.chance(0.03)
    if packed:      # the documentation leaves packed structs mixed with others undefined
        knobs.n_unions = 0
        knobs.p_optional = 0.0
    empty = fixed.get("empty", False) and rng.chance(0.03)
    small = byhand and rng.chance(0.05)
    decls = []
    enums, unions, structs, typedefs = [], [], [], []
    names = iter(range(1, 10000))

    def scalar():
        if rng.chance(knobs.p_float):
            return rng.choice(["r32", "r64"])
        return rng.choice(knobs.widths)

    for i in range(knobs.n_enums):
        name = "E%d" % i
        values = set()
        style = rng.randrange(4)
        while len(values) < rng.randint(1, 5):
            if style == 0:
                values.add(rng.randint(0, 6))
            elif style == 1:
                values.add(rng.randint(2, 300))
            elif style == 2:
                values.add(rng.choice([0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0x01000000, 256]))
            else:
                values.add(rng.getrandbits(32))
        values = list(sorted(values))
        rng.shuffle(values)
        decls.append({"k": "enum", "n": name, "m": [["E%d_%d" % (i, j), v] for j, v in enumerate(values)]})
        if small and max(values) < 256:
            decls[-1]["small"] = True
        enums.append(name)

    types = Types(decls)

    def fixed_type(allow_composite=True):
        roll = rng.random()
        if enums and roll < knobs.p_enum:
            return rng.choice(enums)
        if typedefs and roll < knobs.p_enum + 0.1:
            pool = [t for t in typedefs if types.kind(t) == FIXED and
                    (allow_composite or types.category(t) not in ("struct", "union"))]
            if pool:
                return rng.choice(pool)
        if allow_composite and rng.chance(knobs.p_nested):
            pool = [t for t in structs + unions if types.kind(t) == FIXED]
            if pool:
                return rng.choice(pool)
        return scalar()

    def new_typedef():
        name = "T%d" % next(names)
        pool = [scalar()] + enums + structs + unions + typedefs
        pool = [t for t in pool if types.kind(t) == FIXED] if rng.chance(0.7) else pool
        d = {"k": "typedef", "n": name, "t": rng.choice(pool)}
        decls.append(d)
        types.by_name[name] = d
        typedefs.append(name)

    def new_union():
        name = "U%d" % next(names)
        members, used = [], set()
        for j in range(rng.randint(1, 4)):
            disc = rng.choice([j, j + 1, rng.randint(0, 9), rng.getrandbits(32), 0xffffffff])
            if disc in used:
                continue
            used.add(disc)
            members.append({"n": "m%d" % j, "t": fixed_type(), "d": disc, "a": None, "o": False})
        d = {"k": "union", "n": name, "m": members}
        decls.append(d)
        types.by_name[name] = d
        unions.append(name)

    def new_struct():
        name = "S%d" % next(names)
        members = []
        count = rng.randint(1, knobs.max_members)
        if empty and not structs:
            count = 0
        for j in range(count):
            last = j == count - 1
            fname = "f%d" % j
            if rng.chance(knobs.p_array) and knobs.arrays:
                kind = rng.choice(knobs.arrays)
                if last and "greedy" in knobs.arrays and rng.chance(0.3):
                    kind = "greedy"
                if kind == "greedy" and not last:
                    kind = rng.choice([k for k in knobs.arrays if k != "greedy"] or ["dyn"])
                if rng.chance(knobs.p_bytes):
                    t = "bytes"
                elif kind in SIZED:
                    t = fixed_type()
                else:
                    pool = [s for s in structs if types.kind(s) == DYNAMIC]
                    t = rng.choice(pool) if pool and rng.chance(max(0.3, knobs.p_nested)) else fixed_type()
                if kind in ("dyn", "ext") and types.nothing(t):
                    t = scalar()    # a counter of a few bytes may ask for all the elements it can count
                if kind == "fix":
                    a = ["fix", rng.randint(1, knobs.max_fix)]
                    if knobs.long_fix and (t == "bytes" or t in SCALARS) and rng.chance(0.2):
                        a = ["fix", rng.pick([127, 255, 256, 300])]
                elif kind == "lim":
                    a = ["lim", rng.randint(1, knobs.max_fix)]
                elif kind == "dyn":
                    a = ["dyn"]
                elif kind == "greedy":
                    a = ["greedy"]
                else:
                    known = [sizer(m) for m in members if sizer(m)]
                    if kind == "elim":
                        known = [n for n in known if not any(m["n"] == n and "shift" in m for m in members)]
                    if known and knobs.shared_sizers and not cpp and rng.chance(0.6):
                        counter = rng.choice(known)
                    else:
                        counter = "n%d" % j
                        pool = list(knobs.sizers)
                        if patched:
                            pool += [t for t in typedefs if types.category(t) == "int"]
                        if shifted and rng.chance(0.5):
                            pool = ["u8", "i8"]
                        at = rng.randint(0, len(members)) if rng.chance(0.4) else len(members)
                        members.insert(at, {"n": counter, "t": rng.choice(pool), "a": None, "o": False})
                        if shifted and kind == "ext" and rng.chance(0.7):
                            members[at]["shift"] = rng.pick([1, 1, 2, 3, 100])
                    a = ["ext", counter] if kind == "ext" else ["elim", rng.randint(1, knobs.max_fix), counter]
                members.append({"n": fname, "t": t, "a": a, "o": False})
                continue
            if rng.chance(knobs.p_optional):
                members.append({"n": fname, "t": fixed_type(), "a": None, "o": True})
                continue
            if rng.chance(knobs.p_nested):
                pool = [s for s in structs + unions
                        if types.kind(s) == FIXED or types.kind(s) == DYNAMIC or last]
                if pool:
                    members.append({"n": fname, "t": rng.choice(pool), "a": None, "o": False})
                    continue
            members.append({"n": fname, "t": fixed_type(), "a": None, "o": False})
        d = {"k": "struct", "n": name, "m": members}
        if packed:
            d["packed"] = True
        decls.append(d)
        types.by_name[name] = d
        structs.append(name)

    todo = ["s"] * knobs.n_structs + ["u"] * knobs.n_unions + ["t"] * knobs.n_typedefs
    rng.shuffle(todo)
    for what in todo:
        {"s": new_struct, "u": new_union, "t": new_typedef}[what]()
    return decls
