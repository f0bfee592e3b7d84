"""Constants and constant expressions woven into a schema, splitting a schema
over files, and the isar and sack spellings of declarations."""
import copy
from xml.sax.saxutils import quoteattr

from . import schema

ISAR_PRIMITIVE = {
    "u8": "8 bit integer unsigned", "u16": "16 bit integer unsigned", "u32": "32 bit integer unsigned",
    "u64": "64 bit integer unsigned", "i8": "8 bit integer signed", "i16": "16 bit integer signed",
    "i32": "32 bit integer signed", "i64": "64 bit integer signed", "r32": "32 bit float", "r64": "64 bit float"}


# ------------------------------------------------------------- expressions

def literal(rng, value, lang):
    if value < 0:
        return "(-%s)" % literal(rng, -value, lang)
    roll = rng.randrange(6)
    if roll == 0:
        return "0x%x" % value
    if roll == 1:
        return "0x%X" % value
    if roll == 2 and lang == "prophy" and value:
        return "0%o" % value
    return str(value)


# How tightly operators bind, where all the languages an expression may end up in agree.
BINDS = {"|": 1, "<<": 2, ">>": 2, "+": 3, "-": 3, "*": 4, "/": 4}


def expression(rng, value, names, lang, depth=2):
    """Text that denotes value, with all parentheses or only those it needs.
    names: {name: int} of constants and enumerators in scope."""
    return render(tree(rng, value, names, lang, depth), lang, rng.chance(0.4))


def render(node, lang, bare, outer=0):
    """bare: leave out the parentheses that change nothing."""
    if isinstance(node, str):
        return node
    op, a, b = node
    if op in ("shiftLeft", "bitMaskOr"):
        return "%s(%s, %s)" % (op, render(a, lang, bare), render(b, lang, bare))
    bound = BINDS[op]
    if lang == "prophy" and bound < 3:      # the schema language has rules of its own for shifts
        text = "%s %s %s" % (render(a, lang, bare, 9), op, render(b, lang, bare, 9))
    else:
        text = "%s %s %s" % (render(a, lang, bare, bound), op, render(b, lang, bare, bound + 1))
    return text if bare and bound >= outer else "(%s)" % text


def tree(rng, value, names, lang, depth):
    pool = sorted(names)
    equal = [n for n in pool if names[n] == value]
    if equal and rng.chance(0.6):
        return rng.pick(equal)
    if depth == 0 or rng.chance(0.15):
        return literal(rng, value, lang)
    roll = rng.randrange(8)
    sub = lambda v: tree(rng, v, names, lang, depth - 1)  # noqa: E731
    small = [n for n in pool if abs(names[n]) < 1 << 40]
    if roll < 4 and small:
        name = rng.pick(small)
        delta = value - names[name]
        if delta < 0:
            return ("-", name, sub(-delta))
        return ("+", sub(delta), name) if rng.chance(0.3) else ("+", name, sub(delta))
    if roll == 4 and value > 0 and value % 2 == 0:
        k = 1 if rng.chance(0.5) or value % 4 else 2
        # expanded in constants and enumerators only
        return ("shiftLeft" if lang == "isar" and rng.chance(0.6) else "<<", sub(value >> k), sub(k))
    if roll == 5 and value > 1:
        factors = [f for f in (2, 3, 5, 7) if value % f == 0]
        if factors:
            f = rng.pick(factors)
            return ("*", sub(value // f), sub(f))
    near = lang == "prophy" or value < 1 << 24      # for languages that calculate with 32 bits
    if roll == 6 and value >= 0:
        if lang != "prophy" and rng.chance(0.6):
            low = value & 0xff
            return ("bitMaskOr" if lang == "isar" and rng.chance(0.6) else "|", sub(value - low), sub(low))
        if near:
            k = rng.randint(1, 3)
            return (">>", sub(value << k), sub(k))
    if roll == 7 and value > 0 and near:
        f = rng.randint(2, 5)
        return ("/", sub(value * f + rng.randint(0, f - 1)), sub(f))
    a = rng.randint(0, 9)
    return ("-", sub(value + a), sub(a))


def decorate(rng, decls, lang, density=0.5, below=1 << 64):
    """A copy of decls with constants added and values, sizes and discriminators
    spelled as expressions over names declared earlier. Values from below on are
    neither spelled nor used, so that the arithmetic of other languages fits."""
    out, names = [], {}
    counter = 0
    inner = "isar-plain" if lang == "isar" else lang

    def spell(value, how=lang):
        near = {n: v for n, v in names.items() if abs(v) < below}
        return expression(rng, value, near, how, rng.randint(0, 3))

    for d in copy.deepcopy(decls):
        while rng.chance(density * 0.6):
            value = rng.pick([rng.randint(0, 12), rng.randint(1, 5), rng.getrandbits(16), rng.randint(1, 300)])
            if rng.chance(0.05):
                value = -value
            name = "K%d" % counter
            counter += 1
            out.append({"k": "const", "n": name, "v": value, "e": spell(value)})
            names[name] = value
        if d["k"] == "enum":
            own = rng.chance(0.3)
            for e in d["m"]:
                if rng.chance(density) and e[1] < below:
                    e.append(spell(e[1]))
                if own:
                    names[e[0]] = e[1]
            for e in d["m"]:
                names[e[0]] = e[1]
        elif d["k"] in ("struct", "union"):
            for m in d["m"]:
                a = m.get("a")
                if a and a[0] in ("fix", "lim") and rng.chance(density):
                    a.append(spell(a[1], inner))
                if d["k"] == "union" and rng.chance(density) and m["d"] < below:
                    m["ds"] = spell(m["d"], inner)
        out.append(d)
    return out


# ------------------------------------------------------------------ files

def owners(decls):
    """name of anything declared -> index of its declaration"""
    out = {}
    for i, d in enumerate(decls):
        out[d["n"]] = i
        if d["k"] == "enum":
            for e in d["m"]:
                out[e[0]] = i
    return out


def dependencies(decls):
    """index -> set of indices a declaration uses directly"""
    own = owners(decls)
    return {i: {own[r] for r in schema.references(d) if r in own and own[r] != i} for i, d in enumerate(decls)}


def split(rng, decls, max_files=5):
    """Partition into files respecting dependency order.
    -> [(stem, [decl indices], [stems included])], includes before users."""
    deps = dependencies(decls)
    n = rng.randint(1, max_files)
    style = rng.randrange(3)
    place = {}
    for i in range(len(decls)):
        floor = max([place[j] for j in deps[i]] or [0])
        if style == 0:      # contiguous slices
            place[i] = max(floor, i * n // max(1, len(decls)))
        elif style == 1:    # anywhere allowed
            place[i] = rng.randint(floor, n - 1)
        else:               # as early as possible or in the last file
            place[i] = floor if rng.chance(0.5) else rng.randint(floor, n - 1)
    groups = [g for g in ([i for i in range(len(decls)) if place[i] == k] for k in range(n)) if g]
    where = {i: k for k, g in enumerate(groups) for i in g}
    files = []
    for k, g in enumerate(groups):
        used = sorted({where[j] for i in g for j in deps[i] if where[j] != k})
        extra = [j for j in range(k) if j not in used and rng.chance(0.15)]
        includes = used + extra
        rng.shuffle(includes)
        files.append(("f%d" % k, g, ["f%d" % j for j in includes]))
    return files


# ------------------------------------------------------------------- isar

def isar_ready(decls):
    """Only what isar can say without patches: no bytes, no greedy arrays."""
    decls = copy.deepcopy(decls)
    for d in decls:
        if d["k"] != "struct":
            continue
        for m in d["m"]:
            if m["t"] == "bytes":
                m["t"] = "u8"
            if m["a"] and m["a"][0] == "greedy":
                m["a"] = ["dyn"]
    return decls


def isar_member(m, dynamic_message):
    attrs = "name=%s type=%s" % (quoteattr(m["n"]), quoteattr(m["t"]))
    a = m["a"]
    if m["o"]:
        return '<member %s optional="true"/>' % attrs
    if not a:
        return "<member %s/>" % attrs
    if a[0] == "fix":
        text = schema.array_size_text(a)
        dim = 'size=%s' % quoteattr(text)
    elif a[0] == "lim":
        dim = 'isVariableSize="true" size=%s' % quoteattr(schema.array_size_text(a))
    elif a[0] == "dyn":
        dim = 'isVariableSize="true"'
    else:
        dim = 'isVariableSize="true" variableSizeFieldName=%s' % quoteattr("@" + a[1])
    return "<member %s><dimension %s/></member>" % (attrs, dim)


def isar_decl(d, messages=()):
    name = quoteattr(d["n"])
    if d["k"] == "const":
        return "<constant name=%s value=%s/>" % (name, quoteattr(str(d.get("e") or d["v"])))
    if d["k"] == "typedef":
        if d["t"] in ISAR_PRIMITIVE and len(d["n"]) % 2:
            return "<typedef name=%s primitiveType=%s/>" % (name, quoteattr(ISAR_PRIMITIVE[d["t"]]))
        return "<typedef name=%s type=%s/>" % (name, quoteattr(d["t"]))
    if d["k"] == "enum":
        body = "".join("\n    <enum-member name=%s value=%s/>" % (
            quoteattr(e[0]), quoteattr(str(e[2] if len(e) > 2 else e[1]))) for e in d["m"])
        return "<enum name=%s>%s\n</enum>" % (name, body)
    if d["k"] == "union":
        body = "".join("\n    <member type=%s name=%s discriminatorValue=%s/>" % (
            quoteattr(m["t"]), quoteattr(m["n"]), quoteattr(str(m.get("ds") or m["d"]))) for m in d["m"])
        return "<union name=%s>%s\n</union>" % (name, body)
    tag = "message" if d["n"] in messages else "struct"
    body = "".join("\n    " + isar_member(m, tag == "message") for m in d["m"])
    return "<%s name=%s>%s\n</%s>" % (tag, name, body, tag)


def isar_patched(decls):
    """(declarations isar can say, patch rules that make decls of them)"""
    plain, rules = copy.deepcopy(decls), []
    for d in plain:
        if d["k"] != "struct":
            continue
        for m in d["m"]:
            if m["t"] == "bytes":
                m["t"] = "u8"
                rules.append("%s type %s byte" % (d["n"], m["n"]))
            if m["a"] and m["a"][0] == "greedy":
                m["a"] = None
                rules.append("%s greedy %s" % (d["n"], m["n"]))
            if m["a"] and m["a"][0] == "elim":
                rules.append("%s limited %s %s" % (d["n"], m["n"], m["a"][2]))
                m["a"] = ["fix", m["a"][1]]
    return plain, "".join(rule + "\n" for rule in rules)


def isar_messages(decls):
    """Structs that may be spelled <message>: those without limited arrays."""
    return [d["n"] for d in decls if d["k"] == "struct" and
            not any(m["a"] and m["a"][0] == "lim" for m in d["m"])]


def to_isar(decls, includes=(), messages=()):
    lines = ['<x xmlns:xi="http://www.xyz.com/1984/XInclude">']
    lines += ['<xi:include href=%s/>' % quoteattr(path) for path in includes]
    lines += [isar_decl(d, messages) for d in decls]
    return "\n".join(lines + ["</x>", ""])


# ------------------------------------------------------------------- sack

SACK = {"u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t", "i8": "int8_t", "i16": "int16_t",
        "i32": "int32_t", "i64": "int64_t", "r32": "float", "r64": "double"}


def sack_ready(decls):
    """C++ subset: fixed arrays and plain members only."""
    decls = copy.deepcopy(decls)
    for d in decls:
        if d["k"] == "struct":
            for m in d["m"]:
                if m["t"] == "bytes":
                    m["t"] = "u8"
                m["o"] = False
                if m["a"] and m["a"][0] != "fix":
                    m["a"] = ["fix", m["a"][1]] if m["a"][0] == "lim" else None
        elif d["k"] == "union":
            for i, m in enumerate(d["m"]):
                m["d"] = i
    return decls


def sack_decl(d):
    spell = lambda t: SACK.get(t, t)  # noqa: E731
    if d["k"] == "const":
        return "enum { %s = %s };" % (d["n"], d.get("e") or d["v"])
    if d["k"] == "typedef":
        return "typedef %s %s;" % (spell(d["t"]), d["n"])
    if d["k"] == "enum":
        return "enum %s { %s };" % (d["n"], ", ".join(
            "%s = %s" % (e[0], e[2] if len(e) > 2 else "%du" % e[1]) for e in d["m"]))
    body = "".join("\n    %s %s%s;" % (
        spell(m["t"]), m["n"], "[%s]" % schema.array_size_text(m["a"]) if m.get("a") else "") for m in d["m"])
    return "%s %s {%s\n};" % (d["k"], d["n"], body)


def to_sack(decls, includes=()):
    lines = ["#include <stdint.h>"] + ['#include "%s"' % path for path in includes]
    return "\n".join(lines + [sack_decl(d) for d in decls] + [""])
