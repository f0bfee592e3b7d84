"""Damage to compiler inputs: the storage and editor faults of the compiler
simulations. Every function is (rng, text or bytes) -> damaged copy."""
import re

TOKEN = re.compile(r'[A-Za-z_]\w*|0x[0-9a-fA-F]+|\d+|"[^"\n]*"|\.\.\.|<<|>>|\s+|.', re.S)
WORDS = ["const", "enum", "typedef", "struct", "union", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "float",
         "double", "bytes", "#include", "{", "}", "[", "]", "<", ">", "(", ")", ";", ":", ",", "=", "...", "@", "*",
         "+", "-", "/", "<<", ">>", '"', "//", "/*", "*/", "\\", "$", "'", "#", ".", "..", "~", "|", "&", "^", "%"]
NUMBERS = ["0", "1", "-1", "2", "3", "08", "0x", "0xg", "1.5", "4294967295", "4294967296", "18446744073709551616",
           "-2147483649", "99999999999999999999999", "0x1ffffffff", "007", "1e9", "1u"]
EXPRESSIONS = ["1/0", "7/2", "(7/2)", "1-2", "-(-1)", "1 << -1", "1 << 3", "1 >> -1", "(1", "1)", "", "()", "1 +", "* 2",
               "1 << 64", "1 << 100000000000000000000", "1 << 1000000", "0 / 1", "3/2*2", "1//2", "~1", "1 ? 2 : 3", "x",
               "(1 << 20000) / 7", "1 - - 1", "-1 / 2", "9/3"]
ISAR_VALUES = EXPRESSIONS + NUMBERS + [
    "shiftLeft(", "shiftLeft(1)", "shiftLeft(1,2", "shiftLeft(1, 2)", "bitMaskOr(1,2)", "bitMaskOr(,)", "shiftLeft(,1)",
    "bitMaskOr(shiftLeft(1,2),3)", "shiftLeft(shiftLeft(", "bitMaskOr(1 2)", "shiftLeft()", ")", "THIS_IS_VARIABLE_SIZE_ARRAY",
    "true", "false", "u8", "r32", "byte", "@", "@x", "None", "8 bit integer unsigned", "a b", "1|2", "|", "ż", "0b1",
    "1_000", " 5 ", "+5", "٥"]
UNICODE = ["ż", "中", " ", "﻿", " ", "\x00", "\x0c", "\x1b", "\U0001f600", "٣"]


def tokens(text):
    return TOKEN.findall(text)


def names(text):
    return sorted(set(re.findall(r"\b[A-Z]\w*", text)))


def vocabulary(rng, text):
    roll = rng.randrange(10)
    if roll < 3:
        return rng.pick(WORDS)
    if roll < 5:
        return rng.pick(NUMBERS)
    if roll < 8:
        pool = names(text)
        return rng.pick(pool) if pool else "X"
    if roll == 8:
        return rng.pick(EXPRESSIONS)
    return rng.pick(UNICODE)


def expression(rng, pool, functions=()):
    """An arithmetic expression, half of the time damaged."""
    def part(depth):
        roll = rng.random()
        if depth == 0 or roll < 0.2:
            return rng.pick(pool) if pool and rng.chance(0.3) else rng.pick(NUMBERS + ["1", "2", "7", "100"])
        if roll < 0.3:
            return "-" + part(depth - 1)
        if roll < 0.5:
            return "(" + part(depth - 1) + ")"
        if functions and roll < 0.65:
            return "%s(%s, %s)" % (rng.pick(functions), part(depth - 1), part(depth - 1))
        return "%s %s %s" % (part(depth - 1), rng.pick(["+", "-", "*", "/", "<<", ">>"]), part(depth - 1))
    text = part(rng.randint(1, 3))
    if rng.chance(0.5):
        return text
    toks = tokens(text)
    at = rng.randrange(len(toks))
    op = rng.randrange(5)
    if op == 0:
        del toks[at:]
    elif op == 1:
        del toks[:at]
    elif op == 2:
        del toks[at]
    elif op == 3:
        toks.insert(at, rng.pick(WORDS + UNICODE))
    else:
        toks.insert(at, toks[at])
    return "".join(toks)


def token_damage(rng, text):
    toks = tokens(text)
    solid = [i for i, t in enumerate(toks) if not t.isspace()]
    if not solid:
        return rng.pick(WORDS)
    at = rng.pick(solid)
    op = rng.randrange(9)
    if op == 0:
        del toks[at]
    elif op == 1:
        toks.insert(at, toks[at] + " ")
    elif op == 2:
        other = rng.pick(solid)
        toks[at], toks[other] = toks[other], toks[at]
    elif op in (3, 4):
        toks[at] = vocabulary(rng, text)
    elif op == 5:
        toks.insert(at, " " + vocabulary(rng, text) + " ")
    elif op == 6:
        del toks[at:at + rng.randint(2, 12)]
    elif op == 7:
        toks[at] = rng.pick(["(", "-", "<", "[", "{", "<<", "/*", "1+", "+", ";"]) * rng.pick([3, 50, 1500]) + toks[at]
    else:
        pool = [i for i in solid if re.match(r"\d|[A-Z]", toks[i])]
        if pool:
            toks[rng.pick(pool)] = rng.pick(EXPRESSIONS + ["9" * 5000, "0x" + "f" * 6000])
    return "".join(toks)


DECL = re.compile(r"^(?:const|enum|typedef|struct|union)\b.*?^\};|^(?:const|typedef)\b[^\n]*$", re.S | re.M)


def prophy_structure(rng, text):
    """Damage at the level of declarations."""
    blocks = [(m.start(), m.end()) for m in DECL.finditer(text)]
    if not blocks:
        return token_damage(rng, text)
    start, end = rng.pick(blocks)
    block = text[start:end]
    op = rng.randrange(12)
    if op == 0:
        return text[:start] + text[end:]
    if op == 1:
        return text + "\n" + block + "\n"
    if op == 2:
        other = rng.pick(blocks)
        return text[:other[0]] + block + "\n" + text[other[0]:]
    if op == 3:     # move to the front: uses before declarations
        return block + "\n" + text[:start] + text[end:]
    own = re.search(r"^(?:struct|union|enum)\s+(\w+)", block)
    if op == 4 and own:     # self-recursive
        inside = "%s: %s self;" % (rng.randint(0, 9), own.group(1)) if block.startswith("union") else "%s %s;" % (
            own.group(1), rng.pick(["self", "self[2]", "self<>", "self<...>", "self<@f0>"]))
        return text[:start] + block.replace("{", "{ " + inside, 1) + text[end:]
    if op == 5:     # rename something to a name in use
        pool = names(text) or ["X"]
        a, b = rng.pick(pool), rng.pick(pool)
        return text[:start] + re.sub(r"\b%s\b" % a, b, block) + text[end:]
    if op == 6:     # repeat a line of the body
        lines = block.split("\n")
        i = rng.randrange(len(lines))
        lines.insert(i, lines[i])
        return text[:start] + "\n".join(lines) + text[end:]
    if op == 7:     # empty body
        return text[:start] + re.sub(r"\{.*\}", "{}", block, flags=re.S) + text[end:]
    if op == 8:     # other size
        expr = rng.pick(EXPRESSIONS + NUMBERS) if rng.chance(0.5) else expression(rng, names(text))
        new = re.sub(r"\[[^\]]*\]", lambda m: "[%s]" % expr, block, count=1)
        if new == block:
            new = re.sub(r"= *[^,;\n]+", lambda m: "= %s" % expr, block, count=1)
        if new == block:
            new = re.sub(r"^(\s*)[^\s:{]+:", lambda m: "%s%s:" % (m.group(1), expr), block, count=1, flags=re.M)
        return text[:start] + new + text[end:]
    if op == 9:
        return text[:start] + re.sub(r"<>|\[[^\]]*\]|<\.\.\.>", lambda m: rng.pick(["<>", "<...>", "[2]", "<3>", "<@f0>", "<@x>"]),
                                     block) + text[end:]
    if op == 10:
        return text[:end] + text[end:].replace(";", rng.pick(["", ";;", ",", ":"]), 1)
    pool = names(text) or ["X"]
    return text + "\n%s\n" % rng.pick([
        "typedef %s %s;" % (rng.pick(pool), rng.pick(pool)), "struct X { X x; };", "typedef Y Y;", "const Z = Z;",
        "enum W { W_A = W_B, W_B = 1 };", "union V { 1: V v; };", "struct X { bytes a; };", "typedef bytes B;",
        "const Q = %s;" % rng.pick(EXPRESSIONS), "enum N { N_A = %s };" % rng.pick(EXPRESSIONS + NUMBERS),
        "struct P { u8 a[%s]; };" % rng.pick(EXPRESSIONS + NUMBERS), "#include \"\"", "#pragma \"x\"", "enum M { M_A = 1, M_A = 2 };",
        "enum M { M_A = 1, M_B = 1 };", "struct L { u8 a; u8 a; };", "union H { 1: u8 a; 2: u8 a; };",
        "union H { 1: u8 a; 1: u8 b; };", "struct R { u8 num_of_a; u8 a<>; };", "union H { %s: u8 a; };" % rng.pick(EXPRESSIONS),
        "struct G { r32 a; float b; u8 c<@a>; u8 d<@b>; };", "struct GG { u8 x<...>; }; union HH { 1: GG a; }; struct II { GG a; u8 b; };"])


def xml_damage(rng, text):
    """Damage at the level of XML elements and attributes."""
    op = rng.randrange(14)
    attrs = list(re.finditer(r'([\w:-]+)=("[^"]*")', text))
    elems = list(re.finditer(r"<(\w[\w:-]*)([^<>]*)>", text))
    if op < 5 and attrs:
        m = rng.pick(attrs)
        if op == 0:
            return text[:m.start()] + text[m.end():]
        if op == 1:
            pool = ["name", "type", "value", "size", "size2", "primitiveType", "isVariableSize", "variableSizeFieldName",
                    "variableSizeFieldType", "discriminatorValue", "optional", "comment", "href", "dimension", "x"]
            return text[:m.start(1)] + rng.pick(pool) + text[m.end(1):]
        if op == 2:
            other = rng.pick(attrs)
            return text[:m.start(2)] + other.group(2) + text[m.end(2):]
        pool = names(text)
        numeric = [a for a in attrs if a.group(1) in ("value", "size", "size2", "discriminatorValue")]
        if op == 3 and numeric:
            m = rng.pick(numeric)
            value = expression(rng, pool, ("shiftLeft", "bitMaskOr"))
        else:
            value = rng.pick(pool) if pool and rng.chance(0.3) else rng.pick(ISAR_VALUES + ["9" * 5000])
        value = value.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")
        return text[:m.start(2)] + '"%s"' % value + text[m.end(2):]
    if op == 5 and elems:
        m = rng.pick(elems)
        extra = rng.pick(['isVariableSize="true"', 'size2="2"', 'optional="true"', 'comment="x"', 'href="a.xml"', 'size="3"',
                          'variableSizeFieldName="@x"', 'variableSizeFieldName=""', 'variableSizeFieldType="X"', 'comment="\'\'\' &quot;"'])
        return text[:m.end(1)] + " " + extra + text[m.end(1):]
    if op == 6 and elems:
        m = rng.pick(elems)
        tag = rng.pick(["constant", "typedef", "enum", "enum-member", "struct", "union", "message", "member", "dimension", "x"])
        return text[:m.start(1)] + tag + text[m.end(1):]
    lines = text.split("\n")
    i = rng.randrange(len(lines))
    if op == 7:
        del lines[i]
    elif op == 8:
        lines.insert(i, lines[i])
    elif op == 9:
        j = rng.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
    elif op == 10:
        names_ = names(text)
        n = rng.pick(names_) if names_ else "X"
        lines.insert(-2, rng.pick([
            '<struct name="Rec"><member name="r" type="Rec"/></struct>', '<typedef name="Ta" type="Tb"/><typedef name="Tb" type="Ta"/>',
            '<typedef name="Tself" type="Tself"/>', '<constant name="Kself" value="Kself"/>',
            '<constant name="Ka" value="Kb"/><constant name="Kb" value="Ka"/>', '<constant name="Ka" value="Kb + 1"/><constant name="Kb" value="(Ka)"/>',
            '<struct name="Sa"><member name="x" type="Sb"/></struct><struct name="Sb"><member name="x" type="Sa"/></struct>',
            '<union name="Ua"><member name="x" type="Ub" discriminatorValue="1"/></union><union name="Ub"><member name="x" type="Ua" discriminatorValue="1"/></union>',
            '<enum name="Ea"><enum-member name="Ea_1" value="Ea_1"/></enum>', '<enum name="Ea"><enum-member name="Ea_1" value="Ea"/></enum>',
            '<enum name="Ea"><enum-member name="Ea_1" value="1"/><enum-member name="Ea_2" value="0x1"/></enum>',
            '<enum name="Ea"><enum-member name="Ea_1" value="1"/><enum-member name="Ea_1" value="2"/></enum>',
            '<struct name="%s"/>' % n, '<struct name="%s"><member name="q" type="%s"/></struct>' % (n, n), '<enum/>', '<typedef/>', '<constant/>',
            '<typedef name="%s" type="%s"/>' % (n, rng.pick(names_) if names_ else "X"), '<struct><member/></struct>', '<union><member/></union>',
            '<union name="Uq"><member name="a" type="u8" discriminatorValue="%s"/></union>' % rng.pick(NUMBERS),
            '<struct name="Sq"><member name="a" type="u8"><dimension/></member></struct>',
            '<struct name="Sq"><member name="a" type="u8" optional="true"><dimension size="2"/></member></struct>',
            '<struct name="Sq"><member name="a" type="Missing" optional="true"/></struct>',
            '<struct name="Sq"><member name="" type="u8"><dimension size="THIS_IS_VARIABLE_SIZE_ARRAY"/></member></struct>',
            '<struct name="Sq"><member name="a" type="u8"><dimension isVariableSize="true" variableSizeFieldName="nope"/></member></struct>',
            '<struct name="Sq"><member name="a" type="u8"><dimension size="%s"/></member></struct>' % rng.pick(ISAR_VALUES).replace("<", "&lt;"),
            '<typedef name="Tq" primitiveType="%s"/>' % rng.pick(["8 bit integer unsigned", "9 bit integer", "u8", n, ""]),
            '<typedef name="u8" primitiveType="9 bit integer"/>', '<typedef primitiveType="8 bit integer unsigned"/>',
            '<struct name="Sq"><member name="a" type="u8"><dimension size="%s" size2="%s"/></member></struct>' % (
                rng.pick(["2", n, "0", "-1", "x", "THIS_IS_VARIABLE_SIZE_ARRAY"]), rng.pick(["3", n, "0", "-1", "x + 1", ""])),
            '<include href=""/>', '<include href="."/>', '<xi:include/>', '<note href="x.xml"/>', '&undefined;', '<![CDATA[<x>]]>']))
    elif op == 11:
        return rng.pick(['<?xml version="1.0" encoding="%s"?>\n' % rng.pick(["utf-8", "utf-16", "latin-1", "nonsense", "ascii", "utf-7", "big5"]),
                         '<!DOCTYPE x [<!ENTITY a "b">]>\n', '<!DOCTYPE x [<!ENTITY a SYSTEM "nope.txt">]>\n', "﻿", " \n"]) + text
    elif op == 12:
        return text.replace("<x", "<x><y" * rng.pick([1, 40, 2000]), 1)
    else:
        return token_damage(rng, text)
    return "\n".join(lines)


def byte_damage(rng, data):
    """Torn, stale or corrupted blocks, as a disk or a crashed editor leaves them."""
    n = len(data)
    op = rng.randrange(9)
    at = rng.randrange(n) if n else 0
    if op == 0:
        return data[:at], "torn"
    if op == 1 and n:
        return data[:at] + bytes([data[at] ^ (1 << rng.randrange(8))]) + data[at + 1:], "bit_flip"
    if op == 2:
        size = rng.pick([4, 64, 512])
        return data[:at] + b"\0" * min(size, n - at) + data[at + size:], "zeroed_block"
    if op == 3:
        return data[:at] + rng.pick([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\x80abc", b"\xfe\xff"]) + data[at:], "not_utf8"
    if op == 4:
        return data + data[at:], "stale_tail"
    if op == 5:
        return b"\xef\xbb\xbf" + data, "byte_order_mark"
    if op == 6:
        return data.replace(b"\n", rng.pick([b"\r\n", b"\r", b"\n\n", b""])), "line_ends"
    if op == 7:
        return bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 200))), "garbage"
    return b"", "empty"


def random_text(rng):
    return " ".join(rng.pick(WORDS + NUMBERS + EXPRESSIONS + UNICODE + ["A", "B", "f", "\n", '"a.prophy"'])
                    for _ in range(rng.randint(0, 60)))


def long_chain(rng, lang):
    """Hundreds of definitions, each made of the one before."""
    kind = rng.pick(["typedef", "struct", "dynamic", "const", "enum", "expression", "parentheses", "members", "arms"])
    n = rng.pick([100, 300, 900 if kind == "typedef" else 500])
    many = {"expression": rng.pick("+-*").join(["1"] * n), "parentheses": "(" * n + "1" + ")" * n}
    if lang == "prophy":
        if kind in many:
            return "const C = %s;\n" % many[kind]
        if kind == "members":
            return "struct S\n{\n%s};\n" % "".join("    u%d m%d;\n" % (8 << i % 4, i) for i in range(n))
        if kind == "arms":
            return "union U\n{\n%s};\n" % "".join("    %d: u%d m%d;\n" % (i, 8 << i % 4, i) for i in range(n))
        first = {"typedef": "typedef u8 x0;\n", "struct": "struct x0 { u8 a; };\n", "dynamic": "struct x0 { u8 a<>; };\n",
                 "const": "const x0 = 1;\n", "enum": "enum e0 { x0 = 1 };\n"}[kind]
        line = {"typedef": "typedef x%d x%d;\n", "struct": "struct x%(b)d { x%(a)d a; };\n",
                "dynamic": "struct x%(b)d { u8 b; x%(a)d a; };\n", "const": "const x%(b)d = x%(a)d + 1;\n",
                "enum": "enum e%(b)d { x%(b)d = x%(a)d + 1 };\n"}[kind]
        text = first + "".join(line % ((i, i + 1) if kind == "typedef" else {"a": i, "b": i + 1}) for i in range(n))
        return text + ("struct S { x%d a; x%d b[2]; };\n" % (n, n) if kind in ("typedef", "struct") else "")
    if kind in many:
        return '<x><constant name="C" value="%s"/></x>' % many[kind]
    if kind == "members":
        return '<x><struct name="S">%s</struct></x>' % "".join(
            '<member name="m%d" type="u%d"/>\n' % (i, 8 << i % 4) for i in range(n))
    if kind == "arms":
        return '<x><union name="U">%s</union></x>' % "".join(
            '<member name="m%d" type="u%d" discriminatorValue="%d"/>\n' % (i, 8 << i % 4, i) for i in range(n))
    line = {"typedef": '<typedef name="x%(b)d" type="x%(a)d"/>',
            "struct": '<struct name="x%(b)d"><member name="a" type="x%(a)d"/></struct>',
            "dynamic": '<struct name="x%(b)d"><member name="a" type="x%(a)d"/></struct>',
            "const": '<constant name="x%(b)d" value="x%(a)d + 1"/>',
            "enum": '<enum name="e%(b)d"><enum-member name="x%(b)d" value="x%(a)d + 1"/></enum>'}[kind]
    first = {"typedef": '<typedef name="x0" type="u8"/>', "const": '<constant name="x0" value="1"/>',
             "enum": '<enum name="e0"><enum-member name="x0" value="1"/></enum>',
             "struct": '<struct name="x0"><member name="a" type="u8"/></struct>',
             "dynamic": '<struct name="x0"><member name="a" type="u8"><dimension isVariableSize="true"/></member></struct>'}[kind]
    lines = [first] + [line % {"a": i, "b": i + 1} for i in range(n)]
    order = rng.pick(["as is", "reversed", "shuffled"])
    if order == "reversed":
        lines.reverse()
    elif order == "shuffled":
        rng.shuffle(lines)
    return "<x>\n%s\n</x>\n" % "\n".join(lines)


def dense(rng, lang):
    """Dozens of definitions, each made of several before it: few definitions, paths without number."""
    n = rng.pick([20, 40, 60])
    reach = rng.pick([1, 2, 5, n])
    kinds = rng.pick([["struct"], ["optional"], ["array"], ["union"], ["dynamic"], ["const"], ["enum"],
                      ["struct", "optional", "array", "union", "typedef"], ["struct", "union", "typedef", "dynamic"]])
    names = ["x0"]
    lines = [{"const": "const x0 = 1;", "enum": "enum e0 { x0 = 1 };", "dynamic": "struct x0 { u8 a<>; };"}.get(
        kinds[0], "struct x0 { u8 a; u8 b<3>; };")]
    isar = [{"const": '<constant name="x0" value="1"/>', "enum": '<enum name="e0"><enum-member name="x0" value="1"/></enum>',
             "dynamic": '<struct name="x0"><member name="a" type="u8"><dimension isVariableSize="true"/></member></struct>'}.get(
        kinds[0], '<struct name="x0"><member name="a" type="u8"/></struct>')]
    for i in range(1, n):
        kind, name = rng.pick(kinds), "x%d" % i
        used = [rng.pick(names[-reach:]) for _ in range(rng.pick([2, 2, 3]))]
        if kind in ("const", "enum"):
            total = rng.pick([" + ", " | " if lang == "isar" else " - ", " * "]).join(used)
            lines.append("const %s = %s;" % (name, total) if kind == "const" else "enum e%d { %s = %s };" % (i, name, total))
            isar.append('<constant name="%s" value="%s"/>' % (name, total) if kind == "const" else
                        '<enum name="e%d"><enum-member name="%s" value="%s"/></enum>' % (i, name, total))
        elif kind == "typedef":
            lines.append("typedef %s %s;" % (used[0], name))
            isar.append('<typedef name="%s" type="%s"/>' % (name, used[0]))
        elif kind == "union":
            lines.append("union %s { %s };" % (name, " ".join("%d: %s m%d;" % (j, u, j) for j, u in enumerate(used))))
            isar.append('<union name="%s">%s</union>' % (name, "".join(
                '<member name="m%d" type="%s" discriminatorValue="%d"/>' % (j, u, j) for j, u in enumerate(used))))
        else:
            form = {"optional": "%s* m%d;", "array": "%s m%d[2];", "dynamic": "%s m%d<>;" if rng.chance(0.3) else "%s m%d;"}.get(
                kind, "%s m%d;")
            lines.append("struct %s { %s };" % (name, " ".join(form % (u, j) for j, u in enumerate(used))))
            form = {"optional": '<member name="m%d" type="%s" optional="true"/>',
                    "array": '<member name="m%d" type="%s"><dimension size="2"/></member>'}.get(
                        kind, '<member name="m%d" type="%s"/>')
            isar.append('<struct name="%s">%s</struct>' % (name, "".join(form % (j, u) for j, u in enumerate(used))))
        names.append(name)
    if lang == "prophy":
        return "\n".join(lines) + "\n"
    order = rng.pick(["as is", "reversed", "shuffled"])
    if order == "reversed":
        isar.reverse()
    elif order == "shuffled":
        rng.shuffle(isar)
    return "<x>\n%s\n</x>\n" % "\n".join(isar)


def patch_text(rng, decls):
    """Patch rules, some good, some not."""
    structs = [d for d in decls if d["k"] in ("struct", "union")]
    lines = []
    for _ in range(rng.randint(0, 6)):
        d = rng.pick(decls) if decls and (not structs or rng.chance(0.15)) else (rng.pick(structs) if structs else None)
        name = d["n"] if d and rng.chance(0.9) else rng.pick(["Missing", "", "u8", "-"])
        members = [m["n"] for m in d["m"]] if d and d["k"] in ("struct", "union") else ["a"]
        member = rng.pick(members) if members and rng.chance(0.85) else rng.pick(["nope", "f0", "num_of_f0", "0"])
        other = rng.pick(members) if members and rng.chance(0.5) else rng.pick(["nope", "f1", "n0"])
        t = rng.pick(["u8", "u64", "r32", "byte", "Missing", d["n"] if d else "X", rng.pick(decls)["n"] if decls else "Y"])
        lines.append(rng.pick([
            "%s type %s %s" % (name, member, t), "%s insert %s %s %s" % (name, rng.pick(["0", "1", "999", "-1", "x", "1.5"]), rng.pick([member, "fresh"]), t),
            "%s remove %s" % (name, member), "%s dynamic %s %s" % (name, member, other), "%s greedy %s" % (name, member),
            "%s static %s %s" % (name, member, rng.pick(NUMBERS + ["K0", "E0_0", "Missing", "1/0", "2*3", "K0+1", ")"])),
            "%s limited %s %s" % (name, member, other), "%s struct" % name, "%s struct x" % name,
            "%s rename %s" % (name, rng.pick(["Fresh", t, "1x", name])), "%s rename %s %s" % (name, member, other), "%s rename" % name,
            "%s" % name, "%s explode %s" % (name, member), "%s type" % name, "", "   ", "# comment", "ż %s" % name, "%s remove" % name]))
    return "\n".join(lines) + ("\n" if rng.chance(0.8) else "")


def plant_error(rng, text, mark):
    """Adds one error at a known place: the only line with the mark."""
    wrong = rng.pick([
        "struct Zz\n{\n    u8 a;\n    %s f;\n};", "const Zz = %s;", "const Zz = (2 + 0x3) * %s;", "typedef %s Zz;",
        "enum Zz\n{\n    Zz_1 = 1,\n    Zz_2 = %s\n};", "union Zz\n{\n    1: u8 a;\n    2: %s b;\n};",
        "struct Zz\n{\n    u8 a[%s];\n};", "const Zz = 1 / 0; // %s", "const Zz = ; // %s", "#include \"%s.prophy\"",
        "struct Zz { u8 %s<...>; u8 b; };", "struct Zz\n{\n    u8 a;\n    u8 a; // %s\n};", "const Zz = 1 << -1; // %s"]) % mark
    for _ in range(rng.pick([0, 0, 1, 2])):
        wrong = rng.pick(["/* one\n * two\n */\n", "// one line\n", "\n\n\n", "/* a */ /* b */\n", "const Zy%d = 1;\n" % rng.randint(
            0, 9999)]) + wrong
    starts = [m.start() for m in re.finditer(r"^(?:struct|union|enum|const|typedef)\b", text, re.M)] + [len(text)]
    at = rng.pick(starts)
    return text[:at] + wrong + "\n" + text[at:]


SACK_TYPES = ("long double", "wchar_t", "int&", "char16_t", "bool", "void*", "__int128", "Unknown", "decltype(1)", "std::string",
              "struct Incomplete", "enum Nowhere", "const int", "volatile unsigned", "auto", "unsigned long long", "size_t",
              "int S1::*", "void (*)(int)", "double _Complex", "S1", "S2", "union {}", "struct {}", "enum {}",
              "union { int a; float b; }", "struct { int a; } ", "enum { A_A, A_B }", "S3*", "class C { int c; }")


def sack_structure(rng, text):
    lines = text.split("\n")
    fields = [i for i, line in enumerate(lines) if re.match(r"    \S.*;$", line)]
    op = rng.randrange(7)
    if op < 3 and fields:
        i = rng.pick(fields)
        lines[i] = "    %s %s;" % (rng.pick(SACK_TYPES), lines[i].rstrip(";").split()[-1])
    elif op == 3 and fields:
        i = rng.pick(fields)
        lines[i] = lines[i].rstrip(";") + rng.pick([" : 3;", "[];", "[0];", "[2][3];", "[-1];", "[4000000000];", " = 0;", ", more;"])
    elif op == 4:
        lines.append(rng.pick([
            "struct X { X x; };", "struct Y : S1 { int a; };", "template <class T> struct Z { T t; }; struct ZZ { Z<int> z; };",
            "namespace n { struct A { int a; }; } struct B { n::A a; };", "extern \"C\" { struct D { int a; }; }", "#error no",
            "#include \"nope.hpp\"", "enum class F : unsigned char { F_A = 1 }; struct G { F f; };", "struct H;",
            "struct I { H h; H* p; };", "union J {}; struct K { J j; };", "enum L {}; struct M { L l; };", "int f(int);",
            "struct S1 { int again; };", "using N = int; struct O { N n; };", "struct P { static int s; int f(); };", "struct Q {",
            "}", "/*", "#if 0", "#define struct union", "enum R { R_A = -1, R_B = 0xffffffffff }; struct T { R r; };"]))
    elif op == 5:
        rng.shuffle(lines)
    else:
        i = rng.randrange(len(lines))
        del lines[i]
    return "\n".join(lines)
