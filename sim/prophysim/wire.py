"""Reference model of the documented wire format (docs/encoding.rst), written
from the document only. Values are plain data:
  int, float -> raw bits as int, enum -> int, bytes -> bytes,
  struct -> dict, union -> [arm name, value], array -> list, absent optional -> None
Sizer members carry no value: they are derived from the arrays.
"""
import struct as _struct

from .schema import SCALARS, FLOATS, FIXED, SIZED, UNLIMITED, shift, sizer, sizers


class Unencodable(Exception):
    """Arrays sharing a sizer differ in length: no encoding exists."""


class Layout(object):
    def __init__(self, types):
        self.types = types
        self._align = {}
        self._size = {}

    # ------------------------------------------------------------ statics
    def align(self, name):
        name = self.types.resolve(name)
        if name not in self._align:
            self._align[name] = self._compute_align(name)
        return self._align[name]

    def _compute_align(self, name):
        if name in SCALARS:
            return SCALARS[name][0]
        if name in FLOATS:
            return FLOATS[name]
        if name == "bytes":
            return 1
        d = self.types.by_name[name]
        if d["k"] == "enum":
            return 1 if "small" in d else 4
        if d["k"] == "union":
            return max([4] + [self.align(m["t"]) for m in d["m"]])
        return max([f["align"] for f in self.fields(name)] or [1])

    def fields(self, name):
        """Wire fields of a struct: implicit counters are fields of their own."""
        name = self.types.resolve(name)
        cache = self.types.lay
        if name in cache:
            return cache[name]
        out = []
        d = self.types.by_name[name]
        counters = sizers(d)
        for m in d["m"]:
            packed = "packed" in d
            base = 1 if packed else self.align(m["t"])
            if m["a"] and m["a"][0] in ("dyn", "lim"):
                out.append({"role": "counter", "of": [m["n"]], "t": "u32", "align": 1 if packed else 4, "ends": False, "m": None,
                            "shift": 0})
            if m["n"] in counters:
                of = [x["n"] for x in d["m"] if sizer(x) == m["n"]]
                out.append({"role": "counter", "of": of, "t": m["t"], "align": base, "ends": False, "m": None,
                            "shift": m.get("shift", 0)})
            elif m["o"]:
                out.append({"role": "optional", "align": max(4, base), "ends": False, "m": m})
            elif m["a"]:
                ends = m["a"][0] in ("dyn", "ext", "greedy")
                out.append({"role": "array", "align": base, "ends": ends, "m": m})
            else:
                out.append({"role": "plain", "align": base, "ends": self.types.kind(m["t"]) != FIXED, "m": m})
        start = 0
        for i, f in enumerate(out):
            f["first_in_block"] = i == start
            if f["ends"] or i == len(out) - 1:
                f_first = out[start]
                f_first["block_align"] = max(g["align"] for g in out[start:i + 1])
                start = i + 1
        cache[name] = out
        return out

    def size(self, name):
        """Byte size of a FIXED type."""
        name = self.types.resolve(name)
        if name not in self._size:
            self._size[name] = self._compute_size(name)
        return self._size[name]

    def _compute_size(self, name):
        if name in SCALARS:
            return SCALARS[name][0]
        if name in FLOATS:
            return FLOATS[name]
        d = self.types.by_name[name]
        if d["k"] == "enum":
            return 1 if "small" in d else 4
        if d["k"] == "union":
            al = self.align(name)
            return up(al + max(self.size(m["t"]) for m in d["m"]), al)
        pos = 0
        for f in self.fields(name):
            pos = up(pos, f["align"])
            pos += self.field_size(f)
        return up(pos, self.align(name))

    def field_size(self, f):
        if f["role"] == "counter":
            return self.size(f["t"])
        m = f["m"]
        if f["role"] == "optional":
            return f["align"] + self.size(m["t"])
        if f["role"] == "array":
            return m["a"][1] * (1 if m["t"] == "bytes" else self.size(m["t"]))
        return self.size(m["t"])

    # ------------------------------------------------------------ default
    def default(self, name):
        name = self.types.resolve(name)
        cat = self.types.category(name)
        if cat in ("int", "float"):
            return 0
        d = self.types.by_name[name]
        if cat == "enum":
            return d["m"][0][1]
        if cat == "union":
            return [d["m"][0]["n"], self.default(d["m"][0]["t"])]
        return {m["n"]: self.default_member(m) for m in self.value_members(name)}

    def value_members(self, name):
        d = self.types.decl(name)
        counters = sizers(d)
        return [m for m in d["m"] if m["n"] not in counters]

    def default_member(self, m):
        if m["o"]:
            return None
        if m["a"]:
            if m["t"] == "bytes":
                return b"\0" * m["a"][1] if m["a"][0] == "fix" else b""
            if m["a"][0] == "fix":
                return [self.default(m["t"]) for _ in range(m["a"][1])]
            return []
        return self.default(m["t"])

    # ------------------------------------------------------------- encode
    def encode(self, name, value, endian, spans=None):
        """endian: '<' or '>'. spans: optional list receiving
        (offset, size, role) of control words and scalars."""
        out = bytearray()
        self._encode(self.types.resolve(name), value, endian, out, spans)
        return bytes(out)

    def _scalar(self, name, value, endian, out, spans, role):
        size = SCALARS[name][0] if name in SCALARS else FLOATS.get(name, 4)
        if spans is not None:
            spans.append((len(out), size, role))
        order = "little" if endian == "<" else "big"
        out += (value & ((1 << (8 * size)) - 1)).to_bytes(size, order)

    def _encode(self, name, value, endian, out, spans):
        cat = self.types.category(name)
        if cat in ("int", "float"):
            self._scalar(name, value, endian, out, spans, cat)
        elif cat == "enum":
            self._scalar("u8" if "small" in self.types.by_name[name] else "u32", value, endian, out, spans, "enum")
        elif cat == "union":
            self._union(name, value, endian, out, spans)
        else:
            self._struct(name, value, endian, out, spans)

    def _union(self, name, value, endian, out, spans):
        start = len(out)
        arm = next(m for m in self.types.by_name[name]["m"] if m["n"] == value[0])
        self._scalar("u32", arm["d"], endian, out, spans, "disc")
        pad(out, start + self.align(name), spans)
        self._encode(self.types.resolve(arm["t"]), value[1], endian, out, spans)
        pad(out, start + self.size(name), spans)

    def _struct(self, name, value, endian, out, spans):
        start = len(out)
        for f in self.fields(name):
            al = f["block_align"] if f["first_in_block"] else f["align"]
            pad(out, start + up(len(out) - start, al), spans)
            m = f["m"]
            if f["role"] == "counter":
                lengths = {len(value[n]) for n in f["of"]}
                if len(lengths) != 1:
                    raise Unencodable(f["of"])
                self._scalar(self.types.resolve(f["t"]), lengths.pop() + f["shift"], endian, out, spans, "counter")
            elif f["role"] == "optional":
                at = len(out)
                v = value[m["n"]]
                self._scalar("u32", 0 if v is None else 1, endian, out, spans, "flag")
                pad(out, at + f["align"], spans)
                if v is None:
                    pad(out, at + f["align"] + self.size(m["t"]), spans)
                else:
                    self._encode(self.types.resolve(m["t"]), v, endian, out, spans)
            elif f["role"] == "array":
                at = len(out)
                v = value[m["n"]]
                if m["t"] == "bytes":
                    if spans is not None and v:
                        spans.append((len(out), len(v), "bytes"))
                    out += v
                else:
                    t = self.types.resolve(m["t"])
                    for item in v:
                        self._encode(t, item, endian, out, spans)
                if m["a"][0] in SIZED:
                    pad(out, at + self.field_size(f), spans)
            else:
                self._encode(self.types.resolve(m["t"]), value[m["n"]], endian, out, spans)
        role = "tail" if self.types.kind(name) == UNLIMITED else "pad"
        pad(out, start + up(len(out) - start, self.align(name)), spans, role)

    def greedy_aligned(self, name, value):
        """False when padding follows a greedy tail (documented ambiguity)."""
        spans = []
        self.encode(name, value, "<", spans)
        return not any(role == "tail" for _, _, role in spans)


def up(n, alignment):
    return (n + alignment - 1) // alignment * alignment


def pad(out, upto, spans, role="pad"):
    if upto > len(out):
        if spans is not None:
            spans.append((len(out), upto - len(out), role))
        out += b"\0" * (upto - len(out))


# ----------------------------------------------------------------- floats

def float_to_bits(value, t):
    if t == "r32":
        return _struct.unpack("<I", _struct.pack("<f", value))[0]
    return _struct.unpack("<Q", _struct.pack("<d", value))[0]


def bits_to_float(bits, t):
    if t == "r32":
        return _struct.unpack("<f", _struct.pack("<I", bits))[0]
    return _struct.unpack("<d", _struct.pack("<Q", bits))[0]


# ----------------------------------------------------------------- values

NARROW = ("bytes", "u8", "i8", "u16", "i16")      # elements of the few very long arrays


def random_value(rng, lay, name, size_bias=None):
    """A random in-range value of a type. size_bias: typical dynamic length."""
    types = lay.types
    name = types.resolve(name)
    cat = types.category(name)
    if cat == "int":
        size, signed = SCALARS[name]
        lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
        roll = rng.random()
        if roll < 0.2:
            return rng.choice([lo, hi, 0, 1 if hi >= 1 else 0])
        if roll < 0.5:
            return rng.randint(max(lo, -3), min(hi, 9))
        return rng.randint(lo, hi)
    if cat == "float":
        size = FLOATS[name]
        while True:
            bits = rng.choice([0, 1 << (8 * size - 1), rng.getrandbits(8 * size),
                               float_to_bits(rng.randint(-9, 9) / 2.0, name),
                               float_to_bits(float("inf"), name)])
            exp = (bits >> 23) & 0xff if name == "r32" else (bits >> 52) & 0x7ff
            mant = bits & 0x7fffff if name == "r32" else bits & ((1 << 52) - 1)
            if not (exp == (0xff if name == "r32" else 0x7ff) and mant):
                return bits
    d = types.by_name[name]
    if cat == "enum":
        return rng.choice(d["m"])[1]
    if cat == "union":
        arm = rng.choice(d["m"])
        return [arm["n"], random_value(rng, lay, arm["t"], size_bias)]
    value = {}
    lengths = {}
    tops = counter_tops(types, d)
    for m in lay.value_members(name):
        if m["o"]:
            value[m["n"]] = random_value(rng, lay, m["t"], size_bias) if rng.chance(0.6) else None
        elif m["a"]:
            kind = m["a"][0]
            if kind == "fix":
                n = m["a"][1]
            elif kind == "lim":
                n = rng.randint(0, m["a"][1])
            else:
                n = rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, size_bias or 5)])
                if size_bias == 300 and types.resolve(m["t"]) in NARROW and rng.chance(0.005) and \
                        (not sizer(m) or sum(1 for x in d["m"] if sizer(x) == sizer(m)) == 1):
                    n = rng.pick([1000, 4096, 65535, 65536, 70000])
                elif types.kind(m["t"]) != FIXED:
                    n = min(n, 3)
                elif types.category(m["t"]) in ("struct", "union"):
                    n = min(n, 100)
                if sizer(m):
                    n = lengths.setdefault(sizer(m), min(n, tops[sizer(m)]))
            if m["t"] == "bytes":
                value[m["n"]] = bytes(rng.choice([0, 1, 255, rng.getrandbits(8)]) for _ in range(n))
            else:
                value[m["n"]] = [random_value(rng, lay, m["t"], size_bias) for _ in range(n)]
        else:
            value[m["n"]] = random_value(rng, lay, m["t"], size_bias)
    return value


def counter_tops(types, d):
    """Most elements each counting member of a struct allows its arrays."""
    tops = {}
    for m in d["m"]:
        counter = sizer(m)
        if counter:
            size, signed = SCALARS[types.resolve(next(x for x in d["m"] if x["n"] == counter)["t"])]
            top = m["a"][1] if m["a"][0] == "elim" else (1 << (8 * size - signed)) - 1 - shift(d, m)
            tops[counter] = min(top, tops.get(counter, top))
    return tops


# ------------------------------------------------------------------- json

def to_json(v):
    if isinstance(v, bytes):
        return {"$b": v.hex()}
    if isinstance(v, dict):
        return {k: to_json(x) for k, x in v.items()}
    if isinstance(v, list):
        return [to_json(x) for x in v]
    return v


def from_json(v):
    if isinstance(v, dict):
        if set(v) == {"$b"}:
            return bytes.fromhex(v["$b"])
        return {k: from_json(x) for k, x in v.items()}
    if isinstance(v, list):
        return [from_json(x) for x in v]
    return v
