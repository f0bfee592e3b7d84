"""A simulated link: senders emit packets, the link delays, reorders, duplicates,
drops, fragments and corrupts them, receivers see the surviving bytes.

The link runs at generation time on packets of the reference encoder, so every
delivery in a trace is concrete bytes plus the list of faults that made it."""
from .kernel import Scheduler
from .wire import random_value

CONTROL = ("counter", "flag", "disc", "enum")

FAULTS = ("truncate", "extend", "bitflip", "byteset", "counter", "flag", "disc", "enum", "zero_block", "garbage_block",
          "splice", "repeat", "shift", "noise", "misroute", "endian")


class FaultMix(object):
    """Swarm: each run enables a random subset of fault kinds."""

    def __init__(self, rng, rate=None, faults=FAULTS):
        self.kinds = [k for k in faults if rng.chance(0.6)] or [rng.pick(faults)]
        self.rate = rng.pick([0.3, 0.5, 0.8]) if rate is None else rate
        self.p_second = rng.pick([0.0, 0.2, 0.5])
        self.p_drop = rng.pick([0.0, 0.1])
        self.p_dup = rng.pick([0.0, 0.1, 0.3])
        self.p_stream = rng.pick([0.0, 0.05, 0.15])
        self.jitter = rng.pick([0.1, 1.0, 10.0])


def word_values(rng, role, old, size):
    """Interesting wrong values of a control word."""
    full = (1 << (8 * size)) - 1
    common = [0, 1, 2, 3, full, full >> 1, (full >> 1) + 1, old + 1, old - 1, old * 2, old << 8, old ^ 0x80, 255, 256,
              65535, 65536, 65537, 0x10000000, 0x20000001, 0x3fffffff, 0x40000000, 0x15555556]
    return rng.pick(common) & full


def corrupt(rng, kind, data, spans, endian, other):
    """-> new bytes, or None when the fault does not apply to this packet."""
    n = len(data)
    if kind == "truncate":
        if not n:
            return None
        if rng.chance(0.5) and spans:
            off, size, _ = rng.pick(spans)
            return data[:min(n - 1, off + rng.randint(0, size))]
        return data[:rng.randrange(n)]
    if kind == "extend":
        extra = rng.pick([1, 2, 3, 4, 7, 8, 9, rng.randint(1, 64)])
        fill = rng.pick([b"\0", b"\1", b"\xff", b""])
        return data + (fill * extra if fill else rng.randbytes(extra))
    if kind == "bitflip":
        if not n:
            return None
        out = bytearray(data)
        for _ in range(rng.pick([1, 1, 1, 2, 4])):
            out[rng.randrange(n)] ^= 1 << rng.randrange(8)
        return bytes(out)
    if kind == "byteset":
        if not n:
            return None
        out = bytearray(data)
        out[rng.randrange(n)] = rng.pick([0, 1, 2, 0x7f, 0x80, 0xff])
        return bytes(out)
    if kind in CONTROL:
        words = [s for s in spans if s[2] == kind and s[0] + s[1] <= n]
        if not words:
            return None
        off, size, _ = rng.pick(words)
        order = "little" if endian == "<" else "big"
        old = int.from_bytes(data[off:off + size], order)
        value = word_values(rng, kind, old, size)
        return data[:off] + value.to_bytes(size, order) + data[off + size:]
    if kind in ("zero_block", "garbage_block"):
        if not n:
            return None
        at = rng.randrange(n)
        size = min(n - at, rng.pick([2, 4, 8, 16]))
        fill = b"\0" * size if kind == "zero_block" else rng.randbytes(size)
        return data[:at] + fill + data[at + size:]
    if kind == "splice":
        if not n or not other:
            return None
        at = rng.randrange(n)
        return data[:at] + other[min(len(other), at if rng.chance(0.5) else rng.randrange(len(other))):]
    if kind == "repeat":
        return data + data
    if kind == "shift":
        k = rng.randint(1, 8)
        return data[k:] if rng.chance(0.5) else bytes(k) + data
    if kind == "noise":
        return rng.randbytes(rng.pick([0, 1, 3, 4, 8, rng.randint(0, 64)]))
    return data


def session(rng, lay, names, mix, packets, slots, size_bias=None, max_stream=160, value_of=None):
    """Simulate the link. Yields (time, delivery) in delivery order, where
    delivery = {"t": type, "s": slot, "e": endian, "b": bytes, "f": faults, "v": value or None}.
    "v" is the value sent when the bytes arrive intact at the right decoder."""
    sched = Scheduler()
    senders = max(1, min(4, len(names)))
    history = []
    when = [0.0] * senders
    value_of = value_of or (lambda t: random_value(rng, lay, t, size_bias))
    for _ in range(packets):
        who = rng.randrange(senders)
        when[who] += rng.expovariate(1.0)
        t = rng.pick(names)
        value = value_of(t)
        endian = rng.pick("<>")
        spans = []
        data = lay.encode(t, value, endian, spans)
        item = {"t": t, "s": rng.randrange(slots), "e": endian, "b": data, "f": [], "v": value}
        if rng.chance(mix.p_drop):
            continue
        if 0 < len(data) <= max_stream and rng.chance(mix.p_stream):
            # a byte stream: the receiver tries to decode after every fragment
            at, t0 = 0, when[who]
            whole = rng.chance(0.5)
            while at < len(data) - 1:
                at = min(len(data) - 1, at + (1 if whole else rng.randint(1, 8)))
                t0 += rng.random() * mix.jitter / 10
                sched.at(t0, dict(item, b=data[:at], f=["fragment"], v=None))
            sched.at(t0 + 0.001, item)
            continue
        if rng.chance(mix.rate):
            for _ in range(1 + (1 if rng.chance(mix.p_second) else 0)):
                kind = rng.pick(mix.kinds)
                if kind == "misroute":
                    to = rng.pick(names)
                    if to != item["t"]:
                        item = dict(item, t=to, v=None, f=item["f"] + [kind])
                    continue
                if kind == "endian":
                    item = dict(item, e="<" if item["e"] == ">" else ">", v=None, f=item["f"] + [kind])
                    continue
                new = corrupt(rng, kind, item["b"], spans, item["e"], rng.pick(history) if history else None)
                if new is not None and new != item["b"]:
                    item = dict(item, b=new, v=None, f=item["f"] + [kind])
        history.append(data)
        sched.at(when[who] + rng.random() * mix.jitter, item)
        if rng.chance(mix.p_dup):
            sched.at(when[who] + rng.random() * mix.jitter * 2, dict(item, s=rng.randrange(slots)))
    while sched:
        item = sched.pop()
        yield sched.now, item
