"""Seed derivation. Every random choice of a run comes from one `Rng`, whose
seed is a pure function of (VERIF_SEED, property, stream, run index)."""
import hashlib
import random


def derive(*parts):
    text = "/".join(str(part) for part in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")


class Rng(random.Random):
    """random.Random seeded by an int (never by hash()), with a few helpers."""

    def __init__(self, seed):
        self.seed_value = int(seed)
        super().__init__(self.seed_value)

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]"""
        total = sum(w for w, _ in pairs)
        point = self.random() * total
        for weight, value in pairs:
            point -= weight
            if point < 0:
                return value
        return pairs[-1][1]

    def child(self, label):
        return Rng(derive(self.getrandbits(64), label))
