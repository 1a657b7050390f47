"""The only source of randomness: everything derives from one integer."""
import hashlib
import random


def derive(*parts):
    h = hashlib.sha256(repr(tuple(parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Rng(random.Random):
    """random.Random is fully specified for a given int seed (no hash use)."""

    def __new__(cls, *parts):
        return super().__new__(cls)

    def __init__(self, *parts):
        super().__init__(derive(*parts))

    def flip(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]
