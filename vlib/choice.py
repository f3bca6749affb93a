"""Choice-sequence property-based testing core (minithesis style).

Every random decision of a generator goes through Src.draw(); the recorded
sequence of draws *is* the test case, so it can be replayed and shrunk without
knowing anything about what the generator builds out of it.  0 is always the
simplest choice.
"""
import random


class Invalid(Exception):
    """the choice sequence does not describe a valid case"""


class Src:
    __slots__ = ("rng", "prefix", "rec", "pos", "limit", "tags")

    def __init__(self, rng=None, prefix=None, limit=100000):
        self.rng = rng
        self.prefix = prefix
        self.rec = []
        self.pos = 0
        self.limit = limit
        self.tags = set()

    # -- primitive
    def draw(self, n):
        """an integer in [0, n]"""
        if n <= 0:
            return 0
        if len(self.rec) >= self.limit:
            raise Invalid("too many choices")
        if self.prefix is not None:
            v = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
            self.pos += 1
            if v > n:
                v = n
        else:
            v = self.rng.randint(0, n)
        self.rec.append(v)
        return v

    # -- derived
    def int(self, lo, hi):
        return lo + self.draw(hi - lo)

    def choice(self, seq):
        return seq[self.draw(len(seq) - 1)]

    def bool(self, num=1, den=2):
        """true with probability num/den; false is simplest"""
        return self.draw(den - 1) >= den - num

    def weighted(self, pairs):
        """pairs: (weight, value); the first is the simplest"""
        tot = sum(w for w, _ in pairs)
        k = self.draw(tot - 1)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def bytes(self, n):
        return bytes(self.draw(255) for _ in range(n))

    def tag(self, t):
        self.tags.add(t)

    def many(self, lo, hi, more=3):
        """yields a list length the shrinker can cut: after lo, each further
        element is preceded by a continue? draw"""
        i = 0
        while i < hi:
            if i >= lo and self.draw(more) == 0:
                return
            yield i
            i += 1


def from_rng(seed_tuple):
    return Src(rng=random.Random(repr(seed_tuple)))


def shrink(choices, test_many, budget=400):
    """Minimise `choices`.  test_many(list of candidate sequences) returns a
    list of (fails?, recorded choices) for each; candidates are tried in small
    parallel batches and the first failing one (in order) is adopted."""
    best = list(choices)
    used = 0
    seen = set()

    def key(c):
        return (len(c), c)

    def attempt(cands):
        nonlocal best, used
        cs = []
        for c in cands:
            t = tuple(c)
            if t in seen or key(c) >= key(best):
                continue
            seen.add(t)
            cs.append(c)
        i = 0
        while i < len(cs):
            if used >= budget:
                return False
            chunk = cs[i:i + 8]
            i += 8
            used += len(chunk)
            for fails, rec in test_many(chunk):
                if fails and key(list(rec)) < key(best):
                    best = list(rec)
                    return True
        return False

    improved = True
    while improved and used < budget:
        improved = False
        # delete chunks
        k = max(1, len(best) // 2)
        while k >= 1 and used < budget:
            if attempt([best[:i] + best[i + k:] for i in range(len(best) - k, -1, -max(1, k // 2 if k > 4 else k))]):
                improved = True
                k = min(k, max(1, len(best) // 2))
            else:
                k //= 2
        # zero chunks
        k = 8
        while k >= 1 and used < budget:
            if attempt([best[:i] + [0] * k + best[i + k:] for i in range(0, max(0, len(best) - k + 1), k)
                        if any(best[i:i + k])]):
                improved = True
            else:
                k //= 2
        # lower single values
        cands = []
        for i, v in enumerate(best):
            if v > 1:
                cands.append(best[:i] + [v // 2] + best[i + 1:])
            if v > 0:
                cands.append(best[:i] + [v - 1] + best[i + 1:])
        if attempt(cands):
            improved = True
    return best
