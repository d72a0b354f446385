"""Minimal property-based-testing engine: every random choice goes through a
recorded choice sequence, so a failing case replays from, and shrinks on, that
sequence (the minithesis/Hypothesis-internal technique)."""
import random
import time


class Src:
    """Source of choices.  With `prefix` it replays (0 = the simplest choice
    once the prefix is exhausted); otherwise it draws from a seeded RNG."""

    def __init__(self, seed=None, prefix=None):
        self.prefix = prefix
        self.pos = 0
        self.rec = []
        self.rng = random.Random(seed) if prefix is None else None
        self.labels = {}

    def i(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.prefix is not None:
            v = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
            self.pos += 1
            if v >= n:
                v %= n
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def rng_(self, lo, hi):
        return lo + self.i(hi - lo + 1)

    r = rng_

    def choice(self, seq):
        return seq[self.i(len(seq))]

    def p(self, num, den=100):
        """True with probability num/den; shrinks to False."""
        if num <= 0:
            return False
        if self.prefix is not None:
            return bool(self.i(2))
        v = 1 if self.rng.randrange(den) < num else 0
        self.rec.append(v)
        return bool(v)

    def weighted(self, pairs):
        """pairs: list of (weight, value); shrinks towards the first entry."""
        pairs = [x for x in pairs if x[0] > 0]
        if len(pairs) == 1:
            return pairs[0][1]
        if self.prefix is not None:
            return pairs[self.i(len(pairs))][1]
        tot = sum(w for w, _ in pairs)
        r = self.rng.randrange(tot)
        for k, (w, v) in enumerate(pairs):
            if r < w:
                self.rec.append(k)
                return v
            r -= w

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


def shrink(choices, fails, max_s=60.0, max_evals=600):
    """Greedy choice-sequence shrinking. `fails(list)->bool`; it must be
    deterministic.  Returns (choices, evals)."""
    t0 = time.time()
    evals = 0
    best = list(choices)
    seen = set()

    def ok(c):
        nonlocal evals
        if time.time() - t0 > max_s or evals >= max_evals:
            return False
        k = tuple(c)
        if k in seen:
            return False
        seen.add(k)
        evals += 1
        return fails(c)

    improved = True
    while improved and time.time() - t0 < max_s and evals < max_evals:
        improved = False
        # truncate
        n = len(best)
        k = n // 2
        while k >= 1:
            if len(best) > k and ok(best[:-k]):
                best = best[:-k]
                improved = True
            else:
                k //= 2
        # delete chunks
        for size in (512, 256, 128, 64, 32, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                c = best[:i] + best[i + size:]
                if ok(c):
                    best = c
                    improved = True
                i -= size
        # zero chunks
        for size in (32, 8, 2, 1):
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    c = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if ok(c):
                        best = c
                        improved = True
                i += size
        # lower values
        for i in range(len(best)):
            v = best[i] if i < len(best) else 0
            while v > 0:
                done = True
                for nv in (v // 2, v - 1):
                    if nv < v:
                        c = best[:i] + [nv] + best[i + 1:]
                        if ok(c):
                            best = c
                            v = nv
                            improved = True
                            done = False
                            break
                if done:
                    break
    return best, evals
