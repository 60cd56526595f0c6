"""Choice sources: every random decision of a generator is an integer drawn from one of these.

A generator is a function ``gen(src) -> case``.  ``Source`` draws pseudo random choices (seeded) or replays a recorded
list; whatever is drawn is recorded, so a failing case can be minimised by shrinking the list of choices (internal
reduction) with the very same generator.  Choice 0 is always the simplest alternative.
"""

from __future__ import annotations

import random


class Overrun(Exception):
    """Too many choices: the case is discarded (only ever happens while shrinking or mutating)."""


class Source:
    def __init__(self, seed=None, choices=None, limit=20000):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices
        self.rec = []
        self.limit = limit

    def int(self, lo, hi):
        """An integer in [lo, hi]; lo is the simplest."""
        n = hi - lo
        if n <= 0:
            return lo
        if len(self.rec) >= self.limit:
            raise Overrun
        if self.given is None:
            c = self.rng.randint(0, n)
        else:
            i = len(self.rec)
            c = self.given[i] if i < len(self.given) else 0
            if c > n:
                c = n
        self.rec.append(c)
        return lo + c

    def bool(self, num=1, den=2):
        """True with probability num/den; False is the simplest."""
        return self.int(0, den - 1) >= den - num

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs of (weight, value); the first value is the simplest."""
        total = sum(w for w, _ in pairs)
        c = self.int(0, total - 1)
        for w, v in pairs:
            if c < w:
                return v
            c -= w
        raise AssertionError

    def bytes(self, n):
        out = bytearray()
        while n > 0:
            k = min(n, 8)
            out += self.int(0, (1 << (8 * k)) - 1).to_bytes(k, "little")
            n -= k
        return bytes(out)

    def size(self, lo, hi):
        """A length, biased to small values."""
        if hi <= lo:
            return lo
        if self.bool(1, 4):
            return self.int(lo, hi)
        return self.int(lo, min(hi, lo + 3))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(i, len(seq) - 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]


def int_value(src, bits, signed):
    """An integer of the given width: boundaries, small values, single bits and uniform values."""
    if bits <= 0:
        return 0
    kind = src.int(0, 5)
    if kind == 0:
        raw = src.int(0, min(8, (1 << bits) - 1))
    elif kind == 1:
        raw = (1 << bits) - 1 - src.int(0, min(3, (1 << bits) - 1))
    elif kind == 2:
        raw = (1 << src.int(0, bits - 1)) - src.int(0, 1)
    elif kind == 3:
        raw = ((1 << (bits - 1)) + src.int(0, 2) - 1) & ((1 << bits) - 1)
    else:
        raw = src.int(0, (1 << bits) - 1)
    if signed and raw >> (bits - 1):
        raw -= 1 << bits
    return raw


def shrink(choices, fails, budget):
    """Minimise a list of choices.  ``fails(list) -> list|None`` runs the case and returns the recorded choices of a
    case that still fails (possibly shorter than what was given), or None.  ``budget`` is the number of attempts."""
    best = list(choices)
    left = [budget]

    def attempt(cand):
        nonlocal best
        if left[0] <= 0:
            return False
        left[0] -= 1
        got = fails(cand)
        if got is None:
            return False
        if (len(got), sum(x.bit_length() for x in got), got) < (len(best), sum(x.bit_length() for x in best), best):
            best = got
            return True
        return False

    improved = True
    while improved and left[0] > 0:
        improved = False
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1 and left[0] > 0:
            i = 0
            while i < len(best) and left[0] > 0:
                if attempt(best[:i] + best[i + size :]):
                    improved = True
                else:
                    i += size
            size //= 2
        # zero chunks
        size = max(1, len(best) // 4)
        while size >= 1 and left[0] > 0:
            i = 0
            while i < len(best) and left[0] > 0:
                if any(best[i : i + size]) and attempt(best[:i] + [0] * len(best[i : i + size]) + best[i + size :]):
                    improved = True
                i += size
            size //= 2
        # lower single choices, and lower one while deleting what follows it
        i = 0
        while i < len(best) and left[0] > 0:
            v = best[i]
            if v:
                lo = 0
                for cand in (0, 1, v >> 1, v - 1):
                    if lo <= cand < v and attempt(best[:i] + [cand] + best[i + 1 :]):
                        improved = True
                        break
                    done = False
                    for d in (1, 2, 4):
                        if cand < v and i + 1 + d <= len(best) and attempt(best[:i] + [cand] + best[i + 1 + d :]):
                            improved = done = True
                            break
                    if done:
                        break
            i += 1
    return best
