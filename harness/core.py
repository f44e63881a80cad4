"""Generation engine: recorded choice sequences, seeded search, shrinking.

A *case* is a function of a ``Gen``.  Every random choice it makes goes through the Gen and is
recorded, so a case is replayed exactly from the recorded list of choices and shrunk by editing
that list (deleting and lowering choices; 0 is always the simplest choice).
"""
import random
import time


class Violation(Exception):
    """The property under test does not hold for this case."""
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Discard(Exception):
    """The generated case lies outside of the property's domain."""


class Gen:
    __slots__ = ('rng', 'src', 'pos', 'rec', 'dense', 'flags', 'texts', 'words', 'nums', 'pool')

    def __init__(self, rng=None, src=None):
        self.rng = rng
        self.src = src
        self.pos = 0
        self.rec = []
        self.dense = 0.5
        self.flags = set()
        self.texts, self.words, self.nums = [], [], []      # values drawn so far
        self.pool = {}              # kind -> the few values this case is made of

    def below(self, n):
        """Integer in [0, n)"""
        if n <= 1:
            return 0
        if self.src is None:
            v = int(self.rng.random() * n)
        else:
            v = self.src[self.pos] if self.pos < len(self.src) else 0
            self.pos += 1
            if v >= n:
                v %= n
        self.rec.append(v)
        return v

    def chance(self, p):
        """True with probability p (when generating); False is the simple choice"""
        if self.src is None:
            v = 1 if self.rng.random() < p else 0
        else:
            v = self.src[self.pos] if self.pos < len(self.src) else 0
            self.pos += 1
            v = 1 if v else 0
        self.rec.append(v)
        return bool(v)

    def opt(self):
        """Is an optional part present?  The rate is drawn once per case (swarm style)."""
        return self.chance(self.dense)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def count(self, lo=0, hi=3, p=0.5):
        n = lo
        while n < hi and self.chance(p):
            n += 1
        return n

    def set_density(self):
        self.dense = (0.5, 0.15, 0.85, 0.04, 0.97)[self.below(5)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def case_rng(seed, name, i):
    return random.Random(f'{seed}/{name}/{i}')


def shrink(fails, choices, max_evals=2500, max_s=25.0):
    """Greedy minimisation of a failing choice list.  ``fails(list) -> recorded list or None``"""
    t0 = time.time()
    evals = [0]
    best = list(choices)

    def attempt(cand):
        nonlocal best
        if evals[0] >= max_evals or time.time() - t0 > max_s:
            return False
        evals[0] += 1
        rec = fails(cand)
        if rec is None:
            return False
        # the recorded list is the canonical form; accept only if it is simpler
        if (len(rec), sum(rec), rec) < (len(best), sum(best), best):
            best = list(rec)
            return True
        return False

    improved = True
    while improved and evals[0] < max_evals and time.time() - t0 <= max_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best):
                break
            v = best[i]
            for c in (v // 2, v - 1):
                if 0 <= c < v and attempt(best[:i] + [c] + best[i + 1:]):
                    improved = True
                    break
    return best, evals[0]
