"""A small property-based testing engine (in the manner of minithesis).

A generator is a function of a Source; every random decision it takes is one
recorded integer choice.  A case is therefore determined by its choice
sequence, shrinking works on the sequence (shortlex smaller is simpler), and
whatever comes out of the shrinker is by construction something the generator
can produce.  Used instead of Hypothesis, whose generation cost here is about
twenty times the cost of running a case.

Choice 0 is always the simplest alternative.
"""

import random
import time


class Overrun(Exception):
    pass


class Source:
    __slots__ = ("rng", "prefix", "choices", "i")

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.i = 0

    def below(self, n):
        """Uniform in 0..n-1."""
        if n <= 1:
            return 0
        i = self.i
        self.i = i + 1
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = n - 1
        elif self.rng is None:
            v = 0
        else:
            v = int(self.rng.random() * n) if n < 1 << 40 else self.rng.randrange(n)
        self.choices.append(v)
        return v

    def int(self, a, b):
        return a + self.below(b - a + 1)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def chance(self, n):
        """True once in n; False is simplest."""
        return self.below(n) == n - 1

    def bool(self):
        return self.below(2) == 1

    def bytes(self, a, b=None):
        n = self.int(a, a if b is None else b)
        return self.below(1 << (8 * n)).to_bytes(n, "big") if n else b""

    def list(self, fn, a, b):
        return [fn(self) for _ in range(self.int(a, b))]

    def text(self, alphabet, a, b):
        return "".join(alphabet[self.below(len(alphabet))] for _ in range(self.int(a, b)))

    def sample(self, seq):
        """A permutation of seq (identity is simplest)."""
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.below(len(seq))))
        return out


def generate(fn, seed):
    s = Source(random.Random(seed))
    return fn(s), s.choices


def replay(fn, choices):
    s = Source(None, choices)
    return fn(s), s.choices


def shrink(fn, choices, fails, max_runs=3000, max_s=20.0):
    """Minimise `choices` while `fails(case)`.  Returns (choices, case)."""
    best = list(choices)
    case = replay(fn, best)[0]
    state = {"runs": 0, "end": time.monotonic() + max_s}
    seen = set()

    class Stop(Exception):
        pass

    def attempt(cand):
        nonlocal best, case
        try:
            c, used = replay(fn, cand)
        except Exception:  # noqa: BLE001 - a generator may choke on odd choices
            return False
        key = tuple(used)
        if (len(used), used) >= (len(best), best) or key in seen:
            return False
        seen.add(key)
        if state["runs"] >= max_runs or time.monotonic() > state["end"]:
            raise Stop
        state["runs"] += 1
        if fails(c):
            best, case = used, c
            return True
        return False

    try:
        while True:
            before = list(best)
            k = max(1, len(best) // 2)
            while k:
                i = len(best) - k
                while i >= 0:
                    if not attempt(best[:i] + best[i + k :]):
                        # dropping an element often needs its count lowered too
                        if i > 0 and best[i - 1] > 0 and k <= 8:
                            c = best[:i] + best[i + k :]
                            c[i - 1] -= 1
                            attempt(c)
                        i -= 1 if k <= 4 else k // 2
                    else:
                        i = min(i, len(best) - k)
                k //= 2
            for k in (8, 4, 2):
                for i in range(len(best) - k, -1, -1):
                    if any(best[i : i + k]):
                        attempt(best[:i] + [0] * k + best[i + k :])
            for i in range(len(best)):
                if i >= len(best) or not best[i]:
                    continue
                if attempt(best[:i] + [0] + best[i + 1 :]):
                    continue
                lo, hi = 0, best[i]
                while lo + 1 < hi and i < len(best):
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1 :]):
                        hi = mid
                    else:
                        lo = mid
            if best == before:
                break
    except Stop:
        pass
    return best, case
