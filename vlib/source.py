"""Choice sources.

Every generator in /verif/checks is an ordinary function gen(g) that builds one JSON-serialisable case
by asking the source `g` for choices.  All choices boil down to g.raw(n): an integer in [0, n].  The
sequence of raw choices identifies the case, so one and the same generator can be driven by

  * a seeded pseudo random generator (bulk search),
  * a recorded sequence (replay, mutation of interesting cases, shrinking),
  * Hypothesis (integers drawn through its data strategy), and
  * a byte string (Atheris / libFuzzer).

Generators are written so that the choice 0 is the simplest alternative: shrinking a sequence towards
shorter sequences of smaller numbers shrinks the case.
"""
import random
import struct


class G:
    """choice source: a prefix of fixed choices, then random ones (rng) or zeros (rng is None)"""

    __slots__ = ("rng", "prefix", "choices", "consts", "_rand", "zoom", "ox", "oy", "fresh")

    def __init__(self, rng=None, prefix=(), consts=()):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.consts = consts
        self.fresh = getattr(consts, "fresh", ())   # constants new since the recorded tree
        self.zoom = 1                    # frame of the case: see gens.frame
        self.ox = self.oy = 0
        self._rand = rng.random if rng is not None else None

    # ---- the one primitive -------------------------------------------------------------------
    def raw(self, n):
        c = self.choices
        i = len(c)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v > n or v < 0:
                v = v % (n + 1)
        elif self._rand is None:
            v = 0
        elif n < 4503599627370496:
            v = int(self._rand() * (n + 1))
        else:
            v = self.rng.randrange(n + 1)
        c.append(v)
        return v

    # ---- derived -------------------------------------------------------------------------------
    def bool(self):
        return self.raw(1) == 1

    def chance(self, k):
        """true with probability 1/k; 0 means false"""
        return self.raw(k - 1) == k - 1

    def int(self, lo, hi):
        """integer in [lo, hi]; choice 0 is the value closest to zero, then alternating signs"""
        if self.fresh and hi - lo > 15:
            v = self.near_fresh(lo, hi, True)
            if v is not None:
                return v
        if lo >= 0:
            return lo + self.raw(hi - lo)
        if hi <= 0:
            return hi - self.raw(hi - lo)
        v = self.raw(hi - lo)
        m = min(-lo, hi)
        if v <= 2 * m:
            return (v + 1) // 2 if v & 1 else -(v // 2)
        v -= m
        return v if hi > -lo else -v

    def pick(self, seq):
        return seq[self.raw(len(seq) - 1)]

    def weighted(self, *pairs):
        """weighted((3, 'a'), (1, 'b')): the first alternative is the simplest"""
        tot = 0
        for w, _ in pairs:
            tot += w
        v = self.raw(tot - 1)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def unit(self):
        """float in [0, 1)"""
        k = self.raw(3)
        if k == 0:
            return self.raw(15) / 16.0
        return self.raw((1 << 40) - 1) / float(1 << 40)

    def near_fresh(self, lo, hi, whole=False, k=11):
        """now and then (one in k + 1) a value in [lo, hi] at or next to a constant that is new in the code"""
        if self.raw(k) != k:
            return None
        c = self.fresh[self.raw(len(self.fresh) - 1)]
        if self.raw(3) == 3:
            c = -c
        j = self.raw(6)
        if whole:
            c = int(round(c)) + (0, 1, -1, 0, 1, 2, -2)[j]
        else:
            d = max(abs(c), 1e-9)
            c = c + (0.0, d * 1e-3, -d * 1e-3, d * 0.25, -d * 0.25, d * 1e-7, -d * 1e-7)[j]
        return c if lo <= c <= hi else None

    def uniform(self, lo, hi):
        if self.fresh:
            v = self.near_fresh(lo, hi)
            if v is not None:
                return v
        return lo + (hi - lo) * self.unit()

    def signed(self, x):
        return -x if self.raw(1) else x

    def mag(self, lo_exp, hi_exp):
        """positive float, log-uniform between 10**lo_exp and 10**hi_exp"""
        if self.fresh:
            v = self.near_fresh(10.0 ** lo_exp, 10.0 ** hi_exp)
            if v is not None:
                return v
        return 10.0 ** self.uniform(lo_exp, hi_exp)

    def const(self, lim=None):
        """a numeric constant that occurs in the code under test, or one of its neighbours"""
        if not self.consts:
            return 0
        if self.fresh and self.raw(1):
            v = self.fresh[self.raw(len(self.fresh) - 1)]
        else:
            v = self.consts[self.raw(len(self.consts) - 1)]
        k = self.raw(7)
        if k == 1:
            v = -v
        elif k == 2:
            v = v + 1
        elif k == 3:
            v = v - 1
        elif k == 4:
            v = v * (1 + 1e-9) + 1e-9
        elif k == 5:
            v = v * (1 - 1e-9) - 1e-9
        elif k == 6:
            v = v * 0.5
        elif k == 7:
            v = v * 2
        if lim is not None and abs(v) > lim:
            v = (v % lim) if v > 0 else -((-v) % lim)
        return v

    def list(self, elem, lo, hi, avg=None):
        """list of elem(self), length in [lo, hi]; deleting an element's choices shortens the list"""
        out = []
        k = avg if avg is not None else max(2, (lo + hi) // 2)
        while len(out) < hi:
            if len(out) >= lo and self.raw(k) == 0:
                break
            out.append(elem(self))
        return out

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.raw(len(seq) - 1)))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


class HypG(G):
    """choices drawn through Hypothesis"""
    __slots__ = ("_draw", "_ints")

    def __init__(self, draw, ints, consts=()):
        G.__init__(self, None, (), consts)
        self._draw = draw
        self._ints = ints

    def raw(self, n):
        v = self._draw(self._ints(0, n))
        self.choices.append(v)
        return v


class BytesG(G):
    """choices read from a byte string (two, four or eight bytes each, zeros at the end)"""
    __slots__ = ("_data", "_pos")

    def __init__(self, data, consts=()):
        G.__init__(self, None, (), consts)
        self._data = data
        self._pos = 0

    def raw(self, n):
        w = 1 if n < 256 else 2 if n < 65536 else 8
        b = self._data[self._pos:self._pos + w]
        self._pos += w
        v = int.from_bytes(b, "little") % (n + 1)
        self.choices.append(v)
        return v


def mutate(rng, choices):
    """a random variation of a recorded choice sequence"""
    c = list(choices)
    for _ in range(1 + int(rng.random() * 3)):
        if not c:
            return c
        k = rng.random()
        i = int(rng.random() * len(c))
        if k < 0.35:
            c[i] = int(rng.random() * (c[i] * 2 + 2))
        elif k < 0.5:
            c[i] = max(0, c[i] + (1 if rng.random() < 0.5 else -1))
        elif k < 0.65:
            j = int(rng.random() * len(c))
            c[i] = c[j]
        elif k < 0.75:
            j = min(len(c), i + 1 + int(rng.random() * 6))
            del c[i:j]
        elif k < 0.85:
            j = min(len(c), i + 1 + int(rng.random() * 6))
            c[i:i] = c[i:j]
        elif k < 0.93:
            del c[i:]
        else:
            c[i] = 0
    return c


def shrink(choices, fails, max_tries=4000, deadline=None):
    """smallest choice sequence found for which fails(seq) is true; fails() returns the normalised
    sequence actually consumed (or None when the case does not fail)"""
    import time
    best = list(choices)
    tries = [0]
    seen = set()

    def key(c):
        return (len(c), c)

    def attempt(c):
        nonlocal best
        t = tuple(c)
        if t in seen or tries[0] >= max_tries or (deadline and time.monotonic() > deadline):
            return False
        seen.add(t)
        tries[0] += 1
        got = fails(c)
        if got is not None and key(list(got)) < key(best):
            best = list(got)
            return True
        return False

    improved = True
    while improved and tries[0] < max_tries and not (deadline and time.monotonic() > deadline):
        improved = False
        # delete blocks
        for size in (32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size
            while i >= 0:
                if i + size <= len(best) and attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    # deleting elements of a list also needs its length choice lowered
                    if i > 0 and i + size <= len(best) and best[i - 1] > 0:
                        c = best[:i] + best[i + size:]
                        c[i - 1] -= 1
                        if attempt(c):
                            improved = True
                i -= 1
        # zero blocks
        for size in (8, 4, 2):
            for i in range(len(best) - size, -1, -1):
                if i + size <= len(best) and any(best[i:i + size]):
                    if attempt(best[:i] + [0] * size + best[i + size:]):
                        improved = True
        # minimise single choices
        for i in range(len(best) - 1, -1, -1):
            if i >= len(best) or best[i] == 0:
                continue
            if attempt(best[:i] + [0] + best[i + 1:]):
                improved = True
                continue
            lo, hi = 0, best[i]
            for d in (1, 2, 3):
                if i < len(best) and best[i] > d and attempt(best[:i] + [d] + best[i + 1:]):
                    improved = True
                    break
            while i < len(best) and lo + 1 < best[i]:
                mid = (lo + best[i]) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                else:
                    lo = mid
                if tries[0] >= max_tries:
                    break
        # lower pairs together
        for i in range(len(best) - 1):
            if i + 1 < len(best) and best[i] > 0 and best[i + 1] > 0:
                c = list(best)
                d = min(c[i], c[i + 1])
                c[i] -= d
                c[i + 1] -= d
                if attempt(c):
                    improved = True
    return best, tries[0]
