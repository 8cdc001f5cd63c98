"""Sub-check definition, violation type and helpers shared by all checks."""
import math
import os
import zlib

FORCE_DERIVED = os.environ.get("PYRUS_DERIVED") == "1"
FORCE_SHARE = os.environ.get("PYRUS_SHARE") == "1"


class Violation(Exception):
    """the property does not hold for the case at hand"""


class Sub:
    """one executable oracle.

    gen(g) -> JSON-serialisable case;  check(case) -> None for a trivial case, otherwise a string of
    space separated labels (the case is then counted as non-trivial); raises on a violation.
    """

    def __init__(self, name, gen, check, doc, n=20000, examples=(), hyp=150, weight=1, frame=None, share=True):
        self.name = name
        self.share = share                 # whether equal points of a case may be one object
        if frame:
            from vlib import gens

            def framed(g):
                gens.frame(g, frame)
                return gen(g)
            self.gen = framed
        else:
            self.gen = gen
        self.check = check
        self.doc = doc
        self.n = n
        self.examples = list(examples)
        self.hyp = hyp
        self.weight = weight


class Shared:
    """objects of the running case: in a quarter of the cases points with the same coordinates are one and the same object;
    in one of sixteen the points and angles given are of a class derived from the library's"""
    on = False
    derived = False
    objs = {}

    @classmethod
    def begin(cls, sub, case):
        k = zlib.crc32(repr(case).encode())
        cls.on = sub.share and (FORCE_SHARE or k % 4 == 0)
        cls.derived = FORCE_DERIVED or k % 16 == 5
        if cls.objs:
            cls.objs = {}

    @classmethod
    def get(cls, make, p):
        k = (make, repr(p))
        o = cls.objs.get(k)
        if o is None:
            o = cls.objs[k] = make(*p)
        return o


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def _w(what):
    """descriptions may be tuples (format, arguments...), formatted only when needed"""
    return what if isinstance(what, str) else what[0] % tuple(what[1:])


def eq(got, want, what):
    if not (got == want) or isinstance(got, bool) != isinstance(want, bool):
        raise Violation("%s: got %r, expected %r" % (_w(what), got, want))


def is_true(got, want, what):
    """predicates: only the truth value counts"""
    if bool(got) != bool(want):
        raise Violation("%s: got %r, expected %r" % (_w(what), got, want))


def near(got, want, what, rel=1e-9, abs_=1e-9, scale=0.0):
    """|got - want| <= abs_ + rel * max(|want|, scale)"""
    try:
        d = abs(float(got) - float(want))
    except (TypeError, ValueError):
        raise Violation("%s: got %r, expected %r" % (_w(what), got, want))
    if not d <= abs_ + rel * max(abs(float(want)), scale):
        raise Violation("%s: got %r, expected %r (difference %g)" % (_w(what), got, want, d))


def near_pt(p, want, what, rel=1e-9, abs_=1e-9, scale=0.0):
    m = max(scale, abs(want[0]), abs(want[1]))
    tol = abs_ + rel * m
    if not (abs(p.x() - want[0]) <= tol and abs(p.y() - want[1]) <= tol):
        raise Violation("%s: got %r, expected %r" % (_w(what), p, want))


def same_points(got, want, what, tol):
    """got: Vector2D objects, want: (x, y) pairs; equal as sets (each matched once) within tol"""
    left = [(p.x(), p.y()) for p in got]
    for w in want:
        best = None
        for i, p in enumerate(left):
            d = max(abs(p[0] - w[0]), abs(p[1] - w[1]))
            if d <= tol and (best is None or d < best[0]):
                best = (d, i)
        if best is None:
            raise Violation("%s: got %r, expected %r (no point near %r)" % (_w(what), list(got), want, w))
        left.pop(best[1])
    if left:
        raise Violation("%s: got %r, expected %r" % (_w(what), list(got), want))


def norm180(d):
    """degree value reduced to (-180, 180] (float, exact for |d| <= 360)"""
    d = math.fmod(d, 360.0)
    if d > 180.0:
        d -= 360.0
    elif d <= -180.0:
        d += 360.0
    return d


def ang_diff(a, b):
    """absolute difference of two directions in degrees"""
    return abs(norm180(float(a) - float(b)))
