"""C18 rectangle membership, intersection and union are the set operations"""
from vlib.common import *

RULE = ("A case is a rectangle with a query point (on, inside or beyond a side by powers of two or by the threshold) or a pair of "
        "rectangles (disjoint, touching in a side or corner, overlapping in every relative position, nested, equal), on dyadic grids "
        "or in floating point. Trivial: floating-point ties. Distinct: different choice sequences.")
ASSUMPTIONS = ["union and intersection are judged for rectangles with positive area", "the returned rectangle is judged"]


def rect4(g, prof, r=12):
    x, y = gn.cx(g, prof, r), gn.cy(g, prof, r)
    return [x, y, gn.pos(g, prof, r), gn.pos(g, prof, r)]


def gen_member(g):
    prof = g.weighted((3, "i"), (3, "d"), (1, "f"))
    x, y, w, h = rect4(g, prof)
    if g.raw(9) == 9:
        w = 0
    thr = g.pick([0, 0.5, 1, 0.125, 2, 1e-6, 0.01, -0.25])
    p = []
    for lo, ln, co in ((x, w, gn.cx), (y, h, gn.cy)):
        k = g.raw(6)
        base = lo + ln if g.raw(1) else lo
        if k == 0:
            c = lo + ln * 0.5
        elif k == 1:
            c = base
        elif k == 2:
            c = base + g.signed(2.0 ** -g.int(0, 24))
        elif k == 3:
            c = base + g.signed(thr)
        elif k == 4:
            c = base + g.signed(thr + g.signed(2.0 ** -g.int(3, 20)))
        else:
            c = co(g, prof, 20)
        p.append(c)
    return [[x, y, w, h], p, thr]


def check_member(case):
    (x, y, w, h), p, thr = case
    r = Rect(x, y, w, h)
    (px, py), t = fr(p), F(thr)
    x0, x1, y0, y1 = F(x), F(x) + F(w), F(y), F(y) + F(h)
    lab = []
    tiny = F(1, 10 ** 12) * int(1 + max(abs(c) for c in (x, y, w, h, *p)) / 100)

    def tied(lo, hi, c, e):
        """comparison within rounding distance, and the rounded values are not the exact ones"""
        return any(abs(c - b) < tiny and F(float(b)) != b or 0 < abs(c - b) < tiny for b in (lo - e, hi + e))

    if not (tied(x0, x1, px, 0) or tied(y0, y1, py, 0)):
        want = x0 <= px <= x1 and y0 <= py <= y1
        is_true(r.contains(v(p)), want, ("%r contains %r", r, p))
        lab.append("in" if want else "out")
    if not (tied(x0, x1, px, t) or tied(y0, y1, py, t)):
        want = x0 - t <= px <= x1 + t and y0 - t <= py <= y1 + t
        is_true(r.contains_almost(v(p), thr), want, ("%r almost contains %r (threshold %r)", r, p, thr))
        lab.append("almost" if want else "far")
    return " ".join(lab) or None


def gen_pair(g):
    prof = g.weighted((4, "i"), (3, "d"), (2, "f"))
    a = rect4(g, prof)
    b = []
    for lo, ln, co in ((a[0], a[2], gn.cx), (a[1], a[3], gn.cy)):
        k = g.raw(8)
        if k == 0:
            b.append((co(g, prof, 12), gn.pos(g, prof, 12)))
        elif k == 1:
            b.append((lo, ln))
        elif k == 2:                                  # touches at the far side
            b.append((lo + ln, gn.pos(g, prof, 12)))
        elif k == 3:                                  # touches at the near side
            w = gn.pos(g, prof, 12)
            b.append((lo - w, w))
        elif k == 4:                                  # nested
            b.append((lo + ln * 0.25, ln * 0.5))
        elif k == 5:                                  # covers
            b.append((lo - 1, ln + 2))
        elif k == 6:                                  # overlaps from below / above
            b.append((lo - ln * 0.5, ln))
        elif k == 7:
            b.append((lo + ln * 0.5, ln))
        else:
            b.append((lo, ln * 0.5))
    return [a, [b[0][0], b[1][0], b[0][1], b[1][1]], prof == "f", gn.pt(g, prof, 15)]


def wide_enough(a, b):
    """extents that do not vanish beside the coordinates"""
    m = max(abs(float(c)) for c in a + b)
    return min(a[2], a[3], b[2], b[3]) > 1e-12 * m


def state(r):
    return (r.left(), r.top(), r.size().length(), r.size().width())


def check_pair(case):
    a, b, is_float, p = case
    if not wide_enough(a, b):
        return None
    A1, B1 = Rect(*a), Rect(*b)
    sa, sb = state(A1), state(B1)
    ia = [F(a[0]), F(a[0]) + F(a[2]), F(a[1]), F(a[1]) + F(a[3])]
    ib = [F(b[0]), F(b[0]) + F(b[2]), F(b[1]), F(b[1]) + F(b[3])]
    m = max(abs(float(x)) for x in ia + ib + [1])
    tol = 1e-9 * m if is_float else 0.0
    x0, x1, y0, y1 = max(ia[0], ib[0]), min(ia[1], ib[1]), max(ia[2], ib[2]), min(ia[3], ib[3])
    dx, dy = x1 - x0, y1 - y0
    lab = ""
    for s, t, sb_ in ((a, b, sb), (b, a, sa)):
        r, o = Rect(*s), Rect(*t)
        got = r.intersected(o)
        eq(state(o), sb_, ("the argument after intersected(%r)", o))
        if is_float and (abs(dx) < 1e-9 * m or abs(dy) < 1e-9 * m):
            lab = "tie"
        elif dx > 0 and dy > 0:
            lab = "overlap"
            is_true(got.is_valid(), True, ("validity of the common part of %r and %r", s, t))
            for x, y, name in ((got.left(), x0, "left"), (got.right(), x1, "right"), (got.top(), y0, "top"), (got.bottom(), y1, "bottom")):
                near(x, float(y), ("%s of the common part of %r and %r", name, s, t), 0, tol)
        else:
            lab = "touch" if dx >= 0 and dy >= 0 else "apart"
            is_true(got.is_valid(), False, ("validity of the common part of %r and %r, which share no area", s, t))
            eq(float(got.area()), 0.0, ("area of the common part of %r and %r, which share no area", s, t))
        r = Rect(*s)
        got = r.united(o)
        eq(state(o), sb_, ("the argument after united(%r)", o))
        is_true(got.is_valid(), True, ("validity of the union of %r and %r", s, t))
        for x, y, name in ((got.left(), min(ia[0], ib[0]), "left"), (got.right(), max(ia[1], ib[1]), "right"),
                           (got.top(), min(ia[2], ib[2]), "top"), (got.bottom(), max(ia[3], ib[3]), "bottom")):
            near(x, float(y), ("%s of the union of %r and %r", name, s, t), 0, tol)
    for op in ("intersected", "united"):
        r = Rect(*a)
        got = getattr(r, op)(r)
        for x, y, name in ((got.left(), ia[0], "left"), (got.right(), ia[1], "right"), (got.top(), ia[2], "top"), (got.bottom(), ia[3], "bottom")):
            near(x, float(y), ("%s of %r.%s(itself)", name, a, op), 0, tol)
    if not is_float:
        # pointwise
        q = v(p)
        ina, inb = Rect(*a).contains(q), Rect(*b).contains(q)
        if dx > 0 and dy > 0:
            is_true(Rect(*a).intersected(Rect(*b)).contains(q), ina and inb, ("the common part of %r and %r contains %r", a, b, p))
        if ina or inb:
            is_true(Rect(*a).united(Rect(*b)).contains(q), True, ("the union of %r and %r contains %r", a, b, p))
    return lab + (" float" if is_float else "")


def gen_many(g):
    prof = gn.exact_profile(g)
    rects = []
    around = g.raw(1)                                  # all around the origin, or anywhere
    for _ in range(g.int(2, 6)):
        if around:
            a, b = gn.pos(g, prof, 8), gn.pos(g, prof, 8)
            rects.append([-a, -b, a + gn.pos(g, prof, 8), b + gn.pos(g, prof, 8)])
        else:
            rects.append(rect4(g, prof, 8))
    return [rects, [g.raw(1) for _ in range(6)]]


def check_many(case):
    """folding several rectangles, the running result being the receiver or the argument"""
    rects, side = case
    ins = [max(r[0] for r in rects), min(r[0] + r[2] for r in rects), max(r[1] for r in rects), min(r[1] + r[3] for r in rects)]
    out = [min(r[0] for r in rects), max(r[0] + r[2] for r in rects), min(r[1] for r in rects), max(r[1] + r[3] for r in rects)]
    for op, want in (("intersected", ins), ("united", out)):
        acc = Rect(*rects[0])
        for i, r in enumerate(rects[1:]):
            other = Rect(*r)
            acc = getattr(acc, op)(other) if side[i] else getattr(other, op)(acc)
        if op == "intersected" and (want[1] <= want[0] or want[3] <= want[2]):
            is_true(acc.is_valid(), False, ("validity of the common part of %r", rects))
            eq(float(acc.area()), 0.0, ("area of the common part of %r", rects))
        else:
            eq((acc.left(), acc.right(), acc.top(), acc.bottom()), tuple(want), ("%s over %r", op, rects))
    return "n%d %s" % (len(rects), "common" if ins[1] > ins[0] and ins[3] > ins[2] else "empty")


SUBS = [
    Sub("membership", gen_member, check_member, "contains and contains_almost, exact", n=12000, frame="ZO"),
    Sub("pairs", gen_pair, check_pair, "intersection and union of two rectangles, both orders, argument untouched", n=8000, frame="ZO"),
    Sub("folds", gen_many, check_many, "intersection and union over several rectangles", n=5000, frame="ZO"),
]
