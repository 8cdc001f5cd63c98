"""C08 lines intersect in their unique common point, or are reported parallel"""
from vlib.common import *

RULE = ("A case is a pair of lines given by coefficients (integers, floats, scaled by up to 100) or by two points, including "
        "parallel, coincident and nearly parallel pairs around the 1e-6 threshold. Trivial: cross product within 1% of the "
        "threshold (not judged). Distinct: different choice sequences.")
ASSUMPTIONS = ["the intersection point is compared with the exact rational solution, tolerance scaled with the conditioning"]


def coeffs(g):
    k = g.raw(3)
    if k <= 1:
        c = [g.int(-9, 9), g.int(-9, 9), g.int(-60, 60)]
    elif k == 2:
        c = [g.signed(g.uniform(0.0, 5.0)), g.signed(g.uniform(0.0, 5.0)), g.signed(g.uniform(0.0, 100.0))]
    else:
        p, q = gn.pt(g, "m"), gn.pt(g, "m")
        a, b = -(q[1] - p[1]), q[0] - p[0]
        c = [a, b, -a * p[0] - b * p[1]]
    return c


def gen(g):
    l1 = coeffs(g)
    k = g.raw(5)
    if k <= 1:
        l2 = coeffs(g)
    elif k == 2:                     # parallel or coincident
        m = g.signed(g.pick([1, 2, 0.5, 3, 0.1]))
        l2 = [l1[0] * m, l1[1] * m, l1[2] * m + g.signed(g.pick([0, 1, 5, 0.25]))]
    elif k == 3:                     # determinant around the threshold
        det = g.signed(1e-6 * g.pick([0.01, 0.5, 0.9, 1.1, 1.5, 3.0, 10.0, 100.0, 1000.0]))
        n2 = l1[0] ** 2 + l1[1] ** 2 or 1.0
        m = g.signed(g.pick([1.0, 2.0, 0.5]))
        l2 = [m * l1[0] - det * l1[1] / n2, m * l1[1] + det * l1[0] / n2, g.signed(g.uniform(0.0, 50.0))]
    elif k == 4:                     # perpendicular
        l2 = [l1[1], -l1[0], g.int(-60, 60)]
    else:
        l2 = g.pick([[1, 0, 0], [0, 1, 0], [1, 0, -5], [0, 1, 7.5], [1, 1, 0], [1, -1, 2]])
    return [l1, l2, g.signed(g.pick([1, 2, 10, 0.5, 100]))]


def check(case):
    c1, c2, k = case
    l1, l2 = Line(*c1), Line(*c2)
    det = F(c1[0]) * F(c2[1]) - F(c1[1]) * F(c2[0])
    fdet = abs(float(det))
    slack = 1e-14 * (abs(c1[0] * c2[1]) + abs(c1[1] * c2[0]))
    s1, s2, s3 = l1.intersection(l2), l2.intersection(l1), Line.line_intersection(l1, l2)
    p1, p2 = l1.is_parallel(l2), l2.is_parallel(l1)
    eq((l1.a(), l1.b(), l1.c(), l2.a(), l2.b(), l2.c()), tuple(c1) + tuple(c2), "lines after the queries")
    is_true(bool(p1) != s1.is_valid(), True, "parallel (%r) and intersection validity (%r) of %r %r agree" % (p1, s1.is_valid(), c1, c2))
    is_true(l1.is_parallel(l1), True, "line %r parallel to itself" % (c1,))
    is_true(l1.intersection(l1).is_valid(), False, "validity of the intersection of line %r with itself" % (c1,))
    if abs(fdet - 1e-6) <= 1e-8 + slack:
        return None
    par = fdet < 1e-6
    for p in (p1, p2):
        is_true(p, par, "is_parallel of %r and %r (cross product %g)" % (c1, c2, fdet))
    for s in (s1, s2, s3):
        is_true(s.is_valid(), not par, "validity of the intersection of %r and %r (cross product %g)" % (c1, c2, fdet))
    if par:
        return "parallel" + (" exact" if det == 0 else " near")
    x = (F(c1[1]) * F(c2[2]) - F(c2[1]) * F(c1[2])) / det
    y = (F(c2[0]) * F(c1[2]) - F(c1[0]) * F(c2[2])) / det
    mx = (abs(c1[1] * c2[2]) + abs(c2[1] * c1[2])) / fdet
    my = (abs(c2[0] * c1[2]) + abs(c1[0] * c2[2])) / fdet
    rel = 1e-14 * (abs(c1[0] * c2[1]) + abs(c1[1] * c2[0])) / fdet
    for s in (s1, s2, s3):
        near(s.x(), float(x), "intersection.x of %r and %r" % (c1, c2), 1e-11 + rel, 1e-14 * mx + 1e-12)
        near(s.y(), float(y), "intersection.y of %r and %r" % (c1, c2), 1e-11 + rel, 1e-14 * my + 1e-12)
    # scaling one line must not move the point
    if fdet * abs(k) > 1.1e-6:
        s = Line(*[c * k for c in c1]).intersection(l2)
        is_true(s.is_valid(), True, "validity after scaling the coefficients by %r" % k)
        near(s.x(), float(x), "intersection.x after scaling by %r" % k, 1e-11 + rel, 1e-13 * mx + 1e-12)
        near(s.y(), float(y), "intersection.y after scaling by %r" % k, 1e-11 + rel, 1e-13 * my + 1e-12)
    n1 = math.hypot(c1[0], c1[1])
    n2 = math.hypot(c2[0], c2[1])
    if fdet / (n1 * n2) > 1e-3:
        m = max(1.0, abs(float(x)), abs(float(y)))
        near(l1.dist(s1), 0.0, "distance of the intersection to the first line", 0, 1e-9 * m)
        near(l2.dist(s1), 0.0, "distance of the intersection to the second line", 0, 1e-9 * m)
        return "crossing"
    return "flat"


SUBS = [Sub("pairs", gen, check, "intersection point against the exact rational solution; parallel test against the exact cross "
            "product; symmetry and scaling", n=7000)]
