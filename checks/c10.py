"""C10 segment intersection predicates agree with exact geometry"""
from vlib.common import *

RULE = ("A case is two segments (or a segment and a line) whose end points are related (shared, collinear, overlapping, touching, "
        "crossing, degenerate), on grids scaled by powers of two from 2^-14 to 2^12 or in floating point. Trivial: a floating-point "
        "case whose orientation determinants are too small to decide in double precision. Distinct: different choice sequences.")
ASSUMPTIONS = ["grid cases are decided by exact rational arithmetic",
               "intersection points outside a segment by less than the documented bounding tolerance (1e-9 in the product) are not judged",
               "nearly parallel lines (cross product below 1e-4 but not zero) and degenerate segments are not judged for intersection points"]


def scaled(pts, k):
    s = 2.0 ** k
    return [[p[0] * s, p[1] * s] for p in pts]


def gen_pair(g):
    prof = g.weighted((4, "i"), (3, "d"), (2, "f"))
    r = g.pick([9, 9, 4, 60])
    pts = []
    for _ in range(4):
        pts.append(gn.related(g, prof, pts, r))
    k = g.raw(9)
    if k == 1:                                     # T contact, overlap, end to end on the line of the first
        a, b = pts[0], pts[1]
        ts = [g.pick([0, 1, 0.5, 0.25, -1, 2, -0.25, 1.25]) for _ in range(2)]
        q = [[a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])] for t in ts]
        pts[2] = q[0]
        if g.raw(1):
            pts[3] = q[1]
    elif k == 2:                                   # axis parallel
        pts[1] = [pts[0][0], pts[1][1]] if g.raw(1) else [pts[1][0], pts[0][1]]
        pts[3] = [pts[2][0], pts[3][1]] if g.raw(1) else [pts[3][0], pts[2][1]]
    elif k == 3:                                   # almost touching: an end point moved by a tiny dyadic step
        e = g.signed(2.0 ** -g.int(8, 24))
        j = g.raw(1)
        pts[2] = [(pts[0][0] + pts[1][0]) / 2.0 + (e if j else 0), (pts[0][1] + pts[1][1]) / 2.0 + (0 if j else e)]
    elif k == 4:
        pts[1] = list(pts[0])
    if g.raw(3) == 3 and prof != "f":
        pts = scaled(pts, g.int(-14, 12))
    return [pts, prof == "f"]


def decidable(pts, is_float):
    if not is_float:
        return True
    a, b, c, d = [fr(p) for p in pts]
    m = scale_of(*pts)
    for t in ((a, b, c), (a, b, d), (c, d, a), (c, d, b)):
        if abs(cross(*t)) < 1e-10 * m * m:
            return False
    return a != b and c != d


def variants(pts):
    a, b, c, d = [v(p) for p in pts]
    for s, t in ((Seg(a, b), Seg(c, d)), (Seg(c, d), Seg(a, b)), (Seg(b, a), Seg(c, d)), (Seg(a, b), Seg(d, c)),
                 (Seg(b, a), Seg(d, c)), (Seg(d, c), Seg(a, b)), (Seg(c, d), Seg(b, a)), (Seg(d, c), Seg(b, a))):
        yield s, t


def check_pred(case):
    pts, is_float = case
    if not decidable(pts, is_float):
        return None
    a, b, c, d = [fr(p) for p in pts]
    meet = segs_meet(a, b, c, d)
    s1, s2, s3, s4 = sgn(cross(a, b, c)), sgn(cross(a, b, d)), sgn(cross(c, d, a)), sgn(cross(c, d, b))
    proper = s1 * s2 < 0 and s3 * s4 < 0
    for s, t in variants(pts):
        is_true(s.exist_intersection(t), meet, ("exist_intersection of %r and %r", s, t))
        is_true(s.exist_intersection_except_endpoint(t), proper, ("exist_intersection_except_endpoint of %r and %r", s, t))
        is_true(s.intersects_except_endpoint(t), proper, ("intersects_except_endpoint of %r and %r", s, t))
    s = Seg(v(pts[0]), v(pts[1]))
    is_true(s.exist_intersection(s), True, ("exist_intersection of %r and itself", s))
    is_true(s.exist_intersection_except_endpoint(s), False, ("exist_intersection_except_endpoint of %r and itself", s))
    for flag in ((), (True,), (False,)):
        is_true(s.intersection(s, *flag).is_valid(), False, ("validity of the intersection of %r and itself", s))
    return ("proper" if proper else "touch" if meet else "apart") + (" collinear" if s1 == s2 == s3 == s4 == 0 else "") \
        + (" degenerate" if a == b or c == d else "") + (" float" if is_float else "")


def outside_clearly(s, t, p):
    """p outside the bounding rectangle of segment st by more than the tolerance"""
    return (p[0] - s[0]) * (p[0] - t[0]) > 1e-8 or (p[1] - s[1]) * (p[1] - t[1]) > 1e-8


def inside(s, t, p):
    return min(s[0], t[0]) <= p[0] <= max(s[0], t[0]) and min(s[1], t[1]) <= p[1] <= max(s[1], t[1])


def line_meet(a, b, c, d):
    """exact common point of line ab and line cd, and the cross product of the directions"""
    ux, uy, wx, wy = b[0] - a[0], b[1] - a[1], d[0] - c[0], d[1] - c[1]
    det = ux * wy - uy * wx
    if det == 0:
        return det, None
    t = ((c[0] - a[0]) * wy - (c[1] - a[1]) * wx) / det
    return det, (a[0] + t * ux, a[1] + t * uy)


def check_point(case):
    pts, is_float = case
    if not decidable(pts, is_float):
        return None
    a, b, c, d = [fr(p) for p in pts]
    if a == b or c == d:
        return None
    det, p = line_meet(a, b, c, d)
    if det != 0 and abs(det) < 1e-4:
        return None
    m = scale_of(*pts)
    s1, s2, s3, s4 = sgn(cross(a, b, c)), sgn(cross(a, b, d)), sgn(cross(c, d, a)), sgn(cross(c, d, b))
    proper = s1 * s2 < 0 and s3 * s4 < 0
    if det == 0:
        want = False
    elif inside(a, b, p) and inside(c, d, p):
        want = True
    elif outside_clearly(a, b, p) or outside_clearly(c, d, p):
        want = False
    else:
        return None
    if det != 0:
        m = max(m, abs(float(p[0])), abs(float(p[1])))
        cond = 1e-13 * m ** 3 / abs(float(det))
        tol = 1e-9 * m + cond
        if is_float and want and not proper:
            return None
        if not want and cond > 1e-9:
            return None
        if want and tol > 1e-6 * m:
            return None
        # the computed point may leave an exactly touched segment by a rounding error
        if want and not proper:
            for s, t in ((a, b), (c, d)):
                if cond * float(max(abs(t[0] - s[0]), abs(t[1] - s[1]))) > 1e-10:
                    return None
    fp = (float(p[0]), float(p[1])) if p else None
    for s, t in variants(pts):
        for form in range(3):
            if form == 0:
                got, w = s.intersection(t), want and proper
            elif form == 1:
                got, w = s.intersection(t, False), want and proper
            else:
                got, w = s.intersection(t, True), want
            what = ("intersection of %r and %r (end points %s)", s, t, "allowed" if form == 2 else "not allowed")
            is_true(got.is_valid(), w, what)
            if w:
                near_pt(got, fp, what, 0, tol)
    return ("parallel" if det == 0 else "proper" if proper else "endpoint" if want else "miss") + (" float" if is_float else "")


def gen_line(g):
    prof = g.weighted((4, "i"), (3, "d"), (2, "f"))
    pts = []
    for _ in range(4):
        pts.append(gn.related(g, prof, pts, g.pick([9, 20])))
    mul = g.signed(g.pick([1, 2, 0.5, 4, 8]))
    if g.raw(5) == 5 and prof != "f":
        pts = scaled(pts, g.int(-6, 6))
    return [pts, prof == "f", mul, g.raw(1)]


def check_line(case):
    pts, is_float, mul, by_points = case
    a, b, c, d = pts
    if c == d or a == b:
        return None
    ca, cb = -(d[1] - c[1]) * mul, (d[0] - c[0]) * mul
    cc = -ca * c[0] - cb * c[1]
    if by_points:
        line = Line(v(c), v(d))
    else:
        line = Line(ca, cb, cc)
    a, b, c, d = [fr(p) for p in pts]
    va, vb = cross(c, d, a), cross(c, d, b)
    m = scale_of(*pts)
    if is_float and min(abs(va), abs(vb)) < 1e-10 * m * m:
        return None
    want = va * vb <= 0
    det, p = line_meet(a, b, c, d)
    lab = "cross" if va * vb < 0 else "end" if want and det != 0 else "along" if want else "miss"
    for s in (Seg(v(pts[0]), v(pts[1])), Seg(v(pts[1]), v(pts[0]))):
        is_true(s.exist_intersection(line), want, ("exist_intersection of %r with %r", s, line))
        got = s.intersection(line)
        if det == 0:
            is_true(got.is_valid(), False, ("validity of the intersection of %r with the parallel %r", s, line))
            continue
        fdet = abs(float(det))
        if fdet < 1e-4 or fdet * abs(mul) < 1e-4:
            continue
        mm = max(m, abs(float(p[0])), abs(float(p[1])))
        cond = 1e-13 * mm ** 3 / fdet
        if want:
            if va * vb == 0 and cond * float(max(abs(b[0] - a[0]), abs(b[1] - a[1]))) > 1e-10:
                continue
            if cond > 1e-6:
                continue
            is_true(got.is_valid(), True, ("validity of the intersection of %r with %r", s, line))
            near(got.x(), float(p[0]), ("intersection of %r with %r .x", s, line), 0, 1e-9 * mm + cond)
            near(got.y(), float(p[1]), ("intersection of %r with %r .y", s, line), 0, 1e-9 * mm + cond)
        elif outside_clearly(a, b, p) and cond < 1e-9:
            is_true(got.is_valid(), False, ("validity of the intersection of %r with %r", s, line))
    return lab + (" float" if is_float else "")


def gen_check_on(g):
    prof = gn.exact_profile(g)
    pts = []
    for _ in range(2):
        pts.append(gn.related(g, prof, pts, 9))
    t = g.pick([0, 1, 0.5, 0.25, 0.75, -0.25, 1.25, 2, -1])
    a, b = pts
    return [a, b, [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]]


def check_on_line(case):
    """for a point of the supporting line, the on-line test is membership in the segment"""
    a, b, p = case
    if a == b:
        return None
    want = on_seg(fr(a), fr(b), fr(p))
    for s in (Seg(v(a), v(b)), Seg(v(b), v(a))):
        is_true(s.check_intersects_on_line(v(p)), want, ("check_intersects_on_line of %r for %r", s, p))
    return "on" if want else "off"


SUBS = [
    Sub("predicates", gen_pair, check_pred, "both predicates, all orders and orientations, against exact orientation tests", n=14000, frame="ZO"),
    Sub("points", gen_pair, check_point, "computed intersection points (three call forms) against the exact solution", n=12000, frame="ZO"),
    Sub("line", gen_line, check_line, "segment against line: predicate and point", n=14000, frame="ZO"),
    Sub("on_line", gen_check_on, check_on_line, "range test for points of the supporting line", n=6000, frame="ZO"),
]
