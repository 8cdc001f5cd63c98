"""C22 polygon membership follows the even-odd rule and distance agrees with it"""
from vlib.common import *
from vlib import poly

RULE = ("A case is a polygon (0 to 14 vertices, sometimes 80, in a separate sub-check up to 1300: star shaped, random and self-crossing, repeated vertices, spikes, horizontal "
        "and vertical runs) with a query point often level with vertices, on the outline, at a vertex or next to an edge. Grid cases are "
        "decided exactly; every start vertex rotation and the reversal are tried on a sample. Trivial: floating-point query within 1e-6 of "
        "the outline. Distinct: different choice sequences.")
ASSUMPTIONS = ["points on the outline of floating-point polygons are not judged"]


def gen(g):
    prof = g.weighted((5, "i"), (2, "d"), (2, "f"))
    r = g.pick([4, 6, 9, 30])
    k = g.raw(6)
    if k == 0:
        pts = gn.pts_related(g, prof, 1, 8, r)
    elif k <= 2:
        pts = gn.star_polygon(g, prof, gn.size(g, 3, 12), gn.num(g, "i", 4), gn.num(g, "i", 4), r + 2)
    elif k == 3:                                        # rectilinear
        x, y = gn.cx(g, "i", r), gn.cy(g, "i", r)
        pts = [[x, y]]
        for i in range(g.int(2, 9)):
            if i % 2:
                x = gn.cx(g, "i", r)
            else:
                y = gn.cy(g, "i", r)
            pts.append([x, y])
    elif k == 4:                                        # repeated vertices
        base = [gn.pt(g, prof, r) for _ in range(g.int(2, 5))]
        pts = []
        for p in base:
            for _ in range(1 + g.raw(2)):
                pts.append(list(p))
    else:
        pts = [gn.pt(g, prof, r) for _ in range(gn.size(g, 0, 9))]
    n = len(pts)
    if n == 0:
        return [pts, gn.pt(g, prof, r), prof == "f", 0]
    j = g.raw(n - 1)
    a, b = pts[j], pts[(j + 1) % n]
    k = g.raw(6)
    if k == 0:
        q = gn.pt(g, prof, r + 1)
    elif k == 1:                                        # level with a vertex
        q = [gn.cx(g, prof, r + 1), a[1]]
    elif k == 2:                                        # on an edge
        t = g.pick([0.5, 0, 0.25, 0.75, 1])
        q = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    elif k == 3:                                        # next to an edge
        t = g.pick([0.5, 0.25, 0.75])
        q = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
        q[g.raw(1)] += g.signed(2.0 ** -g.int(1, 14))
    elif k == 4:                                        # level with one vertex, in the column of another
        q = [g.pick(pts)[0], a[1]]
    elif k == 5:                                        # mean of three vertices
        w = [g.pick(pts) for _ in range(4)]
        q = [sum(p[0] for p in w) / 4.0, sum(p[1] for p in w) / 4.0]
    else:                                               # extension of an edge
        t = g.pick([-1, 2, 1.5, -0.5])
        q = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    return [pts, q, prof == "f", g.raw(n - 1)]


def check(case):
    pts, q, is_float, rot = case
    ex, eqq = ([fr(p) for p in pts], fr(q)) if is_float else (pts, q)
    n = len(pts)
    if n == 0:                                           # nothing to cross: contains no point
        o = Poly([])
        for got in (o.contains(v(q)), o.contains(v(q), True), o.contains(v(q), False)):
            is_true(got, False, ("the empty polygon contains %r", q))
        return "empty"
    d = poly.outline_dist(pts, q)
    m = scale_of(q, *pts)
    on = poly.on_outline(ex, eqq)
    if is_float and (d < 1e-6 * m or on):
        return None
    for p in pts:
        if is_float and p[1] != q[1] and abs(p[1] - q[1]) < 1e-9:
            return None
    ins = not on and n >= 3 and poly.even_odd(ex, eqq)
    qv = v(q)
    for vs in (pts, pts[rot:] + pts[:rot], pts[::-1]):
        o = Poly([v(p) for p in vs])
        is_true(o.contains(qv), ins or on, ("%r contains %r", vs, q))
        is_true(o.contains(qv, True), ins or on, ("%r contains %r (outline allowed)", vs, q))
        is_true(o.contains(qv, False), ins, ("%r contains %r (outline not allowed)", vs, q))
        is_true(o.contains(qv, allow_on_segment=False), ins, ("%r contains %r (outline not allowed, keyword)", vs, q))
        tol = 1e-9 * m + 1e-12 * m * m
        got = o.dist(qv)
        near(got, 0.0 if ins else d, ("distance of %r to %r", vs, q), 0, tol)
        if ins or on:
            near(got, 0.0, ("distance of %r to the contained %r", vs, q), 0, 0 if not is_float else tol)
        near(o.dist(qv, False), d, ("outline distance of %r to %r", vs, q), 0, tol)
        near(o.dist(qv, check_as_plane=True), 0.0 if ins else d, ("plane distance of %r to %r", vs, q), 0, tol)
    return ("on" if on else "in" if ins else "out") + (" level" if any(p[1] == q[1] for p in pts) else "") \
        + (" n%d" % n if n < 3 else "") + (" float" if is_float else "")


def gen_large(g):
    return [gn.many(g), g.raw(9999), g.raw(5), g.raw(9999), g.raw(9999)]


def check_large(case):
    desc, j, k, c, rot = case
    pts = gn.many_points(desc)
    n = len(pts)
    a, b = pts[j % n], pts[(j + 1) % n]
    o = pts[c % n]
    q = [[a[0], o[1]], [(a[0] + o[0]) / 2.0, (a[1] + o[1]) / 2.0], [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0], [o[0] + 0.5, a[1]],
         [o[0] + 0.25, a[1] + 0.125], [a[0], a[1]]][k]
    res = check([pts, q, False, rot % n])
    return res and res + " n%d" % (n // 100 * 100)


SUBS = [Sub("large", gen_large, check_large, "the same for polygons of up to 1300 vertices", n=8),
        Sub("even_odd", gen, check, "membership (all call forms, rotations, reversal) and both distances against exact references", n=3500, frame="ZO")]
