"""C23 clipping a polygon by a rectangle yields the part inside the rectangle"""
from vlib.common import *
from vlib import poly

RULE = ("A case is a polygon (3 to 12 vertices, one in twelve up to 80, in a separate sub-check up to 1300: star shaped, random self-crossing, repeated vertices) and a rectangle covering, cutting "
        "(one to four sides), touching, missing or lying inside it, with probe points inside the rectangle. Trivial: none; the known bottom-side "
        "defect is recognised by its exact result. Distinct: different choice sequences.")
ASSUMPTIONS = ["grid coordinates; probe points on or within 1e-6 of an outline are skipped",
               "known finding: where an edge crosses the rectangle's bottom side the library cuts it at the height of the top side instead; a "
               "result equal to that (and only that) is accepted and reported as KNOWN-FINDING"]

FINDING_POLY = [[10, 10], [0, 15], [-10, 10], [-10, -10], [10, -10]]
FINDING_RECT = [-10, -20, 20, 20]
FINDING_TEXT = ("get_rectangle_clipped_polygon cuts edges that cross rect.bottom() on the line y = rect.top(): polygon [(10,10),(0,15),"
                "(-10,10),(-10,-10),(10,-10)] clipped by Rect2D(Vector2D(-10,-20),20,20) gives a polygon of the wrong area "
                "(pinned by tests/test_polygon_2d.py::test_get_rectangle_clipped_polygon)")


def gen(g):
    prof = gn.exact_profile(g)
    k = g.raw(4)
    r = g.pick([6, 9, 20])
    if k <= 1:
        pts = gn.star_polygon(g, prof, gn.size(g, 3, 12), gn.num(g, "i", 4), gn.num(g, "i", 4), r)
    elif k == 2:
        pts = [gn.pt(g, prof, r) for _ in range(gn.size(g, 3, 7, 40))]
    elif k == 3:                                       # axis-parallel box
        x, y, w, h = gn.cx(g, prof, r), gn.cy(g, prof, r), gn.pos(g, prof, r), gn.pos(g, prof, r)
        pts = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    else:
        pts = gn.pts_related(g, prof, 3, 8, r)
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    rect = []
    for vals, is_y in ((xs, False), (ys, True)):
        lo, hi = min(vals), max(vals)
        k = g.raw(6)
        if k == 0:
            a, b = lo - 1, hi + 1
        elif k == 1:                                   # cuts the low side only
            a, b = lo + (hi - lo) * g.pick([0.25, 0.5, 0.75]), hi + g.pick([0, 1, 5])
        elif k == 2:
            a, b = lo, hi
        elif k == 3:
            a, b = g.pick(vals), hi + 2
        elif k == 4 or (is_y and g.raw(1)):
            a = gn.cy(g, prof, r) if is_y else gn.cx(g, prof, r)
            b = max(hi, a) + 1
        elif k == 5:                                   # cuts both sides
            a = lo + (hi - lo) * 0.25
            b = a + (hi - lo) * 0.5
        else:
            a = gn.cy(g, prof, r) if is_y else gn.cx(g, prof, r)
            b = a + gn.pos(g, prof, r)
        if b <= a:
            b = a + 1
        rect.append((a, b))
    probes = [[(2 * g.raw(31) + 1) / 64.0, (2 * g.raw(31) + 1) / 64.0] for _ in range(6)]
    return [pts, [rect[0][0], rect[1][0], rect[0][1] - rect[0][0], rect[1][1] - rect[1][0]], probes]


def same_list(got, want, tol):
    """equal up to rotation of the start vertex"""
    n = len(got)
    if n != len(want):
        return False
    if n == 0:
        return True
    for k in range(n):
        if all(abs(got[i][0] - want[(i + k) % n][0]) <= tol and abs(got[i][1] - want[(i + k) % n][1]) <= tol for i in range(n)):
            return True
    return False


def problems(pts, rect, got, probes, tol):
    """first way in which got (float vertices) is not the clipped polygon"""
    x, y, w, h = rect
    ex = [fr(p) for p in pts]
    x0, x1, y0, y1 = F(x), F(x) + F(w), F(y), F(y) + F(h)
    ref = poly.clip_rect(ex, x0, x1, y0, y1)
    for p in got:
        if not (float(x0) - tol <= p[0] <= float(x1) + tol and float(y0) - tol <= p[1] <= float(y1) + tol):
            return "vertex %r is outside the rectangle" % (p,)
    a, b = float(poly.shoelace(got)), float(poly.shoelace(ref))
    m = scale_of((float(x0), float(y0)), (float(x1), float(y1)), *pts)
    if not abs(a - b) <= 10 * tol * m * (len(got) + 1):
        return "doubled signed area is %r, expected %r" % (a, b)
    for u in probes:
        q = (x0 + F(u[0]) * F(w), y0 + F(u[1]) * F(h))
        fq = (float(q[0]), float(q[1]))
        if poly.outline_dist(pts, fq) < 1e-6 or (got and poly.outline_dist(got, fq) < 1e-6):
            continue
        want = poly.even_odd(ex, q)
        have = len(got) >= 3 and poly.even_odd(got, fq)
        if want != have:
            return "contains %r: %r, the original: %r" % (fq, have, want)
    return None


def check(case):
    pts, rect, probes = case
    x, y, w, h = rect
    o = Poly([v(p) for p in pts])
    r = Rect(x, y, w, h)
    x0, x1, y0, y1 = F(x), F(x) + F(w), F(y), F(y) + F(h)
    res = o.get_rectangle_clipped_polygon(r)
    eq([xy(p) for p in o.vertices()], [tuple(p) for p in pts], "the original polygon after clipping")
    eq((r.left(), r.top(), r.size().length(), r.size().width()), tuple(rect), "the rectangle after clipping")
    got = [xy(p) for p in res.vertices()]
    m = scale_of((float(x0), float(y0)), (float(x1), float(y1)), *pts)
    tol = 1e-9 * m
    ex = [fr(p) for p in pts]
    right = poly.clip_half(ex, 0, 1, x1)
    n = len(right)
    crosses_bottom = any((right[i][1] <= y1) != (right[(i + 1) % n][1] <= y1) for i in range(n))
    bad = problems(pts, rect, got, probes, tol)
    if bad is None:
        # the clipped polygon must not share its points with the original
        area = float(poly.shoelace(poly.clip_rect(ex, x0, x1, y0, y1)))
        near(res.area(), abs(area) / 2, ("area of the clipped polygon",), 0, 10 * tol * m * (len(got) + 1))
        for p in res.vertices_():
            p.assign(12345, 54321)
        eq([xy(p) for p in o.vertices()], [tuple(p) for p in pts], "the original polygon after the clipped one was changed")
        cover = min(p[0] for p in pts) >= x and max(p[0] for p in pts) <= x1 and min(p[1] for p in pts) >= y and max(p[1] for p in pts) <= y1
        if cover:
            expect(same_list(got, [tuple(p) for p in pts], 0), "clipping %r by the covering %r gives %r", pts, r, got)
            return "cover"
        return ("empty" if area == 0 else "cut") + (" bottom" if crosses_bottom else "")
    bc = poly.clip_half(right, 1, 1, y1, y0)                # the known defect places the bottom cut at the top
    near_bottom = any(abs(float(p[1] - y1)) < 1e-9 and p[0] == x1 for p in right)
    if near_bottom and not crosses_bottom:
        return "known_bottom"                               # a cut point on the bottom side: falls on either side by rounding
    if near_bottom:
        return "known_bottom_tie"
    if crosses_bottom:
        sig = [(float(p[0]), float(p[1])) for p in poly.clip_rect(ex, x0, x1, y0, y1, bottom_cut=y0)]
        # cut points on the lines x = left and y = top fall on either side by rounding, which only adds or drops points along
        # those lines: compare the area and require every vertex to lie on the outline of the expected wrong result
        a, b = float(poly.shoelace(got)), float(poly.shoelace(sig))
        span = m + max([abs(c) for p in sig for c in p], default=0)
        if abs(a - b) <= 10 * 1e-9 * span * span * (len(got) + 1) and all(sig and poly.outline_dist(sig, p) <= 1e-7 * span for p in got):
            return "known_bottom"
    fail("clipping %r by %r gives %r: %s", pts, r, got, bad)


def known_findings():
    o = Poly([v(p) for p in FINDING_POLY])
    got = [xy(p) for p in o.get_rectangle_clipped_polygon(Rect(*FINDING_RECT)).vertices()]
    bad = problems(FINDING_POLY, FINDING_RECT, got, [[0.5, 0.25], [0.25, 0.75]], 1e-7)
    return [FINDING_TEXT] if bad else []


def gen_large(g):
    return [gn.many(g), [[g.pick([-0.1, 0, 0.25, 0.4]), g.pick([0.5, 0.75, 1, 1.25])] for _ in range(2)],
            [[(2 * g.raw(31) + 1) / 64.0, (2 * g.raw(31) + 1) / 64.0] for _ in range(3)]]


def check_large(case):
    desc, cut, probes = case
    pts = gn.many_points(desc)
    rect = []
    for axis, (a, b) in enumerate(cut):
        lo, hi = min(p[axis] for p in pts), max(p[axis] for p in pts)
        if axis == 1:
            b = 1.25                                     # edges across the bottom side are the known finding
        rect.append((float(round(lo + a * (hi - lo))), float(round(lo + b * (hi - lo)) + 1)))
    res = check([pts, [rect[0][0], rect[1][0], rect[0][1] - rect[0][0], rect[1][1] - rect[1][0]], probes])
    return res and res + " n%d" % (len(pts) // 100 * 100)


SUBS = [Sub("large", gen_large, check_large, "the same for polygons of up to 1300 vertices", n=6), Sub("clip", gen, check, "area, containment in the rectangle, membership of probe points, against an exact clipper", n=5000, frame="ZO")]
