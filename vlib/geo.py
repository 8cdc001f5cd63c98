"""Exact reference for 'where does a line / ray / segment meet the outline of a convex shape'."""
import math
from fractions import Fraction as F

from vlib import gens as gn
from vlib.common import cross, dist, fr, sgn, unit_dir


def line_hits(verts, p, q):
    """verts: exact vertices in order; p, q exact points of the line.

    Returns (hits, quality): the distinct exact points in which the line meets the outline, or (None, why)
    for an ill-conditioned configuration (a vertex nearly, but not exactly, on the line; a nearly parallel edge)."""
    ln = math.hypot(float(q[0] - p[0]), float(q[1] - p[1]))
    vals = [cross(p, q, w) for w in verts]
    for x in vals:
        if x != 0 and abs(float(x)) / ln < 1e-4:
            return None, "near vertex"
    n = len(verts)
    hits = [w for w, x in zip(verts, vals) if x == 0]
    for i in range(n):
        j = (i + 1) % n
        a, b, x, y = verts[i], verts[j], vals[i], vals[j]
        det = (q[0] - p[0]) * (b[1] - a[1]) - (q[1] - p[1]) * (b[0] - a[0])
        if det != 0:
            el = math.hypot(float(b[0] - a[0]), float(b[1] - a[1]))
            if abs(float(det)) < 1e-3 * ln * el or abs(float(det)) < 1e-3:
                return None, "near parallel"
        if sgn(x) * sgn(y) < 0:
            t = x / (x - y)
            hits.append((a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])))
    out = []
    for h in hits:
        if h not in out:
            out.append(h)
    return out, ""


def split_ray(hits, o, u):
    """points ahead of the ray's origin, and those too close to it to be judged"""
    must, may = [], []
    for h in hits:
        t = (float(h[0]) - o[0]) * u[0] + (float(h[1]) - o[1]) * u[1]
        if abs(t) < 2e-3:
            may.append(h)
        elif t > 0:
            must.append(h)
    return must, may


def split_seg(hits, a, b):
    """points of the closed segment (exact), and those beyond an end but inside the documented tolerance"""
    must, may = [], []
    for h in hits:
        ix, iy = (h[0] - a[0]) * (h[0] - b[0]), (h[1] - a[1]) * (h[1] - b[1])
        if ix <= 0 and iy <= 0:
            must.append(h)
        elif ix <= 1e-7 and iy <= 1e-7:
            may.append(h)
    return must, may


def match(got, must, may, tol):
    """got: points (x, y); None when got = must plus some of may (each at most once), else a complaint"""
    left = list(got)
    for group, needed in ((must, True), (may, False)):
        for w in group:
            w = (float(w[0]), float(w[1]))
            best = None
            for i, p in enumerate(left):
                d = max(abs(p[0] - w[0]), abs(p[1] - w[1]))
                if d <= tol and (best is None or d < best[0]):
                    best = (d, i)
            if best is None:
                if needed:
                    return "the point %r is missing" % (w,)
            else:
                left.pop(best[1])
    if left:
        return "unexpected point(s) %r" % (left,)
    return None


def gen_cutter(g, prof, verts, r=20):
    """two distinct points in special position to the shape with vertices verts: [p, q]"""
    k = g.raw(8)
    if k == 0:
        p, q = gn.pt(g, prof, r), gn.pt(g, prof, r)
    elif k == 8:                                    # cutting off a small corner
        n = len(verts)
        i = g.raw(n - 1)
        a, b, c = verts[i], verts[(i + 1) % n], verts[i - 1]
        t, s = 2.0 ** -g.int(3, 16), 2.0 ** -g.int(3, 16)
        if g.raw(1):
            s = -s
        p = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
        q = [a[0] + s * (c[0] - a[0]), a[1] + s * (c[1] - a[1])]
        if g.raw(1):                                # extended beyond both
            z = g.pick([1, 7, 64])
            p, q = [p[0] + z * (p[0] - q[0]), p[1] + z * (p[1] - q[1])], [q[0] + z * (q[0] - p[0]), q[1] + z * (q[1] - p[1])]
    elif k == 1:                                    # along an edge (shifted, extended or shortened)
        i = g.raw(len(verts) - 1)
        a, b = verts[i], verts[(i + 1) % len(verts)]
        t, s = g.pick([0, -1, -0.5, 0.25, 0.5, 1.5]), g.pick([1, 2, 1.5, 0.75, 0.5, -2])
        p = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
        q = [a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])]
    elif k == 2:                                    # through a vertex
        p, q = list(g.pick(verts)), gn.pt(g, prof, r)
    elif k == 3:                                    # line through a vertex, starting elsewhere
        p = gn.pt(g, prof, r)
        a = g.pick(verts)
        t = g.pick([2, 0.5, 1.5, -1, 1, 4])
        q = [p[0] + t * (a[0] - p[0]), p[1] + t * (a[1] - p[1])]
    elif k == 4:                                    # axis parallel
        p = gn.related(g, prof, verts, r)
        q = [p[0], gn.num(g, prof, r)] if g.raw(1) else [gn.num(g, prof, r), p[1]]
    elif k == 5:                                    # from an inner point
        n = len(verts)
        w = [1 + g.raw(3) for _ in range(n)]
        s = float(sum(w)) if sum(w) & (sum(w) - 1) else sum(w)
        p = [sum(x * c[0] for x, c in zip(w, verts)) / s, sum(x * c[1] for x, c in zip(w, verts)) / s]
        q = gn.related(g, prof, verts, r)
    elif k == 6:
        p, q = gn.related(g, prof, verts, r), gn.related(g, prof, verts, r)
    else:                                           # through two outline points
        out = []
        for _ in range(2):
            i = g.raw(len(verts) - 1)
            a, b = verts[i], verts[(i + 1) % len(verts)]
            t = g.pick([0.5, 0.25, 0.75, 0, 0.125])
            out.append([a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])])
        p, q = out
    if p == q:
        q = [p[0] + 1, p[1] + 2]
    return [p, q]


def check_outline(verts, points_of, obj_kinds, case_pq, mul, make, what):
    """verts: float vertices; make: dict of constructors; points_of(obj) -> list of points (Vector2D)"""
    p, q = case_pq
    ev = [fr(w) for w in verts]
    ep, eq_ = fr(p), fr(q)
    hits, why = line_hits(ev, ep, eq_)
    if hits is None:
        return None
    m = max([1.0] + [abs(c) for w in list(verts) + [p, q] for c in w])
    tol = 1e-7 * m
    big = m > 150               # the code's absolute tolerance 1e-9 on corners and end points is below rounding there
    if big and any(w in hits for w in ev):
        return None
    for i in range(len(hits)):
        for j in range(i):
            if dist((float(hits[i][0]), float(hits[i][1])), (float(hits[j][0]), float(hits[j][1]))) < 1e-5:
                return None
    kinds = []
    ln = dist(p, q)
    u = ((q[0] - p[0]) / ln, (q[1] - p[1]) / ln)
    for kind, obj in make(p, q, mul, u):
        if kind == "line":
            must, may = hits, []
        elif kind == "ray":
            must, may = split_ray(hits, p, u)
        else:
            must, may = split_seg(hits, ep, eq_)
            if big:
                at_end = [h for h in must if min(abs(h[0] - e[0]) + abs(h[1] - e[1]) for e in (ep, eq_)) < 2e-3]
                may += at_end
                must = [h for h in must if h not in at_end]
        got = points_of(obj)
        bad = match([(x.x(), x.y()) for x in got], must, may, tol)
        if bad:
            from vlib.core import fail
            fail("%s with the %s through %r and %r: got %r, expected %r: %s", what, kind, p, q, got,
                 [(float(h[0]), float(h[1])) for h in must], bad)
        if not may:
            kinds.append("%s%d" % (kind[0], len(must)))
    return " ".join(sorted(set(kinds)))
