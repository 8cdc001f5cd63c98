"""C15 triangle centres satisfy their defining equations"""
import itertools
from vlib.common import *

RULE = ("A case is a triangle: scalene, right, isosceles, equilateral, thin, small (sides down to 1e-4), large, far from the origin, on "
        "grids and in floating point, or collinear / with coincident vertices. Trivial: too thin to compare (conditioning), or so small "
        "that the documented parallelism threshold applies. Distinct: different choice sequences.")
ASSUMPTIONS = ["doubled areas below 1e-9 that are not exactly zero, and sides below 1e-5, are not judged",
               "very thin triangles are not judged; tolerances follow the conditioning of each centre"]


def gen(g):
    prof = gn.profile(g)
    r = g.pick([5, 9, 60])
    k = g.raw(5)
    pts = []
    if k <= 1:
        for _ in range(3):
            pts.append(gn.related(g, prof, pts, r))
    elif k == 2:                                 # right, isosceles, equilateral
        a = gn.pt(g, prof, r)
        u = unit_dir(gn.deg(g, False))
        s = g.pick([1.0, 3.0, 0.5, 10.0])
        w = unit_dir(g.pick([60, 90, 30, 120, 45, 150, 5, 175]))
        t = g.pick([1.0, 1.0, 2.0, 0.5])
        pts = [a, [a[0] + s * u[0], a[1] + s * u[1]],
               [a[0] + s * t * (u[0] * w[0] - u[1] * w[1]), a[1] + s * t * (u[1] * w[0] + u[0] * w[1])]]
    elif k == 3:                                 # axis-parallel legs
        a = gn.pt(g, prof, r)
        pts = [a, [a[0] + g.signed(gn.pos(g, prof, r)), a[1]], [a[0], a[1] + g.signed(gn.pos(g, prof, r))]]
        if g.raw(1):
            pts[2] = [pts[2][0] + gn.num(g, prof, r), pts[2][1]]
    elif k == 4:                                 # small
        s = 2.0 ** -g.int(4, 15)
        pts = [[s * x for x in gn.pt(g, "i", 5)] for _ in range(3)]
        o = gn.pt(g, "i", 3) if g.raw(1) else [0, 0]
        pts = [[p[0] + o[0], p[1] + o[1]] for p in pts]
    else:                                        # degenerate
        a, b = gn.pt(g, "i", 9), gn.pt(g, "i", 9)
        t = g.pick([0, 1, 0.5, 2, -1, 3])
        pts = [a, b, [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]]
    return g.shuffle(pts) if g.raw(1) else pts


def check(case):
    pts = case
    a, b, c = [fr(p) for p in pts]
    z = cross(a, b, c)
    fz = abs(float(z))
    m = scale_of(*pts)
    vs = [v(p) for p in pts]
    perms = list(itertools.permutations(range(3)))
    cen = tuple(float((a[i] + b[i] + c[i]) / 3) for i in (0, 1))
    for pm in perms:
        t = Tri(*[vs[i] for i in pm])
        near_pt(t.centroid(), cen, ("centroid of %r", t), 0, 1e-12 * m)
        near_pt(Tri.tri_centroid(*[vs[i] for i in pm]), cen, ("tri_centroid of %r", t), 0, 1e-12 * m)
    if z == 0:
        # collinear or coincident (exactly): no circumcentre
        if any(F(float(F(x))) != F(x) for p in pts for x in p) or 1e-15 * m * m > 1e-11:
            return None
        if abs(float((F(pts[1][0] - pts[0][0])) * F(pts[2][1] - pts[0][1]) - F(pts[1][1] - pts[0][1]) * F(pts[2][0] - pts[0][0]))) > 1e-12:
            return None
        for pm in perms:
            w = [vs[i] for i in pm]
            is_true(Tri(*w).circumcenter().is_valid(), False, ("validity of the circumcentre of the collinear %r", w))
            is_true(Tri.tri_circumcenter(*w).is_valid(), False, ("validity of the circumcentre of the collinear %r", w))
        return "collinear" + (" coincident" if len({tuple(p) for p in pts}) < 3 else "")
    sides = [dist(pts[1], pts[2]), dist(pts[2], pts[0]), dist(pts[0], pts[1])]
    size, short = max(sides), min(sides)
    thin = fz / (size * size)                     # about the smallest height ratio
    if short < 1e-5 or thin < 1e-4 or fz < 1e-9:
        return None
    labs = []
    # circumcentre
    la, lb, lc = [p[0] ** 2 + p[1] ** 2 for p in (a, b, c)]
    cx = (la * (b[1] - c[1]) + lb * (c[1] - a[1]) + lc * (a[1] - b[1])) / (2 * z)
    cy = (la * (c[0] - b[0]) + lb * (a[0] - c[0]) + lc * (b[0] - a[0])) / (2 * z)
    circ = (float(cx), float(cy))
    big = max(m, abs(circ[0]), abs(circ[1]))
    err = 1e-13 * (big * big * size / fz + big / thin) + 1e-13 * m * m / short / thin
    if err < 1e-4 * size:
        labs.append("circum")
        r = dist(circ, pts[0])
        for pm in perms:
            w = [vs[i] for i in pm]
            for got in (Tri(*w).circumcenter(), Tri.tri_circumcenter(*w)):
                is_true(got.is_valid(), True, ("validity of the circumcentre of %r", w))
                near_pt(got, circ, ("circumcentre of %r", w), 0, 10 * err)
                for p in pts:
                    near(dist(xy(got), p), r, ("distance of the circumcentre of %r to %r", w, p), 0, 20 * err)
    if short > 1e-5:
        # incentre: weighted by the opposite sides
        s = sum(sides)
        inc = tuple(sum(l * p[i] for l, p in zip(sides, pts)) / s for i in (0, 1))
        rad = fz / s
        e = 1e-11 * m / thin
        if e < 1e-2 * rad:
            labs.append("in")
            for pm in perms:
                w = [vs[i] for i in pm]
                for got in (Tri(*w).incenter(), Tri.tri_incenter(*w)):
                    is_true(got.is_valid(), True, ("validity of the incentre of %r", w))
                    near_pt(got, inc, ("incentre of %r", w), 0, e)
                    for i in range(3):
                        near(seg_pt_dist(pts[i], pts[(i + 1) % 3], xy(got)), rad, ("distance of the incentre of %r to a side", w), 0, 2 * e)
        # orthocentre = a + b + c - 2 circumcentre
        ort = (float(a[0] + b[0] + c[0] - 2 * cx), float(a[1] + b[1] + c[1] - 2 * cy))
        bo = max(big, abs(ort[0]), abs(ort[1]))
        e = 1e-12 * (bo * bo * size / fz + bo / thin)
        if e < 1e-3 * size:
            labs.append("ortho")
            for pm in perms:
                w = [vs[i] for i in pm]
                for got in (Tri(*w).orthocenter(), Tri.tri_orthocenter(*w)):
                    is_true(got.is_valid(), True, ("validity of the orthocentre of %r", w))
                    near_pt(got, ort, ("orthocentre of %r", w), 0, 10 * e)
    if not labs:
        return None
    if fz < 1e-6:
        labs.append("tiny")
    return " ".join(labs)


SUBS = [Sub("centres", gen, check, "all four centres, methods and static forms, all vertex orders, against exact closed formulas", n=4000, frame="ZO")]
