"""C14 triangle area, orientation, membership and validity are exact"""
import itertools
from vlib.common import *

RULE = ("A case is a triangle (any orientation, collinear and coincident vertices included) with a query point in special position "
        "(vertex, edge, edge extension, inside, near an edge by a power of two), on grids scaled by powers of two, or in floating "
        "point; or a history of reassignments and edits of live vertices. Trivial: floating-point sign not decidable. "
        "Distinct: different choice sequences.")
ASSUMPTIONS = ["membership in degenerate triangles is not judged"]


def gen_tri(g):
    prof = g.weighted((4, "i"), (3, "d"), (2, "f"))
    r = g.pick([4, 9, 60])
    pts = []
    for _ in range(3):
        pts.append(gn.related(g, prof, pts, r) if g.raw(2) == 2 else gn.pt(g, prof, r))
    k = g.raw(5)
    a, b = g.pick(pts), g.pick(pts)
    if k == 0:
        q = gn.pt(g, prof, r)
    elif k == 1:                                   # on an edge or its extension
        t = g.pick([0.5, 0.25, 0, 1, -0.5, 1.5, 2])
        q = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    elif k == 2:                                   # beside an edge by a small step
        t = g.pick([0.5, 0.25, 0.75])
        e = g.signed(2.0 ** -g.int(2, 22))
        q = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
        q[g.raw(1)] += e
    elif k == 3:                                   # inside
        w = g.pick([(2, 1, 1), (1, 2, 1), (1, 1, 2), (4, 2, 2), (6, 1, 1), (1, 1, 6)])
        s = float(sum(w))
        q = [sum(x * p[i] for x, p in zip(w, pts)) / s for i in (0, 1)]
    else:
        q = gn.related(g, prof, pts, r)
    s = 2.0 ** (g.int(-12, 12) if g.raw(3) == 3 and prof != "f" else 0)
    return [[[p[0] * s, p[1] * s] for p in pts], [q[0] * s, q[1] * s], prof == "f"]


def build(form, a, b, c):
    if form == 0:
        return Tri(v(a), v(b), v(c))
    if form == 1:
        return Tri(Seg(v(a), v(b)), v(c))
    t = Tri(V(9, 8), V(-7, 6), V(5, -4))
    if form == 2:
        res = t.assign(v(a), v(b), v(c))
    else:
        res = t.assign(Seg(v(a), v(b)), v(c))
    expect(res is t, "assign does not return the triangle itself")
    return t


def exact_measures(t, pts, is_float):
    a, b, c = [fr(p) for p in pts]
    z = cross(a, b, c)
    fz = float(z)
    m = max(abs(x) for p in pts for x in p) or 1.0
    tol = 1e-14 * m * m * 8
    near(t.double_signed_area(), fz, ("double_signed_area of %r", t), 1e-12, tol if is_float else 0)
    near(t.signed_area(), fz / 2, ("signed_area of %r", t), 1e-12, tol if is_float else 0)
    near(t.area(), abs(fz) / 2, ("area of %r", t), 1e-12, tol if is_float else 0)
    for i, (got, live) in enumerate(((t.a(), t.a_()), (t.b(), t.b_()), (t.c(), t.c_()))):
        eq(xy(got), tuple(pts[i]), ("vertex %d of %r", i, t))
        eq(xy(live), tuple(pts[i]), ("live vertex %d of %r", i, t))
    if not is_float or abs(fz) > 10 * tol:
        is_true(t.ccw(), z > 0, ("ccw of %r", t))
    return z, tol


def check_tri(case):
    pts, q, is_float = case
    labs = set()
    base = cross(*[fr(p) for p in pts])
    for form, perm in enumerate(itertools.permutations(pts)):
        t = build(form % 4, *perm)
        z, tol = exact_measures(t, perm, is_float)
        va, vb, vc = [v(p) for p in perm]
        near(Tri.double_signed_area_st(va, vb, vc), float(z), ("double_signed_area_st of %r", t), 1e-12, tol if is_float else 0)
        near(Tri.signed_area_st(va, vb, vc), float(z) / 2, ("signed_area_st of %r", t), 1e-12, tol if is_float else 0)
        decided = not is_float or abs(float(z)) > 10 * tol
        if decided:
            is_true(Tri.tri_ccw(va, vb, vc), z > 0, ("tri_ccw of %r", t))
        uniq = len({tuple(p) for p in perm}) == 3
        is_true(t.is_valid(), uniq, ("validity of %r", t))
        if z == 0 or not decided:
            continue
        a, b, c = [fr(p) for p in perm]
        w = fr(q)
        o = [cross(a, b, w), cross(b, c, w), cross(c, a, w)]
        mq = max([abs(x) for p in list(perm) + [q] for x in p]) or 1.0
        if is_float and any(abs(float(x)) < 1e-12 * mq * mq for x in o):
            continue
        want = all(x >= 0 for x in o) or all(x <= 0 for x in o)
        is_true(t.contains(v(q)), want, ("%r contains %r", t, q))
        is_true(Tri.tri_contains(va, vb, vc, v(q)), want, ("tri_contains(%r, %r)", t, q))
        labs.add(("in" if want else "out") + ("_edge" if 0 in o else ""))
    labs.add("collinear" if base == 0 else "ccw" if base > 0 else "cw")
    if len({tuple(p) for p in pts}) < 3:
        labs.add("coincident")
    return " ".join(sorted(labs)) + (" float" if is_float else "")


def gen_hist(g):
    prof = gn.exact_profile(g)
    ops = []
    for _ in range(g.int(1, 7)):
        k = g.raw(4)
        if k <= 1:
            ops.append(["assign", k, [gn.pt(g, prof, 9) for _ in range(3)]])
        elif k == 2:
            ops.append(["live", g.raw(2), gn.pt(g, prof, 9)])
        elif k == 3:
            ops.append(["invalidate", g.raw(2), g.raw(1), g.raw(3)])
        else:
            ops.append(["same", g.raw(2), g.raw(2)])
    return [g.raw(1), [gn.pt(g, prof, 9) for _ in range(3)], ops, gn.pt(g, prof, 9)]


def check_hist(case):
    form, pts, ops, q = case
    pts = [list(p) for p in pts]
    ok = [True] * 3
    t = build(form, *pts)
    for op in [None] + ops:
        if op is None:
            pass
        elif op[0] == "assign":
            pts = [list(p) for p in op[2]]
            ok = [True] * 3
            if op[1]:
                t.assign(Seg(v(pts[0]), v(pts[1])), v(pts[2]))
            else:
                t.assign(v(pts[0]), v(pts[1]), v(pts[2]))
        elif op[0] == "live":
            (t.a_, t.b_, t.c_)[op[1]]().assign(op[2][0], op[2][1])
            pts[op[1]] = list(op[2])
            ok[op[1]] = (t.a_, t.b_, t.c_)[op[1]]().is_valid()
        elif op[0] == "same":
            (t.a_, t.b_, t.c_)[op[1]]().assign(pts[op[2]][0], pts[op[2]][1])
            pts[op[1]] = list(pts[op[2]])
            ok[op[1]] = (t.a_, t.b_, t.c_)[op[1]]().is_valid()
        else:
            bad = [v(p) for p in pts]
            if op[2]:
                bad[op[1]].invalidate()
            how = op[3] if len(op) > 3 else 0
            if how == 0:
                t.assign(*bad)
            elif how == 1:
                t.assign(Seg(bad[0], bad[1]), bad[2])
            elif how == 2:
                t = Tri(*bad)
            else:
                t = Tri(Seg(bad[0], bad[1]), bad[2])
            ok = [b.is_valid() for b in bad]
        z, _ = exact_measures(t, pts, False)
        is_true(t.is_valid(), all(ok) and len({tuple(p) for p in pts}) == 3, ("validity of %r (vertices valid: %r)", t, ok))
        if z != 0:
            o = [cross(pts[i], pts[(i + 1) % 3], q) for i in range(3)]
            is_true(t.contains(v(q)), all(x >= 0 for x in o) or all(x <= 0 for x in o), ("%r contains %r", t, q))
    return "len%d" % len(ops)


SUBS = [
    Sub("exact", gen_tri, check_tri, "areas, orientation, membership, validity; all vertex orders and construction forms", n=6000, frame="ZO"),
    Sub("history", gen_hist, check_hist, "the same after histories of reassignments and live edits", n=5000, frame="ZO", share=False),
]
