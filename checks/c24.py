"""C24 both hull methods return exactly the extreme points, counterclockwise"""
from vlib.common import *
from vlib import poly

MT = P.MethodType
RULE = ("A case is a point set (3 to 40 points, sometimes 150, in a separate sub-check up to 1300: small grids with many duplicates and collinear runs, points of convex "
        "curves, floating point) computed by both methods in shuffled orders, or a history of adding, clearing and recomputing. Trivial: "
        "all points on one line, or (floating point) nearly collinear triples. Distinct: different choice sequences.")
ASSUMPTIONS = ["the direct method is not claimed; point sets on one line are not judged",
               "point sets on which the orientation of a triple cannot be computed exactly in floating point are judged only when every doubled area is above 1e-6",
               "the orientation helper is not judged on triples whose doubled area is below 1e-5 (its own tolerance is 1e-6)"]


def gen_set(g):
    prof = g.weighted((5, "i"), (2, "d"), (2, "f"))
    k = g.raw(5)
    if prof == "f":
        r = g.pick([10, 50])
        return [gn.pt(g, "f", r) for _ in range(g.int(3, 10))], True
    r = g.pick([2, 3, 5, 9, 50])
    n = gn.size(g, 3, 14, 150)
    if k == 0:
        pts = gn.pts_related(g, prof, 3, max(3, n), r, avg=n)
    elif k == 1:                                         # convex curve
        pts = []
        many = g.raw(7) == 7
        for _ in range(g.int(20, 120) if many else n):
            t = g.int(-90, 90) if many else g.int(-9, 9)
            pts.append([t + g.ox, t * t + g.oy] if g.raw(1) else [t + g.ox, (g.pick([90, 170]) if not many else 16300) - t * t + g.oy])
    elif k == 2:                                         # box with points on its sides
        w, h = g.int(1, 8), g.int(1, 8)
        pts = [[0, 0], [w, 0], [w, h], [0, h]]
        for _ in range(n):
            pts.append([g.int(0, w), g.pick([0, h])] if g.raw(1) else [g.pick([0, w]), g.int(0, h)])
        o = gn.pt(g, "i", 9)
        pts = [[p[0] + o[0], p[1] + o[1]] for p in pts]
    elif k == 3:                                         # star polygon corners
        pts = gn.star_polygon(g, prof, max(3, n), 0, 0, 20)
    else:
        pts = [gn.pt(g, prof, r) for _ in range(n)]
    for _ in range(g.raw(2)):                            # duplicates
        pts.append(list(g.pick(pts)))
    if g.raw(7) == 7:
        s = 2.0 ** g.int(-4, 10)
        pts = [[p[0] * s, p[1] * s] for p in pts]
    return pts, False


def gen(g):
    pts, is_float = gen_set(g)
    return [g.shuffle(pts) if g.raw(1) else pts, is_float, [g.raw(max(0, len(pts) - 1 - i)) for i in range(min(len(pts), 12))], g.raw(1)]


def judged(pts, is_float):
    ex = [tuple(fr(p)) for p in pts] if is_float else [tuple(p) for p in pts]
    if is_float:
        n = len(ex)
        for i in range(n):
            for j in range(i):
                for k in range(j):
                    if abs(cross(ex[i], ex[j], ex[k])) < 1e-6:
                        return None
    h = poly.hull(ex)
    return [(float(x), float(y)) for x, y in h] if len(h) >= 3 else None


def verify(o, pts, want, what):
    got = [xy(p) for p in o.vertices()]
    w = [tuple(p) for p in want]
    expect(len(got) == len(w) and set(got) == set(w), "%s: vertices %r, expected the extreme points %r of %r", what, got, w, pts)
    k = w.index(got[0])
    expect(got == w[k:] + w[:k], "%s: vertices %r are not in counterclockwise order, expected %r", what, got, w)
    eq([xy(p) for p in o.vertices_()], got, (what + ": vertices_",))
    n = len(got)
    ed = [(xy(e.origin()), xy(e.terminal())) for e in o.edges()]
    eq(ed, [(got[i], got[(i + 1) % n]) for i in range(n)], (what + ": edges of the hull of %r", pts))
    eq([(xy(e.origin()), xy(e.terminal())) for e in o.edges_()], ed, (what + ": edges_",))
    pg = o.to_polygon()
    eq([xy(p) for p in pg.vertices()], got, (what + ": polygon of the hull",))
    expect(pg.is_counter_clockwise(), "%s: polygon of the hull is not counterclockwise", what)
    eq([xy(p) for p in o.input_points()], [tuple(p) for p in pts], (what + ": input points",))
    eq([xy(p) for p in o.input_points_()], [tuple(p) for p in pts], (what + ": input points_",))
    return pg


METHODS = [("wrapping", lambda o: o.compute_wrapping_method()), ("graham", lambda o: o.compute_graham_scan()),
           ("compute()", lambda o: o.compute()), ("compute(wrapping)", lambda o: o.compute(MT.WRAPPING_METHOD)),
           ("compute(graham)", lambda o: o.compute(MT.GRAHAN_SCAN))]


def check(case):
    pts, is_float, order, rev = case
    want = judged(pts, is_float)
    if want is None:
        return None
    perm = list(pts)
    for i, j in enumerate(order):
        k = i + j % (len(perm) - i)
        perm[i], perm[k] = perm[k], perm[i]
    if rev:
        perm.reverse()
    first = True
    for name, run in METHODS:
        for src in ((pts, perm) if name in ("wrapping", "graham") else (pts,)):
            given = [v(p) for p in src]
            o = Hull(given)
            run(o)
            pg = verify(o, src, want, name)
            eq([xy(p) for p in given], [tuple(p) for p in src], (name + ": the caller's list",))
            if first and not is_float:
                for p in given:
                    is_true(pg.contains(p), True, (name + ": polygon of the hull contains the input %r", p))
            first = False
            run(o)
            verify(o, src, want, name + " again")
    return "h%d" % min(len(want), 12) + (" dup" if len({tuple(p) for p in pts}) < len(pts) else "") \
        + (" all_extreme" if len(want) == len({tuple(p) for p in pts}) else "") + (" float" if is_float else "")


def gen_hist(g):
    ops = []
    for _ in range(g.int(1, 9)):
        k = g.raw(7)
        if k <= 1:
            ops.append(["add", gn.pt(g, "i", 5)])
        elif k == 2:
            ops.append(["adds", [gn.pt(g, "i", 5) for _ in range(g.int(0, 5))]])
        elif k <= 5:
            ops.append(["compute", g.raw(4)])
        elif k == 6:
            ops.append(["clear_results"])
        else:
            ops.append(["clear"])
    ops.append(["compute", g.raw(4)])
    return [[gn.pt(g, "i", 5) for _ in range(g.int(0, 7))], ops]


def check_hist(case):
    pts, ops = case
    pts = [list(p) for p in pts]
    o = Hull([v(p) for p in pts])
    eq(([xy(p) for p in o.vertices()], len(o.edges())), ([], 0), "results before computing")
    labs = set()
    for i, op in enumerate(ops):
        if op[0] == "add":
            o.add_point(v(op[1]))
            pts.append(op[1])
        elif op[0] == "adds":
            given = [v(p) for p in op[1]]
            o.add_points(given)
            pts.extend(op[1])
            eq([xy(p) for p in given], [tuple(p) for p in op[1]], "the caller's list after add_points")
        elif op[0] == "clear":
            o.clear()
            pts = []
            eq(([xy(p) for p in o.vertices()], len(o.edges()), o.input_points()), ([], 0, []), "after clear")
        elif op[0] == "clear_results":
            o.clear_results()
            eq(([xy(p) for p in o.vertices()], len(o.edges())), ([], 0), "after clear_results")
        else:
            name, run = METHODS[op[1]]
            run(o)
            if len(pts) < 3:
                eq(([xy(p) for p in o.vertices()], len(o.edges())), ([], 0), ("%s on %r", name, pts))
                labs.add("few")
            else:
                want = judged(pts, False)
                if want is not None:
                    verify(o, pts, want, "step %d: %s" % (i, name))
                    labs.add("hull")
                else:
                    labs.add("line")
        eq([xy(p) for p in o.input_points()], [tuple(p) for p in pts], ("input points after step %d %r", i, op))
    return " ".join(sorted(labs)) or None


def gen_flat(g):
    r = g.pick([3, 5, 9])
    pts = gn.pts_related(g, "i", 3, 12, r)
    t = 2.0 ** -g.int(8, 34)
    k = g.raw(3)
    pts = [[p[0] * t, p[1]] if k == 0 else [p[0], p[1] * t] if k == 1 else [p[0], p[0] * 0.5 + p[1] * t] if k == 2
           else [p[0] * t, p[1] * t] for p in pts]
    return [g.shuffle(pts)]


def check_flat(case):
    """needle-like and tiny sets (orientations are exact in floating point)"""
    pts, = case
    h = poly.hull([tuple(fr(p)) for p in pts])
    if len(h) < 3:
        return None
    want = [(float(x), float(y)) for x, y in h]
    for name, run in METHODS:
        o = Hull([v(p) for p in pts])
        run(o)
        verify(o, pts, want, name)
    return "h%d" % len(want)


def gen_turn(g):
    prof = gn.profile(g)
    return [gn.pts_related(g, prof, 3, 3, g.pick([3, 9, 50])), g.list(lambda g: [g.int(-2, 2), g.int(-2, 2)], 0, 9, 5)]


def check_turn(case):
    pts, dup = case
    p, q, r = [v(x) for x in pts]
    c = cross(*[fr(x) for x in pts])
    lab = None
    if abs(c) > 1e-5 * max(1.0, scale_of(*pts)):
        is_true(P.hull_mod.is_clockwise(p, q, r), c < 0, ("is_clockwise%r", tuple(pts)))
        if hasattr(P.hull_mod, "angle_sort_predicate"):
            eq(P.hull_mod.angle_sort_predicate(q, r, p), -1 if c < 0 else 1, ("angle order of %r and %r seen from %r", pts[1], pts[2], pts[0]))
        if hasattr(P.hull_mod, "AngleSortPredicate"):
            o = P.hull_mod.AngleSortPredicate(q, p) < P.hull_mod.AngleSortPredicate(r, p)
            is_true(o, c < 0, ("sort key of %r before that of %r seen from %r", pts[1], pts[2], pts[0]))
        lab = "cw" if c < 0 else "ccw"
    if not hasattr(P.hull_mod, "list2set"):
        return lab
    l = [v(x) for x in dup]
    want = []
    for x in dup:
        if x not in want:
            want.append(x)
    eq([xy(x) for x in P.hull_mod.list2set(l)], [tuple(x) for x in want], ("distinct values of %r", dup))
    eq([xy(x) for x in l], [tuple(x) for x in dup], "the list given")
    eq([xy(x) for x in (p, q, r)], [tuple(x) for x in pts], "the points given")
    return lab


def gen_large(g):
    return [gn.many(g), g.raw(1), g.raw(9999)]


def check_large(case):
    desc, rev, split = case
    if desc[1] in (1, 2):
        desc = [min(desc[0], 160)] + desc[1:]            # many extreme points: gift wrapping is quadratic
    pts = gn.many_points(desc)
    want = judged(pts, False)
    if want is None:
        return None
    if rev:
        pts.reverse()
    k = split % (len(pts) + 1)
    for name, run in METHODS[:2]:
        o = Hull([v(p) for p in pts])
        run(o)
        verify(o, pts, want, name)
        o = Hull([v(p) for p in pts[:k]])
        run(o)
        o.add_points([v(p) for p in pts[k:]])
        run(o)
        verify(o, pts, want, name + " after adding points")
    return "n%d" % (len(pts) // 100 * 100) + " h%d" % min(len(want) // 10 * 10, 100)


SUBS = [
    Sub("large", gen_large, check_large, "both methods on up to 1300 points, against an exact hull", n=5, share=False),
    Sub("flat", gen_flat, check_flat, "both methods on needle-like and tiny point sets, against an exact hull", n=3000),
    Sub("sets", gen, check, "both methods, all call forms, two input orders, against an exact monotone-chain hull", n=1800, frame="ZO"),
    Sub("history", gen_hist, check_hist, "adding, clearing and recomputing equals computing on the whole set", n=2500, frame="ZO", share=False),
    Sub("turn", gen_turn, check_turn, "orientation helpers against the exact doubled area; removal of repeated values", n=6000, frame="ZO"),
]
