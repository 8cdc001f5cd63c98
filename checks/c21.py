"""C21 polygon measures are exact and survive any history of vertex edits"""
from vlib.common import *
from vlib import poly

RULE = ("A case is a polygon (0 to 80 vertices, in a separate sub-check up to 1300: random, star shaped, repeated, collinear, self-crossing) built in any construction form, "
        "followed by a history of assigning, appending, clearing and edits of live vertices; all measures are compared with exact "
        "arithmetic after each step. Trivial: none. Distinct: different choice sequences.")
ASSUMPTIONS = ["the default polygon and a cleared polygon hold the single point (0, 0), as documented; assigning an empty list keeps the old vertices"]


def gen_pts(g, prof, lo, hi):
    r = g.pick([5, 9, 60])
    k = g.raw(4)
    if k <= 1:
        return gn.pts_related(g, prof, lo, hi, r)
    if k == 2:
        return gn.star_polygon(g, prof, max(3, g.int(3, max(3, hi))), gn.num(g, "i", 9), gn.num(g, "i", 9), r + 1)
    return [gn.pt(g, prof, r) for _ in range(g.int(lo, hi))]


def gen(g):
    prof = g.weighted((3, "i"), (2, "d"), (2, "f"))
    hi = gn.size(g, 8, 8)
    ops = []
    for _ in range(g.int(0, 7)):
        k = g.raw(6)
        if k <= 2:
            ops.append(["add", gn.pt(g, prof, 20)])
        elif k == 3:
            ops.append(["assign", gen_pts(g, prof, 1, hi)])
        elif k == 4:
            ops.append(["clear"])
        elif k == 5:
            ops.append(["live", g.raw(39), gn.pt(g, prof, 20)])
        else:
            ops.append(["assign", []])
    return [g.raw(2), gen_pts(g, prof, 0, hi), ops, prof == "f"]


def compare(o, pts, is_float, what):
    eq([xy(p) for p in o.vertices()], [tuple(p) for p in pts], (what + ": vertices",))
    eq([xy(p) for p in o.vertices_()], [tuple(p) for p in pts], (what + ": vertices_",))
    ex = [fr(p) for p in pts]
    z = poly.shoelace(ex)
    fz = float(z)
    m = scale_of(*pts) if pts else 1.0
    tol = 1e-13 * m * m * (len(pts) + 1) if is_float else 0.0
    near(o.double_signed_area(), fz, (what + ": double_signed_area of %r", pts), 0, tol)
    near(o.area(), abs(fz) / 2, (what + ": area of %r", pts), 0, tol)
    if not is_float or abs(fz) > 10 * tol:
        is_true(o.is_counter_clockwise(), z > 0, (what + ": is_counter_clockwise of %r", pts))
        is_true(o.is_clockwise(), z < 0, (what + ": is_clockwise of %r", pts))
    if pts:
        x0, x1 = min(p[0] for p in pts), max(p[0] for p in pts)
        y0, y1 = min(p[1] for p in pts), max(p[1] for p in pts)
        bb = o.get_bounding_box()
        t = 1e-12 * m if is_float else 0.0
        for got, want, name in ((bb.left(), x0, "left"), (bb.right(), x1, "right"), (bb.top(), y0, "top"), (bb.bottom(), y1, "bottom")):
            near(got, want, (what + ": bounding box %s of %r", name, pts), 0, t)
        near_pt(o.bounding_box_center(), ((x0 + x1) / 2.0, (y0 + y1) / 2.0), (what + ": bounding box centre of %r", pts), 0, t)


def check(case):
    form, pts, ops, is_float = case
    pts = [list(p) for p in pts]
    if form == 0:
        o = Poly([v(p) for p in pts])
    elif form == 1 and pts:
        o = Poly(*[v(p) for p in pts])
    else:
        o = Poly()
        compare(o, [[0, 0]], False, "default polygon")
        if pts:
            res = o.assign([v(p) for p in pts])
            expect(res is o, "assign does not return the polygon itself")
        else:
            pts = [[0, 0]]
    compare(o, pts, is_float, "after construction")
    for i, op in enumerate(ops):
        if op[0] == "add":
            o.add_vertex(v(op[1]))
            pts = pts + [list(op[1])]
        elif op[0] == "assign":
            o.assign([v(p) for p in op[1]])
            if op[1]:
                pts = [list(p) for p in op[1]]
        elif op[0] == "clear":
            o.clear()
            pts = [[0, 0]]
        elif pts:
            j = op[1] % len(pts)
            o.vertices_()[j].assign(op[2][0], op[2][1])
            pts = [list(p) for p in pts]
            pts[j] = list(op[2])
        compare(o, pts, is_float, "after step %d (%s)" % (i, op[0]))
    return "n%d" % min(len(pts), 9) + " ops%d" % len(ops) + (" float" if is_float else "")


def gen_rel(g):
    prof = gn.exact_profile(g)
    return [gen_pts(g, prof, 3, 12), g.raw(11), gn.pt(g, "i", 60)]


def check_rel(case):
    pts, k, t = case
    n = len(pts)
    if n < 3:
        return None
    base = Poly([v(p) for p in pts]).double_signed_area()
    near(base, float(poly.shoelace([fr(p) for p in pts])), "double_signed_area of %r" % (pts,), 0, 0)
    near(Poly([v(p) for p in reversed(pts)]).double_signed_area(), -base, ("double_signed_area of the reversed %r", pts), 0, 0)
    k %= n
    rot = pts[k:] + pts[:k]
    near(Poly([v(p) for p in rot]).double_signed_area(), base, ("double_signed_area of %r", rot), 0, 0)
    mv = [[p[0] + t[0], p[1] + t[1]] for p in pts]
    near(Poly([v(p) for p in mv]).double_signed_area(), base, ("double_signed_area of %r", mv), 0, 0)
    return "n%d" % min(n, 9) + (" zero" if base == 0 else "")


def gen_large(g):
    return [g.raw(2), gn.many(g), g.raw(3), gn.pt(g, "i", 9)]


def check_large(case):
    form, desc, more, p = case
    pts = gn.many_points(desc)
    if form == 2:                                        # one vertex at a time
        o = Poly([v(q) for q in pts[:1]])
        for q in pts[1:]:
            o.add_vertex(v(q))
    else:
        o = Poly([v(q) for q in pts]) if form == 0 else Poly(*[v(q) for q in pts])
    compare(o, pts, False, "large polygon")
    for _ in range(more):
        o.add_vertex(v(p))
        pts = pts + [p]
    compare(o, pts, False, "large polygon after appending")
    o.assign([v(q) for q in pts[::-1]])
    compare(o, pts[::-1], False, "large polygon reversed")
    return "n%d" % (len(pts) // 100 * 100) + " kind%d" % desc[1]


SUBS = [
    Sub("large", gen_large, check_large, "the same measures of polygons of up to 1300 vertices", n=12, share=False),
    Sub("history", gen, check, "vertices and all measures after histories of edits, exact", n=4000, frame="ZO", share=False),
    Sub("relations", gen_rel, check_rel, "reversal, rotation of the start vertex and translation", n=6000, frame="ZO"),
]
