"""C19 rectangle boundary intersections with lines, rays and segments are complete"""
from vlib.common import *
from vlib import geo

RULE = ("A case is a rectangle of positive area and two points defining a line, a ray and a segment, often along a side, through a "
        "corner, axis parallel, from inside, or ending on the outline. Trivial: a corner nearly but not exactly on the line, or a "
        "nearly parallel side. Distinct: different choice sequences.")
ASSUMPTIONS = ["with coordinates beyond 150, cuts through an exact corner and segments ending on the outline are not judged (the code's absolute tolerance 1e-9 is below rounding there)",
               "outline points within 2e-3 of a ray's origin are not judged", "the result is a list of points"]


def gen(g):
    prof = gn.exact_profile(g)
    x, y = gn.cx(g, prof, 12), gn.cy(g, prof, 12)
    w, h = gn.pos(g, prof, 12), gn.pos(g, prof, 12)
    verts = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    if g.raw(3) == 3:                                # diagonals and 45 degree touches
        c = g.raw(3)
        p = list(verts[c])
        d = g.pick([[1, 1], [1, -1], [1, 2], [2, -1], [w, h], [w, -h]])
        t, s = g.pick([0, -1, -2, 1, 3, -0.5]), g.pick([1, 2, 4, -3, 0.5])
        if t == s:
            s = t + 1
        pq = [[p[0] + t * d[0], p[1] + t * d[1]], [p[0] + s * d[0], p[1] + s * d[1]]]
    else:
        pq = geo.gen_cutter(g, prof, verts, 15)
    return [[x, y, w, h], pq, g.signed(g.pick([1, 2, 0.5, 10, 3]))]


def gen_f(g):
    x, y, w, h = gn.cx(g, "f", 20), gn.cy(g, "f", 20), 0.05 + gn.pos(g, "f", 20), 0.05 + gn.pos(g, "f", 20)
    verts = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    k = g.raw(2)
    p, q = gn.pt(g, "f", 30), gn.pt(g, "f", 30)
    if k == 1:
        p = [x + w * g.unit(), y + h * g.unit()]
    elif k == 2:
        c = [x + w * g.unit(), y + h * g.unit()]
        s = g.pick([0.5, 2.0, 1.5, 1.1])
        q = [p[0] + s * (c[0] - p[0]), p[1] + s * (c[1] - p[1])]
    return [[x, y, w, h], [p, q], g.signed(g.pick([1, 2.0, 0.5, 10, 0.3]))]


def make(p, q, mul, u):
    a, b = -(q[1] - p[1]) * mul, (q[0] - p[0]) * mul
    yield "line", Line(a, b, -a * p[0] - b * p[1])
    yield "line", Line(v(p), v(q))
    yield "line", Line(v(q), v(p))
    yield "ray", Ray(v(p), v(q))
    yield "ray", Ray(v(p), A(math.degrees(math.atan2(u[1], u[0]))))
    yield "segment", Seg(v(p), v(q))
    yield "segment", Seg(v(q), v(p))


def check(case):
    (x, y, w, h), (p, q), mul = case
    if p == q or min(w, h) < 0.05 or dist(p, q) < 0.01:
        return None
    r = Rect(x, y, w, h)
    x1, y1 = r.right(), r.bottom()
    verts = [[x, y], [x1, y], [x1, y1], [x, y1]]
    # nearly (not exactly) axis-parallel cuts are ill-conditioned
    dx, dy = abs(q[0] - p[0]), abs(q[1] - p[1])
    if 0 < dx < 1e-3 or 0 < dy < 1e-3:
        return None

    def points_of(obj):
        res = r.intersection(obj)
        for z in res:
            expect(z.is_valid(), "%r.intersection(%r) reports an invalid point: %r", r, obj, res)
        return list(res)

    return geo.check_outline(verts, points_of, None, (p, q), mul, make, "intersection of %r" % r)


SUBS = [
    Sub("grid", gen, check, "points for line, ray and segment against exact geometry", n=6000, frame="ZO"),
    Sub("float", gen_f, check, "the same in floating point general position", n=6000, frame="ZO"),
]
