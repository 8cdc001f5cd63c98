"""C16 triangle boundary intersections with lines, rays and segments are complete"""
from vlib.common import *
from vlib import geo

RULE = ("A case is a non-degenerate triangle (either orientation) and two points defining a line, a ray and a segment, often along "
        "an edge, through a vertex, axis parallel, from inside, or ending on the outline. Trivial: a vertex nearly but not exactly on "
        "the line, a nearly parallel edge, or a thin triangle. Distinct: different choice sequences.")
ASSUMPTIONS = ["with coordinates beyond 150, cuts through an exact corner and segments ending on the outline are not judged (the code's absolute tolerance 1e-9 is below rounding there)",
               "outline points within 2e-3 of a ray's origin are not judged",
               "the reported points are the first n entries after the count n"]


def gen(g):
    prof = gn.exact_profile(g)
    r = g.pick([9, 20])
    t = [gn.pt(g, prof, r)]
    t.append(gn.related(g, prof, t, r))
    t.append(gn.related(g, prof, t, r))
    if g.raw(3) == 3:
        t[1] = [t[1][0], t[0][1]]
    pq = geo.gen_cutter(g, prof, t, r)
    return [t, pq, g.signed(g.pick([1, 2, 0.5, 10, 3]))]


def make(p, q, mul, u):
    a, b = -(q[1] - p[1]) * mul, (q[0] - p[0]) * mul
    yield "line", Line(a, b, -a * p[0] - b * p[1])
    yield "line", Line(v(p), v(q))
    yield "line", Line(v(q), v(p))
    yield "ray", Ray(v(p), v(q))
    yield "ray", Ray(v(p), A(math.degrees(math.atan2(u[1], u[0]))))
    yield "segment", Seg(v(p), v(q))
    yield "segment", Seg(v(q), v(p))


def check(case):
    t, (p, q), mul = case
    area2 = abs(cross(*[fr(x) for x in t]))
    long_ = max(dist(t[0], t[1]), dist(t[1], t[2]), dist(t[2], t[0]))
    if area2 < F(1, 10) or float(area2) < 1e-2 * long_ or p == q or dist(p, q) < 0.01:
        return None
    labs = set()
    for verts in (t, [t[1], t[2], t[0]], [t[2], t[1], t[0]]):
        tri = Tri(v(verts[0]), v(verts[1]), v(verts[2]))

        def points_of(obj):
            res = tri.intersection(obj)
            n = res[0]
            expect(isinstance(n, int) and 0 <= n <= 2 and len(res) > n, "%r.intersection(%r) returned %r", tri, obj, res)
            for x in res[1:n + 1]:
                expect(x.is_valid(), "%r.intersection(%r) reports an invalid point: %r", tri, obj, res)
            return res[1:n + 1]

        lab = geo.check_outline(t, points_of, None, (p, q), mul, make, "intersection of %r" % tri)
        if lab is None:
            return None
        labs.update(lab.split())
    return " ".join(sorted(labs))


def gen_f(g):
    t = [gn.pt(g, "f", 30) for _ in range(3)]
    k = g.raw(2)
    p, q = gn.pt(g, "f", 30), gn.pt(g, "f", 30)
    if k == 1:
        p = [(t[0][0] + t[1][0] + t[2][0]) / 3.0, (t[0][1] + t[1][1] + t[2][1]) / 3.0]
    elif k == 2:
        c = [(t[0][0] + t[1][0] + t[2][0]) / 3.0, (t[0][1] + t[1][1] + t[2][1]) / 3.0]
        s = g.pick([0.5, 2.0, 1.5, 1.1])
        q = [p[0] + s * (c[0] - p[0]), p[1] + s * (c[1] - p[1])]
    return [t, [p, q], g.signed(g.pick([1, 2.0, 0.5, 10, 0.3]))]


SUBS = [
    Sub("grid", gen, check, "count and points for line, ray and segment (all forms, vertex orders) against exact geometry", n=3000, frame="ZO"),
    Sub("float", gen_f, check, "the same in floating point general position", n=3000, frame="ZO"),
]
