"""C12 circle membership and area; circle meets lines, rays and segments exactly"""
from vlib.common import *
from vlib import geo

RULE = ("A case is a circle with a query point, or with two points defining a line, a ray and a segment: secants, exact Pythagorean "
        "tangents, misses by small and large gaps, horizontal and vertical cuts, end points exactly on the circle, origins inside and "
        "outside, scaled coefficients. Trivial: half chord squared below 1e-6 but not exactly tangent. "
        "Distinct: different choice sequences.")
ASSUMPTIONS = ["near tangency (|r^2 - h^2| < 1e-6, not exactly zero) is not judged",
               "points within 2e-3 of a ray's origin are not judged", "degenerate segments are not judged"]

PYTH = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (15, 8, 17), (7, 24, 25), (1, 0, 1), (0, 1, 1)]


def gen_member(g):
    prof = g.weighted((4, "i"), (2, "d"), (2, "f"))
    c = gn.pt(g, prof, 20)
    r = g.pick([0, 1, 2, 5, 13, 2.5, 10]) if g.raw(1) else gn.num(g, prof, 20)
    k = g.raw(3)
    if k == 0:
        p = gn.pt(g, prof, 20)
    elif k == 1:
        x, y, z = g.pick(PYTH)
        s = abs(r) / float(z)
        p = [c[0] + g.signed(x * s), c[1] + g.signed(y * s)]
    elif k == 2:
        p = [c[0] + g.signed(r), c[1]] if g.raw(1) else [c[0], c[1] + g.signed(r)]
        e = g.signed(2.0 ** -g.int(3, 24))
        if g.raw(1):
            p[g.raw(1)] += e
    else:
        p = [c[0] + g.signed(g.uniform(0.0, abs(float(r)) * 1.2)), c[1] + g.signed(g.uniform(0.0, abs(float(r)) * 1.2))]
    s = 2.0 ** (g.int(-12, 8) if g.raw(4) == 4 else 0)
    return [[c[0] * s, c[1] * s], r * s, [p[0] * s, p[1] * s], g.raw(2)]


def check_member(case):
    c, r, p, form = case
    if form == 0:
        o = Circle(v(c), r)
    elif form == 1:
        o = Circle(V(7, -3), 4.0)
        o.assign(v(c), r)
    else:
        o = Circle()
        eq((xy(o.center()), o.radius(), o.area()), ((0, 0), 0, 0), "default circle")
        o.assign(v(c), r)
    rr = max(r, 0)
    eq(o.radius(), rr, "radius of the circle built with %r" % r)
    eq(xy(o.center()), tuple(c), "centre")
    eq(xy(o.center_()), tuple(c), "centre_")
    near(o.area(), math.pi * rr * rr, "area of %r" % o, 1e-12, 0)
    (cx, cy), (px, py) = fr(c), fr(p)
    d2 = (cx - px) ** 2 + (cy - py) ** 2
    r2 = F(rr) ** 2
    diff = abs(d2 - r2)
    if diff != 0 and diff < 1e-12 * float(max(d2, r2)) or (diff == 0 and float(d2) != d2):
        return None
    # an exact tie is judged only where the squares are representable
    if diff == 0 and F((c[0] - p[0]) ** 2) + F((c[1] - p[1]) ** 2) != d2:
        return None
    is_true(o.contains(v(p)), d2 < r2, ("%r contains %r", o, p))
    return "in" if d2 < r2 else "on" if d2 == r2 else "out"


def gen_line(g):
    """centre, radius, p, q, coefficient scale, exact tangent flag"""
    k = g.raw(6)
    prof = gn.exact_profile(g)
    c = gn.pt(g, prof, 20)
    mul = g.signed(g.pick([1, 2, 0.5, 4, 10, 0.3, 1e-3, 1e3]))
    if k <= 1:
        r = g.pick([1, 2, 5, 10, 13, 0.5, 7.25, 20])
        p, q = gn.pt(g, prof, 20), gn.related(g, prof, [c], 20)
    elif k == 2:                                       # exact tangent
        x, y, z = g.pick(PYTH)
        s = g.pick([1, 2, 0.5, 4, 0])
        x, y = g.signed(x), g.signed(y)
        r = z * s
        t = [c[0] + x * s, c[1] + y * s]
        m, n = g.pick([0, 1, -1, 2, -2, 0.5]), g.pick([1, -1, 2, 3, -0.5])
        if m == n:
            n = m + 1
        p, q = [t[0] - m * y, t[1] + m * x], [t[0] - n * y, t[1] + n * x]
    elif k == 3:                                       # chord or gap at a chosen distance from the centre
        r = g.pick([1.0, 5.0, 10.0, 0.5, 20.0])
        h = r + g.signed(g.pick([1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5]) * r) if g.raw(1) else r * g.pick([0.0, 0.1, 0.5, 0.9, 0.99, 1.5, 3.0])
        d = gn.deg(g, False)
        u = unit_dir(d)
        m, n = g.signed(g.uniform(0.0, 2.5 * r)), g.signed(g.uniform(0.0, 2.5 * r))
        f = [c[0] + h * u[0], c[1] + h * u[1]]
        p, q = [f[0] - m * u[1], f[1] + m * u[0]], [f[0] - n * u[1], f[1] + n * u[0]]
    elif k == 4:                                       # axis parallel
        r = g.pick([1, 2, 5, 10, 2.5])
        if g.raw(15) == 15:
            r0, r = 0, 1
        else:
            r0 = r
        o = g.signed(g.pick([0, 0.5, 1, 0.75, 2, 0.25]) * r)
        m, n = g.signed(g.pick([0, 0.5, 1, 2, 3, 0.75]) * r), g.signed(g.pick([1, 0.25, 2, 3, 0.75]) * r)
        p, q = ([c[0] + m, c[1] + o], [c[0] + n, c[1] + o]) if g.raw(1) else ([c[0] + o, c[1] + m], [c[0] + o, c[1] + n])
        r = r0
    elif k == 5:                                       # an end exactly on the circle
        x, y, z = g.pick(PYTH)
        s = g.pick([1, 2, 0.5])
        r = z * s
        p = [c[0] + g.signed(x * s), c[1] + g.signed(y * s)]
        q = gn.related(g, prof, [c, p], 20) if g.raw(1) else [c[0] + g.signed(y * s), c[1] + g.signed(x * s)]
        if g.raw(1):
            p, q = q, p
    else:
        r = g.uniform(0.1, 20.0)
        p, q = gn.pt(g, "f", 30), gn.pt(g, "f", 30)
        c = gn.pt(g, "f", 20)
    if k != 2 and g.raw(5) == 5:                       # nearly axis parallel
        e = g.signed(g.mag(-16, -2))
        if g.raw(1):
            q = [q[0], p[1] + e * (q[0] - p[0])]
        else:
            q = [p[0] + e * (q[1] - p[1]), q[1]]
    return [c, r, p, q, mul]


def hits_of(c, r, p, q):
    """reference: (points, tolerance) or None when not judged; points as floats"""
    pe, qe, ce = fr(p), fr(q), fr(c)
    dx, dy = qe[0] - pe[0], qe[1] - pe[1]
    n2 = dx * dx + dy * dy
    h2 = cross(pe, qe, ce) ** 2 / n2
    s = F(r) ** 2 - h2                                 # half chord squared
    t0 = ((ce[0] - pe[0]) * dx + (ce[1] - pe[1]) * dy) / n2
    f = (pe[0] + t0 * dx, pe[1] + t0 * dy)
    m = max(scale_of(c, p, q), float(r))
    la = 2.0
    noise = 1e-14 * m * m * la
    if s == 0:
        if noise > 1e-8:
            return None
        return [(float(f[0]), float(f[1]))], 1e-6 * m + 1e-3 * math.sqrt(la) * 1e-3, [f]
    if abs(float(s)) < 1e-6 + 100 * noise:
        return None
    if s < 0:
        return [], 0.0, []
    half = math.sqrt(float(s))
    ln = math.sqrt(float(n2))
    ux, uy = float(dx) / ln, float(dy) / ln
    tol = (1e-10 * m + noise / half) * math.sqrt(la) + 1e-9
    if tol > 1e-5:
        return None
    pts = [(float(f[0]) + sg * half * ux, float(f[1]) + sg * half * uy) for sg in (1, -1)]
    return pts, tol, None


def check_line(case):
    c, r, p, q, mul = case
    ln = dist(p, q)
    if ln < 1e-2:
        return None
    ref = hits_of(c, r, p, q)
    if ref is None:
        return None
    pts, tol, _ = ref
    tan = len(pts) == 1
    o = Circle(v(c), r)
    a, b = -(q[1] - p[1]) * mul, (q[0] - p[0]) * mul
    u = ((q[0] - p[0]) / ln, (q[1] - p[1]) / ln)
    labs = []
    for kind, obj, via in (("line", Line(a, b, -a * p[0] - b * p[1]), 0), ("line", Line(v(p), v(q)), 1),
                           ("ray", Ray(v(p), v(q)), 0), ("ray", Ray(v(p), v(q)), 1),
                           ("segment", Seg(v(p), v(q)), 0), ("segment", Seg(v(q), v(p)), 1)):
        if kind == "line":
            must, may = pts, []
            got = o.intersection(obj) if via == 0 else o.intersection_with_line(obj)
        elif kind == "ray":
            must, may = geo.split_ray(pts, p, u)
            got = o.intersection(obj) if via == 0 else o.intersection_with_ray(obj)
        else:
            got = o.intersection(obj) if via == 0 else o.intersection_with_segment(obj)
            must, may = [], []
            for h in pts:
                t = (h[0] - p[0]) * u[0] + (h[1] - p[1]) * u[1]
                at_end = min(abs(t), abs(t - ln))
                exact_end = (dist(h, p) < 1e-9 and on_circle(c, r, p)) or (dist(h, q) < 1e-9 and on_circle(c, r, q))
                if exact_end and tol * ln < 5e-10 and not tan:
                    must.append(h)
                elif at_end * max(abs(u[0]), abs(u[1])) ** 2 * ln < 1e-7 or at_end < 10 * tol:
                    may.append(h)
                elif 0 < t < ln:
                    must.append(h)
        bad = geo.match([xy(x) for x in got], must, may, tol * 3 + 1e-9)
        if bad:
            fail("%r meets the %s through %r and %r: got %r, expected %r: %s", o, kind, p, q, got, must, bad)
        if not may:
            labs.append("%s%d" % (kind[0], len(must)))
    return " ".join(sorted(set(labs))) + (" tangent" if tan else "")


def on_circle(c, r, p):
    c, p = fr(c), fr(p)
    return (c[0] - p[0]) ** 2 + (c[1] - p[1]) ** 2 == F(r) ** 2


SUBS = [
    Sub("membership", gen_member, check_member, "radius, centre, area and strict membership, exact", n=12000, frame="ZO"),
    Sub("cuts", gen_line, check_line, "intersection with line, ray and segment against exact half chords", n=8000, frame="ZO"),
]
