"""C13 circle-circle intersections and circles through three points are exact"""
import itertools
from vlib.common import *
from vlib import geo

quadratic_f = P.mods["circle_2d"].quadratic_f

RULE = ("A case is a pair of circles (crossing, exactly tangent inside and outside on Pythagorean triples, separate by gaps down to "
        "1e-9, nested, concentric, identical), three points plus a query point (cocircular, collinear, coincident, thin), or quadratic "
        "coefficients (including built from chosen roots). Trivial: near tangency or ill-conditioned. Distinct: different choice sequences.")
ASSUMPTIONS = ["crossings with half chord squared below 1e-6 and three points "
               "with small but non-zero area relative to their size are not judged"]

PYTH = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (15, 8, 17), (1, 0, 1), (0, 1, 1)]


def gen_cc(g):
    prof = gn.exact_profile(g)
    c = gn.pt(g, prof, 20)
    k = g.raw(6)
    if k <= 1:
        r = g.pick([1, 2, 5, 10, 13, 0.5, 7.25])
        c2, r2 = gn.related(g, prof, [c], 20), g.pick([1, 2, 5, 10, 3, 12.5, 8])
    elif k == 2:                                         # exact tangency or an exact gap
        x, y, z = g.pick(PYTH)
        s = g.pick([1, 2, 0.5, 4])
        c2 = [c[0] + g.signed(x * s), c[1] + g.signed(y * s)]
        d = z * s
        gap = g.pick([0, 0, 0, 1, -1, 0.25]) * 2.0 ** -g.pick([0, 3, 10, 20, 28])
        r = d * g.pick([0.5, 0.25, 0.125, 1.5, 2, 3, 1])
        r2 = (d - r if r < d else r - d) if g.raw(1) else d + r
        r2 = abs(r2 + gap)
    elif k == 3:                                         # concentric / identical
        c2 = list(c)
        r = g.pick([1, 2, 5.5, 10])
        r2 = r if g.raw(1) else g.pick([1, 2, 3, 0.5])
    elif k == 4:                                         # chosen overlap along a direction
        r, r2 = g.uniform(0.2, 10.0), g.uniform(0.2, 10.0)
        lo, hi = abs(r - r2), r + r2
        d = lo + (hi - lo) * g.uniform(0.001, 0.999) if g.raw(1) else (hi + g.mag(-6, 1) if g.raw(1) else max(0.0, lo - g.mag(-6, 0)))
        u = unit_dir(gn.deg(g, False))
        c2 = [c[0] + d * u[0], c[1] + d * u[1]]
    elif k == 5:                                         # centres on an axis
        d = g.pick([1, 2, 3, 5, 0.5])
        c2 = [c[0] + g.signed(d), c[1]] if g.raw(1) else [c[0], c[1] + g.signed(d)]
        r, r2 = g.pick([1, 2, 2.5, 4, 0.75]), g.pick([1, 2, 3, 1.5, 0.5])
    else:
        c, c2 = gn.pt(g, "f", 20), gn.pt(g, "f", 20)
        r, r2 = g.uniform(0.1, 25.0), g.uniform(0.1, 25.0)
    if g.raw(7) == 7:                                    # centres nearly above or beside each other
        e = g.signed(g.mag(-16, -2))
        i = g.raw(1)
        c2 = list(c2)
        c2[i] = c[i] + e * (c2[1 - i] - c[1 - i])
    return [c, r, c2, r2]


def ref_cc(c1, r1, c2, r2):
    """('none'|'one'|'two'|None, points, tol)"""
    (x1, y1), (x2, y2) = fr(c1), fr(c2)
    R1, R2 = F(r1), F(r2)
    dx, dy = x2 - x1, y2 - y1
    d2 = dx * dx + dy * dy
    lo, hi = (R1 - R2) ** 2, (R1 + R2) ** 2
    m = max(scale_of(c1, c2), float(r1), float(r2))
    if d2 == 0:
        return "none", [], 0
    d = math.sqrt(float(d2))
    if float(d2) == d2 and d * d == d2 and F(d) ** 2 == d2:
        exact = True
    else:
        exact = False
    if d2 > hi or d2 < lo:
        if not exact and min(abs(float(d2 - hi)), abs(float(d2 - lo))) < 1e-12 * m * m:
            return None, None, None
        return "none", [], 0
    t = (d2 + R1 * R1 - R2 * R2) / (2 * d2)              # foot of the radical line
    h2 = R1 * R1 - t * t * d2                            # half chord squared
    fx, fy = float(x1 + t * dx), float(y1 + t * dy)
    if d < 1e-4:
        return None, None, None
    la = 2.0
    big = max(m, m * m / d)
    noise = 1e-14 * big * big * la
    if noise > 1e-8:
        return None, None, None
    if h2 == 0:
        if not exact:
            return None, None, None
        return "one", [(fx, fy)], 1e-5 + 1e-6 * m * math.sqrt(la)
    if float(h2) < 2e-6 + 100 * noise:
        return None, None, None
    h = math.sqrt(float(h2))
    ux, uy = -float(dy) / d, float(dx) / d
    return "two", [(fx + h * ux, fy + h * uy), (fx - h * ux, fy - h * uy)], (1e-9 * big + noise / h) * math.sqrt(la)


def check_cc(case):
    c1, r1, c2, r2 = case
    kind, pts, tol = ref_cc(c1, r1, c2, r2)
    if kind is None:
        return None
    a, b = Circle(v(c1), r1), Circle(v(c2), r2)
    for got, s, t in ((a.intersection(b), a, b), (b.intersection(a), b, a), (a.intersection_with_circle(b), a, b)):
        if kind == "none":
            expect(len(got) == 0, "%r meets %r: got %r, expected no point", s, t, got)
            continue
        bad = geo.match([xy(p) for p in got], pts, [], tol)
        if bad:
            fail("%r meets %r: got %r, expected %r: %s", s, t, got, pts, bad)
    expect(len(a.intersection(a)) == 0, "%r meets itself: got %r, expected no point", a, a.intersection(a))
    return kind + (" concentric" if c1 == c2 else "")


def gen_three(g):
    prof = g.weighted((4, "i"), (2, "d"), (2, "f"))
    r = g.pick([5, 9, 30])
    pts = []
    for _ in range(3):
        pts.append(gn.related(g, prof, pts, r))
    k = g.raw(4)
    if k == 1:                                          # four points of one circle
        s = g.pick([1, 0.5, 2])
        c = gn.pt(g, "i", 5)
        ring = [(x * sx, y * sy) for x, y in ((3, 4), (4, 3), (5, 0), (0, 5)) for sx in (1, -1) for sy in (1, -1)]
        q4 = g.sample(sorted(set(ring)), 4)
        q4 = [[c[0] + s * x, c[1] + s * y] for x, y in q4]
        pts, q = q4[:3], q4[3]
        if g.raw(1):
            q = [q[0] + g.signed(2.0 ** -g.int(2, 12)), q[1]]
    else:
        q = gn.related(g, prof, pts, r)
    s = 2.0 ** (g.int(-9, 6) if g.raw(2) == 2 else 0)
    return [[[p[0] * s, p[1] * s] for p in pts], [q[0] * s, q[1] * s], prof == "f"]


def check_three(case):
    pts, q, is_float = case
    a, b, c = [fr(p) for p in pts]
    z = cross(a, b, c)
    vs = [v(p) for p in pts]
    if z == 0:
        if is_float and len({tuple(p) for p in pts}) == 3 and (float(max(abs(x) for p in pts for x in p)) ** 2 * 1e-15 > 1e-11):
            return None
        o = Circle.circum_circle(*vs)
        eq((xy(o.center()), o.radius()), ((0, 0), 0), ("circle through the collinear points %r", pts))
        for w in (v(q), V(0, 0), vs[0]):
            is_true(o.contains(w), False, ("zero circle through the collinear points %r contains %r", pts, w))
            is_true(Circle.circum_circle_contains(w, *vs), False, ("circum_circle_contains(%r) for the collinear points %r", w, pts))
        return "collinear"
    size = max(dist(pts[0], pts[1]), dist(pts[1], pts[2]), dist(pts[2], pts[0]))
    short = min(dist(pts[0], pts[1]), dist(pts[1], pts[2]), dist(pts[2], pts[0]))
    m = scale_of(*pts)
    fz = abs(float(z))
    if fz < 1e-8 or fz < 1e-3 * size * size or short < 1e-4:
        return None
    la, lb, lc = [p[0] ** 2 + p[1] ** 2 for p in (a, b, c)]
    cx = (la * (b[1] - c[1]) + lb * (c[1] - a[1]) + lc * (a[1] - b[1])) / (2 * z)
    cy = (la * (c[0] - b[0]) + lb * (a[0] - c[0]) + lc * (b[0] - a[0])) / (2 * z)
    r2 = (cx - a[0]) ** 2 + (cy - a[1]) ** 2
    r = math.sqrt(float(r2))
    err = 1e-13 * m ** 3 / fz + 1e-13 * max(m, r, abs(float(cx)), abs(float(cy))) * size * size / fz
    if err > 1e-6:
        return None
    qe = fr(q)
    d2 = (cx - qe[0]) ** 2 + (cy - qe[1]) ** 2
    diff = abs(float(d2 - r2))
    margin = 2e-12 + 10 * err * (math.sqrt(float(d2)) + r)
    want = d2 < r2
    tie = d2 == r2 and r <= 5 and m <= 10 and fz >= 1
    for perm in itertools.permutations(vs):
        o = Circle.circum_circle(*perm)
        for p in pts:
            near(dist(xy(o.center()), p), o.radius(), ("%r passes through %r", o, p), 0, 10 * err + 1e-9 * r)
        near_pt(o.center(), (float(cx), float(cy)), ("centre of the circle through %r", perm), 0, 10 * err + 1e-9 * r)
        near(o.radius(), r, ("radius of the circle through %r", perm), 0, 10 * err + 1e-9 * r)
        if diff > margin or tie:
            is_true(Circle.circum_circle_contains(v(q), *perm), want, ("circum_circle_contains(%r, %r)", q, perm))
    return ("tie" if tie else "in" if want else "out") + (" small" if size < 1e-2 else "")


def gen_quad(g):
    k = g.raw(4)
    if k <= 1:
        return [g.signed(g.int(1, 12)), g.int(-20, 20), g.int(-20, 20)]
    if k == 2:                                          # from roots
        a = g.signed(g.pick([1, 2, 0.5, 4, 0.25]))
        x, y = g.int(-40, 40) / 4.0, g.int(-40, 40) / 4.0
        if g.raw(2) == 2:
            y = x
        return [a, -a * (x + y), a * x * y]
    if k == 3:                                          # discriminant around the tolerance
        d = g.signed(1e-6 * g.pick([0.3, 3.0, 10.0, 100.0, 1e3, 1e4]))
        b = g.int(-6, 6)
        return [1.0, float(b), (b * b - d) / 4.0]
    return [g.signed(g.mag(-2, 2)), g.signed(g.mag(-2, 2)), g.signed(g.mag(-2, 2))]


def check_quad(case):
    a, b, c = case
    d = F(b) ** 2 - 4 * F(a) * F(c)
    fd = float(d)
    noise = 1e-14 * (b * b + 4 * abs(a * c))
    if d != 0 and (noise > 0.01 * abs(fd) or 0.5e-6 < abs(fd) < 2e-6):
        return None
    got = quadratic_f(a, b, c)
    if d != 0 and abs(fd) > 1e-6:
        if fd < 0:
            eq(list(got), [], ("real roots of %r", case))
            return "none"
        s = math.sqrt(fd)
        want = sorted([(-b + s) / (2.0 * a), (-b - s) / (2.0 * a)])
        expect(len(got) == 2, "roots of %r: got %r, expected %r", case, got, want)
        tol = 1e-12 * (abs(b) + s) / abs(a) + noise / s / abs(a)
        for x, y in zip(sorted(got), want):
            near(x, y, ("root of %r", case), 0, tol)
        return "two"
    want = -b / (2.0 * a)
    expect(len(got) == 2, "double root of %r: got %r", case, got)
    for x in got:
        near(x, want, ("double root of %r", case), 1e-9, 1e-3 / abs(a))
    expect(got[0] == got[1], "double root of %r is reported as %r", case, got)
    return "double"


SUBS = [
    Sub("circles", gen_cc, check_cc, "number and position of common points, three call forms, against the exact radical line", n=8000, frame="ZO"),
    Sub("three_points", gen_three, check_three, "circumcircle and membership in it, all orders, against the exact centre", n=6000, frame="ZO"),
    Sub("quadratic", gen_quad, check_quad, "real roots against the exact discriminant", n=12000, frame="ZO"),
]
