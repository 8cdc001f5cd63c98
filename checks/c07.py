"""C07 lines pass through what defines them; distance and projection are exact"""
from vlib.common import *

RULE = ("A case is a line (two points at least 5e-6 apart, point and direction, coefficients scaled by 1e-3 to 1e3, copies and "
        "keyword forms) and query points, often on the line or level with a defining point. Trivial: query points where the "
        "documented threshold (coefficient 1e-6) is closer than 1%. Distinct: different choice sequences.")
ASSUMPTIONS = ["tolerances are relative to the coordinates divided by the conditioning of the defining data"]


def mk_two(g):
    prof = gn.profile(g)
    r = g.weighted((4, 60), (1, 1000), (1, 10 ** 4))
    p = gn.pt(g, prof, r)
    q = gn.related(g, prof, [p], r)
    if g.chance(6):                      # short baseline
        d = g.uniform(0.0, 6.2832)
        m = g.mag(-1.9, 1) if g.raw(1) else g.mag(-5.2, -1)
        q = [p[0] + m * math.cos(d), p[1] + m * math.sin(d)]
    return p, q


def true_line(p, q):
    """exact normalised description: point, unit direction"""
    dx, dy = float(F(q[0]) - F(p[0])), float(F(q[1]) - F(p[1]))
    h = math.hypot(dx, dy)
    return dx / h, dy / h


def signed_dist(p, u, x):
    return float((F(x[0]) - F(p[0]))) * -u[1] + float((F(x[1]) - F(p[1]))) * u[0]


def gen_build(g):
    p, q = mk_two(g)
    k = g.raw(3)
    x = gn.related(g, "m", [p, q], 100)
    if k == 3:
        x = [p[0] + 0.25 * (q[0] - p[0]), p[1] + 0.25 * (q[1] - p[1])]
    return [p, q, x, g.pick(["pp", "kwpp", "pa", "kwpa", "abc", "kwabc", "copy", "ctor", "kwl", "pnum"]),
            g.signed(g.pick([1, 2, 0.5, 10, 100, 0.01, 1000, 0.001, 3])), 360 * g.pick([0, 0, 1, -1, 2, -3, 10])]


def build(p, q, form, k, turns=0):
    """-> (line, factor by which its normal vector is scaled)"""
    ang = math.degrees(math.atan2(q[1] - p[1], q[0] - p[0])) + turns
    a, b = -(q[1] - p[1]), q[0] - p[0]
    c = -a * p[0] - b * p[1]
    if form == "pp":
        return Line(v(p), v(q))
    if form == "kwpp":
        return Line(p1=v(p), p2=v(q))
    if form == "pa":
        return Line(v(p), A(ang))
    if form == "pnum":
        return Line(v(p), ang)
    if form == "kwpa":
        return Line(p=v(p), a=A(ang) if k > 0 else ang)
    if form == "abc":
        return Line(a * k, b * k, c * k)
    if form == "kwabc":
        return Line(a=a * k, b=b * k, c=c * k)
    if form == "copy":
        return Line(v(p), v(q)).copy()
    if form == "ctor":
        return Line(Line(v(p), v(q)))
    return Line(l=Line(v(p), v(q)))


def check_build(case):
    p, q, x, form, k, turns = case
    h = dist(p, q)
    if h < 5e-6:
        return None
    line = build(p, q, form, k, turns)
    u = true_line(p, q)
    m = scale_of(p, q, x)
    # numerical conditioning: rounding of the coefficients moves the line by about m*m*eps/h
    tol = 1e-9 * m + 1e-14 * m * m / h
    if form in ("abc", "kwabc") and abs(k) < 0.1:
        pass
    near(line.dist(v(p)), 0.0, "distance of the defining point %r to the line (%s)" % (p, form), 0, tol)
    near(line.dist(v(q)), 0.0, "distance of the defining point %r to the line (%s)" % (q, form), 0, tol)
    n = math.hypot(line.a(), line.b())
    expect(n > 0, "line %r has no direction", line)
    near((line.a() * u[0] + line.b() * u[1]) / n, 0.0, "direction of the line (%s)" % form, 0, 1e-9 + 1e-14 * m / h)
    d = abs(signed_dist(p, u, x))
    lever = 1.0 + dist(p, x) / h * (1e-14 * m / 1e-9)
    near(line.dist(v(x)), d, "distance of %r to the line through %r and %r (%s)" % (x, p, q, form), 1e-9, tol * lever)
    near(line.dist2(v(x)), d * d, "squared distance of %r" % (x,), 1e-9, 2 * tol * lever * d + (tol * lever) ** 2 + 1e-18)
    # same line whatever the description
    eq((line.a(), line.b(), line.c()), (line.copy().a(), line.copy().b(), line.copy().c()), "coefficients of the copy")
    return form + (" short" if h < 1 else "") + (" on" if d < tol else " off")


def gen_foot(g):
    p, q = mk_two(g)
    return [p, q, gn.related(g, "m", [p, q], 100), g.signed(g.pick([1, 2, 0.5, 10, 0.1, 1e-3, 1e-5, 1e3]))]


def check_foot(case):
    p, q, x, k = case
    h = dist(p, q)
    if h < 5e-6:
        return None
    line = build(p, q, "abc", k) if k != 1 else Line(v(p), v(q))
    n2 = line.a() ** 2 + line.b() ** 2
    u = true_line(p, q)
    m = scale_of(p, q, x)
    lever = 1.0 + dist(p, x) / h
    tol = 1e-9 * m + 1e-14 * m * m / h + 1e-15 * m * m * lever / h
    t = (x[0] - p[0]) * u[0] + (x[1] - p[1]) * u[1]
    foot = (p[0] + t * u[0], p[1] + t * u[1])
    f = line.projection(v(x))
    is_true(f.is_valid(), True, "validity of the projection of %r" % (x,))
    near(f.x(), foot[0], "foot.x of %r on the line %r %r" % (x, p, q), 0, tol)
    near(f.y(), foot[1], "foot.y of %r on the line %r %r" % (x, p, q), 0, tol)
    near(f.dist(v(x)), line.dist(v(x)), "distance to the foot", 1e-9, tol)
    w = line.perpendicular(v(x))
    nw = math.hypot(w.a(), w.b())
    expect(nw > 0, "perpendicular %r has no direction", w)
    near((w.a() * line.a() + w.b() * line.b()) / (nw * math.sqrt(n2)), 0.0, "perpendicular direction", 0, 1e-9)
    near(w.dist(v(x)), 0.0, "perpendicular passes through %r" % (x,), 0, 1e-9 * m)
    return "on" if abs(signed_dist(p, u, x)) < tol else "off"


def gen_bis(g):
    p, q = mk_two(g)
    return [p, q, g.signed(g.uniform(0.0, 50.0)), gn.deg(g), gn.deg(g), g.raw(3), g.raw(1)]


def check_bis(case):
    p, q, t, la, ra, oo, via_seg = case
    h = dist(p, q)
    lab = ""
    if h >= 5e-6:
        b = Seg(v(p), v(q)).perpendicular_bisector() if via_seg else Line.perpendicular_bisector(v(p), v(q))
        u = true_line(p, q)
        m = scale_of(p, q)
        mid = ((p[0] + q[0]) / 2.0, (p[1] + q[1]) / 2.0)
        tol = 1e-9 * m + 1e-14 * m * m / h
        near(b.dist(v(mid)), 0.0, "mid point of %r %r on the bisector" % (p, q), 0, tol)
        x = (mid[0] - t * u[1], mid[1] + t * u[0])
        near(b.dist(v(x)), 0.0, "equidistant point %r on the bisector" % (x,), 0, tol + 1e-14 * m * abs(t) / h)
        off = 0.37 * h
        y = (x[0] + off * u[0], x[1] + off * u[1])
        near(b.dist(v(y)), off, "distance of %r to the bisector" % (y,), 1e-9, tol + 1e-14 * m * abs(t) / h)
        lab = "perp "
    # angle bisector: line through the origin point that halves the two directions
    o = p
    line = Line.angle_bisector(v(o), A(la) if oo & 1 else la, A(ra) if oo & 2 else ra)
    near(line.dist(v(o)), 0.0, "angle bisector passes through %r" % (o,), 0, 1e-9 * scale_of(o))
    half = float((F(A(la).degree_()) + F(A(ra).degree_())) / 2)
    c, s = math.cos(math.radians(half)), math.sin(math.radians(half))
    n = math.hypot(line.a(), line.b())
    expect(n > 0, "angle bisector %r has no direction", line)
    near((line.a() * c + line.b() * s) / n, 0.0, "direction of the angle bisector of %r and %r" % (la, ra), 0, 1e-7)
    return lab + "angle"


def gen_solve(g):
    k = g.raw(3)
    co = [g.signed(g.uniform(0.0, 20.0)), g.signed(g.uniform(0.0, 20.0)), g.signed(g.uniform(0.0, 100.0))]
    if k == 1:
        co[g.raw(1)] = g.signed(g.pick([0.0, 1e-9, 5e-7, 0.9e-6, 1.2e-6, 2e-6, 1e-5, 1e-4, 1e-3]))
    elif k == 2:
        co = [g.int(-9, 9), g.int(-9, 9), g.int(-60, 60)]
    elif k == 3:
        co[g.raw(1)] = g.const(1000)
    return [co, gn.num(g, "m", 100), g.raw(1)]


def check_solve(case):
    (a, b, c), t, kw = case
    line = Line(a=a, b=b, c=c) if kw else Line(a, b, c)
    lab = []
    for name, lead, rest, got in (("get_x", a, b, line.get_x(t)), ("get_y", b, a, line.get_y(t))):
        if abs(abs(lead) - 1e-6) < 1e-9:
            continue
        if abs(lead) < 1e-6:
            eq(float(got), 1e20, "%s of a line without that coordinate (%r)" % (name, lead))
            lab.append("none")
        else:
            want = -(F(rest) * F(t) + F(c)) / F(lead)
            near(got, float(want), "%s(%r) of %r" % (name, t, (a, b, c)), 1e-11,
                 1e-15 * (abs(rest * t) + abs(c)) / abs(lead) + 1e-300)
            lab.append("small" if abs(lead) < 1e-3 else "value")
    return " ".join(lab) or None


BADL = [lambda: Line(), lambda: Line(1, 2), lambda: Line(V(1, 2)), lambda: Line(1), lambda: Line("a", "b", "c"), lambda: Line(a=1, b=2)]


def gen_bad(g):
    return g.raw(len(BADL) - 1)


def check_bad(i):
    try:
        r = BADL[i]()
    except Exception:
        return "rejected%d" % i
    fail("unsupported line construction %d gave %r", i, r)


SUBS = [
    Sub("build", gen_build, check_build, "each construction form contains its defining points, has their direction and gives the "
        "Euclidean distance", n=8000, frame="ZO"),
    Sub("foot", gen_foot, check_foot, "projection = foot of the perpendicular; perpendicular is orthogonal and through the point", n=10000, frame="ZO"),
    Sub("bisectors", gen_bis, check_bis, "perpendicular bisector = equidistant points; angle bisector halves the directions", n=10000, frame="ZO"),
    Sub("solve", gen_solve, check_solve, "get_x/get_y give points of the line or 1e20 below the 1e-6 coefficient threshold", n=20000, frame="ZO"),
    Sub("reject", gen_bad, check_bad, "data that describes no line is rejected", n=100, frame="ZO", hyp=5),
]
