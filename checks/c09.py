"""C09 rays meet lines and rays only ahead of their origin"""
from vlib.common import *

RULE = ("A case is a ray (toward a point or along a direction) with a line, a second ray or a query point and threshold; "
        "origins, directions and lines are often related (through the origin's neighbourhood, behind, parallel, opposite). "
        "Trivial: the common point is within 1e-3 of an origin, the lines are nearly parallel, or a direction is within 1e-6 "
        "of the threshold (not judged). Distinct: different choice sequences.")
ASSUMPTIONS = ["intersections closer than 1e-3 to a ray's origin are not judged"]


def unit(d):
    x = math.radians(float(F(d) % 360))
    return math.cos(x), math.sin(x)


def gen_build(g):
    prof = gn.profile(g)
    o = gn.pt(g, prof)
    if g.raw(7) == 7:
        o = [x * 2.0 ** g.int(10, 30) for x in o]
    return [o, gn.related(g, prof, [o]), gn.deg(g), g.raw(3), gn.pt(g, prof)]


def check_build(case):
    o, q, d, k, x = case
    op = v(o)
    if k == 0:
        ray = Ray(op, v(q))
        if dist(o, q) < 1e-3:
            return None
        want = math.degrees(math.atan2(q[1] - o[1], q[0] - o[0]))
    elif k == 1:
        ray = Ray(op, A(d))
        want = d
    elif k == 2:
        ray = Ray(op, d)
        want = d
    else:
        first = Ray(op, A(d))
        ray = first.copy()
        eq(float(ray.dir().degree()), float(first.dir().degree()), "direction of the copy of %r" % first)
        want = d
    want = float(F(want) % 360)
    eq(xy(ray.origin()), tuple(o), "origin of the ray")
    eq(xy(ray.origin_()), tuple(o), "origin_ of the ray")
    expect(ang_diff(ray.dir().degree(), want) < 1e-6, "direction of the ray is %r, expected %r", ray.dir(), want)
    expect(ang_diff(ray.dir_().degree(), want) < 1e-6, "dir_ of the ray is %r, expected %r", ray.dir_(), want)
    line = ray.line()
    u = unit(want)
    m = scale_of(o, x)
    near(line.dist(op), 0.0, "supporting line contains the origin", 0, 1e-9 * m)
    t = x[0]
    near(line.dist(V(o[0] + t * u[0], o[1] + t * u[1])), 0.0, "supporting line contains the ray's points", 0, 1e-8 * m)
    near(line.dist(V(o[0] - u[1], o[1] + u[0])), 1.0, "supporting line has the ray's direction", 0, 1e-8 * m)
    for bad in ("east", None):
        try:
            r = Ray(op, bad)
        except Exception:
            continue
        fail("Ray2D(point, %r) was accepted and gave %r", bad, r)
    return "toward" if k == 0 else "along"


def gen_dir(g):
    o = gn.pt(g, gn.profile(g))
    d = gn.deg(g)
    thr = g.pick([10.0, 1.0, 5, 90, 45.0, 179.0, 0.5, 30, 180.0, 0.0]) if g.raw(1) else g.uniform(0.01, 180.0)
    off = g.signed(g.pick([0.0, 0.5, 0.9, 0.999, 1.001, 1.1, 2.0]) * thr) if g.raw(1) else g.signed(g.uniform(0.0, 180.0))
    if g.raw(9) == 9:                    # exactly at the threshold (directions along the axes)
        o = gn.pt(g, "i")
        d, off = g.pick([0, 90, 180, -90]), g.pick([0, 90, -90, 180])
        return [o, d, abs(off), off, g.pick([1, 2, 10]), 3]
    return [o, d, thr, off, g.pick([1.0, 10.0, 0.01, 100.0]), g.raw(2)]


def check_dir(case):
    o, d, thr, off, m, form = case
    if m < 0.1 and scale_of(o) > 200:
        return None
    if form == 3:
        u = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}[(d + off) % 360]
        got = Ray(v(o), A(d)).in_right_dir(V(o[0] + m * u[0], o[1] + m * u[1]), thr)
        is_true(got, False, "point at %r degrees from the ray is in the right direction (threshold %r)" % (off, thr))
        return "at_threshold"
    a = float(F(d) % 360) + off
    u = unit(a)
    x = V(o[0] + m * u[0], o[1] + m * u[1])
    delta = ang_diff(a, d)
    if form == 2:
        thr = 10.0
    if abs(delta - thr) < 1e-6:
        return None
    ray = Ray(v(o), A(d))
    got = ray.in_right_dir(x) if form == 2 else ray.in_right_dir(x, thr) if form == 0 else ray.in_right_dir(x, thr=thr)
    is_true(got, delta < thr, "point at %g degrees from the ray is in the right direction (threshold %r)" % (delta, thr))
    return ("in" if delta < thr else "out") + (" default" if form == 2 else "") + (" seam" if abs(abs(norm180(float(F(d) % 360))) - 180) < 20 else "")


def gen_line(g):
    prof = gn.profile(g)
    o = gn.pt(g, prof)
    d = gn.deg(g)
    k = g.raw(3)
    if k == 0:                         # line through a chosen point of the supporting line
        u = unit(d)
        t = g.signed(g.mag(-2, 2.5))
        x = [o[0] + t * u[0], o[1] + t * u[1]]
        e = gn.deg(g)
    elif k == 1:
        x, e = gn.related(g, prof, [o]), gn.deg(g)
    elif k == 2:                       # parallel
        x, e = gn.pt(g, prof), d + 180 * g.raw(1)
    else:
        x, e = gn.pt(g, prof), g.pick([0, 90, 45, -45])
    return [o, d, x, e, g.signed(g.pick([1, 2, 0.5, 10, 5])), g.raw(1)]


def meet(o, u, x, w):
    """parameters t, s with o + t u = x + s w"""
    det = u[0] * -w[1] + w[0] * u[1]
    if abs(det) < 1e-5:
        return det, None, None
    rx, ry = x[0] - o[0], x[1] - o[1]
    t = (rx * -w[1] + w[0] * ry) / det
    s = (u[0] * ry - u[1] * rx) / det
    return det, t, s


def check_line(case):
    o, d, x, e, k, two = case
    u, w = unit(d), unit(e)
    ray = Ray(v(o), A(d))
    line = Line(-w[1] * k, w[0] * k, (w[1] * x[0] - w[0] * x[1]) * k)
    det, t, s = meet(o, u, x, w)
    got = ray.intersection(line)
    if abs(det) < 1e-9 and abs(det * k) < 1e-8:
        is_true(got.is_valid(), False, "ray %r/%r meets a parallel line" % (o, d))
        return "parallel"
    if abs(det) < 1e-2:
        return None
    m = scale_of(o, x, (o[0] + t * u[0], o[1] + t * u[1]))
    if abs(t) < 1e-3 or abs(t) < 1e-9 * m / abs(det):
        return None
    is_true(got.is_valid(), t > 0, "ray %r/%r meets the line through %r along %r at parameter %g" % (o, d, x, e, t))
    if t > 0:
        near(got.x(), o[0] + t * u[0], "meeting point.x", 0, 1e-9 * m / abs(det))
        near(got.y(), o[1] + t * u[1], "meeting point.y", 0, 1e-9 * m / abs(det))
    return "ahead" if t > 0 else "behind"


def gen_ray(g):
    prof = gn.profile(g)
    o = gn.pt(g, prof)
    d = gn.deg(g)
    k = g.raw(2)
    if k == 0:
        u = unit(d)
        t = g.signed(g.mag(-1, 2))
        e = gn.deg(g)
        w = unit(e)
        s = g.signed(g.mag(-1, 2))
        x = [o[0] + t * u[0] - s * w[0], o[1] + t * u[1] - s * w[1]]
    elif k == 1:
        x, e = gn.related(g, prof, [o]), gn.deg(g)
    else:
        x, e = gn.related(g, prof, [o]), d + 180 * g.raw(1)
    return [o, d, x, e]


def check_ray(case):
    o, d, x, e = case
    u, w = unit(d), unit(e)
    r1, r2 = Ray(v(o), A(d)), Ray(v(x), A(e))
    det, t, s = meet(o, u, x, w)
    got, rev = r1.intersection(r2), r2.intersection(r1)
    is_true(r1.intersection(r1).is_valid(), False, "ray %r/%r meets itself in one point" % (o, d))
    if abs(det) < 1e-9:
        for gg in (got, rev):
            is_true(gg.is_valid(), False, "parallel rays %r/%r and %r/%r meet" % (o, d, x, e))
        return "parallel"
    if abs(det) < 1e-2:
        return None
    p = (o[0] + t * u[0], o[1] + t * u[1])
    m = scale_of(o, x, p)
    if min(abs(t), abs(s)) < max(1e-3, 1e-9 * m / abs(det)):
        return None
    ok = t > 0 and s > 0
    for gg in (got, rev):
        is_true(gg.is_valid(), ok, "rays %r/%r and %r/%r meet (parameters %g, %g)" % (o, d, x, e, t, s))
        if ok:
            near(gg.x(), p[0], "meeting point.x", 0, 1e-9 * m / abs(det))
            near(gg.y(), p[1], "meeting point.y", 0, 1e-9 * m / abs(det))
    return ("a" if t > 0 else "b") + ("a" if s > 0 else "b")


SUBS = [
    Sub("build", gen_build, check_build, "origin, direction and supporting line of every construction form", n=8000, frame="ZO"),
    Sub("in_right_dir", gen_dir, check_dir, "direction test against the angle between the directions", n=15000, frame="ZO"),
    Sub("ray_line", gen_line, check_line, "ray-line intersection against the parametric solution", n=12000, frame="ZO"),
    Sub("ray_ray", gen_ray, check_ray, "ray-ray intersection against the parametric solution, both orders", n=12000, frame="ZO"),
]
