"""C11 segment distances, nearest points and membership are the true ones"""
from vlib.common import *

RULE = ("A case is a segment with a query point or second segment in general or special position (on it, beyond an end, beside, "
        "degenerate), on grids scaled by powers of two, in floating point, or displaced by multiples of the 1e-6 tolerance; or a "
        "history of reassignments, reversals and edits of live end points followed by all readings. Trivial: within the tolerance "
        "band of a threshold. Distinct: different choice sequences.")
ASSUMPTIONS = ["distances compared with relative tolerance 1e-9 plus the conditioning of short segments",
               "the projection of a degenerate segment is not judged"]


def gen_point(g):
    prof = gn.profile(g)
    r = g.pick([9, 60, 60])
    a = gn.pt(g, prof, r)
    b = gn.related(g, prof, [a], r)
    k = g.raw(5)
    if k <= 1:
        p = gn.related(g, prof, [a, b], r)
    elif k == 2:
        p = gn.pt(g, prof, r)
    else:                                       # along and beside the segment
        t = g.pick([0, 1, 0.5, 0.25, -0.5, 1.5, 0.125, 3, -2])
        s = g.signed(g.pick([0, 1, 0.25, 2, 0.01]))
        dx, dy = b[0] - a[0], b[1] - a[1]
        p = [a[0] + t * dx - s * dy, a[1] + t * dy + s * dx]
    k = 0
    if g.raw(5) == 5:
        k = g.int(-12, 12)
    s = 2.0 ** k
    return [[q[0] * s, q[1] * s] for q in (a, b, p)] if k else [a, b, p]


def check_point(case):
    a, b, p = case
    d = seg_pt_dist(a, b, p)
    ln = dist(a, b)
    m = max(abs(x) for q in case for x in q) or 1.0
    if 0 < ln < 1e-7 * m:
        return None
    tol = 1e-9 * m + (1e-12 * m * m / ln if ln else 0)
    n = nearest_on_seg(a, b, p)
    far = max(dist(a, p), dist(b, p))
    for s in (Seg(v(a), v(b)), Seg(v(b), v(a))):
        q = v(p)
        near(s.dist(q), d, ("distance of %r to %r", s, p), 0, tol)
        np_ = s.nearest_point(q)
        expect(np_.is_valid(), "nearest point of %r to %r is invalid", s, p)
        near(np_.x(), n[0], ("nearest point of %r to %r .x", s, p), 0, 10 * tol)
        near(np_.y(), n[1], ("nearest point of %r to %r .y", s, p), 0, 10 * tol)
        near(dist(xy(np_), p), d, "distance attained at the nearest point", 0, tol)
        near(s.farthest_dist(q), far, ("farthest distance of %r to %r", s, p), 0, 1e-9 * m)
        if ln > 1e-3:
            t = ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / ln      # length along the segment
            pr = s.projection(q)
            lim = 2e-6 + 1e-9 * m
            if 1e-9 * m < t < ln - 1e-9 * m or on_seg(fr(a), fr(b), fr(p)):
                is_true(pr.is_valid(), True, ("validity of the projection of %r on %r", p, s))
                foot = (a[0] + t * (b[0] - a[0]) / ln, a[1] + t * (b[1] - a[1]) / ln)
                near(pr.x(), foot[0], ("projection of %r on %r .x", p, s), 0, 10 * tol)
                near(pr.y(), foot[1], ("projection of %r on %r .y", p, s), 0, 10 * tol)
            elif t < -lim or t > ln + lim:
                is_true(pr.is_valid(), False, ("validity of the projection of %r on %r", p, s))
    return ("deg" if ln == 0 else "at_end" if n in (tuple(a), tuple(b)) or n == a or n == b else "inside") + (" zero" if d == 0 else "")


def gen_segseg(g):
    prof = g.weighted((3, "i"), (2, "d"), (2, "f"))
    r = g.pick([9, 4, 30])
    pts = []
    for _ in range(4):
        pts.append(gn.related(g, prof, pts, r))
    if g.raw(7) == 7 and prof != "f":
        s = 2.0 ** g.int(-10, 10)
        pts = [[p[0] * s, p[1] * s] for p in pts]
    return [pts, prof == "f"]


def check_segseg(case):
    pts, is_float = case
    a, b, c, d = pts
    m = max(abs(x) for q in pts for x in q) or 1.0
    for p, q in ((a, b), (c, d)):
        if 0 < dist(p, q) < 1e-6 * m:
            return None
    meet = segs_meet(*[fr(p) for p in pts])
    if is_float:
        f = [fr(p) for p in pts]
        for t in ((f[0], f[1], f[2]), (f[0], f[1], f[3]), (f[2], f[3], f[0]), (f[2], f[3], f[1])):
            if abs(cross(*t)) < 1e-10 * m * m:
                return None
    want = 0.0 if meet else min(seg_pt_dist(a, b, c), seg_pt_dist(a, b, d), seg_pt_dist(c, d, a), seg_pt_dist(c, d, b))
    for s, t in ((Seg(v(a), v(b)), Seg(v(c), v(d))), (Seg(v(c), v(d)), Seg(v(a), v(b))), (Seg(v(b), v(a)), Seg(v(c), v(d))),
                 (Seg(v(d), v(c)), Seg(v(a), v(b)))):
        got = s.dist(t)
        if meet:
            eq(float(got), 0.0, ("distance of meeting segments %r and %r", s, t))
        else:
            expect(got > 0, "distance of separate segments %r and %r is %r", s, t, got)
            near(got, want, ("distance of %r and %r", s, t), 1e-9, 1e-9 * m)
    s = Seg(v(a), v(b))
    eq(float(s.dist(s)), 0.0, ("distance of %r and itself", s))
    return "meet" if meet else "apart"


def gen_member(g):
    prof = gn.exact_profile(g)
    a = gn.pt(g, prof, 20)
    b = gn.related(g, prof, [a], 20)
    t = g.pick([0, 1, 0.5, 0.25, -0.25, 1.25, 0.75, 2, -1, 0.0625])
    p = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    k = g.raw(3)
    if k == 1:
        e = g.signed(2.0 ** -g.int(3, 26))
        j = g.raw(1)
        p = [p[0] + (e if j else 0), p[1] + (0 if j else e)]
    elif k == 2:
        p = gn.related(g, prof, [a, b], 20)
    s = 2.0 ** (g.int(-14, 10) if g.raw(3) == 3 else 0)
    return [[q[0] * s, q[1] * s] for q in (a, b, p)]


def check_member(case):
    a, b, p = [fr(q) for q in case]
    want = on_seg(a, b, p)
    ix, iy = (p[0] - a[0]) * (p[0] - b[0]), (p[1] - a[1]) * (p[1] - b[1])
    box = ix <= 0 and iy <= 0
    for s in (Seg(v(case[0]), v(case[1])), Seg(v(case[1]), v(case[0]))):
        is_true(s.on_segment(v(case[2])), want, ("%r on_segment %r", case[2], s))
        if box or ix > 1e-8 or iy > 1e-8:
            is_true(s.contains(v(case[2])), box, ("bounding test of %r for %r", s, case[2]))
    return ("on" if want else "off") + (" box" if box else "") + (" degenerate" if a == b else "")


def gen_weak(g):
    prof = gn.profile(g)
    a = gn.pt(g, prof)
    ang = gn.deg(g, False)
    ln = g.pick([1.0, 10.0, 0.5, 100.0, 3.0])
    t = g.pick([0.0, 1.0, 0.5, 0.25, 0.9, 1e-3])
    e = 1e-6 * g.pick([0.0, 0.3, 0.7, 3.0, 10.0, 100.0, 1e3, 1e4, 1e5])
    return [a, ang, ln, t, e, g.raw(3), g.signed(1)]


def check_weak(case):
    a, ang, ln, t, e, how, sg = case
    u = (math.cos(math.radians(ang)), math.sin(math.radians(ang)))
    b = (a[0] + ln * u[0], a[1] + ln * u[1])
    q = (a[0] + t * ln * u[0], a[1] + t * ln * u[1])
    if how == 0:
        p = (q[0] - sg * e * u[1], q[1] + sg * e * u[0])                 # beside
    elif how == 1:
        p = (b[0] + e * u[0], b[1] + e * u[1])                           # beyond the terminal
    elif how == 2:
        p = (a[0] - e * u[0], a[1] - e * u[1])                           # before the origin
    else:
        p = (q[0] + sg * e, q[1])
    d = seg_pt_dist(a, b, p)
    if 0.9e-6 < d < 2e-6:
        return None
    for s in (Seg(v(a), v(b)), Seg(v(b), v(a))):
        is_true(s.on_segment_weakly(v(p)), d <= 0.9e-6, ("%r weakly on %r (distance %g)", p, s, d))
    return ("in" if d <= 0.9e-6 else "out") + " how%d" % how


FORMS = 4


def gen_hist(g):
    prof = gn.profile(g)
    ops = []
    for _ in range(g.int(1, 8)):
        k = g.raw(7)
        if k in (0, 1):
            ops.append(["assign2", gn.pt(g, prof), gn.pt(g, prof)])
        elif k == 2:
            ops.append(["assign3", gn.pt(g, prof), gn.pos(g, prof), gn.deg(g), g.raw(1)])
        elif k == 3:
            ops.append(["assign4", gn.pt(g, prof), gn.pt(g, prof)])
        elif k == 4:
            ops.append(["swap", g.raw(1)])
        elif k == 5:
            ops.append(["live", g.raw(1), gn.pt(g, prof)])
        elif k == 6:
            ops.append(["copy", g.raw(1)])
        else:
            ops.append(["assign0"])
    form = g.raw(3)
    return [form, gn.pt(g, prof), gn.pt(g, prof), gn.pos(g, prof), gn.deg(g), ops]


def readings(s, a, b, tol):
    m = scale_of(a, b)
    for got, want, what in ((s.origin(), a, "origin"), (s.origin_(), a, "origin_"), (s.terminal(), b, "terminal"),
                            (s.terminal_(), b, "terminal_")):
        near(got.x(), want[0], ("%s of %r .x", what, s), 0, tol * m)
        near(got.y(), want[1], ("%s of %r .y", what, s), 0, tol * m)
    ln = dist(a, b)
    near(s.length(), ln, ("length of %r", s), 1e-9, 1e-9 * m + 3 * tol * m)
    if ln > 1e-3 * m:
        expect(ang_diff(s.direction().degree(), math.degrees(math.atan2(b[1] - a[1], b[0] - a[0]))) < 1e-6,
               "direction of %r is %r", s, s.direction())
        near(s.line().dist(v(a)), 0.0, ("line of %r contains the origin", s), 0, 1e-7 * m)
        near(s.line().dist(v(b)), 0.0, ("line of %r contains the terminal", s), 0, 1e-7 * m)
        pb = s.perpendicular_bisector()
        mid = ((a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0)
        near(pb.dist(v(mid)), 0.0, ("perpendicular bisector of %r contains the middle", s), 0, 1e-7 * m)
        near(pb.dist(v(a)), ln / 2, ("distance of the perpendicular bisector of %r to the origin", s), 0, 1e-7 * m)
        near(pb.dist(v(b)), ln / 2, ("distance of the perpendicular bisector of %r to the terminal", s), 0, 1e-7 * m)
    if max(abs(a[0] - b[0]), abs(a[1] - b[1])) < 1e-9 * m and max(abs(a[0] - b[0]), abs(a[1] - b[1])) < 5e-7:
        is_true(s.is_valid(), False, ("validity of the degenerate %r", s))
    elif max(abs(a[0] - b[0]), abs(a[1] - b[1])) > 2e-6 + 10 * tol * m:
        is_true(s.is_valid(), True, ("validity of %r", s))
    r = s.reversed_segment()
    for got, want in ((r.origin(), b), (r.terminal(), a)):
        near(got.x(), want[0], ("end of the reversed %r .x", s), 0, tol * m)
        near(got.y(), want[1], ("end of the reversed %r .y", s), 0, tol * m)
    p = (a[0] + 3, b[1] - 2)
    near(s.dist(v(p)), seg_pt_dist(a, b, p), ("distance of %r to %r", s, p), 1e-9, 1e-8 * m + 1e-10 * m * m / max(ln, 1e-3)) if ln > 1e-3 or ln == 0 else None


def polar(a, r, d):
    x = math.radians(float(F(d) % 360))
    return (a[0] + r * math.cos(x), a[1] + r * math.sin(x))


def check_hist(case):
    form, p, q, r, d, ops = case
    tol = 0.0
    a, b = tuple(p), tuple(q)
    if form == 0:
        s = Seg(v(p), v(q))
    elif form == 1:
        s = Seg(p[0], p[1], q[0], q[1])
    elif form == 2:
        s = Seg(v(p), r, A(d))
        b, tol = polar(p, r, d), 1e-9
    else:
        s = Seg()
        a = b = (0.0, 0.0)
    readings(s, a, b, tol)
    for op in ops:
        k = op[0]
        if k == "assign2":
            s.assign(v(op[1]), v(op[2]))
            a, b, tol = tuple(op[1]), tuple(op[2]), 0.0
        elif k == "assign4":
            s.assign(op[1][0], op[1][1], op[2][0], op[2][1])
            a, b, tol = tuple(op[1]), tuple(op[2]), 0.0
        elif k == "assign3":
            s.assign(v(op[1]), op[2], angle_arg(op[3], op[4]))
            a, b, tol = tuple(op[1]), polar(op[1], op[2], op[3]), 1e-9
        elif k == "assign0":
            s.assign()
            a, b, tol = (0.0, 0.0), (0.0, 0.0), 0.0
        elif k == "swap":
            res = s.swap() if op[1] else s.reverse()
            expect(res is s, "reversing in place does not return the segment itself")
            a, b = b, a
        elif k == "live":
            if op[1]:
                s.origin_().assign(op[2][0], op[2][1])
                a = tuple(op[2])
            else:
                s.terminal_().assign(op[2][0], op[2][1])
                b = tuple(op[2])
        else:
            c = s.copy()
            readings(c, a, b, tol)
            if op[1]:
                c.assign(V(77, 78), V(79, 80))
            else:
                s = c
        readings(s, a, b, tol)
    return "len%d" % len(ops)


SUBS = [
    Sub("point", gen_point, check_point, "distance, nearest point, farthest distance and projection against a reference", n=16000, frame="ZO"),
    Sub("segments", gen_segseg, check_segseg, "segment-segment distance, zero exactly when they meet", n=12000, frame="ZO"),
    Sub("membership", gen_member, check_member, "strict membership and bounding test, exact", n=14000, frame="ZO"),
    Sub("weak", gen_weak, check_weak, "weak membership around the 1e-6 tolerance", n=8000, frame="ZO"),
    Sub("history", gen_hist, check_hist, "readings after histories of reassignments, reversals and live edits", n=5000, frame="ZO", share=False),
]
