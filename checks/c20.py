"""C20 sectors are annular wedges: radii, membership, area and arc lengths agree"""
from vlib.common import *

RULE = ("A case is a sector (built or reassigned, angles as numbers or objects, unnormalised too, sweeps through the seam, radii "
        "negative, swapped or equal) with a query point chosen in polar position relative to its radii and angles, or on exact "
        "Pythagorean radii and axis directions. Trivial: start and end nearly the same direction, the point at the centre or within rounding of a "
        "boundary. Distinct: different choice sequences.")
ASSUMPTIONS = ["sectors with start and end in the same direction (a turn of zero) are judged when the angles are exact numbers", "points within 1e-9 of a boundary are judged only in exact positions"]

PYTH = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (8, 15, 17), (1, 0, 1), (0, 1, 1)]


def radii(g):
    k = g.raw(5)
    if k <= 1:
        a = g.pick([0, 1, 2, 5, 0.5])
        return a, a + g.pick([1, 3, 5, 8, 0.25, 0])
    if k == 2:
        return -g.pick([1, 0.5, 3]), g.pick([1, 5, 2.5, -1])
    if k == 3:
        return g.pick([5, 3, 2]), g.pick([1, 0, 2, -4])
    return g.uniform(0.0, 20.0), g.uniform(0.0, 20.0)


def gen(g):
    prof = gn.profile(g)
    c = gn.pt(g, prof, 20)
    lo, hi = radii(g)
    st = gn.deg(g)
    k = g.raw(4)
    en = st + 360 * g.int(-1, 1) if k == 4 and g.raw(1) else gn.deg(g) if k in (0, 4) else st + g.pick([90, 180, 270, 45, 359, 1, 120, 0.01, 359.99] + [g.signed(g.pick([1e-7, 5e-7, 2e-6, 1e-4]))]) if k == 1 else st + g.uniform(0.0, 360.0) if k == 2 \
        else g.pick([0, 90, 180, -90, -180])
    # the point, polar about the centre
    a, b = max(0, lo), max(max(0, lo), hi)
    r = g.pick([a, b]) + g.signed(g.pick([0, 1e-6, 1e-3, 0.1, 1])) if g.raw(1) else a + (b - a) * g.uniform(-0.3, 1.3)
    base = g.pick([st, en])
    th = base + g.signed(g.pick([0.0, 1e-6, 1e-3, 0.5, 10, 90])) if g.raw(1) else gn.deg(g)
    return [c, lo, hi, st, en, abs(r), th, g.raw(3), g.raw(1)]


def build(c, lo, hi, st, en, form, obj):
    st_, en_ = angle_arg(st, obj), angle_arg(en, obj)
    if form & 1:
        s = Sector(V(3, 3), 2, 4, 10, 20)
        s.assign(v(c), lo, hi, st_, en_)
    else:
        s = Sector(v(c), lo, hi, st_, en_)
    return s


def same_dir(st, en):
    """the same direction in exact numbers: a turn of zero"""
    return st == en or ((st * 8) % 1 == 0 and (en * 8) % 1 == 0 and (en - st) % 360 == 0)


def readings(s, c, a, b, st, en):
    eq(xy(s.center()), tuple(c), "centre of the sector")
    eq(xy(s.center_()), tuple(c), "centre_ of the sector")
    eq(float(s.radius_min()), float(a), ("inner radius of %r", s))
    eq(float(s.radius_max()), float(b), ("outer radius of %r", s))
    for got, want, name in ((s.angle_left_start(), st, "start"), (s.angle_left_start_(), st, "start_"),
                            (s.angle_right_end(), en, "end"), (s.angle_right_end_(), en, "end_")):
        expect(ang_diff(got.degree(), float(F(want) % 360)) < 1e-6, "%s angle of %r is %r, expected %r", name, s, got, want)
    sweep = float((F(en) - F(st)) % 360)
    lim = 1e-9 + 1e-13 * (abs(st) + abs(en))
    if lim < sweep < 360 - lim or same_dir(st, en):
        near(s.area(), (b * b - a * a) * math.pi * sweep / 360, ("area of %r", s), 1e-8, 1e-7)
        near(s.get_circumference_min(), 2 * a * math.pi * sweep / 360, ("inner arc of %r", s), 1e-8, 1e-7)
        near(s.get_circumference_max(), 2 * b * math.pi * sweep / 360, ("outer arc of %r", s), 1e-8, 1e-7)
    return sweep


def check(case):
    c, lo, hi, st, en, r, th, form, obj = case
    a = max(0, lo)
    b = max(a, hi)
    s = build(c, lo, hi, st, en, form, obj)
    sweep = readings(s, c, a, b, st, en)
    if not (1e-6 < sweep < 360 - 1e-6 or same_dir(st, en)):
        return None
    u = unit_dir(th)
    p = (c[0] + r * u[0], c[1] + r * u[1])
    m = scale_of(c, p)
    r_eff = dist(c, p)
    if r_eff < 1e-4:
        return None
    slack = 1e-9 * m
    ang = float((F(th) - F(st)) % 360)
    eps = 1e-7 + math.degrees(1e-14 * m / r_eff)
    if min(abs(ang), abs(ang - sweep), abs(ang - 360)) < eps or min(abs(r_eff - a), abs(r_eff - b)) < slack:
        return "boundary"
    want = a <= r_eff <= b and ang <= sweep
    is_true(s.contains(v(p)), want, ("%r contains the point at distance %r, direction %r", s, r, th))
    return ("in" if want else "out") + (" wide" if sweep > 180 else "")


def gen_exact(g):
    c = gn.pt(g, "i", 9)
    x, y, z = g.pick(PYTH)
    k = g.pick([1, 2, 0.5, 4])
    p = [c[0] + g.signed(x * k), c[1] + g.signed(y * k)]
    d = z * k
    lo, hi = g.pick([(d, d + 1), (d - d * 0.5, d), (d, d), (d * 2, d * 3), (0, d * 0.5), (0, d), (0, d * 2), (d * 0.5, d * 2)])
    st, en = g.pick([0, 90, 180, -90, -180, 270, 45, 30]), g.pick([0, 90, 180, -90, -180, 360, 135, -30])
    return [c, lo, hi, st, en, p, g.raw(1)]


def check_exact(case):
    """radii and axis directions hit exactly: boundaries belong to the sector"""
    c, lo, hi, st, en, p, form = case
    sweep = (en - st) % 360
    s = build(c, lo, hi, st, en, form, 0)
    readings(s, c, lo, hi, st, en)
    dx, dy = p[0] - c[0], p[1] - c[1]
    d2 = dx * dx + dy * dy
    ang = {(1, 0): 0, (0, 1): 90, (-1, 0): 180, (0, -1): 270}.get((sgn(dx), sgn(dy)))
    if ang is None:
        ang = math.degrees(math.atan2(dy, dx))
    off = (ang - st) % 360
    want = lo * lo <= d2 <= hi * hi and off <= sweep
    is_true(s.contains(v(p)), want, ("%r contains %r", s, p))
    return ("in" if want else "out") + (" edge" if off in (0, sweep) else "") + (" arc" if d2 in (lo * lo, hi * hi) else "")


def gen_hist(g):
    prof = gn.exact_profile(g)
    ops = []
    for _ in range(g.int(1, 6)):
        lo, hi = radii(g)
        ops.append([gn.pt(g, prof, 20), lo, hi, gn.deg(g), gn.deg(g), g.raw(1), g.raw(1)])
    return ops


def check_hist(case):
    s = None
    for c, lo, hi, st, en, obj, again in case:
        st_, en_ = angle_arg(st, obj), angle_arg(en, obj)
        if s is None:
            s = Sector(v(c), lo, hi, st_, en_)
        else:
            s.assign(v(c), lo, hi, st_, en_)
        for _ in range(1 + again):
            readings(s, c, max(0, lo), max(max(0, lo), hi), st, en)
            s.contains(v(c))
    return "n%d" % len(case)


SUBS = [
    Sub("wedge", gen, check, "membership against polar coordinates; radii, area and arcs", n=12000, frame="ZO"),
    Sub("boundaries", gen_exact, check_exact, "exact arcs and axis directions belong to the sector", n=6000, frame="ZO"),
    Sub("history", gen_hist, check_hist, "readings after repeated reassignment", n=4000, frame="ZO", share=False),
]
