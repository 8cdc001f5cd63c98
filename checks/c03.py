"""C03 degree trigonometry is correct, total and invertible"""
from vlib.common import *

RULE = ("A case is a degree value, a ratio or a coordinate pair, drawn from multiples of 15, integers, dense floats, values "
        "around quadrant borders and around the documented limits (+-1, 1e-6), and constants of the source. Trivial: "
        "tangent within 0.01 degrees of a pole. Distinct: different choice sequences.")
ASSUMPTIONS = ["reference values: exact reduction modulo 360 of the degree value, then libm; tolerance 1e-9"]


def ref(d):
    x = F(d) % 360
    q, rest = divmod(x, 90)
    r = math.radians(float(rest))
    s, c = math.sin(r), math.cos(r)
    q = int(q)
    if q == 0:
        return s, c
    if q == 1:
        return c, -s
    if q == 2:
        return -s, -c
    return -c, s


def gen_fwd(g):
    return gn.deg(g)


def check_fwd(d):
    s, c = ref(d)
    a = A(d)
    near(a.sin(), s, "sin of %r" % d, 0, 1e-9)
    near(a.cos(), c, "cos of %r" % d, 0, 1e-9)
    near(A.sin_deg(d), s, "sin_deg(%r)" % d, 0, 1e-9)
    near(A.cos_deg(d), c, "cos_deg(%r)" % d, 0, 1e-9)
    near(A.deg2rad(d), float(F(d) * F(math.pi) / 180), "deg2rad", 1e-12, 1e-15)
    near(A.rad2deg(d), float(F(d) * 180 / F(math.pi)), "rad2deg", 1e-12, 1e-15)
    near(A.rad2deg(A.deg2rad(d)), d, "rad2deg(deg2rad)", 1e-12, 1e-15)
    near(A.deg2rad(A.rad2deg(d)), d, "deg2rad(rad2deg)", 1e-12, 1e-15)
    if abs(c) < 2e-4:
        return None
    near(a.tan(), s / c, "tan of %r" % d, 1e-5 if abs(c) < 1e-2 else 1e-7, 1e-8)
    near(A.tan_deg(d), s / c, "tan_deg(%r)" % d, 1e-5 if abs(c) < 1e-2 else 1e-7, 1e-8)
    return "q%d%s" % (int((F(d) % 360) // 90), " big" if abs(d) > 360 else "")


def gen_inv(g):
    k = g.raw(5)
    if k == 0:
        return g.int(-8, 8) / 8.0
    if k == 1:
        return g.signed(g.uniform(0.0, 1.0))
    if k == 2:
        return g.signed(1.0 + g.signed(g.pick([0.0, 1e-12, 1e-9, 1e-6, 1e-3, 0.5])))
    if k == 3:
        return g.signed(g.mag(-9, 9))
    if k == 4:
        return g.const(1e6)
    return g.int(-5, 5)


def check_inv(x):
    xc = max(-1.0, min(1.0, float(x)))
    ac, as_, at = A.acos_deg(x), A.asin_deg(x), A.atan_deg(x)
    expect(0.0 <= ac <= 180.0, "acos_deg(%r) = %r outside [0, 180]", x, ac)
    expect(-90.0 <= as_ <= 90.0, "asin_deg(%r) = %r outside [-90, 90]", x, as_)
    expect(-90.0 <= at <= 90.0, "atan_deg(%r) = %r outside [-90, 90]", x, at)
    near(ref(ac)[1], xc, "cos(acos_deg(%r))" % x, 0, 1e-9)
    near(ref(as_)[0], xc, "sin(asin_deg(%r))" % x, 0, 1e-9)
    near(ac + as_, 90.0, "acos + asin of %r" % x, 0, 1e-9)
    if abs(x) >= 1:
        eq(float(ac), 0.0 if x > 0 else 180.0, "acos_deg(%r)" % x)
        eq(float(as_), 90.0 if x > 0 else -90.0, "asin_deg(%r)" % x)
    near(at, math.degrees(math.atan(x)), "atan_deg(%r)" % x, 1e-12, 1e-12)
    s, c = ref(at)
    if c > 1e-3:
        near(s / c, x, "tan(atan_deg(%r))" % x, 1e-6, 1e-9)
    return "clamped" if abs(x) > 1 else "limit" if abs(x) == 1 else "inside"


def gen_atan2(g):
    def one(g):
        k = g.raw(6)
        if k <= 1:
            return g.int(-9, 9)
        if k == 2:
            return g.signed(g.pick([0.0, 0.5e-6, 0.99e-6, 1.01e-6, 2e-6, 1e-5, 1e-9, 1e-7]))
        if k == 3:
            return g.signed(g.mag(-9, 9))
        if k == 4:
            return g.signed(g.uniform(0.0, 60.0))
        if k == 5:
            return g.const(1e9)
        return g.pick([0, 0.0, -0.0])
    return [one(g), one(g)]


def check_atan2(case):
    y, x = case
    r = A.atan2_deg(y, x)
    m = max(abs(x), abs(y))
    if abs(m - 1e-6) < 1e-12:
        return None
    expect(-180.0 <= r <= 180.0, "atan2_deg(%r, %r) = %r outside [-180, 180]", y, x, r)
    if m < 1e-6:
        eq(float(r), 0.0, "atan2_deg(%r, %r)" % (y, x))
        return "near_zero"
    s, c = ref(r)
    h = math.hypot(x, y)
    near(h * c, x, "direction of atan2_deg(%r, %r), x" % (y, x), 0, 1e-9 * h)
    near(h * s, y, "direction of atan2_deg(%r, %r), y" % (y, x), 0, 1e-9 * h)
    near(ang_diff(V(x, y).th().degree(), r), 0.0, "direction of the vector (%r, %r)" % (x, y), 0, 1e-9)
    return "q%d%d" % (sgn(x) + 1, sgn(y) + 1) + (" tiny" if m < 1e-5 else "")


def gen_round(g):
    return [g.signed(g.uniform(0.0, 89.0)), g.uniform(0.0, 180.0), g.signed(g.uniform(0.0, 180.0)), g.mag(-3, 3)]


def check_round(case):
    a, b, c, r = case
    near(A.asin_deg(A.sin_deg(a)), a, "asin(sin %r)" % a, 0, 1e-5)
    near(A.atan_deg(A.tan_deg(a)), a, "atan(tan %r)" % a, 0, 1e-7)
    near(A.acos_deg(A.cos_deg(b)), b, "acos(cos %r)" % b, 0, 1e-5)
    near(ang_diff(A.atan2_deg(r * A.sin_deg(c), r * A.cos_deg(c)), c), 0.0, "atan2 of (sin, cos) of %r" % c, 0, 1e-7)
    near(A(a).sin() ** 2 + A(a).cos() ** 2, 1.0, "sin^2 + cos^2 of %r" % a, 0, 1e-12)
    return "x"


SUBS = [
    Sub("forward", gen_fwd, check_fwd, "sin/cos/tan and conversions against exact reduction mod 360 and libm", n=30000),
    Sub("inverse", gen_inv, check_inv, "arc functions: range, inverse identity, clamping", n=30000),
    Sub("atan2", gen_atan2, check_atan2, "two-argument arc tangent: quadrant, range, zero rule", n=30000),
    Sub("roundtrip", gen_round, check_round, "arc functions undo the functions on their principal ranges", n=20000),
]
