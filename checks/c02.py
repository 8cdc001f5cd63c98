"""C02 angle ordering, sweep membership and bisection respect the circle"""
from vlib.common import *

RULE = ("A case is two or three directions (multiples of 15, integers, floats, values around the +-180 seam, copies, "
        "opposites and half-way directions of each other, unnormalised numbers). Trivial: cases within 1e-9 degrees of a "
        "boundary without lying exactly on it (not judged). Distinct: different choice sequences.")
ASSUMPTIONS = ["directions closer than 1e-9 degrees to equal/opposite but not exactly so are not judged"]


def other(g, d):
    """a direction in special position to the degree value d"""
    k = g.raw(7)
    if k <= 2:
        return gn.deg(g)
    if k == 3:
        return d
    if k == 4:
        return d + 180 if d <= 0 else d - 180
    if k == 5:
        return d + g.signed(360)
    if k == 6:
        return -d
    return d + g.signed(g.pick([90, 179, 181, 1, 45, 1e-3, 179.999]))


def exact(d):
    a = A(d)
    return F(a.degree_())


def cw(a, b):
    """turn from a to b in increasing degrees, in [0, 360)"""
    return (b - a) % 360


TINY = F(1, 10 ** 9)


def fuzzy(t):
    """too close to 0 / 180 / 360 without being exactly there"""
    for x in (0, 180, 360):
        if t != x and abs(t - x) < TINY:
            return True
    return False


def gen_order(g):
    d = gn.deg(g)
    return [d, other(g, d), g.raw(1)]


def check_order(case):
    d, e, as_obj = case
    a, b = A(d), A(e)
    arg = b if as_obj else e
    t = cw(exact(d), exact(e))
    if fuzzy(t):
        return None
    is_true(a.is_left_of(arg), 0 < t < 180, "%r is left of %r" % (d, e))
    is_true(a.is_right_of(arg), 180 < t, "%r is right of %r" % (d, e))
    is_true(a.is_left_equal_of(arg), 0 <= t < 180, "%r is left or equal of %r" % (d, e))
    is_true(a.is_right_equal_of(arg), t == 0 or 180 < t, "%r is right or equal of %r" % (d, e))
    eq(F(a.degree_()), exact(d), "receiver after comparing")
    eq(F(b.degree_()), exact(e), "argument after comparing")
    return ("same " if t == 0 else "opposite " if t == 180 else "left " if t < 180 else "right ") \
        + ("seam " if abs(exact(d)) == 180 or abs(exact(e)) == 180 else "") + ("obj" if as_obj else "num")


def gen_within(g):
    left = gn.deg(g)
    right = other(g, left)
    k = g.raw(3)
    if k == 0:
        d = other(g, left)
    elif k == 1:
        d = other(g, right)
    elif k == 2:
        d = (left + right) / 2.0 + 180 * g.raw(1)
    else:
        d = gn.deg(g)
    return [d, left, right, g.raw(1), g.raw(1)]


def check_within(case):
    d, left, right, o1, o2 = case
    x, lo, hi = exact(d), exact(left), exact(right)
    sweep, off = cw(lo, hi), cw(lo, x)
    if fuzzy(sweep) or fuzzy(off) or fuzzy(cw(x, hi)):
        return None
    l, r = A(left) if o1 else left, A(right) if o2 else right
    is_true(A(d).is_within(l, r), off <= sweep, "%r is within [%r, %r]" % (d, left, right))
    lab = "in " if off <= sweep else "out "
    lab += "empty_sweep " if sweep == 0 else "half " if sweep == 180 else "reflex " if sweep > 180 else "minor "
    if lo > hi:
        lab += "wraps "
    if off in (0, sweep):
        lab += "at_end"
    return lab


def gen_bisect(g):
    d = gn.deg(g)
    return [d, other(g, d), g.raw(1), g.raw(1)]


def check_bisect(case):
    d, e, o1, o2 = case
    l, r = exact(d), exact(e)
    la, ra = (A(d) if o1 else d), (A(e) if o2 else e)
    res = A.bisect(la, ra)
    expect(isinstance(res, A), "bisect gave %r", res)
    m = F(res.degree_())
    expect(-180 <= m <= 180, "bisector %r not normalised", res)
    if o1:
        eq(F(la.degree_()), l, "left argument after bisect")
    if o2:
        eq(F(ra.degree_()), r, "right argument after bisect")
    t = cw(r, l)            # decreasing turn from l to r
    axis = (m - (l + r) / 2) % 180
    axis = min(axis, 180 - axis)
    expect(axis < F(1, 10 ** 6), "bisector of %r and %r is %r: not on their symmetry axis", d, e, res)
    if min(t, 360 - t) < F(1, 10 ** 6) or abs(t - 180) < F(1, 10 ** 6):
        return "axis_only"
    want = l - t / 2
    off = (m - want) % 360
    off = min(off, 360 - off)
    expect(off < F(1, 10 ** 6), "bisector of %r and %r is %r, expected %g", d, e, res, float(want))
    return ("reflex " if t > 180 else "minor ") + ("seam" if l < r else "plain")


SUBS = [
    Sub("order", gen_order, check_order, "left/right(-or-equal) comparisons against the exact turn mod 360", n=30000,
        examples=[[180, -180, 1], [-180, 180, 0]]),
    Sub("within", gen_within, check_within, "sweep membership against the exact turn mod 360", n=25000),
    Sub("bisect", gen_bisect, check_bisect, "bisector against the exact half turn in decreasing degrees", n=25000),
]
