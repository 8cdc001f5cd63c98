"""C27 quantisation rounds to the nearest step and its inverse bounds the input"""
from vlib.common import *

RULE = ("A case is a number (grid, fractional, close to a half, negative, large) to round, a value and a step to quantise with a second value "
        "for monotonicity, or a distance (0.1 to 200) and a logarithmic step. Trivial: none. Distinct: different choice sequences.")
ASSUMPTIONS = ["which neighbour an exact half goes to is not judged; numbers up to 2**51",
               "seen distances are at least 0.1 (the smallest non-zero value the server shows)",
               "the reference for distances skips cases within 1e-9 of a rounding border"]
M = P.soccer


def tie(x):
    return abs(abs(x - math.floor(x)) - 0.5) < 1e-9 * max(1.0, abs(x))


def gen_round(g):
    k = g.raw(4)
    if k == 0:
        return [g.int(-2000, 2000) / 8.0]
    if k == 1:
        return [g.int(-1000, 1000)]
    if k == 2:
        if g.raw(3) == 0:                          # next to a half, at any size
            x = g.int(0, 2 ** g.raw(50)) + 0.5
            return [g.signed(g.pick([x, math.nextafter(x, 0.0), math.nextafter(x, 1e18), x + 0.5]))]
        return [g.int(-60, 60) + g.pick([0.5, 0.49, 0.51, 0.499999, 0.500001, 0.4999999999, 0.0001, 0.9999])]
    if k == 3:
        return [g.signed(g.uniform(0.0, 1e6))]
    return [g.signed(g.uniform(0.0, 3.0))]


def check_round(case):
    x = case[0]
    r = M.r_int(x)
    expect(isinstance(r, int), "r_int(%r) is %r, not an integer", x, r)
    d = abs(F(r) - F(x))
    expect(d <= F(1, 2), "r_int(%r) is %r", x, r)
    if d != F(1, 2):
        eq(M.r_int(x), math.floor(F(x) + F(1, 2)), "r_int(%r)" % x)
        eq(M.r_int(-x), -r, "r_int of the negative of %r" % x)
    eq(M.r_int(r), r, "r_int of an integer")
    eq(M.r_int(float(r)), r, "r_int of a whole number")
    return ("neg" if x < 0 else "pos") + (" tie" if tie(x) else " whole" if r == x else "")


def gen_quant(g):
    step = g.pick([0.1, 0.01, 0.5, 0.25, 1.0, 2.0, 10, 3, 0.001, gn.pos(g, "f", 10)])
    k = g.raw(3)
    if k == 0:
        v1 = step * g.int(-50, 50)
    elif k == 1:
        v1 = step * (g.int(-50, 50) + g.pick([0.5, 0.49, 0.51, 0.25]))
    else:
        v1 = gn.num(g, "m", 60)
    v2 = g.pick([v1 + step * g.unit(), gn.num(g, "m", 60), -v1, v1 + step])
    return [v1, v2, step]


def check_quant(case):
    v1, v2, step = case
    q1, q2 = M.quantize(v1, step), M.quantize(v2, step)
    tol = 1e-9 * max(abs(v1), step)
    expect(abs(q1 - v1) <= step / 2 + tol, "quantize(%r, %r) is %r", v1, step, q1)
    k = round(q1 / step)
    expect(abs(q1 - k * step) <= 1e-12 * max(abs(q1), step), "quantize(%r, %r) is %r, not a multiple of the step", v1, step, q1)
    eq(M.quantize(q1, step), q1, "quantising %r twice by %r" % (v1, step))
    if v1 <= v2:
        expect(q1 <= q2, "quantize(%r, %r) = %r exceeds quantize(%r, %r) = %r", v1, step, q1, v2, step, q2)
    if not tie(v1 / step):
        near(q1, math.floor(v1 / step + 0.5) * step, ("quantize(%r, %r)", v1, step), 1e-12, 1e-12 * step)
    for val, q in ((v1, q1), (v2, q2)):
        lo, hi = M.unquantize_min(q, step), M.unquantize_max(q, step)
        tol = 1e-9 * max(abs(val), step)
        expect(lo - tol <= val <= hi + tol, "%r quantises to %r by %r but lies outside the inverse bounds %r, %r", val, q, step, lo, hi)
        near(lo, q - step / 2, ("unquantize_min(%r, %r)", q, step), 1e-9, 1e-9 * step)
        near(hi, q + step / 2, ("unquantize_max(%r, %r)", q, step), 1e-9, 1e-9 * step)
    return "step%s" % (step if step in (0.1, 0.01, 1.0) else "other") + (" tie" if tie(v1 / step) else "")


def seen(d, qstep):
    """reference; None close to a rounding border"""
    a = math.log(d + 1e-10) / qstep
    if tie(a):
        return None
    b = math.exp(math.floor(a + 0.5) * qstep) / 0.1
    if tie(b):
        return None
    return math.floor(b + 0.5) * 0.1


def gen_dist(g):
    q = g.pick([0.1, 0.01, 0.1, 0.01, 0.05, 0.5, 0.02])
    k = g.raw(3)
    d1 = g.int(1, 500) / 10.0 if k == 0 else g.uniform(0.1, 5.0) if k == 1 else g.uniform(0.1, 180.0)
    d2 = g.pick([d1 * (1 + 0.1 * g.unit()), g.uniform(0.1, 180.0), d1 + 0.05])
    return [d1, d2, q]


def check_dist(case):
    d1, d2, q = case
    s1, s2 = M.quantize_dist(d1, q), M.quantize_dist(d2, q)
    for d, s in ((d1, s1), (d2, s2)):
        k = round(s / 0.1)
        expect(abs(s - k * 0.1) <= 1e-12 * max(1.0, s), "quantize_dist(%r, %r) is %r, not a multiple of 0.1", d, q, s)
        w = seen(d, q)
        if w is not None:
            near(s, w, ("quantize_dist(%r, %r)", d, q), 1e-12, 1e-12)
    if d1 <= d2:
        expect(s1 <= s2, "quantize_dist(%r, %r) = %r exceeds quantize_dist(%r, %r) = %r", d1, q, s1, d2, q, s2)
    else:
        expect(s2 <= s1, "quantize_dist(%r, %r) = %r is less than quantize_dist(%r, %r) = %r", d1, q, s1, d2, q, s2)
    if s1 < 0.1:
        return "zero"
    err = M.unquantize_error(s1, q)
    # extent of the distances seen as s1, by bisection on the real function
    lo, hi = d1, d1 / (1 + q) - 0.2
    lo = edge(d1, max(hi * 0.8, 1e-6), s1, q)
    hi = edge(d1, (d1 * (1 + q) + 0.2) * 1.5, s1, q)
    expect(err >= (hi - lo) - 1e-6 * max(1.0, hi), "unquantize_error(%r, %r) is %r, but %r and %r are both seen as that value", s1, q, err, lo, hi)
    a, b = math.log(s1 - 0.05) / q, math.log(s1 + 0.05) / q
    if not tie(a) and not tie(b) and not tie(s1 / 0.1):
        w = math.exp((math.floor(b + 0.5) + 0.5) * q) - math.exp((math.floor(a + 0.5) - 0.5) * q)
        near(err, w, ("unquantize_error(%r, %r)", s1, q), 1e-9, 1e-9)
    return "q%s" % q + (" same" if s1 == s2 else "")


def edge(inside, outside, s, q):
    """last distance towards outside that is seen as s"""
    if M.quantize_dist(outside, q) == s:
        return outside
    for _ in range(40):
        m = (inside + outside) / 2
        if M.quantize_dist(m, q) == s:
            inside = m
        else:
            outside = m
    return inside


SUBS = [
    Sub("round", gen_round, check_round, "nearest integer against exact arithmetic", n=25000),
    Sub("quantize", gen_quant, check_quant, "nearest multiple, idempotent, monotone; inverse bounds enclose", n=30000),
    Sub("distance", gen_dist, check_dist, "distance quantisation against its formula; bisection for the extent of a seen distance", n=6000),
]
