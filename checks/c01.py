"""C01 angles stay normalised and congruent through any history of operations"""
from vlib.common import *

RULE = ("A case is a construction form with a degree value, or a history of 1 to 12 (one in 64: 40 to 300, of a few kinds) angle operations with generated "
        "operands. Trivial: constructing one of 0/90/-90 unchanged, or a history that neither wraps around nor "
        "subtracts, negates, reverses, scales or divides. Distinct: different choice sequences.")
ASSUMPTIONS = ["after each step the reference value is re-read from the object, so rounding cannot accumulate",
               "congruence is decided to 1e-9 relative to the magnitude of the exact result"]


def congruent(got, want, mag, what):
    """got (must be in [-180,180]) congruent to the exact rational `want` mod 360"""
    expect(isinstance(got, (int, float)) and not isinstance(got, bool), "%s: %r is not a number", what, got)
    expect(-180.0 <= got <= 180.0, "%s: %r is outside [-180, 180]", what, got)
    d = (F(got) - want) % 360
    d = min(d, 360 - d)
    expect(d <= F(1e-9) + F(4e-15) * F(abs(mag)), "%s: %r is not congruent to %r mod 360 (off by %g)", what, got,
           float(want), float(d))


def readings(a, want, mag, what):
    """all readings describe one value; a value already in range is kept"""
    d = a.degree_()
    congruent(d, want, mag, what)
    if -180 < want < 180:
        near(d, float(want), what + " (already in range)", 0, 1e-9 + 4e-15 * abs(mag))
    eq(a.degree(), d, what + ".degree()")
    eq(float(a), float(d), what + ".__float__")
    near(a.radian(), d * math.pi / 180.0, what + ".radian()", 1e-12, 1e-13)
    near(a.abs(), abs(d), what + ".abs()", 1e-15, 0)
    near(a.get_normalized(), (d + 180.0) / 360.0, what + ".get_normalized()", 1e-12, 1e-13)
    expect(0.0 <= a.get_normalized() <= 1.0, what + ".get_normalized() outside [0, 1]")
    near(float(repr(a)), d, what + ".__repr__", 0, 0)
    near(float(str(a)), d, what + ".__str__", 0, 0)
    is_true(a == A(d), True, what + " == angle of its own degree value")
    is_true(a == d, True, what + " == its own degree value")


# ---- construction ------------------------------------------------------------------------------------
def gen_build(g):
    k = g.raw(2)
    d = gn.deg(g) if k else g.signed(g.mag(-12, 15))
    return [g.pick(["num", "angle", "af", "set_degree", "set_angle", "copy", "normalize", "none"]), d]


def check_build(case):
    form, d = case
    want = F(d)
    if form == "num":
        a = A(d)
    elif form == "angle":
        a = A(A(d))
    elif form == "af":
        a = A(af=d)
    elif form == "set_degree":
        a = A(33)
        a.set_degree(d)
    elif form == "set_angle":
        a = A(-12)
        a.set_angle(A(d))
    elif form == "copy":
        a = A(d).copy()
    elif form == "normalize":
        r = A.normalize_angle(d)
        congruent(r, want, abs(d), "normalize_angle")
        if -180 <= d <= 180:
            eq(r, d, "normalize_angle of a value in range")
        a = A(d)
    else:
        a = A()
        want = F(0)
    readings(a, want, abs(d), form)
    if -180 <= want <= 180:
        eq(a.degree_(), type(d)(want) if form != "none" else 0, form + " keeps a value in range")
    if abs(d) <= 180 and (form == "none" or d % 90 == 0 and abs(d) < 180):
        return None
    return ("wraps " if abs(d) > 180 else "inrange ") + form + (" seam" if abs(abs(d) % 360 - 180) < 1e-3 else "")


# ---- histories -----------------------------------------------------------------------------------------
OPS = ["+=", "-=", "*=", "/=", "+", "-", "*", "neg", "reverse", "reverse_angle", "copy", "set_degree",
       "set_angle", "normal", "self+=", "self-=", "//"]


def gen_hist(g):
    start = gn.deg(g)
    n_obj = g.int(1, 2)
    ops, long = gn.swarm(g, OPS)

    def step(g):
        op = g.pick(ops)
        if op in ("*=", "/=", "*", "//"):
            x = g.pick([1, -1, 2, 0.5, -2, 3, 0.1, 7.5, -0.25, 1000.0]) if g.raw(1) else g.signed(g.mag(-2, 12 if g.raw(3) == 0 else 3))
        else:
            x = gn.deg(g)
        return [op, g.int(0, n_obj), x, g.raw(1)]
    return [start, [gn.deg(g) for _ in range(n_obj)], g.list(step, 40, 300, 200) if long else g.list(step, 1, 12, 6)]


def check_hist(case):
    start, others, steps = case
    pool = [A(start)] + [A(d) for d in others]
    a = pool[0]
    wrapped = False
    kinds = set()
    for op, j, x, as_obj in steps:
        b = pool[j % len(pool)]
        before = [p.degree_() for p in pool]
        a0 = F(a.degree_())
        new = None
        inplace = False
        operand = A(x) if as_obj else x
        xv = F(operand.degree_()) if as_obj else F(x)
        bv = F(b.degree_())
        opd0 = operand.degree_() if as_obj else None
        kinds.add(op)
        if op == "+=":
            t = a
            t += operand
            expect(t is a, "+= returned another object")
            want, inplace = a0 + xv, True
        elif op == "-=":
            t = a
            t -= operand
            expect(t is a, "-= returned another object")
            want, inplace = a0 - xv, True
        elif op == "self+=":
            t = a
            t += b
            want, inplace = a0 + bv, True
        elif op == "self-=":
            t = a
            t -= b
            want, inplace = a0 - bv, True
        elif op == "*=":
            t = a
            t *= x
            expect(t is a, "*= returned another object")
            want, inplace = a0 * F(x), True
        elif op == "/=":
            t = a
            t /= x
            expect(t is a, "/= returned another object")
            want, inplace = a0 / F(x), True
        elif op == "+":
            new, want = a + operand, a0 + xv
        elif op == "-":
            new, want = a - operand, a0 - xv
        elif op == "*":
            new, want = a * x, a0 * F(x)
        elif op == "//":
            new, want = a // x, a0 / F(x)
            if isinstance(new, A) and 1e-6 < (F(new.degree_()) - want) % 360 < 360 - 1e-6:      # or the quotient rounded down, as its comment says
                want = F(math.floor(a0 / F(x)))
        elif op == "neg":
            new, want = -a, -a0
        elif op == "reverse":
            a.reverse()
            want, inplace = a0 + 180, True
        elif op == "reverse_angle":
            new, want = a.reverse_angle(), a0 + 180
        elif op == "copy":
            new, want = a.copy(), a0
        elif op == "set_degree":
            a.set_degree(x)
            want, inplace = F(x), True
        elif op == "set_angle":
            a.set_angle(b)
            want, inplace = bv, True
        else:
            a.normal()
            want, inplace = a0, True
        mag = max(abs(float(want)), 360.0)
        if as_obj:
            eq(operand.degree_(), opd0, "operand of %s after the operation" % op)
        if inplace:
            readings(a, want, mag, "after %s" % op)
        else:
            expect(isinstance(new, A), "%s did not give an angle but %r", op, new)
            expect(all(new is not p for p in pool), "%s gave an existing object", op)
            readings(new, want, mag, "result of %s" % op)
            eq(a.degree_(), before[0], "receiver of the pure operation %s" % op)
            # continue with the result, keep the old object as another pool member
            pool.append(a)
            before.append(before[0])
            a = new
            pool[0] = new
            before[0] = new.degree_()
        for k in range(1, len(pool)):
            if pool[k] is not a:
                eq(pool[k].degree_(), before[k], "an angle that took no part in %s" % op)
        if abs(want) > 180:
            wrapped = True
    if not wrapped and not kinds & {"//", "neg", "reverse", "reverse_angle", "-=", "-", "/=", "*", "*="}:
        return None
    return ("wrapped " if wrapped else "nowrap ") + ("long " if len(steps) > 4 else "short ") + " ".join(sorted(kinds))


SUBS = [
    Sub("build", gen_build, check_build, "every construction, setter and normalisation: value in [-180,180], congruent mod 360 "
        "to the exact value, all readings agree", n=40000),
    Sub("history", gen_hist, check_hist, "model-based history of angle operations against exact rational arithmetic mod 360; "
        "identity of in-place results, purity of the others", n=9000,
        examples=[[10, [20], [["/=", 0, 2, 0]]]], share=False),
]
