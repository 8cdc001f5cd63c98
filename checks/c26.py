"""C26 inertial motion predictions equal the step-by-step simulation"""
from vlib.common import *

RULE = ("A case is a position, a velocity, a decay (0 to 0.999, the server's values, and above 1 for finite step counts) and a step count of 0 "
        "to 200, sometimes 3000; or a geometric series (first term, ratio, length). Trivial: zero steps with zero velocity. Distinct: different choice sequences.")
ASSUMPTIONS = ["results are compared with the exact rational simulation to 1e-13 of the terms, divided by the distance of the decay from 1",
               "decay or ratio equal to 1 and series whose length is numerically undetermined (tail below 1e-9 of the sum) are not judged"]
M = P.soccer
DECAYS = [0.94, 0.4, 0.9, 0.5, 0.25, 0.6, 0.98, 0.1, 0.75, 0.99]


def gen_decay(g, above=True):
    k = g.raw(5)
    if k <= 1:
        return g.pick(DECAYS)
    if k == 2:
        return g.pick([0.0, 0.001, 0.999, 0.5, 0.875])
    if k == 3 and above:
        return g.pick([1.05, 1.25, 1.5, 2.0, 1.01])
    return g.uniform(0.01, 0.995)


def gen_motion(g):
    prof = gn.profile(g)
    n = g.weighted((3, 1), (3, 2), (2, 3))
    return [gn.pt(g, prof, 60), gn.pt(g, prof, g.pick([3, 3, 60])), gen_decay(g),
            g.pick([0, 1, 2, 3, 4, 5]) if n < 3 else g.int(0, 200) if g.raw(7) else g.int(200, 3000)]


def check_motion(case):
    pos, vel, decay, n = case
    if decay > 1:
        n = min(n, 20 if decay > 1.05 else 300)
    # exact simulation: the object moves by its velocity, then the velocity decays
    d = F(decay)
    p, w = fr(pos), fr(vel)
    c, s = F(0), F(1)
    for _ in range(min(n, 60)):
        c += s
        s *= d
        if s.denominator > 1 << 400:
            s = F(float(s))                            # keeps 53 bits; error far below the tolerance
    for _ in range(n - 60):
        c += s
        s = F(float(s) * decay)
    travel = (w[0] * c, w[1] * c)
    tol = 1e-13 * (1 + float(c)) / abs(1 - decay)
    vv, pp = v(vel), v(pos)
    mag = max(abs(vel[0]), abs(vel[1]))
    tv = M.inertia_n_step_travel(vv, n, decay)
    near_pt(tv, (float(travel[0]), float(travel[1])), ("travel of %r in %d steps with decay %r", vel, n, decay), 0, tol * mag)
    tp = M.inertia_n_step_point(pp, vv, n, decay)
    near_pt(tp, (float(p[0] + travel[0]), float(p[1] + travel[1])), ("point from %r with %r after %d steps, decay %r", pos, vel, n, decay), 0,
            tol * mag + 1e-14 * scale_of(pos))
    speed = math.hypot(vel[0], vel[1])
    for sp in (speed, -speed):
        near(M.inertia_n_step_distance(sp, n, decay), float(F(sp) * c), ("distance of speed %r in %d steps with decay %r", sp, n, decay), 0,
             tol * speed)
    if decay < 1:
        lim = 1 / (1 - d)
        ft = M.inertia_final_travel(vv, decay)
        ltol = 1e-14 * float(lim) ** 2 * mag
        near_pt(ft, (float(w[0] * lim), float(w[1] * lim)), ("final travel of %r with decay %r", vel, decay), 0, ltol)
        near_pt(M.inertia_final_point(pp, vv, decay), (float(p[0] + w[0] * lim), float(p[1] + w[1] * lim)),
                ("final point from %r with %r and decay %r", pos, vel, decay), 0, ltol + 1e-14 * scale_of(pos))
        for sp in (speed, -speed):
            near(M.inertia_final_distance(sp, decay), float(F(sp) * lim), ("final distance of speed %r with decay %r", sp, decay), 0,
                 1e-14 * float(lim) ** 2 * speed)
    eq((xy(vv), xy(pp)), (tuple(vel), tuple(pos)), "velocity and position after the predictions")
    for r in (tv, tp):
        expect(r is not vv and r is not pp, "a prediction gave its input object")
    if n == 0 and mag == 0:
        return None
    return "n%s decay%s" % (n if n < 3 else ">2", "0" if decay == 0 else "<1" if decay < 1 else ">1")


def gen_series(g):
    k = g.raw(6)
    first = g.pick([1.0, 0.5, 2.7, 3.0, g.uniform(0.001, 50.0)])
    ratio = gen_decay(g) or 0.5
    if k <= 3:
        return ["length", first, ratio, g.pick([1, 2, 3, 4, 5, 8, 13, 20, 30, 0.5, 2.25]) if g.raw(2) else g.int(1, 40) if g.raw(3) else g.int(40, 400)]
    if k == 4:
        return ["impossible", first, ratio, g.raw(4), g.pick([1.001, 1.1, 2.0, 10.0])]
    return ["first", g.signed(g.uniform(0.001, 50.0)), ratio, g.int(1, 40) if g.raw(3) else g.int(40, 400)]


def check_series(case):
    kind, a, ratio, x = case[:4]
    if abs(ratio - 1) < 1e-3:
        return None
    if kind in ("first", "length") and ratio > 1.05:
        x = min(x, 40)
    if kind == "first":
        c = (1 - F(ratio) ** x) / (1 - F(ratio)) if x <= 30 else F((1 - ratio ** x) / (1 - ratio))
        f = M.calc_first_term_geom_series(a, ratio, x)
        near(f, float(F(a) / c), ("first term of the series with sum %r, ratio %r, length %r", a, ratio, x), 1e-12, 0)
        # reproduces the sum
        t, s = f, 0.0
        for _ in range(x):
            s += t
            t *= ratio
        near(s, a, ("sum of the series of ratio %r and length %r from the first term %r", ratio, x, f), 1e-11, 0)
        return "first"
    if kind == "impossible":
        m = case[4]
        if x == 0:
            got = M.calc_length_geom_series(g0(m), 5.0, ratio)
            eq(got, -1.0, "length with first term %r" % g0(m))
        elif x == 1:
            got = M.calc_length_geom_series(a, -0.001 * m, ratio)
            eq(got, -1.0, "length with a negative sum")
        elif x == 2:
            got = M.calc_length_geom_series(a, 5.0, g0(m))
            eq(got, -1.0, "length with ratio %r" % g0(m))
        elif x == 3:
            got = M.calc_length_geom_series(a, g0(m) if g0(m) >= 0 else 0.0, ratio)
            eq(got, 0.0, "length of an empty sum")
        elif ratio < 1:
            s = a / (1 - ratio) * m
            got = M.calc_length_geom_series(a, s, ratio)
            eq(got, -1.0, "length of a series from %r with ratio %r and the unreachable sum %r" % (a, ratio, s))
        else:
            return None
        return "impossible%d" % x
    tail = ratio ** x
    s = a * (tail - 1) / (ratio - 1)
    if tail < 1e-8 or s <= 1e-9:
        return None
    got = M.calc_length_geom_series(a, s, ratio)
    near(got, x, ("length of the series from %r with ratio %r and sum %r", a, ratio, s), 1e-12,
         1e-14 * max(1, 1 / tail) * max(1.0, tail) * (1 / abs(math.log(ratio)) + x) / abs(1 - ratio) * 10)
    return "length"


def g0(m):
    return {1.001: 0.0, 1.1: -1.0, 2.0: 1e-11}.get(m, 0.0)


SUBS = [
    Sub("motion", gen_motion, check_motion, "exact step-by-step simulation of a decaying velocity, and its limit", n=5000),
    Sub("series", gen_series, check_series, "length and first term reproduce the series; impossible series give -1, empty sums 0", n=12000),
]
