"""C28 soccer command models and numeric helpers follow their formulas"""
import itertools

from vlib.common import *

RULE = ("A case is one set of arguments for one of the command models (kick rate, dash direction rate, effective turn, final speed, speed limit, "
        "wind), an interval and a number for clamping, or a range (start, stop, step; dyadic and decimal, both directions). Trivial: none. "
        "Distinct: different choice sequences.")
ASSUMPTIONS = ["formulas are evaluated in exact rational arithmetic and compared to 1e-12 of their terms",
               "whether a value within 1e-9 of stop belongs to a decimal range is not judged; exact on dyadic ranges",
               "decay 1, zero weights, step 0 and empty intervals (low above high) are not judged"]
M = P.soccer


def close(got, want, mag, what):
    expect(isinstance(got, (int, float)) and math.isfinite(got), "%s is %r", what, got)
    if abs(F(got) - want) > F(1e-12) * mag:
        fail("%s is %r, expected %r", what[0] % what[1:] if isinstance(what, tuple) else what, got, float(want))


def gen_model(g):
    t = g.pick(["kick", "dash", "turn", "speed", "wind"])
    wide = g.raw(5) == 5                           # far beyond the usual server parameters

    def u(lo, hi, free=False):
        if wide and free and g.raw(1):
            return g.mag(-3, 4)
        return g.pick([lo, hi, (lo + hi) / 2, g.uniform(lo, hi), g.uniform(lo, hi), g.uniform(lo, hi)])
    if t == "kick":
        return [t, u(0.0, 2.0, True), g.signed(u(0.0, 180.0)), u(0.001, 0.1, True), g.pick([0.085, u(0.01, 0.5)]), g.pick([0.3, u(0.01, 0.6)]),
                g.pick([0.7, u(0.1, 2.0, True)])]
    if t == "dash":
        return [t, g.signed(g.pick([0.0, 45.0, 90.0, 90.0, 135.0, 180.0, 89.999, 90.001, u(0.0, 180.0), u(0.0, 180.0)])), u(0.1, 1.0), u(0.1, 1.0)]
    if t == "turn":
        return [t, g.signed(u(0.0, 180.0, True)), u(0.0, 3.0, True), u(0.0, 10.0, True)]
    if t == "speed" and g.raw(3) == 3:             # limits that are met exactly
        dp, rate, eff, dec = g.signed(g.int(1, 100)), 2.0 ** -g.int(0, 8), g.pick([1.0, 0.5, 0.75, 0.25]), g.pick([0.0, 0.5, 0.75, 0.875])
        return [t, dp, rate, eff, dec, abs(dp) * rate * eff / (1 - dec) + g.pick([0, 0, 2.0 ** -10, -2.0 ** -10]), 0]
    if t == "speed":
        return [t, g.signed(u(0.0, 100.0, True)), u(0.001, 0.01, True), u(0.1, 1.0, True), g.pick([0.4, 0.0, 0.9, u(0.0, 0.99)]), u(0.0, 3.0), g.raw(2)]
    return [t, u(0.0, 3.0, True), u(0.1, 10.0, True), g.signed(u(0.0, 10.0, True)), gn.deg(g), u(0.1, 10000.0, True), u(0.0, 1.0, True), g.raw(4), g.raw(1)]


def check_model(case):
    t, args = case[0], case[1:]
    if t == "kick":
        dist_, dd, pr, bs, ps, km = args
        fd, fdd, fpr, fbs, fps, fkm = map(F, args)
        want = fpr * (1 - abs(fdd) / 720 - (fd - fbs - fps) / fkm / 4)
        mag = fpr * (1 + abs(fdd) / 720 + (fd + fbs + fps) / fkm / 4)
        close(M.kick_rate(*args), want, mag, ("kick_rate%r", tuple(args)))
        close(M.kick_rate(dist_, -dd, pr, bs, ps, km), want, mag, ("kick_rate of the opposite direction %r", tuple(args)))
        return "kick"
    if t == "dash":
        d, back, side = args
        x, b, s = abs(F(d)), F(back), F(side)
        want = 1 + (s - 1) * x / 90 if x <= 90 else s + (b - s) * (x - 90) / 90
        close(M.dir_rate(d, back, side), want, 4, ("dir_rate(%r, %r, %r)", d, back, side))
        close(M.dir_rate(-d, back, side), want, 4, ("dir_rate(%r, %r, %r)", -d, back, side))
        return "dash" + ("<" if x < 90 else ">" if x > 90 else "=")
    if t == "turn":
        tm, sp, im = args
        close(M.effective_turn(*args), F(tm) / (1 + F(im) * F(sp)), abs(F(tm)), ("effective_turn%r", tuple(args)))
        return "turn"
    if t == "speed":
        dp, rate, eff, dec, smax, k = args
        acc = abs(F(dp)) * F(rate) * F(eff)
        fs = acc / (1 - F(dec))
        got = M.final_speed(dp, rate, eff, dec)
        close(got, fs, fs / (1 - F(dec)), ("final_speed%r", (dp, rate, eff, dec)))
        # fixed point of one dash followed by decay
        near(got * dec + float(acc), got, ("speed after another dash at the final speed of %r", (dp, rate, eff, dec)), 1e-9, 1e-12)
        if k:
            smax = float(fs) * (1 + (1e-4 if k == 1 else -1e-4))
        if all(F(x).denominator <= 2048 and abs(x) < 10 ** 5 for x in (dp, rate, eff, dec, smax, float(fs))) and F(float(fs)) == fs:
            is_true(M.can_over_speed_max(dp, rate, eff, dec, smax), fs > F(smax), ("can_over_speed_max%r", (dp, rate, eff, dec, smax)))
        if abs(fs - F(smax)) > F(1, 10 ** 9) * (fs + F(smax) + F(1, 10 ** 6)):
            is_true(M.can_over_speed_max(dp, rate, eff, dec, smax), fs > F(smax), ("can_over_speed_max%r", (dp, rate, eff, dec, smax)))
        return "speed" + (" over" if fs > F(smax) else "")
    sp, w, wf, wd, ww, wr, k, as_obj = args
    c, s = unit_dir(wd)
    f = sp * wf / (w * ww)
    err = [None, V(), V(7, -3), V(0.0, 0.0), V.invalid()][k]
    tol = (1e-9 if abs(wd) > 1e4 else 1e-12) * abs(f)
    res = M.wind_effect(sp, w, wf, A(wd) if as_obj else wd, ww, wr, err)
    near_pt(res, (f * c, f * s), ("wind_effect%r", tuple(args[:6])), 0, tol)
    if err is not None:
        near_pt(err, (f * c * wr, f * s * wr), ("wind error of wind_effect%r", tuple(args[:6])), 0, tol * max(1.0, wr))
        expect(res is not err, "wind_effect gave the error object")
    return "wind" + (" err" if err is not None else "")


def gen_clamp(g):
    prof = gn.profile(g)
    lo, hi = gn.num(g, prof), gn.num(g, prof)
    if lo > hi:
        lo, hi = hi, lo
    if g.raw(7) == 0:
        hi = lo
    return [lo, g.pick([gn.num(g, prof), lo, hi, (lo + hi) / 2, lo - 1, hi + 1]), hi]


def check_clamp(case):
    lo, x, hi = case
    want = lo if x < lo else hi if x > hi else x
    eq(M.bound(lo, x, hi), want, "bound(%r, %r, %r)" % (lo, x, hi))
    eq(M.min_max(lo, x, hi), want, "min_max(%r, %r, %r)" % (lo, x, hi))
    return "in" if lo < x < hi else "edge" if x in (lo, hi) else "out"


def gen_range(g):
    form = g.pick([1, 2, 3, 3, 3])
    ex = g.raw(2) > 0
    if ex:
        start, stop = g.int(-80, 80) / 8.0, g.int(-80, 80) / 8.0
        step = g.signed(g.pick([1, 2, 4, 8, 12, 16, 3, 80])) / 8.0
    else:
        start, stop = gn.num(g, "f", 10), gn.num(g, "f", 10)
        step = g.signed(g.pick([0.1, 0.3, 0.7, 2.5]) if g.raw(1) else g.mag(-1.3, 1))
    if g.raw(3):
        if (stop - start) * step < 0:
            step = -step
    if ex and g.raw(1):
        stop = start + step * g.int(0, 12)
    if g.raw(3) == 0:
        start, stop = int(start), int(stop)
    return [form, start, stop, step]


def check_range(case):
    form, start, stop, step = case
    if form == 1:
        it, start, step = M.f_range(stop), 0, 1
    elif form == 2:
        it, step = M.f_range(start, stop), 1
    else:
        it = M.f_range(start, stop, step)
    a, b, d = F(start), F(stop), F(step)
    n = max(0, math.ceil((b - a) / d))
    got = list(itertools.islice(it, n + 5))
    exact = all(z.denominator <= 64 for z in (a, b, d))
    if exact:
        eq([F(z) for z in got], [a + k * d for k in range(n)], "f_range form %d from %r to %r by %r" % (form, start, stop, step))
    else:
        ok = {n}
        tol = F(4e-16) * (n + 2) * max(abs(a), abs(b), abs(d))
        if abs(a + n * d - b) < tol:
            ok.add(n + 1)
        if n > 0 and abs(a + (n - 1) * d - b) < tol:
            ok.add(n - 1)
        expect(len(got) in ok, "f_range(%r, %r, %r) gives %d values, expected %d", start, stop, step, len(got), n)
        for k, z in enumerate(got):
            expect(abs(F(z) - (a + k * d)) <= tol, "value %d of f_range(%r, %r, %r) is %r", k, start, stop, step, z)
    return "form%d%s%s" % (form, " down" if step < 0 else "", " empty" if n == 0 else "")


SUBS = [
    Sub("models", gen_model, check_model, "formulas in exact rational arithmetic, symmetry, fixed point", n=40000),
    Sub("clamp", gen_clamp, check_clamp, "bounded number", n=15000),
    Sub("range", gen_range, check_range, "start plus every multiple short of stop", n=16000),
]
