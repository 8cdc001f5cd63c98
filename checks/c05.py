"""C05 vector length, direction, rotation and products are mutually consistent"""
from vlib.common import *

RULE = ("A case is one or two vectors (grid, dyadic, float, magnitudes 1e-9 to 1e6, around the 1e-6 threshold) and an angle "
        "(any magnitude up to 1e6 degrees, number or angle object). Trivial: the zero vector. Distinct: different choice "
        "sequences.")
ASSUMPTIONS = ["tolerance 1e-9 relative to the length involved; lengths within 1e-9 relative of the 1e-6 threshold are not judged"]


def ref(d):
    x = math.radians(float(F(d) % 360))
    return math.cos(x), math.sin(x)


def vec(g):
    k = g.raw(5)
    if k <= 2:
        return gn.pt(g, gn.profile(g), g.weighted((4, 60), (1, 10 ** 6)))
    if k == 3:
        m, d = g.mag(-8, 6), g.uniform(0.0, 6.2832)
        return [m * math.cos(d), m * math.sin(d)]
    if k == 4:                                     # around the threshold
        m, d = 1e-6 * g.pick([0.1, 0.5, 0.9, 1.1, 2.0, 10.0, 100.0]), g.uniform(0.0, 6.2832)
        return [m * math.cos(d), m * math.sin(d)]
    return g.pick([[0, 0], [1, 0], [0, 1], [-1, 0], [0, -1], [1, 1], [-1, 1], [3, 4], [-5, 12]])


def gen_polar(g):
    r = g.pick([0, 1, 5, 0.5, 2.5]) if g.raw(1) else g.mag(-6, 6)
    return [-r if g.raw(5) == 5 else r, gn.deg(g), g.raw(1)]


def check_polar(case):
    r, d, as_obj = case
    c, s = ref(d)
    ang = angle_arg(d, as_obj)
    q = V(99, -99)
    q.set_polar(r, ang)
    forms = [("from_polar", V.from_polar(r, ang)), ("polar2vector", V.polar2vector(r, ang)), ("set_polar", q),
             ("keyword", V(r=r, a=ang)), ("on an instance", V(3, 4).polar2vector(r, ang))]
    for name, p in forms:
        near(p.x(), r * c, "%s(%r, %r).x" % (name, r, d), 0, 1e-9 * max(abs(r), 1e-300))
        near(p.y(), r * s, "%s(%r, %r).y" % (name, r, d), 0, 1e-9 * max(abs(r), 1e-300))
        near(p.r(), abs(r), "length of %s(%r, %r)" % (name, r, d), 1e-9, 0)
        if r > 1e-5:
            expect(ang_diff(p.th().degree(), float(F(d) % 360)) < 1e-6, "direction of %s(%r, %r) is %r", name, r, d, p.th())
    return "len0" if r == 0 else "len" if r > 0 else "opposite"


def gen_len(g):
    a = vec(g)
    if g.raw(9) == 9:
        return [a, list(a)]
    if g.raw(5) == 5:                              # close to each other, far from the origin
        if g.raw(1):
            a = [g.signed(g.mag(1, 9)), g.signed(g.mag(1, 9))]
        return [a, [a[0] + g.signed(g.mag(-9, 1)), a[1] + g.pick([0, 1, -1]) * g.mag(-9, 1)]]
    return [a, vec(g)]


def check_len(case):
    a, b = case
    p, q = v(a), v(b)
    h2 = float(F(a[0]) ** 2 + F(a[1]) ** 2)
    h = math.hypot(*a)
    for name, got in (("r", p.r()), ("length", p.length())):
        near(got, h, "%s of %r" % (name, a), 1e-12, 1e-160)
    for name, got in (("r2", p.r2()), ("length2", p.length2())):
        near(got, h2, "%s of %r" % (name, a), 1e-12, 1e-300)
    d2 = float((F(a[0]) - F(b[0])) ** 2 + (F(a[1]) - F(b[1])) ** 2)
    for x, y in ((p, q), (q, p)):
        near(x.dist(y), math.sqrt(d2), "dist %r %r" % (a, b), 1e-9, 1e-160)
        near(x.dist2(y), d2, "dist2 %r %r" % (a, b), 1e-9, 1e-300)
    near((p - q).r(), p.dist(q), "length of the difference", 1e-9, 1e-160)
    ip = float(F(a[0]) * F(b[0]) + F(a[1]) * F(b[1]))
    op = float(F(a[0]) * F(b[1]) - F(a[1]) * F(b[0]))
    t = 4e-16 * math.hypot(*a) * math.hypot(*b)
    near(p.inner_product(q), ip, "inner product of %r and %r" % (a, b), 1e-12, t)
    near(q.inner_product(p), ip, "inner product of %r and %r" % (b, a), 1e-12, t)
    near(p.outer_product(q), op, "outer product of %r and %r" % (a, b), 1e-12, t)
    near(q.outer_product(p), -op, "outer product of %r and %r" % (b, a), 1e-12, t)
    near(V.inner_product_static(p, q), ip, "static inner product", 1e-12, t)
    near(V.outer_product_static(p, q), op, "static outer product", 1e-12, t)
    if min(math.hypot(*a), math.hypot(*b)) > 1e-5:
        turn = math.radians(q.th().degree() - p.th().degree())
        ll = math.hypot(*a) * math.hypot(*b)
        near(ll * math.cos(turn), ip, "|a||b|cos of the turn", 0, 1e-9 * ll)
        near(ll * math.sin(turn), op, "|a||b|sin of the turn", 0, 1e-9 * ll)
    for p2 in (p,):
        ang_diff_ok = p2.dir().degree() == p2.th().degree()
        expect(ang_diff_ok, "dir() and th() disagree for %r", a)
    eq((xy(p), xy(q)), (tuple(a), tuple(b)), "vectors after the queries")
    return None if h == 0 else "both" if d2 else "same"


def gen_rot(g):
    return [vec(g), gn.deg(g), g.raw(1)]


def check_rot(case):
    a, d, as_obj = case
    c, s = ref(d)
    h = math.hypot(*a)
    want = (a[0] * c - a[1] * s, a[0] * s + a[1] * c)
    t = 1e-9 * h
    p = v(a)
    ret = p.rotate(angle_arg(d, as_obj))
    expect(ret is p, "rotate() did not return the vector itself")
    q0 = v(a)
    q = q0.rotated_vector(angle_arg(d, as_obj))
    eq(xy(q0), tuple(a), "receiver of rotated_vector")
    for name, r in (("rotate", p), ("rotated_vector", q)):
        near(r.x(), want[0], "%s(%r by %r).x" % (name, a, d), 0, t)
        near(r.y(), want[1], "%s(%r by %r).y" % (name, a, d), 0, t)
        near(r.r(), h, "length after %s" % name, 1e-9, 0)
    if h > 1e-5:
        expect(ang_diff(p.th().degree(), math.degrees(math.atan2(a[1], a[0])) + float(F(d) % 360)) < 1e-6,
               "direction after rotating %r by %r is %r", a, d, p.th())
    w = v(a)
    w.set_dir(angle_arg(d, as_obj))
    near(w.x(), h * c, "set_dir(%r) on %r, x" % (d, a), 0, t)
    near(w.y(), h * s, "set_dir(%r) on %r, y" % (d, a), 0, t)
    near(w.r(), h, "length after set_dir", 1e-9, 0)
    return None if h == 0 else "obj" if as_obj else "num"


def gen_setlen(g):
    return [vec(g), g.pick([0, 1, 2, 0.5, 10]) if g.raw(1) else g.mag(-3, 6)]


def check_setlen(case):
    a, ln = case
    h = math.hypot(*a)
    if abs(h - 1e-6) < 1e-15:
        return None
    keep = h <= 1e-6

    def judge(p, ln, what):
        if keep:
            eq(xy(p), tuple(a), "%s leaves the tiny vector %r" % (what, a))
        else:
            near(p.x(), a[0] / h * ln, what + ".x", 0, 1e-9 * max(ln, 1e-300))
            near(p.y(), a[1] / h * ln, what + ".y", 0, 1e-9 * max(ln, 1e-300))
            near(p.r(), ln, "length after " + what, 1e-9, 0)
    p = v(a)
    p.set_length(ln)
    judge(p, ln, "set_length(%r) on %r" % (ln, a))
    p = v(a)
    judge(p.set_length_vector(ln), ln, "set_length_vector(%r) on %r" % (ln, a))
    eq(xy(p), tuple(a), "receiver of set_length_vector")
    judge(p.normalize_vector(), 1, "normalize_vector on %r" % (a,))
    eq(xy(p), tuple(a), "receiver of normalize_vector")
    p.normalize()
    judge(p, 1, "normalize on %r" % (a,))
    return None if h == 0 else "tiny" if keep else "scaled"


SUBS = [
    Sub("polar", gen_polar, check_polar, "polar construction forms against r*(cos, sin), length and direction read back", n=15000),
    Sub("products", gen_len, check_len, "lengths, distances, inner/outer products against exact rational values and the turn", n=9000),
    Sub("rotate", gen_rot, check_rot, "rotation and direction setting against the rotation formula, both forms", n=15000, share=False),
    Sub("set_length", gen_setlen, check_setlen, "length setting and normalising: length, direction, threshold", n=20000, share=False),
]
