"""C25 affine transforms obey the laws of matrix algebra over any history"""
from vlib.common import *

RULE = ("A case is a history of 1 to 12 (one in 64: 30 to 200, of a few kinds) operations (translate, scale, rotate, multiply, product, invert, reset, reassign, transform in every "
        "form) over a pool of up to 4 transforms, operands often aliased; or a pair of matrices and a point for the algebraic laws. Trivial: "
        "histories of one step. Distinct: different choice sequences.")
ASSUMPTIONS = ["entries are compared with the exact rational result to a few units in the last place of the terms (exactly zero error on grid "
               "values below 2**50); rotations to 1e-12 of the entries",
               "inverses are judged where the determinant is at least 1e-3 of the product of the row norms, or exactly zero"]


def ent(m):
    return (m.m11(), m.m12(), m.m21(), m.m22(), m.dxtf(), m.dytf())


def frac(m):
    return tuple(F(e) for e in ent(m))


def mul(a, b):
    """a after b"""
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[0] * b[4] + a[1] * b[5] + a[4], a[2] * b[4] + a[3] * b[5] + a[5])


def apply(a, p):
    return (a[0] * p[0] + a[1] * p[1] + a[4], a[2] * p[0] + a[3] * p[1] + a[5])


def absm(a):
    return tuple(abs(e) for e in a)


def same(m, want, mag, what, rel=4e-15):
    expect(isinstance(m, Mat), "%s is %r, not a transform", what, m)
    for n, g, w, s in zip(("m11", "m12", "m21", "m22", "dx", "dy"), ent(m), want, mag):
        expect(isinstance(g, (int, float)) and math.isfinite(g), "%s: entry %s is %r", what, n, g)
        expect(abs(F(g) - w) <= F(rel) * s, "%s: entry %s is %r, expected %r", what, n, g, float(w))


def rot(d):
    c, s = unit_dir(d)
    c, s = F(c), F(s)
    return (c, -s, s, c, F(0), F(0))


def samep(p, want, mag, what):
    expect(isinstance(p, V), "%s is %r, not a point", what, p)
    for n, g, w, s in zip("xy", xy(p), want, mag):
        expect(abs(F(g) - w) <= F(4e-15) * s, "%s.%s is %r, expected %r", what, n, g, float(w))


OPS = ["translate", "scale", "rotate", "*=", "*", "mul_make_t", "mul_make_s", "mul_make_r", "inverted", "reset", "assign", "transform", "new",
       "*= self", "det"]


def gen_mat(g, prof, r):
    k = g.raw(6)
    if k == 6:                                         # well conditioned, any size
        s, c, a = g.mag(-5, 5), g.pick([1, -1, 1.5]), g.uniform(-3.2, 3.2)
        u, w = s * math.cos(a), s * math.sin(a)
        return [u, -w * c, w, u * c, gn.num(g, prof, r), gn.num(g, prof, r)]
    if k == 0:
        return [1, 0, 0, 1, gn.num(g, prof, r), gn.num(g, prof, r)]
    if k == 1:                                         # singular
        a, b = gn.num(g, "i", 9), gn.num(g, "i", 9)
        t = g.pick([0, 1, 2, -1, -3])
        return [a, b, a * t, b * t, gn.num(g, prof, r), gn.num(g, prof, r)]
    if k == 2:
        return g.pick([[0, -1, 1, 0, 0, 0], [-1, 0, 0, 1, 0, 0], [0, 1, 1, 0, 0, 0]])
    return [gn.num(g, prof, r) for _ in range(6)]


def gen_hist(g):
    prof = gn.profile(g)
    r = g.pick([9, 9, 60])
    mats = [gen_mat(g, prof, r) for _ in range(g.int(1, 3))]
    ops, long = gn.swarm(g, OPS)

    def step(g):
        op = g.pick(ops)
        if long and op in ("scale", "mul_make_s"):       # nothing grows beyond bounds
            return [op, g.raw(3), g.raw(3), g.pick([1, -1, 0.5]), g.pick([1, -1, 2]), 0]
        return [op, g.raw(3), g.raw(3), gn.num(g, prof, r), gn.num(g, prof, r), gn.deg(g)]
    steps = g.list(step, 30, 200, 120) if long else g.list(step, 1, 12, 6)
    return [mats, steps]


def check_hist(case):
    init, steps = case
    objs = [Mat(*m) for m in init]
    for o, m in zip(objs, init):
        eq(ent(o), tuple(m), "entries of Matrix2D(m11, m12, m21, m22, dx, dy)")
    eq(ent(Mat()), (1, 0, 0, 1, 0, 0), "entries of Matrix2D()")
    for op, i, j, x, y, d in steps:
        a, b = objs[i % len(objs)], objs[j % len(objs)]
        fa, fb = frac(a), frac(b)
        ma, mb = absm(fa), absm(fb)
        before = [ent(o) for o in objs]
        fx, fy = F(x), F(y)
        new = inplace = None
        rel = 4e-15
        if op == "translate":
            a.translate(x, y)
            t = (F(1), F(0), F(0), F(1), fx, fy)
            inplace = mul(t, fa), mul(absm(t), ma)
        elif op == "scale":
            a.scale(x, y)
            t = (fx, F(0), F(0), fy, F(0), F(0))
            inplace = mul(t, fa), mul(absm(t), ma)
        elif op == "rotate":
            a.rotate(A(d))
            t = rot(d)
            rel = 1e-9 if abs(d) > 1e4 else 1e-12
            inplace = mul(t, fa), mul((1, 1, 1, 1, 0, 0), ma)
        elif op == "*=":
            t = a
            t *= b
            expect(t is a, "*= gave another object")
            inplace = mul(fa, fb), mul(ma, mb)
        elif op == "*= self":
            t = a
            t *= a
            inplace = mul(fa, fa), mul(ma, ma)
        elif op == "*":
            new = a * b
            want = mul(fa, fb), mul(ma, mb)
        elif op == "mul_make_t":
            t = (F(1), F(0), F(0), F(1), fx, fy)
            m = Mat.make_translation(x, y)
            same(m, t, (0, 0, 0, 0, 0, 0), "make_translation")
            new = m * a
            want = mul(t, fa), mul(absm(t), ma)
        elif op == "mul_make_s":
            t = (fx, F(0), F(0), fy, F(0), F(0))
            m = Mat.make_scaling(x, y)
            same(m, t, (0, 0, 0, 0, 0, 0), "make_scaling")
            new = m * a
            want = mul(t, fa), mul(absm(t), ma)
        elif op == "mul_make_r":
            t = rot(d)
            rel = 1e-9 if abs(d) > 1e4 else 1e-12
            m = Mat.make_rotation(A(d))
            same(m, t, (1, 1, 1, 1, 0, 0), "make_rotation", rel)
            new = m * a
            want = mul(t, fa), mul((1, 1, 1, 1, 0, 0), ma)
        elif op == "reset":
            a.reset()
            inplace = (F(1), F(0), F(0), F(1), F(0), F(0)), (0,) * 6
        elif op == "assign":
            a.assign(x, y, fb and ent(b)[2], ent(b)[3], ent(b)[1], x)
            inplace = (fx, fy, fb[2], fb[3], fb[1], fx), (0,) * 6
        elif op == "new":
            new = Mat(x, y, y, x, y, x)
            want = (fx, fy, fy, fx, fy, fx), (0,) * 6
        elif op == "inverted":
            det = fa[0] * fa[3] - fa[1] * fa[2]
            mag = (abs(fa[0]) + abs(fa[1])) * (abs(fa[2]) + abs(fa[3]))
            inv = a.inverted()
            if det == 0 and all(e.denominator <= 8 and abs(e) < 10 ** 6 for e in fa[:4]):
                eq(ent(inv), (1, 0, 0, 1, 0, 0), "inverse of a singular transform")
            elif abs(det) > mag / 1000 and mag > F(1, 10 ** 12):
                w = (fa[3] / det, -fa[1] / det, -fa[2] / det, fa[0] / det, (fa[1] * fa[5] - fa[3] * fa[4]) / det,
                     (fa[2] * fa[4] - fa[0] * fa[5]) / det)
                md = abs(det)
                k = mag / md
                s = (ma[3] / md * k, ma[1] / md * k, ma[2] / md * k, ma[0] / md * k, (ma[1] * ma[5] + ma[3] * ma[4]) / md * k,
                     (ma[2] * ma[4] + ma[0] * ma[5]) / md * k)
                same(inv, w, s, "inverted()", 1e-14)
        elif op == "det":
            det = fa[0] * fa[3] - fa[1] * fa[2]
            s = abs(fa[0] * fa[3]) + abs(fa[1] * fa[2])
            expect(abs(F(a.det()) - det) <= F(4e-15) * s, "det() of %r is %r, expected %r", a, a.det(), float(det))
            lim = F(1, 10 ** 6)
            if abs(abs(det) - lim) > lim / 100 + F(1e-14) * s:
                is_true(a.invertible(), abs(det) > lim, ("invertible() of %r", a))
        else:
            p = V(x, y)
            w, s = apply(fa, (fx, fy)), apply(ma, (abs(fx), abs(fy)))
            samep(a.transform(p), w, s, "transform(vector)")
            samep(a.transform(x, y), w, s, "transform(x, y)")
            samep(a * p, w, s, "matrix * vector")
            eq(xy(p), (x, y), "the point after transform")
            q = V(x, y)
            r = a.transform_vec(q)
            expect(r is q, "transform_vec did not return its argument")
            samep(q, w, s, "transform_vec")
        if inplace is not None:
            same(a, inplace[0], inplace[1], "receiver of " + op, rel)
        if new is not None:
            same(new, want[0], want[1], "result of " + op, rel)
            expect(all(new is not o for o in objs), "%s gave an existing transform", op)
        for o, e in zip(objs, before):
            if not (o is a and inplace is not None):
                eq(ent(o), e, ("a transform that %s should not change", op))
        if new is not None:
            if len(objs) < 4:
                objs.append(new)
            else:
                objs[j % len(objs)] = new
        if any(abs(e) > 1e12 or 0 < abs(e) < 1e-90 for o in objs for e in ent(o)):
            break
    if len(steps) < 2:
        return None
    return "steps%d" % min(len(steps), 8)


def gen_laws(g):
    prof = gn.exact_profile(g)
    return [[gn.num(g, prof, 9) for _ in range(6)] for _ in range(3)] + [gn.pt(g, prof, 20), g.pick([0, 90, 180, -90, 30, 45, 137])]


def check_laws(case):
    a, b, c, p, d = case
    ma, mb, mc = Mat(*a), Mat(*b), Mat(*c)
    fa, fb = frac(ma), frac(mb)
    ab = ma * mb
    # a product applies its right factor first (exact on the grid)
    eq(xy(ab.transform(v(p))), xy(ma.transform(mb.transform(v(p)))), "(A*B)p against A(Bp)")
    eq(xy(ab * v(p)), xy(ma * (mb * v(p))), "(A*B)*p against A*(B*p)")
    eq(ent((ma * mb) * mc), ent(ma * (mb * mc)), "associativity")
    eq(ent(ma * Mat()), tuple(a), "A*I")
    eq(ent(Mat() * ma), tuple(a), "I*A")
    eq(ab.det(), ma.det() * mb.det(), "det(A*B)")
    eq(ent(ma), tuple(a), "left factor after products")
    eq(ent(mb), tuple(b), "right factor after products")
    det = fa[0] * fa[3] - fa[1] * fa[2]
    label = "singular"
    if det != 0:
        inv = ma.inverted()
        k = float(max(absm(fa)) ** 2 / abs(det)) * max(1.0, float(max(absm(fa))))
        if k < 1e4:
            tol = 1e-14 * k * max(1.0, abs(p[0]), abs(p[1])) * 100
            near_pt(inv.transform(ma.transform(v(p))), p, ("inverse after the transform of %r by %r", p, a), 0, tol)
            near_pt(ma.transform(inv.transform(v(p))), p, ("transform after the inverse of %r by %r", p, a), 0, tol)
            for m in (inv * ma, ma * inv):
                for g, w in zip(ent(m), (1, 0, 0, 1, 0, 0)):
                    near(g, w, ("entry of the product with the inverse of %r", a), 0, tol)
            label = "regular"
    # rotation keeps lengths and turns directions
    r = Mat.make_rotation(A(d))
    near_pt(r.transform(v(p)), xy(v(p).rotated_vector(d)), ("rotation of %r by %r", p, d), 0, 1e-12 * scale_of(p))
    return label


SUBS = [
    Sub("history", gen_hist, check_hist, "model-based history against exact 2x3 matrices; aliasing and purity", n=3500,
        examples=[[[[1, 2, 3, 4, 5, 6], [2, 0, 1, 3, -1, 2]], [["*", 0, 1, 1, 1, 0], ["*", 1, 0, 1, 1, 0]]]], share=False),
    Sub("laws", gen_laws, check_laws, "product, associativity, determinant, inverse, identity on exact grids", n=5000),
]
