"""C06 equality, hashing and validity of geometric values are coherent"""
from vlib.common import *

RULE = ("A case is a value of one type, a second value equal to it, perturbed in one component by a factor around the 1e-6 "
        "tolerance (or by a larger amount), or unrelated; or a chain of copies and updates of a point's validity. Trivial: "
        "perturbations within a factor 1.01 of the tolerance (not judged). Distinct: different choice sequences.")
ASSUMPTIONS = ["weak equality is judged only where each component differs by less than 0.99e-6 or one by more than 1.01e-6",
               "line equality is judged for clearly equal or clearly different lines",
               "a direction of 180 and of -180 is not compared for equality"]


def eqv(a, b, want, what):
    is_true(a == b, want, what + " ==")
    is_true(b == a, want, what + " == (swapped)")
    is_true(a != b, not want, what + " !=")


DELTAS = [0.0, 1e-9, 1e-7, 5e-7, 0.9e-6, 1.2e-6, 2e-6, 1e-5, 1e-4, 1e-3, 0.1, 1.0, 7.5]


def gen_point(g):
    prof = gn.profile(g)
    a = gn.pt(g, prof)
    k = g.raw(3)
    if k == 0:
        b = list(a)
    elif k == 1:
        b = list(a)
        b[g.raw(1)] += g.signed(g.pick(DELTAS))
    elif k == 2:
        b = gn.related(g, prof, [a])
    else:
        b = [float(a[0]), float(a[1])]
    return [a, b, g.raw(7)]


def check_point(case):
    a, b, inv = case
    p, q = v(a), v(b)
    if inv & 4:                                    # validity takes no part in equality
        if inv & 1:
            p.invalidate()
        if inv & 2:
            q.invalidate()
    same = a[0] == b[0] and a[1] == b[1]
    eqv(p, q, same, "points %r and %r" % (a, b))
    eqv(p, p, True, "a point and itself")
    is_true(p.equals(q), same, "equals %r %r" % (a, b))
    is_true(q.equals(p), same, "equals %r %r" % (b, a))
    if same:
        eq(hash(p), hash(q), "hashes of the equal points %r and %r" % (a, b))
    eq(len({p, q}), 1 if same else 2, "number of elements of the set of %r and %r" % (a, b))
    d = {p: "first"}
    d[q] = "second"
    eq(len(d), 1 if same else 2, "dictionary keyed by %r and %r" % (a, b))
    eq(d[v(a)], "second" if same else "first", "looking up %r" % (a,))
    is_true(v(b) in d, True, "point used as key found by an equal point")
    for o in (None, 0, "x", (a[0], a[1]), [a[0], a[1]], A(3), Size(1, 2)):
        is_true(p == o, False, "point == %r" % (o,))
    dx, dy = abs(F(a[0]) - F(b[0])), abs(F(a[1]) - F(b[1]))
    m = max(dx, dy)
    if not (F(99, 10 ** 8) < m < F(101, 10 ** 8)):
        is_true(p.equals_weakly(q), m < F(1, 10 ** 6), "equals_weakly %r %r" % (a, b))
        is_true(q.equals_weakly(p), m < F(1, 10 ** 6), "equals_weakly %r %r" % (b, a))
    return "same" if same else "weak" if m < 1e-6 else "far"


def gen_shape(g):
    """type, components of the first, index and amount of the difference"""
    t = g.pick(["segment", "angle", "size", "sector", "ray", "matrix"])
    prof = gn.profile(g)
    if t == "segment":
        comp = [gn.num(g, prof) for _ in range(4)]
    elif t == "angle":
        comp = [gn.deg_norm(g)]
    elif t == "size":
        comp = [gn.pos(g, prof), gn.pos(g, prof)]
    elif t == "sector":
        lo = 8 + gn.pos(g, prof, 20)
        comp = [gn.num(g, prof), gn.num(g, prof), lo, lo + 10 + gn.pos(g, prof, 20), g.signed(g.uniform(0.0, 170.0)),
                g.signed(g.uniform(0.0, 170.0))]
    elif t == "ray":
        comp = [gn.num(g, prof), gn.num(g, prof), g.signed(g.uniform(0.0, 170.0))]
    else:
        comp = [gn.num(g, prof) for _ in range(6)]
    return [t, comp, g.raw(5), g.signed(g.pick(DELTAS)), g.pick(["one", "one", "one", "negate", "exchange", "ends", "all"]), g.raw(5)]


def make(t, c):
    if t == "segment":
        return Seg(V(c[0], c[1]), V(c[2], c[3]))
    if t == "angle":
        return A(c[0])
    if t == "size":
        return Size(c[0], c[1])
    if t == "sector":
        return Sector(V(c[0], c[1]), c[2], c[3], c[4], c[5])
    if t == "ray":
        return Ray(V(c[0], c[1]), A(c[2]))
    return Mat(*c)


def check_shape(case):
    t, c, i, delta, how, j = case
    i %= len(c)
    j %= len(c)
    if how != "one":
        return check_more(t, c, i, j, delta, how)
    if t == "size" and c[i] + delta < 0:
        delta = -delta
    if t == "angle" and abs(c[i] + delta) > 180:
        delta = -delta
    c2 = list(c)
    c2[i] = c2[i] + delta
    d = abs(F(c2[i]) - F(c[i]))
    a, b, same = make(t, c), make(t, c2), make(t, list(c))
    eqv(a, same, True, "%s built twice from %r" % (t, c))
    eqv(a, a, True, "%s and itself" % t)
    if t == "segment":
        is_true(a.equals_weakly(same), True, "segment weakly equal to its twin")
        eqv(a, b, d == 0, "segments %r and %r" % (c, c2))
        if not (F(99, 10 ** 8) < d < F(101, 10 ** 8)):
            is_true(a.equals_weakly(b), d < F(1, 10 ** 6), "equals_weakly of segments %r and %r" % (c, c2))
            is_true(b.equals_weakly(a), d < F(1, 10 ** 6), "equals_weakly of segments %r and %r" % (c2, c))
    elif t == "matrix":
        eqv(a, b, d == 0, "transforms %r and %r" % (c, c2))
    elif t == "ray" and i < 2:
        eqv(a, b, d == 0, "rays %r and %r" % (c, c2))
    else:
        if F(99, 10 ** 8) < d < F(101, 10 ** 8):
            return None
        eqv(a, b, d < F(1, 10 ** 6), "%s %r and %r" % (t, c, c2))
        if t == "angle":
            is_true(a == c2[0], d < F(1, 10 ** 6), "angle %r == number %r" % (c, c2[0]))
    return "%s%d %s" % (t, i, "same" if d == 0 else "weak" if d < 1e-6 else "far")


def check_more(t, c, i, j, delta, how):
    """several components differ: one negated, two exchanged, the end points exchanged, all moved a little"""
    c2 = list(c)
    if how == "negate":
        if t == "size" or (t == "sector" and i in (2, 3)):
            return None
        c2[i] = -c2[i]
    elif how == "all":
        c2 = [x + delta for x in c2]
        if t == "size" and min(c2) < 0 or t == "sector" and c2[2] < 0:
            return None
    elif how == "ends" and t in ("segment", "matrix"):
        h = len(c) // 2
        c2 = c2[h:] + c2[:h]
    else:
        if t == "sector":                          # the centre's coordinates, or the two limits
            i, j = (0, 1) if i % 2 else (4, 5)
        elif t == "ray":
            i, j = 0, 1
        c2[i], c2[j] = c2[j], c2[i]
    ds = [abs(F(x) - F(y)) for x, y in zip(c, c2)]
    for k in range(len(c)):                        # directions: 180 and -180 are not compared
        if (t, k) in (("angle", 0), ("ray", 2), ("sector", 4), ("sector", 5)) and (ds[k] > 359 or abs(c2[k]) > 180):
            return None
    if any(F(99, 10 ** 8) < d < F(101, 10 ** 8) for d in ds):
        return None
    a, b = make(t, c), make(t, c2)
    small = max(ds) < F(1, 10 ** 6)
    if t in ("segment", "matrix"):
        want = max(ds) == 0
    elif t == "ray":
        want = ds[0] == 0 and ds[1] == 0 and ds[2] < F(1, 10 ** 6)
    else:
        want = small
    eqv(a, b, want, "%s %r and %r" % (t, c, c2))
    if t == "segment":
        is_true(a.equals_weakly(b), small, "equals_weakly of segments %r and %r" % (c, c2))
        is_true(b.equals_weakly(a), small, "equals_weakly of segments %r and %r" % (c2, c))
    return "%s %s%s" % (t, how, " same" if want else "")


def gen_line(g):
    k = g.raw(1)
    if k == 0:
        co = [g.signed(g.uniform(0.05, 20.0)), g.signed(g.uniform(0.05, 20.0)), g.signed(g.uniform(0.0, 50.0))]
    else:
        co = [g.int(-9, 9), g.int(-9, 9), g.int(-9, 9)]
        if co[0] == 0 and co[1] == 0:
            co[g.raw(1)] = 1
    return [co, g.signed(g.pick([1, 2, 0.5, 4, 3, 0.1, 7, 1e-3, 1e-4, 1e-6, 1e3, 1e5])), g.raw(3), g.signed(g.pick([0.01, 0.1, 1, 5]))]


def check_line(case):
    co, k, i, delta = case
    a = Line(*co)
    b = Line(*[c * k for c in co])
    eqv(a, a, True, "a line and itself")
    eqv(a, Line(*co), True, "lines with the same coefficients %r" % (co,))
    eqv(a, a.copy(), True, "a line and its copy")
    eqv(a, b, True, "line %r and its multiple by %r" % (co, k))
    c2 = list(co)
    if i == 3:
        return "multiple"
    c2[i] += delta
    if c2[0] == 0 and c2[1] == 0:
        return "multiple"
    n1, n2 = math.sqrt(co[0] ** 2 + co[1] ** 2), math.sqrt(c2[0] ** 2 + c2[1] ** 2)
    dev = max(abs(co[0] * c2[1] - co[1] * c2[0]), abs(co[1] * c2[2] - co[2] * c2[1]), abs(co[0] * c2[2] - co[2] * c2[0]))
    if dev < 1e-3 * max(1.0, n1 * n2) or n1 < 1e-2 or n2 < 1e-2:
        return "multiple"
    eqv(a, Line(*c2), False, "different lines %r and %r" % (co, c2))
    eqv(b, Line(*[c * abs(k) for c in c2]), False, "different lines %r and %r, all coefficients times %r" % (co, c2, k))
    return "differ%d%s" % (i, " parallel" if abs(co[0] * c2[1] - co[1] * c2[0]) < 1e-9 else "")


VOPS = ["copy", "get_copy", "ctor", "set_vector", "invalidate", "validate", "assign", "set_x", "add", "scale", "reverse", "rotate",
        "set_polar", "set_self", "invalid()", "seg", "ray", "tri", "circle", "poly", "new"]


def gen_valid(g):
    return [gn.pt(g, gn.profile(g), g.pick([9, 60, 5000])), g.raw(1), g.list(lambda g: [g.pick(VOPS), g.raw(2)], 1, 10, 5)]


def check_valid(case):
    p0, inv, steps = case
    p = v(p0)
    if inv:
        p.invalidate()
    pool = [(p, not inv)]
    kinds = set()
    for op, j in steps:
        o, val = pool[j % len(pool)]
        kinds.add(op)
        if op == "copy":
            pool.append((o.copy(), val))
        elif op == "get_copy":
            pool.append((o.get_copy(), val))
        elif op == "ctor":
            pool.append((V(o), val))
        elif op == "set_vector":
            t = V(1, 1)
            t.invalidate() if j else None
            t.set_vector(o)
            pool.append((t, val))
        elif op == "invalid()":
            pool.append((V.invalid(), False))
        elif op == "new":
            pool.append((V(2, 3), True))
        elif op == "seg":
            s = Seg(o, V(100, 100))
            pool.append((s.origin(), val))
            pool.append((s.copy().origin(), val))
        elif op == "ray":
            pool.append((Ray(o, A(10)).origin(), val))
        elif op == "tri":
            pool.append((Tri(V(101, 5), o, V(7, 102)).b(), val))
        elif op == "circle":
            pool.append((Circle(o, 2).center(), val))
        elif op == "poly":
            pool.append((Poly([V(5, 6), o]).vertices()[1], val))
        else:
            i = j % len(pool)
            if op == "invalidate":
                o.invalidate(); val = False
            elif op == "validate":
                o.validate(); val = True
            elif op == "assign":
                o.assign(3, 4)
            elif op == "set_x":
                o.set_x(7)
            elif op == "add":
                o.add(1, 2)
            elif op == "scale":
                o.scale(2)
            elif op == "reverse":
                o.reverse()
            elif op == "rotate":
                o.rotate(90)
            elif op == "set_polar":
                o.set_polar(1, 30)
            elif op == "set_self":
                o.set_vector(o)
            pool[i] = (o, val)
        for k, (q, w) in enumerate(pool):
            is_true(q.is_valid(), w, "validity of point %d after %s" % (k, op))
        pool = pool[-4:]
    is_true(V().is_valid() and V(1, 2).is_valid() and V(x=1, y=2).is_valid() and V(r=1, a=2).is_valid(), True, "new points are valid")
    return " ".join(sorted(kinds & {"invalidate", "validate", "set_vector", "copy", "ctor", "poly", "seg"})) or None


SUBS = [
    Sub("point", gen_point, check_point, "equality, hash, set and dictionary behaviour of points; weak equality at 1e-6", n=15000),
    Sub("shape", gen_shape, check_shape, "equality of segments, angles, sizes, sectors, rays, transforms: twins equal, one "
        "perturbed component decides by the tolerance", n=15000),
    Sub("line", gen_line, check_line, "line equality as point sets under scaling", n=20000, examples=[[[1, 2, 3], 2, 2, 1], [[1, 2, 0], 1, 2, 1]]),
    Sub("validity", gen_valid, check_valid, "history of copies and updates against a validity model", n=9000,
        examples=[[[1, 2], 1, [["copy", 0], ["ctor", 0]]]], share=False),
]
