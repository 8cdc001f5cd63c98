"""C32 answers depend only on the values asked about, never on what was done before"""
import re

from vlib.common import *
from vlib import target
from checks import c29

RULE = ("A case is a history of 3 to 20 steps on objects of one class and its partners, built from numbers many of which are nearly equal, equal up "
        "to type or sign of zero: the same few questions are asked again and again between changes through mutators, changes of the live parts, "
        "replacement of objects by (nearly) equal ones, and questions to other objects and plain functions. Every question is afterwards asked in a "
        "pristine second load of the package, about newly built objects with the same values, in reverse order. The again part asks one question repeatedly while its objects "
        "are changed to related values by every route and its results are changed too; the own_parts part passes the receiver itself or "
        "its live parts as arguments. Trivial: fewer than two judged "
        "questions. Distinct: different choice sequences.")
ASSUMPTIONS = ["values are read through the public copying accessors; an object whose values cannot be given to a constructor is not judged",
               "numbers of the two answers are compared to 1e-9, directions modulo 360, truth values and counts exactly",
               "a hull is judged when it was computed after its last change"]

KIND = {"p": "Vector2D", "a": "AngleDeg", "l": "Line2D", "r": "Ray2D", "s": "Segment2D", "t": "Triangle2D", "c": "Circle2D", "z": "Size2D",
        "R": "Rect2D", "e": "Sector2D", "P": "Polygon2D", "H": "ConvexHull", "m": "Matrix2D", "L": "list"}
METHODS = ["WRAPPING_METHOD", "GRAHAN_SCAN"]


def spec(o):
    """values of an object (of any load of the package) as nested tuples"""
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    if isinstance(o, (list, tuple)):
        return ("list",) + tuple(spec(e) for e in o)
    n = type(o).__name__
    if n == "Vector2D":
        return (n, o.x(), o.y(), o.is_valid())
    if n == "AngleDeg":
        return (n, o.degree())
    if n == "Line2D":
        return (n, o.a(), o.b(), o.c())
    if n == "Ray2D":
        return (n, spec(o.origin()), spec(o.dir()))
    if n == "Segment2D":
        return (n, spec(o.origin()), spec(o.terminal()))
    if n == "Triangle2D":
        return (n, spec(o.a()), spec(o.b()), spec(o.c()))
    if n == "Circle2D":
        return (n, spec(o.center()), o.radius())
    if n == "Size2D":
        return (n, o.length(), o.width())
    if n == "Rect2D":
        return (n, spec(o.top_left()), spec(o.size()))
    if n == "Sector2D":
        return (n, spec(o.center()), o.radius_min(), o.radius_max(), spec(o.angle_left_start()), spec(o.angle_right_end()))
    if n == "Polygon2D":
        return (n, spec(o.vertices()))
    if n == "ConvexHull":
        return (n, spec(o.input_points()), spec(o.vertices()), spec(o.edges()))
    if n == "Matrix2D":
        return (n, o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf())
    return ("other", repr(o))


def build(u, s):
    """a new object with the values s in the load u"""
    if not isinstance(s, tuple):
        return s
    n, f = s[0], s[1:]
    if n == "list":
        return [build(u, e) for e in f]
    if n == "Vector2D":
        o = u.Vector2D(f[0], f[1])
        if not f[2]:
            o.invalidate()
        return o
    if n == "Polygon2D":
        return u.Polygon2D([build(u, e) for e in f[0][1:]])
    if n == "ConvexHull":
        h = u.ConvexHull([build(u, e) for e in f[0][1:]])
        h.compute(getattr(u.MethodType, f[1]))
        return h
    return getattr(u, n)(*[build(u, e) for e in f])


def same(a, b, path=""):
    """None, or where the two answers differ"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return "%d instead of %d parts" % (len(a), len(b))
        if a[:1] == ("AngleDeg",) == b[:1]:
            return None if abs(ang_diff(a[1], b[1])) <= 1e-9 else "%r and %r" % (a, b)
        if a[:1] == ("Line2D",) == b[:1] and a != b:
            m = max(1.0, *[abs(x) for x in a[1:]])
            return None if all(abs(x - y) <= 1e-9 * m for x, y in zip(a[1:], b[1:])) else "%r and %r" % (a, b)
        for x, y in zip(a, b):
            bad = same(x, y)
            if bad:
                return bad
        return None
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return None if a is b else "%r and %r" % (a, b)
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return None
        x, y = NUM.findall(a), NUM.findall(b)
        if NUM.sub("#", a) != NUM.sub("#", b) or len(x) != len(y):
            return "%r and %r" % (a, b)
        return same(tuple(map(float, x)), tuple(map(float, y)))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1.0, abs(a)):
            return None
        return "%r and %r" % (a, b)
    return None if a == b else "%r and %r" % (a, b)


NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")
QUERIES = [x for x in c29.QUERIES if x[1] not in ("__hash__",)]
MUTATORS = c29.MUTATORS
LIVE = c29.LIVE
FUNCS = [
    ("Line2D.line_intersection", "ll"), ("Line2D.angle_bisector", "paa"), ("Line2D.perpendicular_bisector", "pp"), ("Circle2D.circum_circle", "ppp"),
    ("Circle2D.circum_circle_contains", "pppp"), ("Triangle2D.double_signed_area_st", "ppp"), ("Triangle2D.tri_ccw", "ppp"),
    ("Triangle2D.tri_centroid", "ppp"), ("Triangle2D.tri_incenter", "ppp"), ("Triangle2D.tri_circumcenter", "ppp"),
    ("Triangle2D.tri_orthocenter", "ppp"), ("Triangle2D.tri_contains", "pppp"), ("Vector2D.inner_product_static", "pp"),
    ("Vector2D.outer_product_static", "pp"), ("AngleDeg.bisect", "aa"), ("Rect2D.from_center", "pkk"), ("Matrix2D.make_rotation", "a"),
    ("Matrix2D.make_rotation", "d"), ("Matrix2D.make_translation", "nn"), ("Matrix2D.make_scaling", "nn"),
    ("Vector2D.from_polar", "ka"), ("Vector2D.polar2vector", "kd"), ("Vector2D.invalid", ""), ("Line2D", "pp"), ("Line2D", "pa"), ("Line2D", "pd"),
    ("Ray2D", "pp"), ("Ray2D", "pd"), ("Segment2D", "pkd"), ("Triangle2D", "ppp"), ("Circle2D", "pk"), ("Rect2D", "pp"), ("Rect2D", "pkk"),
    ("Sector2D", "pkkdd"), ("Polygon2D", "L"), ("AngleDeg", "d"), ("Circle2D", ""), ("Matrix2D", ""), ("AngleDeg", ""), ("Vector2D", ""),
    ("Polygon2D", ""), ("AngleDeg.cos_deg", "d"), ("AngleDeg.sin_deg", "d"), ("AngleDeg.tan_deg", "d"), ("AngleDeg.rad2deg", "n"),
    ("AngleDeg.deg2rad", "d"), ("AngleDeg.atan_deg", "n"), ("AngleDeg.atan2_deg", "nn"), ("AngleDeg.acos_deg", "u"), ("AngleDeg.asin_deg", "u"),
    ("AngleDeg.normalize_angle", "d"),
    ("soccer.kick_rate", "kdkuuk"), ("soccer.dir_rate", "duu"), ("soccer.effective_turn", "dkk"), ("soccer.final_speed", "nuuu"),
    ("soccer.can_over_speed_max", "nuuuk"), ("soccer.inertia_n_step_travel", "piu"), ("soccer.inertia_n_step_point", "ppiu"),
    ("soccer.inertia_n_step_distance", "niu"), ("soccer.inertia_final_travel", "pu"), ("soccer.inertia_final_point", "ppu"),
    ("soccer.inertia_final_distance", "nu"), ("soccer.r_int", "n"), ("soccer.calc_length_geom_series", "kku"),
    ("soccer.calc_first_term_geom_series", "kui"), ("soccer.bound", "nnn"), ("soccer.min_max", "nnn"), ("soccer.f_range", "nnk"),
    ("soccer.quantize", "nk"), ("soccer.quantize_dist", "ku"), ("soccer.unquantize_min", "ku"), ("soccer.unquantize_max", "ku"),
    ("soccer.unquantize_error", "ku"), ("soccer.wind_effect", "kkkdkub"), ("quadratic_f", "knn"),
]
DELTAS = [0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 4e-3, 0.01, 0.04, 0.1, 0.4]
FOCUS = sorted({t for t, _, _ in MUTATORS if t != "L"} | {"r", "l"})


def fn_of(u, path):
    if path == "quadratic_f":
        return u.mods["circle_2d" if "circle_2d" in u.mods else "pyrusgeom.circle_2d"].quadratic_f
    o = u
    for w in path.split("."):
        o = getattr(o, w)
    return o


def ask(u, q, objs):
    """q: (receiver method or function path); objs: receiver and arguments"""
    try:
        if q[0] == "f":
            r = fn_of(u, q[1])(*objs)
            if q[1] == "soccer.f_range":
                r = list(zip(range(50), r))
            return spec(r)
        return spec(getattr(objs[0], q[1])(*objs[1:]))
    except Exception as e:
        return ("raised", type(e).__name__)


def like(g, x):
    """a number (nearly) equal to x"""
    k = g.raw(15)
    if k < len(DELTAS):
        return x + g.signed(DELTAS[k])
    if k == 13:
        return float(x)
    if k == 14:
        return -x
    return -0.0 if x == 0 else x * (1 + 1e-15)


def gen(g):
    prof = g.pick(["i", "i", "d", "f"])
    r = g.pick([9, 9, 60])
    nums = [gn.num(g, prof, r) for _ in range(4)]
    for _ in range(6):
        nums.append(like(g, g.pick(nums)))
    degs = [gn.deg_norm(g) for _ in range(3)]
    for _ in range(3):
        degs.append(like(g, g.pick(degs)))
    t = g.pick(FOCUS)
    mine = [i for i, x in enumerate(QUERIES) if x[0] == t]
    qs = [g.pick(mine) for _ in range(1 + g.raw(2))]
    muts = [i for i, x in enumerate(MUTATORS) if x[0] == t]
    live = [i for i, x in enumerate(LIVE) if x[0] == t]
    fs = [g.raw(len(FUNCS) - 1) for _ in range(2)]

    def step(g):
        k = g.weighted((7, "ask"), (3, "change"), (2, "live"), (2, "renew"), (1, "other"), (1, "touch"), (2, "func"))
        if k == "ask":
            w = g.pick(qs)
        elif k == "change" and muts:
            w = g.pick(muts)
        elif k == "live" and live:
            w = g.pick(live)
        elif k == "func":
            w = g.pick(fs)
        elif k == "touch":
            w = g.raw(len(MUTATORS) - 1)
        else:
            k = "other" if k != "renew" else k
            w = g.raw(len(QUERIES) - 1)
        return [k, w] + [g.raw(9) for _ in range(5)]
    return [t, nums, degs, g.list(step, 3, 20, 10)]


def check(case):
    t, nums, degs, steps = case
    pool = {}

    def num(k, i):
        x = nums[i % 10]
        if k == "n":
            return x
        if k == "k":
            return abs(x) if x else 1
        if k == "u":
            return min(0.99, abs(x) / 64 + 0.01)
        if k == "i":
            return i
        if k == "d":
            return degs[i % 6]
        if k == "b":
            return bool(i % 2)
        return "text "

    def pt(i):
        return V(nums[i % 10], nums[(i // 3 + 3 * i + 1) % 10])

    def make(kind, i):
        k = lambda j: num("k", i + j)
        if kind == "p":
            return pt(i)
        if kind == "a":
            return A(degs[i % 6])
        if kind == "l":
            return Line(pt(i), pt(i + 3)) if i % 2 else Line(pt(i), A(degs[i % 6]))
        if kind == "r":
            return Ray(pt(i), pt(i + 1)) if i % 2 else Ray(pt(i), A(degs[i % 6]))
        if kind == "s":
            return Seg(pt(i), pt(i + 4))
        if kind == "t":
            return Tri(pt(i), pt(i + 1), pt(i + 5))
        if kind == "c":
            return Circle(pt(i), k(2))
        if kind == "z":
            return Size(k(0), k(1))
        if kind == "R":
            return Rect(pt(i), k(0), k(3)) if i % 2 else Rect(pt(i), pt(i + 2))
        if kind == "e":
            return Sector(pt(i), k(0), k(0) + k(1), A(degs[i % 6]), A(degs[(i + 1) % 6]))
        if kind == "P":
            return Poly([pt(i + j) for j in range(3 + i % 4)])
        if kind == "L":
            return [pt(i + j) for j in range(3 + i % 3)]
        if kind == "m":
            return Mat(*[nums[(i + j) % 10] for j in range(6)])
        h = Hull([pt(i + j) for j in range(4 + i % 4)])
        return h

    hulls = {}

    def compute(h, i):
        s = spec(h.input_points())
        m = METHODS[i % 2]
        h.compute(getattr(P.MethodType, m))
        hulls[id(h)] = ("ConvexHull", s, m)

    def get(kind, i):
        l = pool.setdefault(kind, {})
        i %= 2
        if i not in l:
            l[i] = make(kind, i * 5 + len(pool))
            if kind == "H":
                compute(l[i], i)
        return l[i]

    def arg(k, i):
        return num(k, i) if k in "nkuidbx" else get(k, i)

    def value(o):
        """spec to build from, or None"""
        if isinstance(o, Hull):
            return hulls.get(id(o))
        return spec(o)

    records = []

    def judge(q, objs):
        before = [value(o) for o in objs]
        ans = ask(P, q, objs)
        if None not in before:
            records.append((q, before, ans))

    for kind, w, *sel in steps:
        if kind in ("ask", "other"):
            tt, name, ks = QUERIES[w % len(QUERIES)]
            objs = [get(tt, sel[0])] + [arg(k, sel[(j + 1) % 5]) for j, k in enumerate(ks)]
            judge(("m", name), objs)
        elif kind == "func":
            path, ks = FUNCS[w % len(FUNCS)]
            judge(("f", path), [arg(k, sel[j % 5] + j // 5) for j, k in enumerate(ks)])
        elif kind in ("change", "touch"):
            tt, name, ks = MUTATORS[w % len(MUTATORS)]
            o = get(tt, sel[0])
            if isinstance(o, Hull):
                hulls.pop(id(o), None)
                if name == "compute":
                    compute(o, sel[1])
                    continue
            try:
                getattr(o, name)(*[arg(k, sel[(j + 1) % 5]) for j, k in enumerate(ks)])
            except (ZeroDivisionError, OverflowError):
                pass
            if isinstance(o, Hull) and sel[2] % 3:
                compute(o, sel[1])
        elif kind == "live":
            tt, name, _ = LIVE[w % len(LIVE)]
            o = get(tt, sel[0])
            part = getattr(o, name)()
            if isinstance(part, list):
                if not part:
                    continue
                part = part[sel[1] % len(part)]
            if isinstance(part, V):
                [lambda: part.assign(nums[sel[2]], nums[sel[3]]), lambda: part.set_x(nums[sel[2]]), lambda: part.set_y(nums[sel[2]]),
                 lambda: part.add(pt(sel[3])), lambda: part.scale(nums[sel[2]])][sel[4] % 5]()
            elif isinstance(part, A):
                part.set_degree(degs[sel[2] % 6])
            else:
                part.assign(num("k", sel[2]), num("k", sel[3]))
            if isinstance(o, Hull):
                hulls.pop(id(o), None)
                if sel[1] % 3:
                    compute(o, sel[2])
        else:                                            # renew: another object takes the place
            i = sel[0] % 2
            old = get(t, i)
            if isinstance(old, Hull):
                hulls.pop(id(old), None)
            del old
            pool[t][i] = make(t, sel[1])
            if t == "H":
                compute(pool[t][i], sel[2])
    if len(records) < 2:
        return None
    u = target.Universe()
    judged = 0
    with u:
        for q, before, ans in reversed(records):
            try:
                objs = [build(u, s) for s in before]
            except Exception:
                continue
            if any(s[0] != "ConvexHull" and spec(o) != s for o, s in zip(objs, before) if isinstance(s, tuple)):
                continue
            fresh = ask(u, q, objs)
            bad = same(ans, fresh)
            if bad:
                fail("%s of %r answered %r after the history, but a fresh program answers %r (%s)", q[1], before, ans, fresh, bad)
            judged += 1
    return t + (" judged" if judged > 1 else "")


# ---- the same question again after a change -------------------------------------------------------------------
LAYOUT = {"p": "xx", "a": "d", "l": "xxxx", "r": "xxd", "s": "xxxx", "t": "xxxxxx", "c": "xxk", "z": "kk", "R": "xxkk", "e": "xxkkdd", "P": "xx" * 6,
          "H": "xx" * 6, "L": "xx" * 5, "m": "x" * 6, "n": "x", "k": "k", "u": "u", "i": "i", "d": "d", "b": "b", "x": ""}
CALLS = [("m", t, name, (t,) + ks) for t, name, ks in QUERIES] + [("f", "", path, tuple(ks)) for path, ks in FUNCS]
TRANS = ["neg", "neg", "negall", "swap", "shift", "delta", "delta", "double", "points", "random", "move", "same", "cycle", "lin"]
W = [2, 3, 10, 31, 100, 1000, 1e4, 1e6]
ROUTES = ["assign", "live", "edit", "new"]


def gen_vals(g, kind, prof, r):
    out = []
    for c in LAYOUT[kind]:
        if c == "x":
            out.append(gn.num(g, prof, r))
        elif c == "k":
            out.append(gn.pos(g, prof, r))
        elif c == "d":
            out.append(gn.deg_norm(g))
        elif c == "u":
            out.append(g.pick([0.1, 0.4, 0.5, 0.94, 0.99]))
        else:
            out.append(g.raw(9))
    if kind == "P":
        out = out[:2 * g.int(1, 6)]
    elif kind in "HL":
        out = out[:2 * g.int(3, len(out) // 2)]
    return out


def gen_again(g):
    prof = g.pick(["i", "i", "d", "f"])
    r = g.pick([9, 9, 60])
    call = g.raw(len(CALLS) - 1)
    kinds = CALLS[call][3]
    vals = [gen_vals(g, k, prof, r) for k in kinds]
    if g.raw(1):                                          # arguments related to the first object
        for k, l in zip(kinds[1:], vals[1:]):
            for i in range(0, len(l) - 1, 2):
                if LAYOUT[k][i:i + 2] == "xx" and len(vals[0]) >= 2 and g.raw(1):
                    q = point_near(g, kinds[0], vals[0])
                    l[i], l[i + 1] = q
    steps = []
    for _ in range(g.int(1, 6)):
        j = g.raw(len(kinds) - 1) if kinds else 0
        if kinds and g.raw(1):
            j = 0
        steps.append([j, g.pick(TRANS), g.pick(ROUTES), g.raw(11), g.raw(11), g.signed(g.pick(DELTAS[1:] + [1, 2, 20])), g.raw(3), g.raw(3)])
    return [call, vals, steps, g.raw(3)]


def point_near(g, kind, vals):
    n = sum(1 for c in LAYOUT[kind] if c == "x")
    n = min(n, len(vals)) // 2 or 1
    a, b = g.raw(n - 1), g.raw(n - 1)
    t = g.pick([0, 0.5, 0.25, 0.75])
    p = [vals[2 * a] + t * (vals[2 * b] - vals[2 * a]), vals[2 * a + 1] + t * (vals[2 * b + 1] - vals[2 * a + 1])]
    p[g.raw(1)] += g.signed(g.pick([0, 0, 0.5, 1, 0.125]))
    return p


def transform(kind, vals, how, i, j, d):
    n = len(vals)
    if n == 0:
        return list(vals)
    out = list(vals)
    w = W[(i // 2 + j // 2) % len(W)]
    i, j = i % n, j % n
    lay = LAYOUT[kind]
    if how == "neg":
        out[i] = -out[i]
    elif how == "negall":
        out = [-x for x in out]
    elif how == "swap":
        if lay[i] == lay[j]:
            out[i], out[j] = out[j], out[i]
        else:
            out[i] = -out[i]
    elif how == "shift":
        out[i] += d
        out[j] -= d
    elif how == "lin":                                  # a weighted sum of two numbers is kept
        out[i] += d * w
        out[j] -= d
    elif how == "delta":
        out[i] += d
    elif how == "double":
        out = [x * 2 if c == "x" else x for x, c in zip(out, lay)]
    elif how == "points":
        if n >= 4 and lay[:4] == "xxxx":
            out = out[2:] + out[:2]
    elif how == "random":
        out[i] = d * 7 + j
    elif how == "move":
        out = [x + d if c == "x" else x for x, c in zip(out, lay)]
    elif how == "cycle":
        if n >= 2 and lay[:2] == "xx":
            out[0], out[1] = -out[1], out[0]
    for m, c in enumerate(lay[:n]):
        if c == "k":
            out[m] = abs(out[m]) or 1
        elif c == "u":
            out[m] = min(0.99, abs(out[m]) % 1 or 0.5)
        elif c == "i":
            out[m] = abs(int(out[m])) % 30
        elif c == "b":
            out[m] = int(out[m]) % 2
    return out


class Slot:
    """an object under test and the numbers it was last given"""

    def __init__(self, kind, vals):
        self.kind, self.vals, self.method = kind, vals, "WRAPPING_METHOD"
        self.obj = self.make()

    def pts(self):
        return [V(self.vals[i], self.vals[i + 1]) for i in range(0, len(self.vals) - 1, 2)]

    def make(self):
        k, w = self.kind, self.vals
        if k in "nkudi":
            return w[0]
        if k == "b":
            return bool(w[0] % 2)
        if k == "x":
            return "text "
        if k == "p":
            return V(*w)
        if k == "a":
            return A(w[0])
        if k == "l":
            return Line(V(w[0], w[1]), V(w[2], w[3]))
        if k == "r":
            return Ray(V(w[0], w[1]), A(w[2]))
        if k == "s":
            return Seg(*self.pts())
        if k == "t":
            return Tri(*self.pts())
        if k == "c":
            return Circle(V(w[0], w[1]), w[2])
        if k == "z":
            return Size(*w)
        if k == "R":
            return Rect(*w)
        if k == "e":
            return Sector(V(w[0], w[1]), w[2], w[2] + w[3], A(w[4]), A(w[5]))
        if k == "P":
            return Poly(self.pts())
        if k == "L":
            return self.pts()
        if k == "m":
            return Mat(*w)
        h = Hull(self.pts())
        h.compute(getattr(P.MethodType, self.method))
        return h

    def change(self, new, route, m):
        k, o = self.kind, self.obj
        old, self.vals = self.vals, new
        w = new
        if k in "nkudibxl" or route == "new":
            self.obj = o = None
            self.obj = self.make()
            return
        if k == "p":
            if route == "assign":
                o.assign(*w)
            elif m % 2:
                o.set_x(w[0])
                o.set_y(w[1])
            else:
                o.set_x_y(*w)
        elif k == "a":
            if route == "edit":
                o += w[0] - old[0]
            elif route == "live":
                o.set_angle(A(w[0]))
            else:
                o.set_degree(w[0])
        elif k == "r":
            o.origin_().assign(w[0], w[1])
            if w[2] != old[2]:
                o.dir_().set_degree(w[2])
        elif k == "s":
            if route == "assign":
                o.assign(*w) if m % 2 else o.assign(*self.pts())
            elif route == "edit" and m % 2:
                o.swap()
                self.vals = old[2:] + old[:2]
            else:
                for q, a, b in ((o.origin_(), w[0], w[1]), (o.terminal_(), w[2], w[3])):
                    q.assign(a, b) if route == "live" else q.set_vector(V(a, b))
        elif k == "t":
            if route == "assign":
                o.assign(*self.pts())
            else:
                for q, v2 in zip((o.a_(), o.b_(), o.c_()), self.pts()):
                    q.assign(v2.x(), v2.y()) if route == "live" else q.set_vector(v2)
        elif k == "c":
            if w[2] != old[2] or route == "assign":
                o.assign(V(w[0], w[1]), w[2])
            else:
                o.center_().assign(w[0], w[1])
        elif k == "z":
            if route == "assign":
                o.assign(*w)
            else:
                o.set_length(w[0])
                o.set_width(w[1])
        elif k == "R":
            if route == "assign":
                o.assign(*w)
            elif route == "live":
                o.top_left_().assign(w[0], w[1])
                o.size_().assign(w[2], w[3])
            elif m % 2:
                o.move_left(w[0])
                o.move_top(w[1])
                o.set_length(w[2])
                o.set_width(w[3])
            else:
                o.set_size(w[2], w[3])
                o.move_top_left(V(w[0], w[1]))
        elif k == "e":
            if route == "assign" or w[2:4] != old[2:4]:
                o.assign(V(w[0], w[1]), w[2], w[2] + w[3], A(w[4]), A(w[5]))
            else:
                o.center_().assign(w[0], w[1])
                o.angle_left_start_().set_degree(w[4])
                o.angle_right_end_().set_degree(w[5])
        elif k == "m":
            if route == "edit" and m % 2:
                o.translate(w[0], w[1])
            else:
                o.assign(*w)
        else:
            pts = self.pts()
            live = o if k == "L" else o.vertices_() if k == "P" else o.input_points_()
            if route == "assign" and k == "P":
                o.assign(pts)
            elif route == "assign" and k == "H":
                o.clear()
                o.add_points(pts)
            elif route == "edit" and k == "P" and m % 2:
                o.clear()
                for q in pts:
                    o.add_vertex(q)
                self.vals = [0, 0] + w
            else:
                for q, v2 in zip(live, pts):
                    q.assign(v2.x(), v2.y()) if m % 2 else q.set_vector(v2)
            if k == "H":
                if m == 3:
                    self.method = "GRAHAN_SCAN" if self.method == "WRAPPING_METHOD" else "WRAPPING_METHOD"
                o.compute(getattr(P.MethodType, self.method))

    def value(self):
        if self.kind == "H":
            return ("ConvexHull", spec(self.obj.input_points()), self.method)
        return spec(self.obj)


def check_again(case):
    call, vals, steps, mode = case
    how, _, name, kinds = CALLS[call]
    q = (how, name)
    slots = [Slot(k, list(w)) for k, w in zip(kinds, vals)]
    records = []

    def judge(tag, changed):
        objs = [s.obj for s in slots]
        before = [s.value() for s in slots]
        res = raw_ask(P, q, objs)
        ans = ("raised", res[1]) if isinstance(res, tuple) and res[:1] == ("raised",) else spec(res)
        if [s.value() for s in slots] != before:
            fail("%s%r changed its receiver or arguments", name, before)
        if changed and not isinstance(res, (tuple, bool, int, float, str)):
            c29.scramble(res, changed)
        records.append((before, ans))
    judge("first", mode % 2)
    for j, tr, route, a, b, d, m, k in steps:
        if slots:
            s = slots[j % len(slots)]
            s.change(transform(s.kind, s.vals, tr, a, b, d), route, m)
        judge(tr, k % 2)
    rebuilt = judged = 0
    loads = [P]
    u = None
    if mode >= 2:
        u = target.Universe()
        loads = [P, u]
    for load in loads:
        for before, ans in reversed(records):
            if load is P:
                ok = compare(load, q, name, before, ans, "new objects of the same values answer")
            else:
                with u:
                    ok = compare(load, q, name, before, ans, "a fresh program answers")
            judged += ok
    return (kinds[0] if kinds else "-") + (" judged" if judged > 1 else "")


def raw_ask(u, q, objs):
    try:
        r = fn_of(u, q[1])(*objs) if q[0] == "f" else getattr(objs[0], q[1])(*objs[1:])
        if q[1] == "soccer.f_range":
            r = [x for _, x in zip(range(50), r)]
        return r
    except Exception as e:
        return ("raised", type(e).__name__)


def compare(u, q, name, before, ans, what):
    try:
        objs = [build(u, s) for s in before]
    except Exception:
        return 0
    if any(s[0] != "ConvexHull" and spec(o) != s for o, s in zip(objs, before) if isinstance(s, tuple)):
        return 0
    r = raw_ask(u, q, objs)
    fresh = ("raised", r[1]) if isinstance(r, tuple) and r[:1] == ("raised",) else spec(r)
    bad = same(ans, fresh)
    if bad:
        fail("%s of %r answered %r after the history, but %s %r (%s)", name, before, ans, what, fresh, bad)
    return 1


# ---- arguments that are the receiver itself or one of its live parts ------------------------------------------------
PARTS = {"p": (), "a": (), "r": ("p:origin_", "a:dir_"), "s": ("p:origin_", "p:terminal_"), "t": ("p:a_", "p:b_", "p:c_"), "c": ("p:center_",),
         "R": ("z:size_", "p:top_left_"), "e": ("p:center_", "a:angle_left_start_", "a:angle_right_end_"), "P": ("L:vertices_",),
         "H": ("L:input_points_", "L:vertices_"), "m": (), "l": (), "z": ()}
OWN = []
for _how, _l in (("ask", QUERIES), ("change", MUTATORS)):
    for _t, _name, _ks in _l:
        have = {_t} | {x[0] for x in PARTS[_t]} | ({"p"} if any(x[0] == "L" for x in PARTS[_t]) else set())
        if have & set(_ks):
            OWN.append((_how, _t, _name, _ks))


def gen_own(g):
    prof = g.pick(["i", "i", "d", "f"])
    call = g.raw(len(OWN) - 1)
    return [call, gn.pts_related(g, prof, 6, 6, 9), [gn.deg_norm(g) for _ in range(3)], [gn.pos(g, prof, 9) for _ in range(4)], g.raw(11),
            [g.raw(11) for _ in range(6)]]


def check_own(case):
    call, pts, degs, nums, form, sel = case
    how, t, name, ks = OWN[call % len(OWN)]
    outs = []
    own = 0
    for copies in (False, True):
        o = c29.make(t, pts, nums, degs, form, [])
        parts = {t: [o]}
        for x in PARTS[t]:
            part = getattr(o, x[2:])()
            parts.setdefault(x[0], []).append(part)
            if x[0] == "L":
                parts.setdefault("p", []).extend(part)
        if t == "p" and sel[5] % 5 == 0:
            o.invalidate()
        args = []
        for j, k in enumerate(ks):
            w = sel[j]
            if k in "nkijxb":
                args.append({"n": nums[w % 4] - 4, "k": nums[w % 4], "i": w, "j": 0.5, "x": "text ", "b": bool(w % 2)}[k])
            elif parts.get(k) and w % 4:
                a = parts[k][w % len(parts[k])]
                if copies:
                    a = build(P, spec(a))
                own += 1
                args.append(a)
            else:
                args.append(c29.make(k, pts, nums, degs, w, []))
        try:
            res = getattr(o, name)(*args)
            res = "itself" if res is o else spec(res)
        except (ZeroDivisionError, OverflowError) as e:
            res = ("raised", type(e).__name__)
        outs.append((res, c29.look(o)))
    for a, b, what in ((outs[0][0], outs[1][0], "answered"), (outs[0][1], outs[1][1], "left its receiver as")):
        if repr(a) != repr(b):
            bad = same(a, b)
            if bad:
                fail("%s.%s %s %r when given itself or its own parts, but %r when given equal copies of them (%s)", KIND[t], name, what, a, b, bad)
    return how if own else None


SUBS = [
    Sub("history", gen, check, "every answer equals that of a pristine load of the package about newly built objects", n=1500, share=False),
    Sub("again", gen_again, check_again, "one question asked again and again while its objects change by related values through every route, results being "
        "overwritten by the caller; every answer equals that about new objects, also in a pristine load", n=20000, share=False),
    Sub("own_parts", gen_own, check_own, "arguments that are the receiver itself or its live parts give the same as equal copies of them", n=6000, share=False),
]
