"""C29 queries are pure, and shapes never share state with their inputs or results"""
from vlib.common import *

RULE = ("A case is a pool of objects of every type, all built from the same six points, three angles, two sizes and one list, and a history of 3 to "
        "14 steps: a query (asked twice, its result then scrambled), a change to an input object, a change of a shape through a mutator or a "
        "by-reference accessor, a reassignment from pool objects. After every step all other objects must show the same values. The single and mutators parts "
        "take one query or one change in place on new objects and then change inputs, results and receiver in turn; the siblings part makes two objects in "
        "the same way and changes one. Trivial: "
        "histories without a query. Distinct: different choice sequences.")
ASSUMPTIONS = ["values are read through the public copying accessors",
               "a query that raises on a degenerate configuration must raise again and leave everything unchanged",
               "Rect2D.intersected and united are in-place operations; get_line_clipped_polygon (a helper on plain lists) is not judged for sharing"]
M = P.soccer


def look(o):
    """values of an object as nested tuples"""
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    if isinstance(o, V):
        return ("V", o.x(), o.y(), o.is_valid())
    if isinstance(o, A):
        return ("A", o.degree())
    if isinstance(o, (list, tuple)):
        return tuple(look(e) for e in o)
    if isinstance(o, Line):
        return ("L", o.a(), o.b(), o.c())
    if isinstance(o, Ray):
        return ("Ray", look(o.origin()), o.dir().degree())
    if isinstance(o, Seg):
        return ("S", look(o.origin()), look(o.terminal()))
    if isinstance(o, Tri):
        return ("T", look(o.a()), look(o.b()), look(o.c()))
    if isinstance(o, Circle):
        return ("C", look(o.center()), o.radius())
    if isinstance(o, Size):
        return ("Z", o.length(), o.width())
    if isinstance(o, Rect):
        return ("R", o.left(), o.top(), look(o.size()), look(o.top_left()))
    if isinstance(o, Sector):
        return ("Sec", look(o.center()), o.radius_min(), o.radius_max(), look(o.angle_left_start()), look(o.angle_right_end()))
    if isinstance(o, Poly):
        return ("P", look(o.vertices()))
    if isinstance(o, Hull):
        return ("H", look(o.input_points()), look(o.vertices()), look(o.edges()))
    if isinstance(o, Mat):
        return ("M", o.m11(), o.m12(), o.m21(), o.m22(), o.dxtf(), o.dytf())
    return ("other", repr(o))


def scramble(o, k):
    """change a returned value in every way its type offers"""
    if isinstance(o, V):
        o.assign(1000.5 + k, -2000.25)
        o.invalidate() if o.is_valid() else o.validate()
    elif isinstance(o, A):
        o.set_degree(123.456)
    elif isinstance(o, list):
        for e in o:
            scramble(e, k + 1)
        o.append(None)
        o.clear()
    elif isinstance(o, Ray):
        scramble(o.origin_(), k)
        scramble(o.dir_(), k)
    elif isinstance(o, Seg):
        scramble(o.origin_(), k)
        scramble(o.terminal_(), k + 2)
    elif isinstance(o, Tri):
        scramble(o.a_(), k)
        scramble(o.b_(), k + 3)
        scramble(o.c_(), k + 5)
    elif isinstance(o, Circle):
        scramble(o.center_(), k)
    elif isinstance(o, Size):
        o.assign(777.5, 888.25)
    elif isinstance(o, Rect):
        scramble(o.top_left_(), k)
        scramble(o.size_(), k)
    elif isinstance(o, Sector):
        scramble(o.center_(), k)
        scramble(o.angle_left_start_(), k)
        scramble(o.angle_right_end_(), k)
    elif isinstance(o, Poly):
        scramble(o.vertices_(), k)
    elif isinstance(o, Hull):
        scramble(o.vertices_(), k)
        scramble(o.edges_(), k)
        scramble(o.input_points_(), k)
    elif isinstance(o, Mat):
        o.assign(11, 12, 13, 14, 15, 16)


# queries: (type of receiver, method, kinds of the arguments); type "" = function
def q(t, names, *kinds):
    return [(t, n, kinds) for n in names.split()]


QUERIES = (
    q("p", "x y get_x get_y copy get_copy is_valid r r2 length length2 th dir abs abs_x abs_y reverse_vector normalize_vector __hash__ __repr__")
    + q("p", "dist dist2 inner_product outer_product equals equals_weakly __eq__ __add__ __sub__", "p")
    + q("p", "set_length_vector __mul__ rotated_vector", "n") + q("p", "rotated_vector", "a") + q("p", "__truediv__", "k")
    + q("a", "degree abs radian copy reverse_angle get_normalized __repr__ __float__ __neg__ cos sin tan")
    + q("a", "is_left_of is_right_of is_left_equal_of is_right_equal_of __add__ __sub__ __eq__", "a")
    + q("a", "is_within", "a", "a") + q("a", "__mul__ __add__ __sub__ is_left_of", "n")
    + q("l", "a b c copy __repr__") + q("l", "get_x get_y", "n") + q("l", "dist dist2 perpendicular projection", "p")
    + q("l", "is_parallel intersection __eq__", "l")
    + q("r", "origin dir copy line __repr__") + q("r", "in_right_dir", "p") + q("r", "intersection", "l") + q("r", "intersection __eq__", "r")
    + q("s", "is_valid origin terminal line length direction copy reversed_segment perpendicular_bisector __repr__")
    + q("s", "contains projection nearest_point dist farthest_dist on_segment on_segment_weakly", "p")
    + q("s", "intersection exist_intersection", "l")
    + q("s", "intersection exist_intersection exist_intersection_except_endpoint intersects_except_endpoint dist equals_weakly __eq__", "s")
    + q("s", "to_str", "x") + q("s", "intersection", "s", "b") + q("s", "check_intersects_on_line", "p")
    + q("t", "is_valid a b c area signed_area double_signed_area ccw centroid incenter circumcenter orthocenter __repr__")
    + q("t", "contains", "p") + q("t", "intersection", "l") + q("t", "intersection", "r") + q("t", "intersection", "s") + q("t", "to_str", "x")
    + q("c", "area center radius __repr__") + q("c", "contains", "p") + q("c", "intersection intersection_with_line", "l")
    + q("c", "intersection intersection_with_ray", "r") + q("c", "intersection intersection_with_segment", "s")
    + q("c", "intersection intersection_with_circle", "c") + q("c", "to_str", "x")
    + q("z", "length width diagonal is_valid __repr__") + q("z", "__eq__", "z")
    + q("R", "is_valid area left right top bottom min_x max_x min_y max_y size center top_left top_right bottom_left bottom_right left_edge "
             "right_edge top_edge bottom_edge __repr__")
    + q("R", "contains", "p") + q("R", "contains_almost", "p", "k") + q("R", "intersection", "l") + q("R", "intersection", "r")
    + q("R", "intersection", "s") + q("R", "to_str", "x")
    + q("e", "center radius_min radius_max angle_left_start angle_right_end area get_circumference_min get_circumference_max __repr__")
    + q("e", "contains", "p") + q("e", "__eq__", "e")
    + q("P", "vertices get_bounding_box bounding_box_center area double_signed_area is_counter_clockwise is_clockwise __repr__")
    + q("P", "contains dist", "p") + q("P", "contains dist", "p", "b") + q("P", "get_rectangle_clipped_polygon", "R")
    + q("H", "input_points vertices edges to_polygon __repr__")
    + q("m", "m11 m12 m21 m22 dxtf dytf det invertible inverted __repr__") + q("m", "transform __mul__", "p") + q("m", "transform", "n", "n")
    + q("m", "__mul__ __eq__", "m")
)
FUNCS = [
    (Line.line_intersection, "ll"), (Line.angle_bisector, "paa"), (Line.perpendicular_bisector, "pp"), (Circle.circum_circle, "ppp"),
    (Circle.circum_circle_contains, "pppp"), (Tri.double_signed_area_st, "ppp"), (Tri.signed_area_st, "ppp"), (Tri.tri_ccw, "ppp"),
    (Tri.tri_centroid, "ppp"), (Tri.tri_incenter, "ppp"), (Tri.tri_circumcenter, "ppp"), (Tri.tri_orthocenter, "ppp"),
    (Tri.tri_contains, "pppp"), (V.inner_product_static, "pp"), (V.outer_product_static, "pp"), (A.bisect, "aa"), (Rect.from_center, "pkk"),
    (M.inertia_n_step_travel, "pij"), (M.inertia_n_step_point, "ppij"), (M.inertia_final_travel, "pj"), (M.inertia_final_point, "ppj"),
    (Mat.make_rotation, "a"), (V.from_polar, "ka"), (V.polar2vector, "ka"),
    # constructions
    (V, "p"), (A, "a"), (Line, "pp"), (Line, "pa"), (Line, "l"), (Ray, "pp"), (Ray, "pa"), (Seg, "pp"), (Seg, "pka"), (Tri, "ppp"), (Tri, "sp"),
    (Circle, "pk"), (Rect, "pkk"), (Rect, "pz"), (Rect, "pp"), (Rect, "R"), (Sector, "pkkaa"), (Poly, "L"), (Poly, "ppp"), (Hull, "L"),
]
# changes in place: (type, method, kinds)
MUTATORS = (
    q("p", "add sub __iadd__ __isub__ set_vector", "p") + q("p", "scale set_x set_y add_x add_y sub_x sub_y set_length __imul__", "n")
    + q("p", "rotate set_dir", "a") + q("p", "rotate set_dir", "n") + q("p", "__itruediv__", "k") + q("p", "add sub set_x_y", "n", "n")
    + q("p", "reverse normalize invalidate validate") + q("p", "assign", "n", "n") + q("p", "set_polar", "k", "a")
    + q("a", "set_degree", "n") + q("a", "set_angle __iadd__ __isub__", "a") + q("a", "reverse") + q("a", "__imul__ __itruediv__", "k") + q("a", "__iadd__ __isub__", "n")
    + q("s", "assign", "p", "p") + q("s", "assign", "p", "k", "a") + q("s", "swap reverse") + q("s", "assign", "n", "n", "n", "n")
    + q("t", "assign", "p", "p", "p") + q("t", "assign", "s", "p") + q("c", "assign", "p", "k") + q("z", "assign", "k", "k")
    + q("z", "set_length set_width", "k")
    + q("R", "assign", "p", "z") + q("R", "assign", "p", "p") + q("R", "assign", "R") + q("R", "assign", "p", "k", "k")
    + q("R", "move_center move_top_left move_bottom_right set_top_left set_bottom_right", "p")
    + q("R", "move_left move_right move_top move_bottom set_left set_right set_top set_bottom", "n") + q("R", "set_length set_width", "k")
    + q("R", "move_min_x move_max_x move_min_y move_max_y set_min_x set_max_x set_min_y set_max_y", "n")
    + q("R", "set_top_left set_bottom_right", "n", "n") + q("R", "assign", "n", "n", "k", "k")
    + q("R", "set_size", "z") + q("R", "set_size", "k", "k") + q("R", "intersected united", "R")
    + q("e", "assign", "p", "k", "k", "a", "a")
    + q("P", "assign", "L") + q("P", "add_vertex", "p") + q("P", "clear") + q("H", "add_point", "p") + q("H", "add_points", "L")
    + q("H", "clear compute clear_results") + q("m", "translate", "n", "n") + q("m", "scale", "n", "n") + q("m", "rotate", "a") + q("m", "__imul__", "m")
    + q("m", "reset") + q("m", "assign", "n", "n", "n", "n", "n", "n")
)
# by-reference accessors: (type, accessor, copying accessor)
LIVE = [("r", "origin_", "origin"), ("r", "dir_", "dir"), ("s", "origin_", "origin"), ("s", "terminal_", "terminal"), ("t", "a_", "a"),
        ("t", "b_", "b"), ("t", "c_", "c"), ("c", "center_", "center"), ("R", "size_", "size"), ("R", "top_left_", "top_left"),
        ("e", "center_", "center"), ("e", "angle_left_start_", "angle_left_start"), ("e", "angle_right_end_", "angle_right_end"),
        ("P", "vertices_", "vertices"), ("H", "input_points_", "input_points")]


def gen(g):
    prof = g.pick(["i", "i", "d"])
    pts = [gn.related(g, prof, [], 9) for _ in range(6)]
    if g.raw(2) == 0:
        pts = gn.pts_related(g, prof, 6, 6, 9)
    degs = [gn.deg_norm(g) for _ in range(3)]
    nums = [gn.pos(g, prof, 9) for _ in range(4)]

    def step(g):
        k = g.weighted((7, "query"), (3, "func"), (3, "mutate"), (1, "live"), (1, "list"))
        n = {"query": len(QUERIES), "func": len(FUNCS), "mutate": len(MUTATORS), "live": len(LIVE), "list": 3}[k]
        return [k, g.raw(n - 1), g.raw(5)] + [g.raw(5) for _ in range(4)]
    return [pts, degs, nums, g.list(step, 3, 14, 8)]


def build(pts, degs, nums):
    p = [v(c) for c in pts]
    a = [A(d) for d in degs]
    z = [Size(nums[0], nums[1]), Size(nums[2], nums[3])]
    lst = [p[0], p[1], p[2], p[3]]
    pool = {
        "p": p, "a": a, "z": z, "L": [lst],
        "l": [Line(p[0], p[1]), Line(p[2], a[0]), Line(1, 2, -3)],
        "r": [Ray(p[0], p[1]), Ray(p[1], a[1]), Ray(p[2], degs[2])],
        "s": [Seg(p[0], p[1]), Seg(p[2], p[3]), Seg(p[4], nums[0], a[0])],
        "t": [Tri(p[0], p[1], p[2]), Tri(Seg(p[3], p[4]), p[5])],
        "c": [Circle(p[0], nums[0]), Circle(p[3], nums[1]), Circle()],
        "R": [Rect(p[0], z[0]), Rect(p[1], p[2]), Rect(pts[3][0], pts[3][1], nums[0], nums[1]), Rect(p[4], nums[2], nums[3])],
        "e": [Sector(p[0], nums[0], nums[0] + nums[1], a[0], a[1]), Sector(p[5], 0, nums[2], a[1], a[2])],
        "P": [Poly(lst), Poly(p[1], p[3], p[5]), Poly()],
        "H": [Hull(lst), Hull(list(p))],
        "m": [Mat(1, 2, 3, 4, 5, 6), Mat.make_rotation(a[0])],
    }
    pool["H"][1].compute(P.MethodType.GRAHAN_SCAN)
    pool["H"][0].compute()
    return pool


def check(case):
    pts, degs, nums, steps = case
    pool = build(pts, degs, nums)
    objs = [(t, i, o) for t, l in pool.items() for i, o in enumerate(l)]
    views = {(t, i): look(o) for t, i, o in objs}

    def unchanged(what, skip=None):
        for t, i, o in objs:
            if (t, i) != skip and (skip is None or (t, i) not in also(skip)):
                now = look(o)
                if now != views[t, i]:
                    fail("%s changed object %s%d from %r to %r", what, t, i, views[t, i], now)

    def also(skip):
        # the plain list holds the points themselves
        return (("L", 0),) if skip[0] == "p" else ()

    def arg(kind, sel, used):
        if kind == "n":
            return nums[sel % 4] - 4
        if kind == "k":
            return nums[sel % 4]
        if kind == "i":
            return sel
        if kind == "j":
            return [0.94, 0.4, 0.5][sel % 3]
        if kind == "x":
            return "text "
        if kind == "b":
            return bool(sel % 2)
        l = pool[kind]
        used.append((kind, sel % len(l)))
        return l[sel % len(l)]

    kinds = set()
    for n, (kind, qi, ri, *sel) in enumerate(steps):
        kinds.add(kind)
        if kind in ("query", "func"):
            used = []
            if kind == "query":
                t, name, ks = QUERIES[qi % len(QUERIES)]
                o = pool[t][ri % len(pool[t])]
                fn = getattr(o, name)
                name = type(o).__name__ + "." + name
            else:
                fn, ks = FUNCS[qi % len(FUNCS)]
                name = getattr(fn, "__qualname__", str(fn))
            sels = sel + [ri]
            args = [arg(k, sels[i], used) for i, k in enumerate(ks)]
            ans = []
            results = []
            for _ in range(2):
                try:
                    res = fn(*args)
                    ans.append(look(res))
                    results.append(res)
                except Exception as e:
                    ans.append(("raised", type(e).__name__))
                unchanged(name)
            if ans[0] != ans[1] and repr(ans[0]) != repr(ans[1]):
                fail("%s%r answered %r, asked again %r", name, tuple(args), ans[0], ans[1])
            for k, res in enumerate(results):
                scramble(res, k)
                unchanged("changing the result of " + name)
            if results and fn not in (V, A):
                try:
                    third = look(fn(*args))
                except Exception as e:
                    third = ("raised", type(e).__name__)
                if third != ans[0] and repr(third) != repr(ans[0]):
                    fail("%s%r answered %r, and %r after its results were changed", name, tuple(args), ans[0], third)
        elif kind == "mutate":
            t, name, ks = MUTATORS[qi % len(MUTATORS)]
            i = ri % len(pool[t])
            o = pool[t][i]
            if t == "p" and name == "assign" and sel[2] % 2:
                o.assign(sel[0], sel[1])
            else:
                try:
                    getattr(o, name)(*[arg(k, (sel + [ri])[j % 5], []) for j, k in enumerate(ks)])
                except ZeroDivisionError:
                    pass
            unchanged("%s.%s" % (type(o).__name__, name), (t, i))
            views[t, i] = look(o)
            if t == "p":
                views["L", 0] = look(pool["L"][0])
        elif kind == "live":
            t, name, get = LIVE[qi % len(LIVE)]
            i = ri % len(pool[t])
            o = pool[t][i]
            part = getattr(o, name)()
            if isinstance(part, list):
                if not part:
                    continue
                part = part[sel[0] % len(part)]
                part.assign(sel[1], sel[2])
                expect(any(xy(w) == (sel[1], sel[2]) for w in getattr(o, get)()), "changing a point of %s() did not show in %s()", name, get)
            else:
                if isinstance(part, V):
                    part.assign(sel[1], sel[2])
                elif isinstance(part, A):
                    part.set_degree(sel[1] * 10 + sel[2])
                else:
                    part.assign(sel[1], sel[2])
                eq(look(getattr(o, get)()), look(part), "%s() after a change through %s()" % (get, name))
            unchanged("a change through %s.%s()" % (type(o).__name__, name), (t, i))
            views[t, i] = look(o)
        else:
            lst = pool["L"][0]
            if qi % 3 == 0:
                lst.append(pool["p"][ri % 6])
            elif qi % 3 == 1 and len(lst) > 3:
                lst.pop(ri % len(lst))
            else:
                lst.reverse()
            unchanged("a change of the list the shapes were built from", ("L", 0))
            views["L", 0] = look(lst)
    kinds &= {"query", "func", "mutate", "live", "list"}
    if not kinds & {"query", "func"}:
        return None
    return " ".join(sorted(kinds))



def make(kind, pts, nums, degs, k, inputs):
    """one object of a kind in construction form k; the objects it was built from go to inputs"""
    def p(i):
        o = v(pts[i % len(pts)])
        inputs.append(o)
        return o

    def a(i):
        o = A(degs[i % 3])
        inputs.append(o)
        return o
    if kind == "p":
        return v(pts[k % len(pts)])
    if kind == "a":
        return A(degs[k % 3])
    if kind == "z":
        return Size(nums[k % 4], nums[(k + 1) % 4])
    if kind == "l":
        return [lambda: Line(p(0), p(1)), lambda: Line(p(2), a(0)), lambda: Line(nums[0], nums[1], nums[2] - 4), lambda: Line(p(1), p(3))][k % 4]()
    if kind == "r":
        return [lambda: Ray(p(0), p(1)), lambda: Ray(p(2), a(0)), lambda: Ray(p(3), degs[1])][k % 3]()
    if kind == "s":
        return [lambda: Seg(p(0), p(1)), lambda: Seg(p(2), p(3)), lambda: Seg(p(1), nums[0], a(1)), lambda: Seg(p(4), p(5))][k % 4]()
    if kind == "t":
        return [lambda: Tri(p(0), p(1), p(2)), lambda: Tri(p(3), p(4), p(5)), lambda: Tri(make("s", pts, nums, degs, k, inputs), p(4))][k % 3]()
    if kind == "c":
        return [lambda: Circle(p(k), nums[k % 4]), lambda: Circle(p(1), nums[0])][k % 2]()
    if kind == "R":
        def sized():
            z = Size(nums[0], nums[1])
            inputs.append(z)
            return Rect(p(k), z)
        return [lambda: Rect(p(0), p(1)), sized, lambda: Rect(p(2), nums[2], nums[3]), lambda: Rect(make("R", pts, nums, degs, 0, inputs))][k % 4]()
    if kind == "e":
        return Sector(p(k), nums[0], nums[0] + nums[1], a(0), a(1))
    if kind == "P":
        l = [p(i) for i in range(k % 7)] or [p(0)]
        if k % 2:
            inputs.append(l)
            return Poly(l)
        return Poly(*l)
    if kind == "H":
        l = [p(i) for i in range(6)]
        inputs.append(l)
        h = Hull(l)
        h.compute(P.MethodType.WRAPPING_METHOD if k % 2 else P.MethodType.GRAHAN_SCAN)
        return h
    if kind == "m":
        return [Mat(*(nums + [1, -2])), Mat.make_rotation(a(0)), Mat()][k % 3]
    if kind == "L":
        return [p(i) for i in range(3 + k % 4)]
    raise AssertionError(kind)


def gen_one(g):
    prof = g.pick(["i", "i", "d", "f"])
    pts = gn.pts_related(g, prof, 6, 6, 9) if g.raw(2) else [gn.pt(g, prof, 9) for _ in range(6)]
    k = g.raw(2)
    if k:
        return [pts, [gn.deg_norm(g) for _ in range(3)], [gn.pos(g, prof, 9) for _ in range(4)], k, g.raw(len(QUERIES) - 1), g.bool(), g.list(
            lambda g: g.raw(11), 6, 6)]
    return [pts, [gn.deg_norm(g) for _ in range(3)], [gn.pos(g, prof, 9) for _ in range(4)], k, g.raw(len(FUNCS) - 1), g.bool(), g.list(
        lambda g: g.raw(11), 6, 6)]


def check_one(case):
    pts, degs, nums, isq, qi, shared, sel = case
    inputs = []
    made = []

    def arg(kind, j):
        if kind in "nkijxb":
            return {"n": nums[sel[j] % 4] - 4, "k": nums[sel[j] % 4], "i": sel[j], "j": [0.94, 0.4, 0.5][sel[j] % 3], "x": "text ",
                    "b": bool(sel[j] % 2)}[kind]
        if shared:                                     # the same object in several roles
            for k, o in made:
                if k == kind:
                    return o
        o = make(kind, pts, nums, degs, sel[j], inputs)
        made.append((kind, o))
        return o
    if isq:
        t, name, ks = QUERIES[qi % len(QUERIES)]
        o = arg(t, 0)
        fn = getattr(o, name)
        name = type(o).__name__ + "." + name
    else:
        fn, ks = FUNCS[qi % len(FUNCS)]
        name = getattr(fn, "__qualname__", str(fn))
    args = [arg(k, j + 1 if j < 5 else 0) for j, k in enumerate(ks)]
    objs = [o for _, o in made] + inputs
    before = [look(o) for o in objs]

    def unchanged(what):
        for o, b in zip(objs, before):
            now = look(o)
            if now != b:
                fail("%s changed %r to %r", what, b, now)

    def ask():
        try:
            res = fn(*args)
            return res, look(res)
        except Exception as e:
            return None, ("raised", type(e).__name__)
    r1, a1 = ask()
    unchanged(name)
    r2, a2 = ask()
    unchanged(name)
    if a1 != a2 and repr(a1) != repr(a2):
        fail("%s%r answered %r, asked again %r", name, tuple(args), a1, a2)
    if isinstance(a1, tuple) and a1 and a1[0] == "raised":
        return "raised"
    scramble(r1, 1)
    unchanged("changing the result of " + name)
    eq(repr(look(r2)), repr(a2), ("second answer of %s after the first was changed", name))
    r3, a3 = ask()
    if a3 != a1 and repr(a3) != repr(a1):
        fail("%s%r answered %r, and %r after its result was changed", name, tuple(args), a1, a3)
    # inputs change: what was built keeps its values
    for o in inputs:
        if not isinstance(o, list):
            scramble(o, 3)
    for o in inputs:
        if isinstance(o, list):
            o.clear()
    for (k, o), b in zip(made, before):
        if k == "L":
            continue
        now = look(o)
        if now != b:
            fail("changing the inputs it was built from changed %r to %r", b, now)
    if not isq and isinstance(r3, (Line, Ray, Seg, Tri, Circle, Rect, Sector, Poly, Hull, V, A)):
        for o in args:
            if not isinstance(o, (int, float, str)):
                scramble(o, 5)
        eq(repr(look(r3)), repr(a3), ("%s after its arguments were changed", name))
    return "query" if isq else "function"


def gen_mut(g):
    prof = g.pick(["i", "i", "d", "f"])
    pts = gn.pts_related(g, prof, 6, 6, 9) if g.raw(2) else [gn.pt(g, prof, 9) for _ in range(6)]
    return [pts, [gn.deg_norm(g) for _ in range(3)], [gn.pos(g, prof, 9) for _ in range(4)], g.raw(len(MUTATORS) - 1), g.bool(),
            g.list(lambda g: g.raw(11), 6, 6)]


def check_mut(case):
    """one change in place: the arguments keep their values and share nothing with the receiver, in either direction"""
    pts, degs, nums, mi, shared, sel = case
    t, name, ks = MUTATORS[mi % len(MUTATORS)]
    outcomes = []
    for direction in ("arguments", "receiver"):
        inputs = []
        o = make(t, pts, nums, degs, sel[0], inputs)
        made = []

        def arg(kind, j):
            if kind in "nk":
                return nums[sel[j % 6] % 4] - (4 if kind == "n" else 0)
            for k, w in made if shared else ():
                if k == kind:
                    return w
            w = make(kind, pts, nums, degs, sel[j], inputs)
            made.append((kind, w))
            return w
        args = [arg(k, j + 1) for j, k in enumerate(ks)]
        objs = [w for _, w in made] + inputs
        before = [look(w) for w in objs]
        what = type(o).__name__ + "." + name

        def unchanged(why):
            for w, b in zip(objs, before):
                now = look(w)
                if now != b and repr(now) != repr(b):
                    fail("%s changed %r to %r", why, b, now)
        try:
            res = getattr(o, name)(*args)
            outcomes.append(look(o))
        except ZeroDivisionError:
            return "raised"
        unchanged(what)
        after = look(o)
        if direction == "arguments":
            for n, w in enumerate(objs):
                if not isinstance(w, list):
                    scramble(w, n)
            for w in objs:
                if isinstance(w, list):
                    w.clear()
            now = look(o)
            if now != after and repr(now) != repr(after):
                fail("changing the arguments of %s changed its receiver from %r to %r", what, after, now)
        else:
            scramble(o, 7)
            unchanged("changing the receiver after " + what)
            if res is not None and res is not o:
                scramble(res, 9)
                unchanged("changing the result of " + what)
    if repr(outcomes[0]) != repr(outcomes[1]):
        fail("%s left %r, and %r on objects with the same values", what, outcomes[0], outcomes[1])
    return t + ("+args" if made else "")


DEFAULTS = {"p": V, "a": A, "c": Circle, "z": Size, "s": Seg, "P": Poly, "H": lambda: Hull([]), "m": Mat}


def gen_sib(g):
    prof = g.pick(["i", "i", "d"])
    t = g.pick(sorted({x[0] for x in MUTATORS} | {"r"}))
    muts = [i for i, x in enumerate(MUTATORS) if x[0] == t]
    steps = [[g.pick(muts) if muts and g.raw(3) else -1] + [g.raw(11) for _ in range(6)] for _ in range(g.int(1, 6))]
    return [t, g.raw(1) if t in DEFAULTS else 0, [gn.pt(g, prof, 9) for _ in range(6)], [gn.deg_norm(g) for _ in range(3)],
            [gn.pos(g, prof, 9) for _ in range(4)], g.raw(11), steps]


def check_sib(case):
    """objects made in the same way share nothing, and making one is not influenced by what happened to another"""
    t, default, pts, degs, nums, form, steps = case

    def new():
        return DEFAULTS[t]() if default else make(t, pts, nums, degs, form, [])
    a, b = new(), new()
    before = look(b)
    eq(repr(look(a)), repr(before), "two new objects")
    for mi, *sel in steps:
        if mi < 0:
            scramble(a, sel[0])
            what = "changing the live parts of a twin"
        else:
            _, name, ks = MUTATORS[mi]
            args = [nums[sel[(j + 1) % 6] % 4] - (4 if k == "n" else 0) if k in "nk" else make(k, pts, nums, degs, sel[(j + 1) % 6], [])
                    for j, k in enumerate(ks)]
            try:
                res = getattr(a, name)(*args)
                if res is not None and not isinstance(res, type(a)):
                    look(res)
            except (ZeroDivisionError, OverflowError, AttributeError) as e:
                if isinstance(e, AttributeError) and mi >= 0 and not any(m < 0 for m, *_ in steps):
                    raise
            what = name + " of a twin"
        eq(repr(look(b)), repr(before), ("%s changed the other object", what))
        c = new()
        eq(repr(look(c)), repr(before), ("%s changed what a new object is", what))
    return t + (" default" if default else "")


SUBS = [
    Sub("history", gen, check, "values of all other objects unchanged, answers repeatable, results independent", n=800, share=False),
    Sub("single", gen_one, check_one, "one query on fresh objects: pure, repeatable, result and inputs independent of the shape", n=11000, share=False),
    Sub("mutators", gen_mut, check_mut, "one change in place on fresh objects: arguments keep their values and share nothing with the receiver", n=4000, share=False),
    Sub("siblings", gen_sib, check_sib, "two objects made in the same way (default and empty forms included), one changed: the other and new ones are not", n=4000, share=False),
]
