"""C17 rectangles and sizes keep their geometry through any history of edits"""
from vlib.common import *

RULE = ("A case is a history: rectangles built in any of the construction forms, then up to 12 (one case in 64: 300) edits (reassignment in every form, moving "
        "or setting a side, corner or centre, resizing, edits through live parts, assigning one rectangle from another), on a dyadic "
        "grid (exact) or in floating point. Every reading of every rectangle is compared with an interval model after each edit. "
        "Trivial: none. Distinct: different choice sequences.")
ASSUMPTIONS = ["negative lengths count by magnitude, except for construction from a centre, which is judged for non-negative lengths"]


def dy(g, prof):
    return gn.num(g, prof, 20)


def gen_form(g, prof):
    """construction / assignment form"""
    k = g.raw(4)
    p = [dy(g, prof), dy(g, prof)]
    if k == 0:
        return ["xylw", p, dy(g, prof), dy(g, prof)]
    if k == 1:
        return ["plw", p, dy(g, prof), dy(g, prof)]
    if k == 2:
        return ["psize", p, dy(g, prof), dy(g, prof)]
    if k == 3:
        return ["corners", p, [dy(g, prof), dy(g, prof)]]
    return ["rect", p, dy(g, prof), dy(g, prof)]


ONE = ["move_left", "move_min_x", "move_right", "move_max_x", "move_top", "move_min_y", "move_bottom", "move_max_y",
       "set_left", "set_min_x", "set_right", "set_max_x", "set_top", "set_min_y", "set_bottom", "set_max_y",
       "set_length", "set_width"]
PT = ["move_center", "move_top_left", "move_bottom_right", "set_top_left", "set_bottom_right"]


def gen(g):
    prof = g.weighted((3, "i"), (3, "d"), (2, "f"))
    if g.raw(3) == 3:
        first = ["center", [dy(g, prof), dy(g, prof)], abs(dy(g, prof)), abs(dy(g, prof)), g.raw(1)]
    else:
        first = gen_form(g, prof)
    ops = []
    one, long = gn.swarm(g, ONE)
    pt, _ = gn.swarm(g, PT)
    for _ in range(g.int(40, 300) if long else g.int(1, 12)):
        i = g.raw(1)
        k = g.raw(9)
        if k <= 3:
            ops.append([i, g.pick(one), dy(g, prof)])
        elif k <= 5:
            ops.append([i, g.pick(pt), [dy(g, prof), dy(g, prof)], g.raw(1)])
        elif k == 6:
            ops.append([i, "set_size", dy(g, prof), dy(g, prof), g.raw(1)])
        elif k == 7:
            ops.append([i, "assign", gen_form(g, prof)])
        elif k == 8:
            ops.append([i, "live", g.raw(3), dy(g, prof), dy(g, prof)])
        else:
            ops.append([i, "from_other", g.raw(1)])
    return [first, ops, prof == "f"]


def ival(a, b):
    return [min(a, b), max(a, b)]


def apply_form(form, r):
    """builds (r is None) or assigns; returns rect and model [xs, ys]"""
    k, p = form[0], form[1]
    x, y = p
    if k == "corners":
        q = form[2]
        args = (v(p), v(q))
        model = [ival(F(x), F(q[0])), ival(F(y), F(q[1]))]
    elif k == "center":
        length, width = form[2], form[3]
        model = [[F(x) - F(length) / 2, F(x) + F(length) / 2], [F(y) - F(width) / 2, F(y) + F(width) / 2]]
        r = Rect.from_center(x, y, length, width) if form[4] else Rect.from_center(v(p), length, width)
        return r, model
    else:
        length, width = form[2], form[3]
        model = [[F(x), F(x) + abs(F(length))], [F(y), F(y) + abs(F(width))]]
        if k == "xylw":
            args = (x, y, length, width)
        elif k == "plw":
            args = (v(p), length, width)
        elif k == "psize":
            args = (v(p), Size(length, width))
        else:
            args = (Rect(x, y, length, width),)
    if r is None:
        return Rect(*args), model
    res = r.assign(*args)
    expect(res is r, "assign%r does not return the rectangle itself", args)
    return r, model


def compare(r, model, is_float, what):
    (x0, x1), (y0, y1) = model
    m = float(max(abs(x0), abs(x1), abs(y0), abs(y1), 1))
    tol = 1e-9 * m if is_float else 0.0
    f = [float(t) for t in (x0, x1, y0, y1)]
    length, width = float(x1 - x0), float(y1 - y0)

    def same(got, want, name):
        if not abs(got - want) <= tol:
            fail("%s: %s is %r, expected %r (%r)", what, name, got, want, r)

    for got, want, name in ((r.left(), f[0], "left"), (r.min_x(), f[0], "min_x"), (r.right(), f[1], "right"), (r.max_x(), f[1], "max_x"),
                            (r.top(), f[2], "top"), (r.min_y(), f[2], "min_y"), (r.bottom(), f[3], "bottom"), (r.max_y(), f[3], "max_y"),
                            (r.size().length(), length, "size().length"), (r.size().width(), width, "size().width"),
                            (r.size_().length(), length, "size_().length"), (r.size_().width(), width, "size_().width")):
        same(got, want, name)
    for p, want, name in ((r.top_left(), (f[0], f[2]), "top_left"), (r.top_left_(), (f[0], f[2]), "top_left_"),
                          (r.top_right(), (f[1], f[2]), "top_right"), (r.bottom_left(), (f[0], f[3]), "bottom_left"),
                          (r.bottom_right(), (f[1], f[3]), "bottom_right"),
                          (r.center(), (float((x0 + x1) / 2), float((y0 + y1) / 2)), "center")):
        same(p.x(), want[0], name + ".x")
        same(p.y(), want[1], name + ".y")
    same(r.area(), float((x1 - x0) * (y1 - y0)), "area") if not is_float else near(r.area(), length * width, what + ": area", 1e-9, 1e-9 * m * m)
    if not is_float or (length > 1e-6 and width > 1e-6):
        is_true(r.is_valid(), x1 > x0 and y1 > y0, (what + ": validity of %r", r))
    near(r.size().diagonal(), math.hypot(length, width), what + ": diagonal", 1e-12, 1e-9 * m if is_float else 1e-12)
    if x1 - x0 > F(1, 1000) and y1 - y0 > F(1, 1000):
        for ln, a, b, name in ((r.left_edge(), (f[0], f[2]), (f[0], f[3]), "left_edge"), (r.right_edge(), (f[1], f[2]), (f[1], f[3]), "right_edge"),
                               (r.top_edge(), (f[0], f[2]), (f[1], f[2]), "top_edge"), (r.bottom_edge(), (f[0], f[3]), (f[1], f[3]), "bottom_edge")):
            for p in (a, b):
                near(ln.dist(v(p)), 0.0, what + ": %s through %r" % (name, p), 0, 1e-7 * m)


def step(r, model, op, other, other_model, is_float):
    name = op[1]
    xs, ys = [list(model[0]), list(model[1])]
    if name in ONE:
        val = op[2]
        getattr(r, name)(val)
        t = F(val)
        w, h = xs[1] - xs[0], ys[1] - ys[0]
        if name in ("move_left", "move_min_x"):
            xs = [t, t + w]
        elif name in ("move_right", "move_max_x"):
            xs = [t - w, t]
        elif name in ("move_top", "move_min_y"):
            ys = [t, t + h]
        elif name in ("move_bottom", "move_max_y"):
            ys = [t - h, t]
        elif name in ("set_left", "set_min_x"):
            xs = ival(t, xs[1])
        elif name in ("set_right", "set_max_x"):
            xs = ival(xs[0], t)
        elif name in ("set_top", "set_min_y"):
            ys = ival(t, ys[1])
        elif name in ("set_bottom", "set_max_y"):
            ys = ival(ys[0], t)
        elif name == "set_length":
            xs = [xs[0], xs[0] + abs(t)]
        else:
            ys = [ys[0], ys[0] + abs(t)]
        return r, [xs, ys]
    if name in PT:
        p = fr(op[2])
        w, h = xs[1] - xs[0], ys[1] - ys[0]
        if name.startswith("set") and op[3]:
            getattr(r, name)(op[2][0], op[2][1])
        else:
            getattr(r, name)(v(op[2]))
        if name == "move_center":
            return r, [[p[0] - w / 2, p[0] + w / 2], [p[1] - h / 2, p[1] + h / 2]]
        if name == "move_top_left":
            return r, [[p[0], p[0] + w], [p[1], p[1] + h]]
        if name == "move_bottom_right":
            return r, [[p[0] - w, p[0]], [p[1] - h, p[1]]]
        if name == "set_top_left":
            return r, [ival(p[0], xs[1]), ival(p[1], ys[1])]
        return r, [ival(xs[0], p[0]), ival(ys[0], p[1])]
    if name == "set_size":
        if op[4]:
            r.set_size(op[2], op[3])
        else:
            r.set_size(Size(op[2], op[3]))
        return r, [[xs[0], xs[0] + abs(F(op[2]))], [ys[0], ys[0] + abs(F(op[3]))]]
    if name == "assign":
        return apply_form(op[2], r)
    if name == "live":
        k = op[2]
        if k == 0:
            r.top_left_().assign(op[3], op[4])
            w, h = xs[1] - xs[0], ys[1] - ys[0]
            return r, [[F(op[3]), F(op[3]) + w], [F(op[4]), F(op[4]) + h]]
        if k == 1:
            r.size_().set_length(op[3])
            return r, [[xs[0], xs[0] + abs(F(op[3]))], ys]
        if k == 2:
            r.size_().set_width(op[4])
            return r, [xs, [ys[0], ys[0] + abs(F(op[4]))]]
        r.size_().assign(op[3], op[4])
        return r, [[xs[0], xs[0] + abs(F(op[3]))], [ys[0], ys[0] + abs(F(op[4]))]]
    # from_other
    if op[2]:
        r.assign(other)
    else:
        r = Rect(other)
    return r, [list(other_model[0]), list(other_model[1])]


def snap(model, r, is_float):
    """in floating point the model follows the rectangle's own roundings"""
    if not is_float:
        return model
    return [[F(r.left()), F(r.right())], [F(r.top()), F(r.bottom())]]


def check(case):
    first, ops, is_float = case
    r0, m0 = apply_form(first, None)
    r1, m1 = Rect(V(1, 2), 3, 4), [[F(1), F(4)], [F(2), F(6)]]
    compare(r0, m0, is_float, "built as %r" % (first,))
    rs, ms = [r0, r1], [snap(m0, r0, is_float), m1]
    for n, op in enumerate(ops):
        i = op[0]
        rs[i], ms[i] = step(rs[i], ms[i], op, rs[1 - i], ms[1 - i], is_float)
        what = "after edit %d %r" % (n, op)
        compare(rs[i], ms[i], is_float, what)
        compare(rs[1 - i], ms[1 - i], is_float, what + " (other rectangle)")
        ms[i] = snap(ms[i], rs[i], is_float)
    return first[0] + " " + " ".join(sorted({o[1] for o in ops})) + (" float" if is_float else "")


def gen_size(g):
    prof = g.weighted((3, "i"), (3, "d"), (2, "f"))
    return [dy(g, prof), dy(g, prof), [[g.raw(3), dy(g, prof), dy(g, prof)] for _ in range(g.int(0, 8))]]


def check_size(case):
    a, b, ops = case
    s = Size(a, b)
    la, wi = abs(a), abs(b)
    for op in [None] + ops:
        if op is not None:
            k, x, y = op
            if k == 0:
                s.assign(x, y)
                la, wi = abs(x), abs(y)
            elif k == 1:
                s.set_length(x)
                la = abs(x)
            elif k == 2:
                s.set_width(y)
                wi = abs(y)
            else:
                s = Size(s.length(), s.width())
        eq((float(s.length()), float(s.width())), (float(la), float(wi)), "length and width of the size")
        near(s.diagonal(), math.hypot(la, wi), "diagonal", 1e-12, 1e-300)
        is_true(s.is_valid(), la > 0 and wi > 0, "validity of %r" % s)
    eq((Size().length(), Size().width()), (0, 0), "empty size")
    return "ops%d" % len(ops)


SUBS = [
    Sub("history", gen, check, "two rectangles under edits against an interval model, every reading after every edit", n=2500, frame="ZO", share=False),
    Sub("size", gen_size, check_size, "size under edits", n=6000, frame="ZO", share=False),
]
