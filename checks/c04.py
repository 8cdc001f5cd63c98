"""C04 vector arithmetic agrees with componentwise arithmetic over any history"""
from vlib.common import *

RULE = ("A case is a history of 1 to 14 (one in 64: 40 to 300, of a few kinds) operations over a pool of up to 4 vectors (operands drawn from the pool, so a vector "
        "is often its own operand), or one construction form. Trivial: histories with a single step. Distinct: different "
        "choice sequences.")
ASSUMPTIONS = ["each component is compared with the exact rational result to 4 units in the last place; exactly on grid values"]

OPS = ["add_v", "add_xy", "add_x", "add_y", "sub_v", "sub_xy", "sub_x", "sub_y", "scale", "reverse", "set_x", "set_y",
       "set_x_y", "set_vector", "assign", "+=", "-=", "*=", "/=",
       "+", "-", "*", "/", "reverse_vector", "abs", "abs_xy", "copy", "get_copy", "ctor", "getters"]


def gen_hist(g):
    prof = gn.profile(g)
    r = g.weighted((4, 60), (1, 10 ** 6), (1, 10 ** 9))
    pool = [gn.pt(g, prof, r) for _ in range(g.int(1, 3))]
    ops, long = gn.swarm(g, OPS)                         # long: factors at most 1, so that nothing overflows

    def step(g):
        op = g.pick(ops)
        k = gn.num(g, "m" if prof == "f" else prof, 60)
        if op in ("scale", "*=", "*"):
            k = g.pick([0, 1, -1, 2, 0.5, k, k]) if not long else g.pick([1, -1, 0.5])
        elif op in ("/=", "/"):
            k = (g.pick([1, -1, 2, 4, 0.5, k, k]) or 3) if not long else g.pick([1, -1, 2])
        return [op, g.raw(3), g.raw(3), k, gn.num(g, prof, r)]
    return [pool, g.list(step, 40, 300, 200) if long else g.list(step, 1, 14, 7)]


def comp(got, want, mag, what):
    expect(isinstance(got, (int, float)), "%s is %r, not a number", what, got)
    expect(math.isfinite(got), "%s is %r", what, got)
    d = abs(F(got) - want)
    expect(d <= F(1e-15) * F(mag), "%s: got %r, expected %r", what, got, float(want))


def same(p, want, mag, what):
    expect(isinstance(p, V), "%s is %r, not a vector", what, p)
    comp(p.x(), want[0], mag, what + ".x")
    comp(p.y(), want[1], mag, what + ".y")


def check_hist(case):
    init, steps = case
    objs = [v(p) for p in init]
    for op, i, j, k, k2 in steps:
        a, b = objs[i % len(objs)], objs[j % len(objs)]
        ref = [(F(o.x()), F(o.y())) for o in objs]
        before = [xy(o) for o in objs]
        ax, ay = F(a.x()), F(a.y())
        bx, by = F(b.x()), F(b.y())
        fk, fk2 = F(k), F(k2)
        new = None
        inplace = None
        if op == "add_v":
            a.add(b); inplace = (ax + bx, ay + by)
        elif op == "add_xy":
            a.add(k, k2); inplace = (ax + fk, ay + fk2)
        elif op == "add_x":
            a.add_x(k); inplace = (ax + fk, ay)
        elif op == "add_y":
            a.add_y(k); inplace = (ax, ay + fk)
        elif op == "sub_v":
            a.sub(b); inplace = (ax - bx, ay - by)
        elif op == "sub_xy":
            a.sub(k, k2); inplace = (ax - fk, ay - fk2)
        elif op == "sub_x":
            a.sub_x(k); inplace = (ax - fk, ay)
        elif op == "sub_y":
            a.sub_y(k); inplace = (ax, ay - fk)
        elif op == "scale":
            a.scale(k); inplace = (ax * fk, ay * fk)
        elif op == "reverse":
            ret = a.reverse(); inplace = (-ax, -ay)
            expect(ret is a, "reverse() did not return the vector itself")
        elif op == "set_x":
            a.set_x(k); inplace = (fk, ay)
        elif op == "set_y":
            a.set_y(k); inplace = (ax, fk)
        elif op == "set_x_y":
            a.set_x_y(k, k2); inplace = (fk, fk2)
        elif op == "set_vector":
            a.set_vector(b); inplace = (bx, by)
        elif op == "assign":
            ret = a.assign(k, k2); inplace = (fk, fk2)
            expect(ret is a, "assign() did not return the vector itself")
        elif op == "+=":
            t = a; t += b; inplace = (ax + bx, ay + by)
            expect(t is a, "+= gave another object")
        elif op == "-=":
            t = a; t -= b; inplace = (ax - bx, ay - by)
            expect(t is a, "-= gave another object")
        elif op == "*=":
            t = a; t *= k; inplace = (ax * fk, ay * fk)
            expect(t is a, "*= gave another object")
        elif op == "/=":
            t = a; t /= k; inplace = (ax / fk, ay / fk)
            expect(t is a, "/= gave another object")
        elif op == "+":
            new, want = a + b, (ax + bx, ay + by)
        elif op == "-":
            new, want = a - b, (ax - bx, ay - by)
        elif op == "*":
            new, want = a * k, (ax * fk, ay * fk)
        elif op == "/":
            new, want = a / k, (ax / fk, ay / fk)
        elif op == "reverse_vector":
            new, want = a.reverse_vector(), (-ax, -ay)
        elif op == "abs":
            new, want = a.abs(), (abs(ax), abs(ay))
        elif op == "copy":
            new, want = a.copy(), (ax, ay)
        elif op == "get_copy":
            new, want = a.get_copy(), (ax, ay)
        elif op == "ctor":
            new, want = V(a), (ax, ay)
        elif op == "abs_xy":
            comp(a.abs_x(), abs(ax), abs(ax), "abs_x")
            comp(a.abs_y(), abs(ay), abs(ay), "abs_y")
        else:
            eq((a.get_x(), a.get_y()), (a.x(), a.y()), "get_x/get_y against x/y")
        mag = max(abs(ax), abs(ay), abs(bx), abs(by), abs(fk), abs(fk2), F(1))
        m = mag if op not in ("scale", "*=", "*", "/", "/=") else max(abs(ax), abs(ay)) * max(abs(fk), 1 / abs(fk) if fk else 1)
        if inplace is not None:
            same(a, inplace, m, "receiver of " + op)
        if new is not None:
            same(new, want, m, "result of " + op)
            expect(all(new is not o for o in objs), "%s gave an existing vector", op)
        for o, r0 in zip(objs, before):
            if o is a and inplace is not None:
                continue
            eq(xy(o), r0, "a vector that %s should not change" % op)
        if new is not None:
            if len(objs) < 4:
                objs.append(new)
            else:
                objs[j % len(objs)] = new
        if any(abs(c) > 1e14 for o in objs for c in xy(o)):
            break
    if len(steps) < 2:
        return None
    return "steps%d" % min(len(steps), 8) + (" selfop" if any(s[1] % len(init) == s[2] % len(init) for s in steps) else "")


def gen_ctor(g):
    form = g.pick(["xy", "vec", "kwxy", "kwra", "none", "bad"])
    prof = gn.profile(g)
    return [form, gn.num(g, prof, 1000), gn.num(g, prof, 1000), gn.deg(g), g.raw(len(BAD) - 1), g.raw(1)]


BAD = [lambda: V(1), lambda: V(1, 2, 3), lambda: V("1", "2"), lambda: V(x=1), lambda: V(x=1, r=2), lambda: V([1, 2]),
       lambda: V(None, 1), lambda: V(r=1, y=2), lambda: V(x=1, y=2, r=3),
       lambda: V(5, x=1, y=2), lambda: V(V(3, 4), x=1, y=2), lambda: V(5, 6, r=1, a=2), lambda: V(1, y=2), lambda: V(V(1, 2), V(3, 4)),
       lambda: V(V(1, 2), 3), lambda: V(3, V(1, 2)), lambda: V(y=2), lambda: V(r=2), lambda: V(a=2), lambda: V(x=1, a=2), lambda: V(A(3)),
       lambda: V((1, 2)), lambda: V("12"), lambda: V(None), lambda: V(1, None), lambda: V(V(1, 2), x=3), lambda: V(5, 6, x=1)]


class Point(V):
    """a caller's own kind of vector"""


def check_ctor(case):
    form, x, y, d, bad, as_obj = case
    if form == "xy":
        same(V(x, y), (F(x), F(y)), 0, "Vector2D(x, y)")
    elif form == "vec":
        o = V(x, y) if bad & 1 else Point(x, y)
        n = V(o)
        same(n, (F(x), F(y)), 0, "Vector2D(vector)")
        o.assign(1234.5, -77)
        same(n, (F(x), F(y)), 0, "Vector2D(vector) after the source changed")
    elif form == "kwxy":
        same(V(x=x, y=y), (F(x), F(y)), 0, "Vector2D(x=, y=)")
    elif form == "kwra":
        p = V(r=x, a=A(d) if as_obj else d)
        dd = float(F(d) % 360)
        near(p.x(), x * math.cos(math.radians(dd)), "Vector2D(r=, a=).x", 0, 1e-9 * max(1, abs(x)))
        near(p.y(), x * math.sin(math.radians(dd)), "Vector2D(r=, a=).y", 0, 1e-9 * max(1, abs(x)))
    elif form == "none":
        same(V(), (F(0), F(0)), 0, "Vector2D()")
        p = V()
        p.assign(x, y)
        same(V(), (F(0), F(0)), 0, "Vector2D() after another default vector changed")
    else:
        try:
            r = BAD[bad]()
        except Exception:
            return "rejected%d" % bad
        fail("construction form %d of the unsupported ones was accepted and gave %r", bad, r)
    return form


SUBS = [
    Sub("history", gen_hist, check_hist, "model-based history over a pool of vectors against exact rational components; "
        "identity, aliasing and purity", n=6000, examples=[[[[6, 4]], [["/=", 0, 0, 2, 0], ["+=", 0, 0, 1, 0]]]], share=False),
    Sub("construct", gen_ctor, check_ctor, "construction forms and rejection of everything else", n=15000),
]
