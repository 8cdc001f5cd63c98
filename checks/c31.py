"""C31 text renderings carry the actual values of a shape"""
import re

from vlib.common import *

RULE = ("A case is a shape of one of 13 types with grid, dyadic, floating point, tiny and huge numbers, some points marked invalid, possibly changed in place after a first "
        "rendering, and a text to append to. Trivial: none. Distinct: different choice sequences.")
ASSUMPTIONS = ["only the numbers, their order, the shape keyword and the appended-to text are judged, not the punctuation",
               "a value halfway between two roundings may go either way"]
NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")
TYPES = ["vector", "angle", "line", "ray", "segment", "circle", "triangle", "rect", "size", "sector", "polygon", "hull", "matrix"]


def numbers(s):
    return [float(t) for t in NUM.findall(s)]


def gen_num(g):
    k = g.raw(7)
    if k <= 1:
        return gn.num(g, "i", 60)
    if k == 2:
        return gn.num(g, "d", 60)
    if k == 3:
        return g.signed(g.pick([1e-7, 1.5e-9, 1e6, 123456.789, 1e16, 2.5e20, 1e-20]))
    if k == 4:
        return g.signed(g.int(0, 99999) / 10000.0)      # around the third decimal
    return gn.num(g, "f", 60)


def gen(g):
    t = g.pick(TYPES)
    n = gn.size(g, 1, 6, 60) if t == "polygon" else g.int(1, 6)
    m = max(12, 2 * n)
    prof = g.pick(["i", "d", "f"])
    return [t, [gen_num(g) for _ in range(m)], [gen_num(g) for _ in range(m)], [gn.deg_norm(g), gn.deg_norm(g)], n, g.raw(1),
            g.pick(["", "text ", "(circle 1 2 3)", "x\\n"]), [gn.pt(g, prof, 9) for _ in range(gn.size(g, 3, 6, 40))],
            g.raw(15) if g.raw(5) == 5 else 0]


def make(t, c, d, n):
    p = [V(c[2 * i], c[2 * i + 1]) for i in range(len(c) // 2)]
    if t == "vector":
        return p[0], [c[0], c[1]]
    if t == "angle":
        return A(d[0]), [d[0]]
    if t == "line":
        a, b = c[0], c[1]
        return Line(a, b, c[2]), [a, b] + ([c[2]] if c[2] != 0 else [])
    if t == "ray":
        return Ray(p[0], A(d[0])), [c[0], c[1], d[0]]
    if t == "segment":
        return Seg(p[0], p[1]), c[:4]
    if t == "circle":
        return Circle(p[0], abs(c[2])), [c[0], c[1], abs(c[2])]
    if t == "triangle":
        return Tri(p[0], p[1], p[2]), c[:6]
    if t == "rect":
        return Rect(p[0], abs(c[2]), abs(c[3])), [c[0], c[1], abs(c[2]), abs(c[3])]
    if t == "size":
        return Size(abs(c[0]), abs(c[1])), [abs(c[0]), abs(c[1])]
    if t == "sector":
        lo = abs(c[2])
        hi = lo + abs(c[3])
        return Sector(p[0], lo, hi, d[0], d[1]), [c[0], c[1], d[0], d[1], lo, hi]
    if t == "polygon":
        return Poly(p[:n]), c[:2 * n]
    return Mat(*c[:6]), c[:6]


def change(t, o, c, d, n):
    """the same values as make(t, c, d, n), set in place"""
    p = [V(c[2 * i], c[2 * i + 1]) for i in range(len(c) // 2)]
    if t == "vector":
        o.assign(c[0], c[1])
    elif t == "angle":
        o.set_degree(d[0])
    elif t == "ray":
        o.origin_().assign(c[0], c[1])
        o.dir_().set_degree(d[0])
    elif t == "segment":
        o.assign(p[0], p[1])
    elif t == "circle":
        o.assign(p[0], abs(c[2]))
    elif t == "triangle":
        o.assign(p[0], p[1], p[2])
    elif t == "rect":
        o.move_top_left(p[0])
        o.set_size(abs(c[2]), abs(c[3]))
    elif t == "size":
        o.set_length(abs(c[0]))
        o.set_width(abs(c[1]))
    elif t == "sector":
        o.assign(p[0], abs(c[2]), abs(c[2]) + abs(c[3]), d[0], d[1])
    elif t == "polygon":
        o.assign(p[:n])
    elif t == "matrix":
        o.assign(*c[:6])
    else:
        return False
    return True


def points_of(t, o):
    return [o] if t == "vector" else [o.origin_()] if t == "ray" else [o.origin_(), o.terminal_()] if t == "segment" else \
        [o.center_()] if t in ("circle", "sector") else [o.a_(), o.b_(), o.c_()] if t == "triangle" else \
        o.vertices_() if t == "polygon" else []


def judge(t, o, want):
    for f in (repr, str):
        s = f(o)
        got = numbers(s)
        if t == "line" and len(got) == len(want) + 1 and got[-1] == 0:
            got = got[:-1]
        eq(got, [float(x) for x in want], ("numbers in the text %r of a %s", s, t))
    eq("%s" % (o,), repr(o), "formatted text")


KEY = {"circle": "circle", "triangle": "tri", "segment": "line", "rect": "rect"}


def drawing(t, o, want, text):
    s = o.to_str(text)
    expect(isinstance(s, str) and s.startswith(text), "to_str(%r) of a %s is %r", text, t, s)
    body = s[len(text):].strip()
    expect(body.startswith("(") and body.endswith(")"), "to_str of a %s: record %r is not parenthesised", t, body)
    words = body[1:-1].split()
    eq(words[0], KEY[t], "keyword of the drawing text %r" % s)
    eq(len(words) - 1, len(want), "count of numbers in the drawing text %r" % s)
    for w, x in zip(words[1:], want):
        n = F(w)
        fx = F(x)
        expect(abs(n - fx) <= F(1, 2000) + abs(fx) * F(4e-16) + F(1, 10 ** 9), "drawing text %r: %s for %r", s, w, x)
        expect(abs(n * 1000 - round(n * 1000)) == 0 or abs(fx) > 1e12, "drawing text %r: %s has more than three decimals", s, w)


def check(case):
    t, c, c2, d, n, again, text, pts, inv = case
    if t == "hull":
        h = Hull([v(p) for p in pts])
        h.compute()
        want = []
        for w in h.vertices():
            want += [w.x(), w.y()]
        for e in h.edges():
            want += [e.origin().x(), e.origin().y(), e.terminal().x(), e.terminal().y()]
        judge(t, h, want)
        return t
    for vals in (c, c2):                               # lines need a direction
        if t == "line" and vals[0] == 0 and vals[1] == 0:
            vals[0] = 1
    o, want = make(t, c, d, n)
    for i, part in enumerate(points_of(t, o)):
        if inv >> (i % 4) & 1:
            part.invalidate()
    judge(t, o, want)
    if t in KEY:
        w = [c[0], c[1], o.right(), o.bottom()] if t == "rect" else want
        drawing(t, o, w, text)
    if again and change(t, o, c2, d[::-1], n):
        want = make(t, c2, d[::-1], n)[1]
        judge(t, o, want)
        if t in KEY:
            w = [c2[0], c2[1], c2[0] + abs(c2[2]), c2[1] + abs(c2[3])] if t == "rect" else want
            drawing(t, o, w, text)
        return t + " changed"
    return t


SUBS = [Sub("text", gen, check, "numbers parsed back from the text, keyword and rounding of the drawing record", n=10000, share=False)]
