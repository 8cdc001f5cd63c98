"""Generators shared by the checks.  Coordinates come in profiles:

  'i'  grid integers          (exact arithmetic decides)
  'd'  multiples of 1/8       (exact arithmetic decides)
  'f'  floating point numbers (oracles use condition-aware tolerances)
  'm'  a mixture with special values and constants harvested from the code under test
"""
import os

ALWAYS = bool(os.environ.get("PYRUS_FRAME"))     # development: every case in a frame

FAR = os.environ.get("PYRUS_FRAME") == "far"     # development: very far frames everywhere

SPECIAL = [0, 0.0, -0.0, 1, -1, 0.5, -0.5, 52.5, -52.5, 34.0, -34.0, 0.1, -0.1, 10.0, -10.0, 1e-3, -1e-3]


def frame(g, kind):
    """places one case in seven elsewhere: enlarged, far from the origin, or around a constant of the code under test
    (all coordinates stay multiples of 1/8)"""
    k = g.raw(13)
    if k < 12 and not ALWAYS:
        return
    far, big = 4000, 512
    if FAR:
        kind = kind.upper()
    if "O" in kind and g.raw(2) == 0:
        far = 200000
    if "Z" in kind and g.raw(2) == 0:
        big = 8192
    kind = kind.lower()
    if "z" in kind:
        z = g.pick([1, 4, 16, 64, 256]) if big == 512 else g.pick([1, 1024, 4096])
        if k == 13 and g.raw(1):
            z = max(1, min(big, int(abs(g.const(8.0 * big)) / 8)))
        g.zoom = z
    if "o" in kind:
        if g.raw(1):
            c = [round(8 * g.const(far)) / 8.0, round(8 * g.const(far)) / 8.0]
            if g.raw(1):
                c = [c[0], -c[0]] if g.raw(1) else [c[0], c[0]]
        else:
            c = [g.int(-far, far), g.int(-far, far)]
        g.ox, g.oy = c if g.raw(2) else [c[0], 0] if g.raw(1) else [0, c[1]]


def size(g, lo, hi, big=80):
    """a number of elements, now and then large or next to a constant of the code under test"""
    k = g.raw(15)
    if k < 14:
        return g.int(lo, hi)
    n = int(abs(g.const(big))) + g.int(-1, 2) if k == 14 else g.int(hi, big)
    return max(lo, min(big, n))


def profile(g):
    return g.weighted((3, "i"), (2, "d"), (3, "f"), (2, "m"))


def exact_profile(g):
    return g.weighted((3, "i"), (2, "d"))


def num(g, prof, r=60):
    return _num(g, prof, r) * g.zoom if g.zoom != 1 else _num(g, prof, r)


def _num(g, prof, r):
    if g.fresh:
        v = g.near_fresh(-r, r, prof == "i")
        if v is not None:
            return round(8 * v) / 8.0 if prof == "d" else v
    if prof == "m":
        k = g.raw(7)
        if k == 1:
            v = g.pick(SPECIAL)
            return v if abs(v) <= r else 1.0
        if k == 2:
            return g.const(r)
        prof = "iiiidfff"[k]
    if prof == "i":
        if g.raw(1) == 0:
            return g.int(-9 if r >= 9 else -r, 9 if r >= 9 else r)
        return g.int(-r, r)
    if prof == "d":
        return g.int(-8 * r, 8 * r) / 8.0
    return g.signed(g.uniform(0.0, float(r)))


def pos(g, prof, r=60):
    """positive number"""
    v = abs(num(g, prof, r))
    return v if v > 0 else 1


def cx(g, prof, r=60):
    """x coordinate"""
    return num(g, prof, r) + g.ox


def cy(g, prof, r=60):
    return num(g, prof, r) + g.oy


def pt(g, prof, r=60):
    return [num(g, prof, r) + g.ox, num(g, prof, r) + g.oy]


def related(g, prof, pts, r=60):
    """a point that is often in special position with respect to pts"""
    if not pts:
        return pt(g, prof, r)
    if g.fresh and g.raw(15) == 15:              # at a distance given by a constant that is new in the code
        a, d = g.pick(pts), g.pick(g.fresh) * g.pick([1, 1.125, 0.875, 2, 0.5])
        if 1e-6 < abs(d) <= 8 * r:
            d *= g.zoom
            dx, dy = g.pick([(1, 0), (0, 1), (0.6, 0.8), (0.8, -0.6), (0.5, 0.5)])
            dx, dy = g.signed(dx * d), g.signed(dy * d)
            if prof in "id":
                dx, dy = round(8 * dx) / 8.0, round(8 * dy) / 8.0
            return [a[0] + dx, a[1] + dy]
    k = g.raw(9)
    if k <= 3:
        return pt(g, prof, r)
    a = g.pick(pts)
    b = g.pick(pts)
    if k == 4:
        return [a[0], cy(g, prof, r)]
    if k == 5:
        return [cx(g, prof, r), a[1]]
    if k == 6:
        return list(a)
    if k == 7:
        return [a[0], b[1]]
    if k == 8:                                   # on the line through a and b
        t = g.pick([0.5, 2, -1, 0.25, 0.75, 3, -0.5, 1.5])
        return [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    q = g.pick(pts)                              # parallelogram
    return [a[0] + b[0] - q[0], a[1] + b[1] - q[1]]


def pts_related(g, prof, lo, hi, r=60, avg=None):
    out = []
    n_avg = avg or max(2, (lo + hi) // 2)
    while len(out) < hi:
        if len(out) >= lo and g.raw(n_avg) == 0:
            break
        out.append(related(g, prof, out, r))
    return out


def deg(g, wide=True):
    """a degree value"""
    k = g.raw(9 if wide else 5)
    if k <= 1:
        return 15 * g.int(-12, 12)
    if k == 2:
        return g.int(-180, 180)
    if k == 3:
        return g.signed(g.uniform(0.0, 180.0))
    if k == 4:
        return g.int(-1440, 1440) / 8.0
    if k == 5:                                   # around the seam and the quadrant borders
        return g.pick([180.0, -180.0, 90.0, -90.0, 0.0]) + g.signed(g.pick([0.0, 1e-9, 1e-7, 1e-5, 1e-3, 0.25]))
    if k == 6:
        return g.int(-1080, 1080)
    if k == 7:
        return 90.0 * g.int(-20, 20) + g.signed(g.pick([0.0, 1e-9, 1e-6, 0.5]))
    if k == 8:
        return g.const(1e6)
    return g.signed(g.mag(-3, 6))


def deg_norm(g):
    """degree value within [-180, 180]"""
    d = deg(g, False)
    if d > 180:
        d -= 360
    if d < -180:
        d += 360
    return d


def star_polygon(g, prof, n, cx, cy, r):
    """simple polygon, star shaped around (cx, cy), with integer or dyadic vertices"""
    import math
    out = []
    cx, cy, r = cx + g.ox, cy + g.oy, r * g.zoom
    for i in range(n):
        a = 2 * math.pi * (i + 0.6 * (g.unit() - 0.5)) / n
        rr = r * (0.25 + 0.75 * g.unit())
        x, y = cx + rr * math.cos(a), cy + rr * math.sin(a)
        if prof == "i":
            x, y = round(x), round(y)
        elif prof == "d":
            x, y = round(x * 8) / 8.0, round(y * 8) / 8.0
        out.append([x, y])
    return out


def many(g):
    """compact description of a large list of points: [count, kind, seed, radius]"""
    k = g.raw(3)
    if k == 0:
        n = max(3, min(1300, int(abs(g.const(1300))) + g.int(-1, 2)))
    elif k == 1:
        n = g.pick([64, 100, 128, 200, 256, 500, 512, 1000, 1024]) + g.int(-1, 1)
    else:
        n = g.int(30, 1200)
    return [n, g.raw(3), g.int(0, 9999), g.pick([9, 60, 900])]


def many_points(desc):
    """the points so described: 0 scattered, 1 on a convex curve, 2 a spiral of steps (star shaped), 3 few distinct values"""
    import math
    n, kind, s, r = desc
    out = []
    x = s + 1
    for i in range(n):
        x = (x * 1103515245 + 12345) % 2147483648
        u = (x >> 8) % (2 * r + 1) - r
        x = (x * 1103515245 + 12345) % 2147483648
        w = (x >> 8) % (2 * r + 1) - r
        if kind == 0:
            out.append([u, w])
        elif kind == 1:
            t = (i * 7 + s) % n - n // 2
            out.append([t, t * t] if i % 2 else [t, 2 * n * n - t * t])
        elif kind == 2:
            a = 2 * math.pi * i / n
            rr = 40 * r * (0.3 + 0.7 * (w + r) / (2.0 * r))
            out.append([round(rr * math.cos(a)), round(rr * math.sin(a))])
        else:
            out.append([u % 7, w % 5])
    return out


def swarm(g, ops):
    """(operations to draw from, long?): one history in ten uses only one to four of the operations, one in 64 is long as well"""
    k = g.raw(63)
    if k < 58:
        return list(ops), False
    few = [g.pick(ops) for _ in range(g.int(1, 4))]
    return few, k == 63
