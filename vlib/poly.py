"""Exact polygon references: shoelace, even-odd membership, outline test, clipping, convex hull.

All functions work on exact numbers (ints, Fractions) and on floats that are small dyadic numbers."""
from fractions import Fraction as F

from vlib.common import cross, on_seg, seg_pt_dist, sgn


def shoelace(p):
    n = len(p)
    if n < 3:
        return 0
    return sum(p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1] for i in range(n))


def on_outline(p, q):
    n = len(p)
    return any(on_seg(p[i], p[(i + 1) % n], q) for i in range(n))


def even_odd(p, q):
    """parity of the crossings of the ray to the right (q not on the outline)"""
    inside = False
    n = len(p)
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        if (a[1] > q[1]) != (b[1] > q[1]):
            # orientation of q with respect to the upward edge
            lo, hi = (a, b) if a[1] < b[1] else (b, a)
            if cross(lo, hi, q) > 0:
                inside = not inside
    return inside


def outline_dist(p, q):
    n = len(p)
    if n == 1:
        return seg_pt_dist(p[0], p[0], q)
    return min(seg_pt_dist(p[i], p[(i + 1) % n], q) for i in range(n))


def clip_half(p, axis, sign, c, cut=None):
    """Sutherland-Hodgman against sign * coordinate <= sign * c; the cut is placed at `cut` (default c)"""
    if cut is None:
        cut = c
    out = []
    n = len(p)
    ins = [sign * w[axis] <= sign * c for w in p]
    for i in range(n):
        a, b = p[i], p[(i + 1) % n]
        ia, ib = ins[i], ins[(i + 1) % n]
        if ia != ib:
            t = (cut - a[axis]) / (b[axis] - a[axis])
            x = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            out.append(x)
        if ib:
            out.append(b)
    return out


def clip_rect(p, x0, x1, y0, y1, bottom_cut=None):
    p = clip_half(p, 0, 1, x1)
    p = clip_half(p, 1, 1, y1, bottom_cut)
    p = clip_half(p, 0, -1, x0)
    return clip_half(p, 1, -1, y0)


def hull(points):
    """strict convex hull (extreme points only), counterclockwise, from the smallest (x, y)"""
    pts = sorted(set(points))
    if len(pts) < 3:
        return pts
    lo, up = [], []
    for p in pts:
        while len(lo) > 1 and cross(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    for p in reversed(pts):
        while len(up) > 1 and cross(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1] + up[:-1]
