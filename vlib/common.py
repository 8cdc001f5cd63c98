"""what every check module needs"""
import math                                                                   # noqa: F401
from fractions import Fraction as F                                           # noqa: F401

from vlib import gens as gn                                                   # noqa: F401
from vlib import target
from vlib.core import (Shared, Sub, Violation, ang_diff, eq, expect, fail, is_true, near, near_pt, norm180,   # noqa: F401
                       same_points)

P = target.load()
V = P.Vector2D
A = P.AngleDeg
Line = P.Line2D
Ray = P.Ray2D
Seg = P.Segment2D
Tri = P.Triangle2D
Circle = P.Circle2D
Rect = P.Rect2D
Size = P.Size2D
Sector = P.Sector2D
Poly = P.Polygon2D
Hull = P.ConvexHull
Mat = P.Matrix2D
EPS = 1e-6


class DerivedPoint(V):
    """a caller's own kind of point"""


class DerivedAngle(A):
    """a caller's own kind of angle"""


DerivedPoint.__name__, DerivedAngle.__name__ = V.__name__, A.__name__


def v(p):
    if Shared.derived:
        return DerivedPoint(p[0], p[1])
    return Shared.get(V, (p[0], p[1])) if Shared.on else V(p[0], p[1])


def xy(p):
    return (p.x(), p.y())


def fr(p):
    """exact coordinates"""
    return (F(p[0]), F(p[1]))


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def dot(o, a, b):
    return (a[0] - o[0]) * (b[0] - o[0]) + (a[1] - o[1]) * (b[1] - o[1])


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def sgn(x):
    return (x > 0) - (x < 0)


def on_seg(a, b, p):
    """exact: p on the closed segment ab (also degenerate)"""
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) \
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def segs_meet(a, b, c, d):
    """exact: closed segments share a point"""
    o1, o2, o3, o4 = (sgn(cross(a, b, c)), sgn(cross(a, b, d)), sgn(cross(c, d, a)), sgn(cross(c, d, b)))
    if a == b:
        return on_seg(c, d, a)
    if c == d:
        return on_seg(a, b, c)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    return on_seg(a, b, c) or on_seg(a, b, d) or on_seg(c, d, a) or on_seg(c, d, b)


def seg_pt_dist(a, b, p):
    """distance from p to segment ab (floats, careful)"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    if l2 == 0:
        return dist(a, p)
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2
    if t <= 0:
        return dist(a, p)
    if t >= 1:
        return dist(b, p)
    return abs(dx * (p[1] - a[1]) - dy * (p[0] - a[0])) / math.sqrt(l2)


def nearest_on_seg(a, b, p):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    if l2 == 0:
        return a
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2
    t = max(0.0, min(1.0, t))
    return (a[0] + t * dx, a[1] + t * dy)


def unit_dir(d):
    """unit vector of a degree value (reduced exactly first)"""
    x = math.radians(float(F(d) % 360))
    return math.cos(x), math.sin(x)


def scale_of(*pts):
    m = 1.0
    for p in pts:
        m = max(m, abs(p[0]), abs(p[1]))
    return m


def angle_arg(d, as_obj):
    if as_obj and Shared.derived:
        return DerivedAngle(d)
    return (Shared.get(A, (d,)) if Shared.on else A(d)) if as_obj else d
