"""C30 answers are invariant under rigid motions, scaling and equivalent descriptions"""
from vlib.common import *
from vlib import geo, poly

RULE = ("A case is a question (one of about 70 measures, predicates, intersections, centres, projections, hulls) on up to eight grid points in "
        "general or special position, with a motion (translation, quarter turns, reflection, scaling by 1, 2 or 4); or a shape with an equivalent "
        "description of it. Trivial: configurations at a documented tolerance (ray origin or segment end on the other shape, thin triangles, "
        "near tangency) which are not judged, and the identity motion. Distinct: different choice sequences.")
ASSUMPTIONS = ["coordinates are grid numbers and multiples of 1/8, motions map them exactly; answers are compared to 1e-7 of the extent "
               "(incentre 1e-6), predicates exactly",
               "cuts through an exact corner are not judged with coordinates beyond 150 (absolute tolerance of the code)",
               "lines, rays and segments are non-degenerate; thin triangles and nearly tangent circles are skipped"]


class Motion:
    """p -> s * R(p) + t, R = quarter turns after an optional mirror image (x -> -x)"""

    def __init__(self, turns, mirror, s, t):
        self.turns, self.mirror, self.s, self.t = turns % 4, mirror, s, t

    def pt(self, p):
        x, y = p[0], p[1]
        if self.mirror:
            x = -x
        for _ in range(self.turns):
            x, y = -y, x
        return (self.s * x + self.t[0], self.s * y + self.t[1])

    def deg(self, d):
        if self.mirror:
            d = 180 - d
        return norm180(d + 90 * self.turns)


class World:
    """the objects of a question, built from plain numbers (optionally moved)"""

    def __init__(self, pts, rs, motion=None):
        if motion:
            self.pts = [motion.pt(p) for p in pts]
            self.rs = [r * motion.s for r in rs]
        else:
            self.pts = [tuple(p) for p in pts]
            self.rs = list(rs)
        self.motion = motion

    def p(self, i):
        return v(self.pts[i])

    def line(self, i, j):
        return Line(self.p(i), self.p(j))

    def ray(self, i, j):
        return Ray(self.p(i), self.p(j))

    def seg(self, i, j):
        return Seg(self.p(i), self.p(j))

    def tri(self, i):
        return Tri(self.p(i), self.p(i + 1), self.p(i + 2))

    def circle(self, i, k):
        return Circle(self.p(i), self.rs[k])

    def poly(self, n, first=1):
        return Poly([self.p(i) for i in range(first, first + n)])

    def rect(self, i, j):
        return Rect(self.p(i), self.p(j))

    def sector(self, i, d1, d2):
        m = self.motion
        if m:
            d1, d2 = m.deg(d1), m.deg(d2)
            if m.mirror:
                d1, d2 = d2, d1
        return Sector(self.p(i), self.rs[0], self.rs[0] + self.rs[1], d1, d2)


# ---- guards (on the unmoved points): True = judge
def distinct(*idx):
    def ok(p, r):
        return all(dist(p[a], p[b]) > 0.05 for i, a in enumerate(idx) for b in idx[:i])
    return ok


def fat(i):
    def ok(p, r):
        t = [p[i], p[i + 1], p[i + 2]]
        a2 = abs(cross(*t))
        m = max(dist(t[0], t[1]), dist(t[1], t[2]), dist(t[2], t[0]))
        return a2 > 0.05 * m * m and a2 > 0.1
    return ok


def both(*fs):
    return lambda p, r: all(f(p, r) for f in fs)


def off_line(i, a, b, lim=1e-2):
    """point i clearly off the line through a and b, or exactly on it with no judgement needed -> only clearly off"""
    def ok(p, r):
        return dist(p[a], p[b]) > 0.05 and abs(cross(p[a], p[b], p[i])) > lim * dist(p[a], p[b])
    return ok


def clean_cut(verts, i, j, origin=False, ends=False):
    """the line through points i, j meets the outline of the shape well conditioned; the ray origin / segment ends are off the outline"""
    def ok(p, r):
        vs = verts(p)
        if dist(p[i], p[j]) < 0.05:
            return False
        hits, _ = geo.line_hits([fr(w) for w in vs], fr(p[i]), fr(p[j]))
        if hits is None:
            return False
        if scale_of(*p) > 150 and any(fr(w) in hits for w in vs):
            return False        # the code's absolute tolerance 1e-9 on corners is below rounding there
        if (origin or ends) and poly.outline_dist(vs, p[i]) < 1e-2:
            return False
        return not ends or poly.outline_dist(vs, p[j]) > 1e-2
    return ok


def circle_line(c, k, i, j, origin=False, ends=False):
    def ok(p, r):
        ln = dist(p[i], p[j])
        if ln < 0.05 or r[k] < 0.1:
            return False
        if any(0 < abs(p[i][k2] - p[j][k2]) < 0.02 * ln for k2 in (0, 1)):
            return False        # nearly axis-parallel lines lose digits in the code's elimination
        d = abs(cross(p[i], p[j], p[c])) / dist(p[i], p[j])
        if abs(d - r[k]) < 1e-2:
            return False
        if (origin or ends) and abs(dist(p[i], p[c]) - r[k]) < 1e-2:
            return False
        return not ends or abs(dist(p[j], p[c]) - r[k]) > 1e-2
    return ok


def circles(c1, k1, c2, k2):
    def ok(p, r):
        d = dist(p[c1], p[c2])
        return d > 0.1 and abs(d - r[k1] - r[k2]) > 1e-2 and abs(d - abs(r[k1] - r[k2])) > 1e-2 and r[k1] > 0.1 and r[k2] > 0.1
    return ok


def not_on_circle(c, k, i):
    return lambda p, r: p[c] != p[i] and abs(dist(p[c], p[i]) - r[k]) > 1e-6


def tri_v(i):
    return lambda p: [p[i], p[i + 1], p[i + 2]]


def rect_v(i, j):
    return lambda p: [p[i], (p[j][0], p[i][1]), p[j], (p[i][0], p[j][1])]


def box(i, j):
    return lambda p, r: abs(p[i][0] - p[j][0]) > 0.1 and abs(p[i][1] - p[j][1]) > 0.1


def sect_ok(i, k):
    """point k away from the border of the sector (-30..100 degrees) around i"""
    def ok(p, r):
        d = dist(p[i], p[k])
        if d < 0.1 or abs(d - r[0]) < 1e-3 or abs(d - r[0] - r[1]) < 1e-3:
            return False
        a = math.degrees(math.atan2(p[k][1] - p[i][1], p[k][0] - p[i][0]))
        return abs(ang_diff(a, -30)) > 1e-3 and abs(ang_diff(a, 100)) > 1e-3
    return ok


def hull_ok(p, r):
    h = poly.hull([fr(w) for w in p])
    if len(h) < 3 or abs(poly.shoelace(h)) <= 1:
        return False
    for i in range(len(p)):                        # nearly collinear triples are within the code's tolerance
        for j in range(i):
            for k in range(j):
                if 0 < abs(cross(p[i], p[j], p[k])) < 0.01:
                    return False
    return True


def slopes_clear(a, b, c, d):
    """parallel exactly, or far from the tolerance of the cross product"""
    def ok(p, r):
        x = abs((p[b][0] - p[a][0]) * (p[d][1] - p[c][1]) - (p[b][1] - p[a][1]) * (p[d][0] - p[c][0]))
        return x == 0 or x > 1e-4
    return ok


def foot_ok(i, a, b):
    """the foot of point i is not within the tolerance beyond an end of the segment"""
    def ok(p, r):
        l2 = (p[b][0] - p[a][0]) ** 2 + (p[b][1] - p[a][1]) ** 2
        t = ((p[i][0] - p[a][0]) * (p[b][0] - p[a][0]) + (p[i][1] - p[a][1]) * (p[b][1] - p[a][1])) / l2
        return all(x == 0 or abs(x) * math.sqrt(l2) > 1e-4 for x in (t, t - 1))
    return ok


always = lambda p, r: True
two = lambda i, j: distinct(i, j)
tri_pts = lambda res: [] if res[0] == 0 else res[1:res[0] + 1]
# name, guard, result kind, question
QUESTIONS = [
    ("point dist", always, "len", lambda w: w.p(0).dist(w.p(1))),
    ("point dist2", always, "area", lambda w: w.p(0).dist2(w.p(1))),
    ("segment length", always, "len", lambda w: w.seg(0, 1).length()),
    ("segment dist point", always, "len", lambda w: w.seg(0, 1).dist(w.p(2))),
    ("segment dist segment", both(two(0, 1), two(2, 3)), "len", lambda w: w.seg(0, 1).dist(w.seg(2, 3))),
    ("segment farthest", always, "len", lambda w: w.seg(0, 1).farthest_dist(w.p(2))),
    ("segment nearest", two(0, 1), "pt", lambda w: w.seg(0, 1).nearest_point(w.p(2))),
    ("segment projection", both(two(0, 1), foot_ok(2, 0, 1)), "pt", lambda w: w.seg(0, 1).projection(w.p(2))),
    ("on segment", two(0, 1), "bool", lambda w: w.seg(0, 1).on_segment(w.p(2))),
    ("segments meet", both(two(0, 1), two(2, 3)), "bool", lambda w: w.seg(0, 1).exist_intersection(w.seg(2, 3))),
    ("segments meet inside", both(two(0, 1), two(2, 3)), "bool", lambda w: w.seg(0, 1).exist_intersection_except_endpoint(w.seg(2, 3))),
    ("segment line meet", both(two(0, 1), two(2, 3), off_line(0, 2, 3, 1e-6), off_line(1, 2, 3, 1e-6)), "bool",
     lambda w: w.seg(0, 1).exist_intersection(w.line(2, 3))),
    ("segment line point", both(two(0, 1), two(2, 3), off_line(0, 2, 3), off_line(1, 2, 3)), "pt", lambda w: w.seg(0, 1).intersection(w.line(2, 3))),
    ("segment segment point", both(two(0, 1), two(2, 3), off_line(0, 2, 3), off_line(1, 2, 3), off_line(2, 0, 1), off_line(3, 0, 1)), "pt",
     lambda w: w.seg(0, 1).intersection(w.seg(2, 3))),
    ("perpendicular bisector", two(0, 1), "len", lambda w: w.seg(0, 1).perpendicular_bisector().dist(w.p(2))),
    ("line dist", two(0, 1), "len", lambda w: w.line(0, 1).dist(w.p(2))),
    ("line dist2", two(0, 1), "area", lambda w: w.line(0, 1).dist2(w.p(2))),
    ("line projection", two(0, 1), "pt", lambda w: w.line(0, 1).projection(w.p(2))),
    ("line perpendicular", two(0, 1), "len", lambda w: w.line(0, 1).perpendicular(w.p(2)).dist(w.p(3))),
    ("line intersection", both(two(0, 1), two(2, 3)), "pt", lambda w: w.line(0, 1).intersection(w.line(2, 3))),
    ("line parallel", both(two(0, 1), two(2, 3), slopes_clear(0, 1, 2, 3)), "bool", lambda w: w.line(0, 1).is_parallel(w.line(2, 3))),
    ("ray line", both(two(0, 1), off_line(0, 2, 3)), "pt", lambda w: w.ray(0, 1).intersection(w.line(2, 3))),
    ("ray ray", both(two(0, 1), off_line(0, 2, 3), off_line(2, 0, 1)), "pt", lambda w: w.ray(0, 1).intersection(w.ray(2, 3))),
    ("ray direction", two(0, 1), "dir", lambda w: w.ray(0, 1).dir()),
    ("segment direction", two(0, 1), "dir", lambda w: w.seg(0, 1).direction()),
    ("triangle area", always, "area", lambda w: w.tri(0).area()),
    ("triangle signed area", always, "sarea", lambda w: w.tri(0).signed_area()),
    ("triangle doubled area", always, "sarea", lambda w: w.tri(0).double_signed_area()),
    ("triangle ccw", fat(0), "orient", lambda w: w.tri(0).ccw()),
    ("triangle contains", fat(0), "bool", lambda w: w.tri(0).contains(w.p(3))),
    ("triangle valid", always, "bool", lambda w: w.tri(0).is_valid()),
    ("centroid", always, "pt", lambda w: w.tri(0).centroid()),
    ("incenter", fat(0), "pt6", lambda w: w.tri(0).incenter()),
    ("circumcenter", fat(0), "pt", lambda w: w.tri(0).circumcenter()),
    ("orthocenter", fat(0), "pt", lambda w: w.tri(0).orthocenter()),
    ("circumcircle", fat(0), "len", lambda w: Circle.circum_circle(w.p(0), w.p(1), w.p(2)).radius()),
    ("triangle line", both(fat(2), clean_cut(tri_v(2), 0, 1)), "pts", lambda w: tri_pts(w.tri(2).intersection(w.line(0, 1)))),
    ("triangle ray", both(fat(2), clean_cut(tri_v(2), 0, 1, origin=True)), "pts", lambda w: tri_pts(w.tri(2).intersection(w.ray(0, 1)))),
    ("triangle segment", both(fat(2), clean_cut(tri_v(2), 0, 1, ends=True)), "pts", lambda w: tri_pts(w.tri(2).intersection(w.seg(0, 1)))),
    ("circle area", always, "area", lambda w: w.circle(0, 0).area()),
    ("circle contains", not_on_circle(0, 0, 1), "bool", lambda w: w.circle(0, 0).contains(w.p(1))),
    ("circle line", circle_line(2, 0, 0, 1), "pts", lambda w: w.circle(2, 0).intersection(w.line(0, 1))),
    ("circle ray", circle_line(2, 0, 0, 1, origin=True), "pts", lambda w: w.circle(2, 0).intersection(w.ray(0, 1))),
    ("circle segment", circle_line(2, 0, 0, 1, ends=True), "pts", lambda w: w.circle(2, 0).intersection(w.seg(0, 1))),
    ("circle circle", circles(0, 0, 1, 1), "pts", lambda w: w.circle(0, 0).intersection(w.circle(1, 1))),
    ("polygon area", always, "area", lambda w: w.poly(7).area()),
    ("polygon signed area", always, "sarea", lambda w: w.poly(6).double_signed_area()),
    ("polygon contains", always, "bool", lambda w: w.poly(7).contains(w.p(0))),
    ("polygon contains 4", always, "bool", lambda w: w.poly(4).contains(w.p(0))),
    ("polygon contains 3 open", always, "bool", lambda w: w.poly(3).contains(w.p(0), False)),
    ("polygon contains open", always, "bool", lambda w: w.poly(5).contains(w.p(0), False)),
    ("polygon dist", always, "len", lambda w: w.poly(5).dist(w.p(0))),
    ("polygon outline dist", always, "len", lambda w: w.poly(4).dist(w.p(0), False)),
    ("polygon orientation", lambda p, r: poly.shoelace(p[1:7]) != 0, "orient", lambda w: w.poly(6).is_counter_clockwise()),
    ("polygon box", always, "box", lambda w: w.poly(6).get_bounding_box()),
    ("hull wrapping", hull_ok, "pts", lambda w: hull_of(w, P.MethodType.WRAPPING_METHOD)),
    ("hull graham", hull_ok, "pts", lambda w: hull_of(w, P.MethodType.GRAHAN_SCAN)),
    ("rect area", box(0, 1), "area", lambda w: w.rect(0, 1).area()),
    ("rect center", box(0, 1), "pt", lambda w: w.rect(0, 1).center()),
    ("rect contains", box(0, 1), "bool", lambda w: w.rect(0, 1).contains(w.p(2))),
    ("rect box", box(0, 1), "box", lambda w: w.rect(0, 1)),
    ("rect line", both(box(2, 3), clean_cut(rect_v(2, 3), 0, 1)), "pts", lambda w: w.rect(2, 3).intersection(w.line(0, 1))),
    ("rect ray", both(box(2, 3), clean_cut(rect_v(2, 3), 0, 1, origin=True)), "pts", lambda w: w.rect(2, 3).intersection(w.ray(0, 1))),
    ("rect segment", both(box(2, 3), clean_cut(rect_v(2, 3), 0, 1, ends=True)), "pts", lambda w: w.rect(2, 3).intersection(w.seg(0, 1))),
    ("rect united", both(box(0, 1), box(2, 3)), "box", lambda w: w.rect(0, 1).united(w.rect(2, 3))),
    ("sector area", lambda p, r: r[0] > 0 and r[1] > 0, "area", lambda w: w.sector(0, -30, 100).area()),
    ("sector contains", sect_ok(0, 1), "bool", lambda w: w.sector(0, -30, 100).contains(w.p(1))),
]
QUESTIONS = [x for x in QUESTIONS if x]


def hull_of(w, method):
    h = Hull([v(p) for p in w.pts])
    h.compute(method)
    return h.vertices()


def gen(g):
    prof = gn.exact_profile(g)
    r = g.pick([6, 9, 20])
    pts = gn.pts_related(g, prof, 8, 8, r)
    qi = g.raw(len(QUESTIONS) - 1)
    if g.raw(2) == 2 and QUESTIONS[qi][2] in ("bool", "orient", "len"):      # a point nearly, but not quite, where another shape is
        pts = [list(p) for p in pts]
        i, j, k, f = g.raw(7), g.raw(7), g.raw(7), g.pick([0, 0, 1, 0.5, 0.25, 2, -1, -0.5])
        if j != i != k:
            pts[i] = [pts[j][c] + f * (pts[k][c] - pts[j][c]) for c in (0, 1)]
        pts[i][g.raw(1)] += g.signed(2.0 ** -g.int(4, 20))
    m = [g.raw(3), g.raw(1), g.pick([1, 1, 2, 4]), gn.pt(g, prof, g.pick([9, 50]))]
    return [qi, pts, [gn.pos(g, prof, 12), gn.pos(g, prof, 12)], m]


def hit_points(l, name):
    """the points themselves, as plain vectors"""
    out = []
    for p in l:
        expect(isinstance(p, V), "%s: %r is not a point", name, p)
        out.append(p)
    return out


def compare(kind, a, b, m, tol, name):
    """a: answer before, b: answer after the motion"""
    s = m.s
    if kind == "bool":
        is_true(b, a, ("%s after the motion", name))
    elif kind == "orient":
        is_true(b, (not a) if m.mirror else a, ("%s after the motion", name))
    elif kind == "len":
        near(b, a * s, ("%s after the motion", name), 1e-9, tol)
    elif kind in ("area", "sarea"):
        near(b, a * s * s * (-1 if kind == "sarea" and m.mirror else 1), ("%s after the motion", name), 1e-9, tol)
    elif kind in ("pt", "pt6"):
        is_true(b.is_valid(), a.is_valid(), ("validity of the %s after the motion", name))
        if a.is_valid():
            near_pt(b, m.pt(xy(a)), ("%s after the motion", name), 0, tol * (10 if kind == "pt6" else 1) * max(1.0, scale_of(xy(a)) / 100))
    elif kind == "pts":
        same_points(hit_points(b, name), [m.pt(xy(p)) for p in hit_points(a, name)], ("%s after the motion", name), tol)
    elif kind == "dir":
        expect(abs(ang_diff(b.degree(), m.deg(a.degree()))) < 1e-9, "%s after the motion is %r, was %r", name, b, a)
    elif kind == "box":
        ca = [m.pt((a.left(), a.top())), m.pt((a.right(), a.bottom()))]
        got = (b.left(), b.top(), b.right(), b.bottom())
        want = (min(c[0] for c in ca), min(c[1] for c in ca), max(c[0] for c in ca), max(c[1] for c in ca))
        for x, y in zip(got, want):
            near(x, y, ("%s after the motion", name), 1e-12, 1e-9)


def check(case):
    qi, pts, rs, (turns, mirror, s, t) = case
    name, guard, kind, ask = QUESTIONS[qi % len(QUESTIONS)]
    fp = [tuple(p) for p in pts]
    if not guard(fp, rs):
        return None
    m = Motion(turns, mirror, s, t)
    if kind == "pts" and name.startswith(("triangle", "rect")) and not guard([m.pt(p) for p in fp], rs):
        return None
    a = ask(World(pts, rs))
    b = ask(World(pts, rs, m))
    ext = max(scale_of(*fp), scale_of(*[m.pt(p) for p in fp]))
    compare(kind, a, b, m, 1e-7 * ext, name)
    if turns == 0 and not mirror and s == 1 and t == [0, 0]:
        return None
    return name


# ---- equivalent descriptions
def perm3(tr):
    a, b, c = tr
    return [(a, b, c), (b, c, a), (c, a, b), (a, c, b), (c, b, a), (b, a, c)]


def gen_desc(g):
    prof = gn.exact_profile(g)
    r = g.pick([6, 9, 20])
    return [g.pick(["segment", "triangle", "polygon", "line", "rect", "hull", "ray", "circle"]), gn.pts_related(g, prof, 8, 8, r), g.raw(5),
            g.signed(g.pick([1, 2, 0.5, 3, 10, 0.25])), [gn.pos(g, prof, 12), gn.pos(g, prof, 12)]]


def same_pt(a, b, tol, what):
    is_true(b.is_valid(), a.is_valid(), ("validity: " + what,))
    if a.is_valid():
        near_pt(b, xy(a), (what,), 0, tol)


def check_desc(case):
    t, pts, k, mul, rs = case
    fp = [tuple(p) for p in pts]
    p = [v(x) for x in pts]
    ext = scale_of(*fp)
    tol = 1e-7 * ext
    if t == "segment":
        if fp[0] == fp[1] or fp[2] == fp[3]:
            return None
        s, r, o = Seg(p[0], p[1]), Seg(p[1], p[0]), Seg(p[2], p[3])
        o2 = Seg(p[3], p[2])
        near(r.length(), s.length(), "length of the swapped segment", 1e-12, 0)
        near(r.dist(p[4]), s.dist(p[4]), "distance to the swapped segment", 1e-9, 1e-9)
        near(r.farthest_dist(p[4]), s.farthest_dist(p[4]), "farthest distance of the swapped segment", 1e-12, 0)
        same_pt(s.nearest_point(p[4]), r.nearest_point(p[4]), tol, "nearest point of the swapped segment")
        same_pt(s.projection(p[4]), r.projection(p[4]), tol, "projection on the swapped segment")
        is_true(r.on_segment(p[4]), s.on_segment(p[4]), "on_segment of the swapped segment")
        for x in (s, r):
            for y in (o, o2):
                is_true(x.exist_intersection(y), s.exist_intersection(o), "exist_intersection of swapped segments")
                is_true(y.exist_intersection(x), s.exist_intersection(o), "exist_intersection with exchanged roles")
                is_true(x.intersects_except_endpoint(y), s.intersects_except_endpoint(o), "intersects_except_endpoint of swapped segments")
                near(x.dist(y), s.dist(o), "distance of swapped segments", 1e-9, 1e-9)
                near(y.dist(x), s.dist(o), "distance of segments with exchanged roles", 1e-9, 1e-9)
        if both(off_line(0, 2, 3), off_line(1, 2, 3), off_line(2, 0, 1), off_line(3, 0, 1))(fp, rs):
            for x, y in ((r, o), (s, o2), (o, s), (o2, r)):
                same_pt(s.intersection(o), x.intersection(y), tol, "intersection of swapped segments")
        return t
    if t == "triangle":
        base = Tri(p[0], p[1], p[2])
        pl = Poly([p[0], p[1], p[2]])
        near(pl.area(), base.area(), "area of the triangle as a polygon", 1e-12, 1e-9)
        near(pl.double_signed_area(), base.double_signed_area(), "doubled area of the triangle as a polygon", 1e-12, 1e-9)
        good = fat(0)(fp, rs)
        if good:
            is_true(pl.contains(p[3]), base.contains(p[3]), "membership in the triangle as a polygon")
            is_true(pl.is_counter_clockwise(), base.ccw(), "orientation of the triangle as a polygon")
        for a, b, c in perm3(p[:3]):
            u = Tri(a, b, c)
            near(u.area(), base.area(), "area of the reordered triangle", 1e-12, 1e-9)
            is_true(u.is_valid(), base.is_valid(), "validity of the reordered triangle")
            same_pt(base.centroid(), u.centroid(), tol, "centroid of the reordered triangle")
            if good:
                is_true(u.contains(p[3]), base.contains(p[3]), "membership in the reordered triangle")
                is_true(Tri.tri_contains(a, b, c, p[3]), base.contains(p[3]), "tri_contains")
                same_pt(base.circumcenter(), u.circumcenter(), 10 * tol, "circumcenter of the reordered triangle")
                same_pt(base.orthocenter(), u.orthocenter(), 10 * tol, "orthocenter of the reordered triangle")
                same_pt(base.incenter(), u.incenter(), 10 * tol, "incenter of the reordered triangle")
        return t + (" fat" if good else "")
    if t == "polygon":
        n = 3 + k % 5
        ring = p[1:1 + n]
        base = Poly(ring)
        q = p[0]
        vals = (base.area(), base.contains(q), base.contains(q, False), base.dist(q), base.dist(q, False))
        k2 = int(abs(mul) * 4) % n
        for name, l in (("rotated", ring[k2:] + ring[:k2]), ("reversed", ring[::-1]), ("rotated and reversed", (ring[k2:] + ring[:k2])[::-1])):
            u = Poly(l)
            near(u.area(), vals[0], ("area of the %s polygon", name), 1e-12, 1e-9)
            sg = -1 if "reversed" in name else 1
            near(u.double_signed_area(), sg * base.double_signed_area(), ("signed area of the %s polygon", name), 1e-12, 1e-9)
            is_true(u.contains(q), vals[1], ("membership in the %s polygon", name))
            is_true(u.contains(q, False), vals[2], ("open membership in the %s polygon", name))
            near(u.dist(q), vals[3], ("distance to the %s polygon", name), 1e-9, 1e-9)
            near(u.dist(q, False), vals[4], ("outline distance to the %s polygon", name), 1e-9, 1e-9)
        # inserting a point of an edge changes nothing
        mid = V((fp[1][0] + fp[2][0]) / 2, (fp[1][1] + fp[2][1]) / 2)
        u = Poly([ring[0], mid] + ring[1:])
        near(u.area(), vals[0], "area with an edge divided", 1e-12, 1e-9)
        is_true(u.contains(q), vals[1], "membership with an edge divided")
        is_true(u.contains(q, False), vals[2], "open membership with an edge divided")
        near(u.dist(q), vals[3], "distance with an edge divided", 1e-9, 1e-9)
        return t + str(n)
    if t == "line":
        if fp[0] == fp[1] or fp[2] == fp[3]:
            return None
        a = Line(p[0], p[1])
        forms = [Line(a.a() * mul, a.b() * mul, a.c() * mul), Line(p[1], p[0]), Line(a), a.copy(), Line(p1=p[0], p2=p[1]),
                 Line(a=a.a(), b=a.b(), c=a.c()), Line(l=a)]
        o = Line(p[2], p[3])
        d = cross((0, 0), (fp[1][0] - fp[0][0], fp[1][1] - fp[0][1]), (fp[3][0] - fp[2][0], fp[3][1] - fp[2][1]))
        for u in forms:
            near(u.dist(p[4]), a.dist(p[4]), "distance to the line in another form", 1e-9, 1e-9)
            near(u.dist2(p[4]), a.dist2(p[4]), "squared distance to the line in another form", 1e-9, 1e-9)
            same_pt(a.projection(p[4]), u.projection(p[4]), tol, "projection on the line in another form")
            if d == 0 or abs(d) > 0.01:
                is_true(u.is_parallel(o), a.is_parallel(o), "is_parallel of the line in another form")
                is_true(o.is_parallel(u), a.is_parallel(o), "is_parallel with exchanged roles")
                x = a.intersection(o)
                if not x.is_valid() or scale_of(xy(x)) < 1e4:
                    same_pt(x, u.intersection(o), tol * max(1.0, scale_of(xy(x)) / 10), "intersection with the line in another form")
                    same_pt(x, o.intersection(u), tol * max(1.0, scale_of(xy(x)) / 10), "intersection with exchanged roles")
            if abs(a.b()) > 0.1:
                near(u.get_y(fp[4][0]), a.get_y(fp[4][0]), "get_y of the line in another form", 1e-9, 1e-9)
            if abs(a.a()) > 0.1:
                near(u.get_x(fp[4][1]), a.get_x(fp[4][1]), "get_x of the line in another form", 1e-9, 1e-9)
            if circle_line(5, 0, 0, 1)(fp, rs):
                c = Circle(p[5], rs[0])
                same_points(hit_points(c.intersection(u), t), [xy(z) for z in hit_points(c.intersection(a), t)], "circle with the line in another form", tol)
        return t
    if t == "rect":
        if not box(0, 1)(fp, rs):
            return None
        base = Rect(p[0], p[1])
        x0, x1 = sorted((fp[0][0], fp[1][0]))
        y0, y1 = sorted((fp[0][1], fp[1][1]))
        forms = [Rect(p[1], p[0]), Rect(V(x0, y1), V(x1, y0)), Rect(V(x1, y0), V(x0, y1)), Rect(x0, y0, x1 - x0, y1 - y0),
                 Rect(V(x0, y0), x1 - x0, y1 - y0), Rect(V(x0, y0), Size(x1 - x0, y1 - y0)), Rect(base),
                 Rect.from_center((x0 + x1) / 2, (y0 + y1) / 2, x1 - x0, y1 - y0), Rect.from_center(V((x0 + x1) / 2, (y0 + y1) / 2), x1 - x0, y1 - y0)]
        pl = Poly([V(x0, y0), V(x1, y0), V(x1, y1), V(x0, y1)])
        for u in forms:
            eq((u.left(), u.top(), u.right(), u.bottom()), (x0, y0, x1, y1), "sides of the rectangle in another form")
            for q in p[2:6]:
                is_true(u.contains(q), base.contains(q), "membership in the rectangle in another form")
        near(pl.area(), base.area(), "area of the rectangle as a polygon", 1e-12, 1e-9)
        for q in p[2:]:
            is_true(pl.contains(q), base.contains(q), ("membership of %r in the rectangle %r as a polygon", q, base))
        bb = pl.get_bounding_box()
        eq((bb.left(), bb.top(), bb.right(), bb.bottom()), (x0, y0, x1, y1), "bounding box of the rectangle as a polygon")
        near_pt(pl.bounding_box_center(), xy(base.center()), "centre of the rectangle as a polygon", 0, 1e-9)
        return t
    if t == "hull":
        if not hull_ok(fp, rs):
            return None
        n = len(p)
        order = [(i * [1, 3, 5, 7][k % 4] + k) % n for i in range(n)]
        want = None
        for name, l in (("given", p), ("reordered", [p[i] for i in order]), ("reversed", p[::-1]), ("repeated", p + p[:k])):
            for method in (P.MethodType.WRAPPING_METHOD, P.MethodType.GRAHAN_SCAN):
                h = Hull(list(l))
                h.compute(method)
                got = hit_points(h.vertices(), t)
                if want is None:
                    want = [xy(z) for z in got]
                same_points(got, want, ("hull of the %s points by %s", name, method), 0)
                near(h.to_polygon().area(), abs(float(poly.shoelace(want))) / 2, "area of the hull", 1e-12, 1e-9)
        return t
    if t == "ray":
        if fp[0] == fp[1] or not off_line(0, 2, 3)(fp, rs):
            return None
        base = Ray(p[0], p[1])
        d = math.degrees(math.atan2(fp[1][1] - fp[0][1], fp[1][0] - fp[0][0]))
        far = V(fp[0][0] + 3 * (fp[1][0] - fp[0][0]), fp[0][1] + 3 * (fp[1][1] - fp[0][1]))
        o = Line(p[2], p[3])
        x = base.intersection(o)
        if x.is_valid() and scale_of(xy(x)) > 1e4:
            return None
        for u in (Ray(p[0], A(d)), Ray(p[0], d), Ray(p[0], far), base.copy(), Ray(p[0], d + 360)):
            expect(abs(ang_diff(u.dir().degree(), base.dir().degree())) < 1e-9, "direction of the ray in another form: %r, %r", u, base)
            same_pt(x, u.intersection(o), tol * max(1.0, scale_of(xy(x)) / 10), "intersection of the ray in another form")
            l = u.line()
            near(l.dist(p[4]), base.line().dist(p[4]), "line of the ray in another form", 1e-9, 1e-7 * ext)
        return t
    if not circles(0, 0, 1, 1)(fp, rs):
        return None
    a, b = Circle(p[0], rs[0]), Circle(p[1], rs[1])
    same_points(hit_points(b.intersection(a), t), [xy(z) for z in hit_points(a.intersection(b), t)], "circles with exchanged roles", tol)
    same_points(hit_points(a.intersection_with_circle(b), t), [xy(z) for z in hit_points(a.intersection(b), t)], "intersection_with_circle", tol)
    return t


SUBS = [
    Sub("motion", gen, check, "the moved question has the moved answer", n=16000, frame="ZO"),
    Sub("describe", gen_desc, check_desc, "equivalent descriptions have equal answers", n=6000, frame="ZO"),
]
