"""Inside tests and barycentric coordinates in the XY plane."""
from symex.harness import harness
G = "yapcad.geom"
M = 1e-3


def side(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


# polygons as integer vertex lists (counter-clockwise); convex ones marked
SHAPES = {
    "square": ([(0, 0), (4, 0), (4, 4), (0, 4)], True),
    "diamond": ([(2, 0), (4, 2), (2, 4), (0, 2)], True),
    "penta": ([(0, 0), (4, 0), (6, 3), (3, 6), (-1, 4)], True),
    "hexa": ([(0, 0), (4, 0), (6, 3), (4, 6), (0, 6), (-2, 3)], True),
    "ell": ([(0, 0), (4, 0), (4, 2), (2, 2), (2, 5), (0, 5)], False),
    "arrow": ([(0, 0), (3, 2), (6, 0), (3, 6)], False),
    "notch": ([(0, 0), (6, 0), (6, 6), (3, 3), (0, 6)], False),
}


def place(h, vs, cw, start):
    g = h.mod(G)
    X, Y, Z = h.real("x", -100, 100), h.real("y", -100, 100), h.real("z")
    k = h.real("k", 0.1, 50)
    vs = vs[start:] + vs[:start]
    if cw:
        vs = vs[::-1]
    return [g.point(X + k * a, Y + k * b, Z) for a, b in vs], X, Y, Z, k


def where(h, vs, u, v):
    """is (u,v) inside the integer polygon; keeps off the boundary"""
    m = 0.01
    n = len(vs)
    # not within m (in cross product) of any edge's line where that edge's span is met
    ins = False
    for i in range(n):
        a, b = vs[i], vs[(i + 1) % n]
        s = side(a, b, (u, v))
        lo, hi = min(a[0], b[0]), max(a[0], b[0])
        lo2, hi2 = min(a[1], b[1]), max(a[1], b[1])
        h.assume(h.Or(s >= m, s <= -m, u <= lo - m, u >= hi + m, v <= lo2 - m, v >= hi2 + m))
    # even-odd along -x, half-open in y
    for i in range(n):
        a, b = vs[i], vs[(i + 1) % n]
        if a[1] == b[1]:
            continue
        lo2, hi2 = min(a[1], b[1]), max(a[1], b[1])
        if v >= lo2 and v < hi2:
            s = side(a, b, (u, v))
            right = s < 0 if b[1] > a[1] else s > 0
            if right:
                ins = not ins
    return ins


@harness("seven polygons (convex and not) at any position and size, both windings, several first vertices; every point off the boundary, including those level with a vertex",
         each=[("%s/%s%d" % (n, "ccw" if not c else "cw", s), dict(n=n, c=c, s=s, _tier="quick" if (c + s) % 2 == 0 else "thorough")) for n in SHAPES for c in (0, 1) for s in (0, 1, 2)])
def polygon(h, n, c, s):
    g = h.mod(G)
    vs, convex = SHAPES[n]
    pts, X, Y, Z, k = place(h, vs, c, s)
    u, v = h.real("u", -3, 8), h.real("v", -3, 8)
    p = g.point(X + k * u, Y + k * v, Z)
    want = where(h, vs, u, v)
    poly = g.poly(*(pts + [g.point(*pts[0][:3])]))
    h.check(bool(g.isinsideXY(poly, p)) == want, "inside test of a polygon")
    if convex:
        h.check(bool(g.isInsideConvexPolyXY(p, pts)) == want, "inside test of a convex polygon")
        if s == 0:
            h.check(bool(g.isInsideConvexPolyXY(p, poly)) == want, "inside test of a closed convex polygon")


@harness("any triangle given by a vertex, two edges along any of three fixed pairs of directions of any length; any point by its barycentric coordinates",
         each=[("%d%s" % (i, "ab"[w]), dict(i=i, w=w)) for i in range(3) for w in (0, 1)])
def triangle(h, i, w):
    g = h.mod(G)
    d1, d2 = [((1, 0), (0, 1)), ((3, 1), (-1, 2)), ((1, 5), (2, 3))][i]
    X, Y, Z = h.real("x", -100, 100), h.real("y", -100, 100), h.real("z")
    n, m = h.real("n", 0.05, 100), h.real("m", 0.05, 100)
    a = g.point(X, Y, Z)
    b = g.point(X + n * d1[0], Y + n * d1[1], Z)
    c = g.point(X + m * d2[0], Y + m * d2[1], Z)
    u, v = h.real("u", -2, 3), h.real("v", -2, 3)
    p = g.point(X + u * n * d1[0] + v * m * d2[0], Y + u * n * d1[1] + v * m * d2[1], Z)
    t = [a, b, c] if not w else [c, b, a]
    l = g.barycentricXY(p, *t)
    want = [1 - u - v, u, v] if not w else [v, u, 1 - u - v]
    h.eqs(l, want, "barycentric coordinates", tol=1e-4)
    h.assume(h.And(*[h.Or(q >= 1e-4, q <= -1e-4) for q in want]))
    ins = bool(h.And(u > 0, v > 0, u + v < 1))
    h.check(bool(g.isInsideTriangleXY(p, t)) == ins, "inside test of a triangle")
    h.check(bool(g.isInsideTriangleXY(p, t + [g.point(*t[0][:3])])) == ins, "inside test of a closed triangle")


@harness("all circles and points not on the circle, points by direction (all angles) and distance")
def circle(h):
    g = h.mod(G)
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    r = h.real("r", 0.05, 100)
    d = h.real("d", 0, 300)
    a = h.angle("a", 0, 360)
    h.assume(h.Or(d <= r - 1e-4, d >= r + 1e-4))
    p = g.point(X + d * h.cosd(a), Y + d * h.sind(a), Z)
    c = g.arc(g.point(X, Y, Z), r)
    want = bool(d < r)
    h.check(bool(g.isinsideXY(c, p)) == want, "inside test of a circle")


@harness("polygons as lists of lines or one polyline at any position in the plane; a grid of points including those on diagonals through the corners",
         each=[(n, dict(n=n)) for n in ("square", "diamond", "ell")] + [("poly", dict(n="poly"))], weight=2)
def figure_list(h, n):
    g = h.mod(G)
    vs, _ = SHAPES["ell" if n == "poly" else n]
    X, Y = h.real("x", -100, 100), h.real("y", -100, 100)
    k = 2.0
    pts = [g.point(X + k * a, Y + k * b) for a, b in vs]
    u = h.choice("u", [0.5, 1.0, 2.0, 3.0])
    v = h.choice("v", [0.5, 1.0, 1.5, 2.5, 3.0, 3.5, 4.5])
    want = where(h, vs, u, v)
    if n == "poly":
        gl = [g.poly(*(pts + [pts[0]]))]
    else:
        gl = [g.line(pts[i], pts[(i + 1) % len(pts)]) for i in range(len(pts))]
    h.check(bool(g.isinsideXY(gl, g.point(X + k * u, Y + k * v))) == want, "inside test of a closed figure list")


@harness("open polylines of two edges in fixed directions: points on the polyline (any parameter), on its extensions, and beside it", each=[(k, dict(k=k)) for k in ("on", "ext", "off")])
def open_poly(h, k):
    g = h.mod(G)
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    n, m = h.real("n", 0.5, 100), h.real("m", 0.5, 100)
    v = [g.point(X, Y, Z), g.point(X + 3 * n, Y + 4 * n, Z), g.point(X + 3 * n + m, Y + 4 * n, Z)]
    p = g.poly(*v)
    e = h.choice("e", [0, 1])
    a, b = v[e], v[e + 1]
    if k == "on":
        u, o, want = h.real("u", 0, 1), 0.0, True
    elif k == "ext":
        u, o, want = (h.real("u", -3, -0.01) if e == 0 else h.real("u2", 1.01, 3)), 0.0, False
    else:
        u, o, want = h.real("u", 0.1, 0.9), h.choice("o", [1, -1]) * 0.01, False
    d = [b[0] - a[0], b[1] - a[1]]
    q = g.point(a[0] + u * d[0] - o * d[1], a[1] + u * d[1] + o * d[0], Z)
    h.check(bool(g.isinsideXY(p, q)) == want, "a point is on the polyline or not")
