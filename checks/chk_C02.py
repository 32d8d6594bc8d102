"""Sampling, unsampling, length, centre and segmentation of lines, polylines and figure lists."""
from symex.harness import harness
G = "yapcad.geom"


def P(h, n, flat=False):
    g = h.mod(G)
    return g.point(h.real(n + "x"), h.real(n + "y"), 0.0 if flat else h.real(n + "z"))


def lerp(a, b, u):
    return [a[i] + u * (b[i] - a[i]) for i in range(3)]


@harness("all lines in space, all parameters (any real), all pairs of segment parameters")
def line_sample(h):
    g = h.mod(G)
    a, b = P(h, "a"), P(h, "b")
    l = g.line(a, b)
    u = h.real("u")
    h.eqs(g.sample(l, u)[:3], lerp(a, b, u), "sample is the linear interpolation", tol=1e-5)
    h.eqs(g.sample(l, 0.0)[:3], a[:3], "u=0 is the start")
    h.eqs(g.sample(l, 1.0)[:3], b[:3], "u=1 is the end")
    v = h.real("v", 0, 1)
    w = h.real("w", 0, 1)
    h.assume(h.Or(v >= w + 1e-3, v <= w - 1e-3))
    s = g.segment(l, v, w)
    h.eqs(s[0][:3], lerp(a, b, v), "segment start", tol=1e-5)
    h.eqs(s[1][:3], lerp(a, b, w), "segment end", tol=1e-5)
    h.eqs(g.center(l)[:3], lerp(a, b, 0.5), "centre")
    d = g.length(l)
    h.check(d >= 0, "length is not negative")
    h.eq(d * d, sum((a[i] - b[i]) * (a[i] - b[i]) for i in range(3)), "length is the distance of the ends", tol=1e-5)


@harness("all lines of a fixed direction (several), any start and length, any parameter", each=[("%d" % i, dict(i=i)) for i in range(4)])
def line_unsample(h, i):
    g = h.mod(G)
    d = [(1, 0, 0), (3, 4, 0), (0, -3, 4), (2, -2, 1)][i]
    a = P(h, "a")
    n = h.real("len", 0.01, 1000)
    b = g.point(*[a[k] + n * d[k] for k in range(3)])
    u = h.real("u", -3, 3)
    p = g.point(*lerp(a, b, u))
    r = g.unsample(g.line(a, b), p)
    h.check(r is not False, "a point on the line has a parameter")
    h.eq(r, u, "unsample inverts sample", tol=1e-5)
    # a point well off the line has none
    off = h.real("off", 0.01, 10)
    q = {0: (0, 1, 0), 1: (-4, 3, 0), 2: (5, 0, 0), 3: (1, 2, 2)}[i]
    n2 = off * n
    h.assume(n2 >= 1e-3)
    h.check(g.unsample(g.line(a, b), g.point(*[p[k] + off * q[k] for k in range(3)])) is False, "a point off the line has no parameter")


# edge directions of integer length, so that lengths are exact: (vector, its length)
DIRS = {
    "open2": [((1, 0, 0), 1), ((3, 4, 0), 5)],
    "open3": [((1, 0, 0), 1), ((0, 1, 0), 1), ((-4, 3, 0), 5)],
    "space3": [((0, 0, 1), 1), ((3, 0, 4), 5), ((0, -1, 0), 1)],
    "line2": [((1, 0, 0), 1), ((1, 0, 0), 1)],
    "tri": [((3, 0, 0), 3), ((0, 4, 0), 4), ((-3, -4, 0), 5)],
    "rect": [((1, 0, 0), 1), ((0, 1, 0), 1), ((-1, 0, 0), 1), ((0, -1, 0), 1)],
    "open7": [((1, 0, 0), 1), ((0, 1, 0), 1), ((3, 4, 0), 5), ((0, 0, -1), 1), ((1, 2, 2), 3), ((0, 1, 0), 1), ((1, 0, 0), 1)],
    "ell": [((1, 0, 0), 1), ((0, 1, 0), 1), ((-1, 0, 0), 1), ((0, 1, 0), 1), ((-1, 0, 0), 1), ((0, -1, 0), 1)],
}
CLOSED = ("tri", "rect", "ell")


def polyline(h, kind, exact=True):
    """vertices, edge lengths; 'tri' and 'rect' are closed"""
    g = h.mod(G)
    o = P(h, "o")
    ds = DIRS[kind]
    if kind == "tri":
        ns = [h.real("n0", 0.1, 1000)] * 3
    elif kind == "rect":
        ns = [h.real("n0", 0.1, 1000), h.real("n1", 0.1, 1000)] * 2
    elif kind == "ell":
        a, b = h.real("n0", 0.1, 1000), 2.5
        ns = [a + 1.5, 1.0, 1.5, b, a, b + 1.0]
    elif kind == "open7":
        ns = [2.0, 0.5, 1.0, h.real("n3", 0.1, 1000), 0.25, 3.0, 0.75]
    else:
        ns = [h.real("n%d" % i, 0.1, 1000) for i in range(len(ds))]
    ls = [n * d[1] for n, d in zip(ns, ds)]
    v = [o]
    for (d, _), n in zip(ds, ns):
        v.append(g.point(*[v[-1][k] + n * d[k] for k in range(3)]))
    if kind in CLOSED:
        v[-1] = g.point(*o[:3])
    return v, ls


def at(v, ls, s):
    """the point at arc length s along the vertices (forks on s)"""
    for i, n in enumerate(ls):
        if i == len(ls) - 1 or s <= n:
            return [v[i][k] + s * (v[i + 1][k] - v[i][k]) / n for k in range(3)]
        s = s - n


KINDS = ("open2", "open3", "space3", "line2", "tri", "rect", "open7", "ell")


@harness("polylines and polygons of up to 7 edges with fixed directions and arbitrary origin and edge lengths (one free length from 6 edges on); every parameter in [0,1]", each=[(k, dict(k=k)) for k in KINDS])
def poly_sample(h, k):
    g = h.mod(G)
    v, ls = polyline(h, k)
    p = g.poly(*v)
    L = sum(ls)
    h.eq(g.length(p), L, "length is the sum of the edges", tol=1e-5)
    u = h.real("u", 0, 1)
    if k in CLOSED:
        h.assume(u < 1)
    h.eqs(g.sample(p, u)[:3], at(v, ls, u * L), "sample is proportional to arc length", tol=1e-4)
    h.eqs(g.sample(p, 0.0)[:3], v[0][:3], "u=0 is the start")
    h.eqs(g.sample(p, 1.0)[:3], v[-1][:3], "u=1 is the end", tol=1e-5)
    if k not in CLOSED:
        h.eqs(g.center(p)[:3], at(v, ls, L / 2), "centre of an open polyline is its midpoint", tol=1e-4)


@harness("same polylines; every parameter", each=[(k, dict(k=k)) for k in KINDS])
def poly_unsample(h, k):
    g = h.mod(G)
    v, ls = polyline(h, k)
    p = g.poly(*v)
    u = h.real("u", 0, 1)
    h.assume(u < 1)
    q = g.sample(p, u)
    r = g.unsample(p, q)
    h.check(r is not False, "a sampled point has a parameter")
    e = (r - u) * sum(ls)
    if k in CLOSED:      # both ends are the same point
        h.check(h.Or(h.And(e <= 5e-5, e >= -5e-5), e - sum(ls) >= -5e-5, e + sum(ls) <= 5e-5), "unsample inverts sample")
    else:
        h.eq(e, 0.0, "unsample inverts sample", tol=5e-5)
    far = g.point(v[0][0] - 5000.0, v[0][1] - 300.0, v[0][2] + 7.0)
    h.check(g.unsample(p, far) is False, "a point off the polyline has no parameter")


def chain(pts, g):
    """arc-length parametrised point of a list of points"""
    return pts


@harness("same polylines; fixed pairs of parameters (ascending, descending, wrapping) and arbitrary origin and edge lengths", weight=2,
         each=[("%s/%s" % (k, m), dict(k=k, m=m)) for k in KINDS for m in ("up", "sym")] + [("%s/down" % k, dict(k=k, m="down")) for k in KINDS])
def poly_segment(h, k, m):
    g = h.mod(G)
    v, ls = polyline(h, k)
    p = g.poly(*v)
    L = sum(ls)
    closed = k in CLOSED
    if m == "sym":
        u1 = h.choice("f", [0.0, 0.25])
        u2 = h.real("u2", 0.3, 0.999)
    elif m == "up":
        u1, u2 = h.choice("uv", [(0.0, 1.0), (0.125, 0.875), (0.4, 0.6), (0.5, 1.0)])
    else:
        u1, u2 = h.choice("uv", [(1.0, 0.0), (0.875, 0.125), (0.75, 0.5)])
    if closed and m == "down" and u1 == 1.0:
        return
    s = g.segment(p, u1, u2)
    if closed and u2 == 1.0:
        u2 = 1.0 - 1e-15
    w = (u2 - u1) if u2 >= u1 or not closed else (1 + u2 - u1)
    n = len(s)
    h.check(n >= 2, "a segment is a polyline")
    tol = 2e-5
    # every vertex of the cut is on the figure at increasing arc length, edges included
    tot = sum(g.dist(s[i], s[i + 1]) for i in range(n - 1))
    want = h.abs(w * L)
    slack = tol * L if closed else 1e-6
    h.check(h.And(tot <= want + slack, tot >= want - slack), "length of the segment")
    acc = 0.0
    for i in range(n):
        if i:
            acc = acc + g.dist(s[i - 1], s[i])
        t = u1 * L + (acc if w >= 0 else -acc)
        if closed:
            if t > L:
                t = t - L
        if not (t <= L):
            t = L
        if not (t >= 0):
            t = 0.0
        q = at(v, ls, t)
        for c in range(3):
            h.check(h.And(s[i][c] - q[c] <= slack, s[i][c] - q[c] >= -slack), "the segment follows the figure")


def glist(h, kind):
    """a list of lines and polylines following one another, with the vertices of the whole"""
    g = h.mod(G)
    v, ls = polyline(h, kind)
    if kind == "open3":
        gl = [g.line(v[0], v[1]), g.line(v[1], v[2]), g.line(v[2], v[3])]
    elif kind == "rect":
        gl = [g.line(v[0], v[1]), g.poly(v[1], v[2], v[3]), g.line(v[3], v[4])]
    else:
        gl = [g.line(v[0], v[1]), g.poly(v[1], v[2], v[3])]
    return gl, v, ls


@harness("figure lists of lines and polylines of fixed directions, arbitrary lengths and origin; every parameter", each=[(k, dict(k=k)) for k in ("open3", "rect", "space3")], weight=2)
def list_sample(h, k):
    g = h.mod(G)
    gl, v, ls = glist(h, k)
    L = sum(ls)
    u = h.real("u", 0, 1)
    h.assume(u < 1)
    q = g.sample(gl, u)
    h.eqs(q[:3], at(v, ls, u * L), "sample is proportional to arc length", tol=1e-4)
    h.eq(g.length(gl), L, "length", tol=1e-4)
    h.eqs(g.sample(gl, 1.0)[:3], v[-1][:3], "u=1 is the end", tol=1e-5)
    r = g.unsample(gl, q)
    h.check(r is not False, "a sampled point has a parameter")
    h.eq(r, u, "unsample inverts sample", tol=1e-5)


@harness("figure lists; fixed parameter pairs", each=[("%s/%d" % (k, c), dict(k=k, c=c)) for k, c in (("open3", 0), ("rect", 0), ("rect", 1), ("space3", 0))], weight=2)
def list_segment(h, k, c):
    g = h.mod(G)
    gl, v, ls = glist(h, k)
    L = sum(ls)
    closed = bool(c) and k == "rect"
    u1, u2 = h.choice("uv", [(0.0, 1.0), (0.1, 0.9), (0.3, 0.45)] + ([(0.8, 0.3)] if closed else [(0.0, 0.25)]))
    s = g.segmentgeomlist(gl, u1, u2, closed=closed)
    pts = []
    for e in s:
        pts += [e[i] for i in range(len(e))]
    w = u2 - u1 if u2 > u1 else 1 + u2 - u1
    slack = 2e-5 * L
    acc = 0.0
    for i, q in enumerate(pts):
        if i:
            acc = acc + g.dist(pts[i - 1], q)
        t = u1 * L + acc
        if closed and t > L:
            t = t - L
        if not (t <= L):
            t = L
        x = at(v, ls, t)
        for j in range(3):
            h.check(h.And(q[j] - x[j] <= slack, q[j] - x[j] >= -slack), "the segment follows the figure")
    h.check(h.And(acc <= w * L + slack, acc >= w * L - slack), "length of the segment")


@harness("lists of lines, polylines and arcs; arbitrary coordinates; two reversals")
def reverse(h):
    g = h.mod(G)
    a, b, c, d = (P(h, n) for n in "abcd")
    gl = [g.line(a, b), g.poly(b, c, d), [g.line(d, a), b]]
    r = g.reverseGeomList(gl)
    h.check(len(r) == 3, "reversal keeps the number of figures")
    h.eqs([q[:3] for q in r[0][1]], [q[:3] for q in (a, d)], "nested line reversed")
    h.eqs(r[0][0][:3], b[:3], "nested point kept, order reversed")
    h.eqs([q[:3] for q in r[1]], [q[:3] for q in (d, c, b)], "polyline reversed")
    h.eqs([q[:3] for q in r[2]], [q[:3] for q in (b, a)], "line reversed")
    h.check(g.reverseGeomList(r) == gl, "reversing twice is the identity")
