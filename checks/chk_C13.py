"""Geometry and Polygon objects: what they report is that of the figure they hold now."""
import math
from symex.harness import harness
GY = "yapcad.geometry"
G = "yapcad.geom"
G3 = "yapcad.geom3d"
PY = "yapcad.poly"
X = "yapcad.xform"

# a figure is a list of pieces: ("l", p, q) or ("a", centre, radius, from, to) with from -> to in degrees, either way round
FIG = {
    "line": [("l", (1, 2), (4, 6))],
    "open": [("l", (0, 0), (4, 0)), ("l", (4, 0), (4, 3)), ("l", (4, 3), (1, 7))],
    "triangle": [("l", (0, 0), (4, 0)), ("l", (4, 0), (4, 3)), ("l", (4, 3), (0, 0))],
    "notched": [("l", (0, 0), (6, 0)), ("l", (6, 0), (6, 4)), ("l", (6, 4), (3, 4)), ("l", (3, 4), (3, 2)), ("l", (3, 2), (0, 2)), ("l", (0, 2), (0, 0))],
    "arc": [("a", (1, 2), 3, 0, 90)],
    "circle": [("a", (1, 2), 3, 0, 360)],
    "quarter": [("l", (1, 0), (3, 0)), ("a", (0, 0), 3, 0, 90), ("l", (0, 3), (0, 1)), ("a", (0, 0), 1, 90, 0)],
    "chain": [("l", (0, 0), (3, 4)), ("l", (3, 4), (3, 5)), ("a", (3, 7), 2, 270, 360)],
}
CLOSED = {"triangle": 6.0, "notched": 18.0, "circle": math.pi * 9, "quarter": math.pi * 2}
IN = {"triangle": (3, 1), "notched": (1.5, 1), "circle": (2, 3), "quarter": (1.4, 1.4)}
OUT = {"triangle": (1, 2), "notched": (1.5, 3), "circle": (4, 4.5), "quarter": (0.5, 0.4)}


def build(g, k):
    f = FIG[k]
    P = lambda p: g.point(*p)
    if all(s[0] == "l" for s in f):
        return g.line(P(f[0][1]), P(f[0][2])) if k == "line" else [P(f[0][1])] + [P(s[2]) for s in f]
    c = []
    for s in f:
        if s[0] == "l":
            c.append(g.line(P(s[1]), P(s[2])))
        elif s[3] <= s[4]:
            c.append(g.arc(P(s[1]), s[2], s[3], s[4]))
        else:
            c.append(g.arc(P(s[1]), s[2], s[4], s[3], samplereverse=True))
    return c[0] if len(c) == 1 else c


def plen(s):
    return math.dist(s[1], s[2]) if s[0] == "l" else math.radians(abs(s[4] - s[3])) * s[2]


def pat(s, t):
    if s[0] == "l":
        return tuple(s[1][i] + t * (s[2][i] - s[1][i]) for i in (0, 1))
    a = math.radians(s[3] + t * (s[4] - s[3]))
    return (s[1][0] + s[2] * math.cos(a), s[1][1] + s[2] * math.sin(a))


def at(f, u):
    """the point at the part u of the length"""
    d = u * sum(plen(s) for s in f)
    for s in f:
        if d <= plen(s) or s is f[-1]:
            return pat(s, min(1.0, d / plen(s)))
        d -= plen(s)


class Map:
    """x -> k * M x + t with a matrix of numbers M, an arbitrary k > 0 and an arbitrary t"""
    def __init__(s):
        s.M = ((1.0, 0.0), (0.0, 1.0))
        s.k = 1.0
        s.t = [0.0, 0.0, 0.0]
        s.rev = False

    def lin(s, p):
        return [s.M[i][0] * p[0] + s.M[i][1] * p[1] for i in (0, 1)]

    def __call__(s, p):
        q = s.lin(p)
        return [s.k * q[0] + s.t[0], s.k * q[1] + s.t[1], s.t[2]]

    def after(s, A, k=1.0, about=(0.0, 0.0), z=1.0):
        s.M = tuple(tuple(sum(A[i][m] * s.M[m][j] for m in (0, 1)) for j in (0, 1)) for i in (0, 1))
        s.k = s.k * k
        d = [s.t[0] - about[0], s.t[1] - about[1]]
        s.t = [about[i] + k * (A[i][0] * d[0] + A[i][1] * d[1]) for i in (0, 1)] + [s.t[2] * k * z]


def move(h, o, x, m, n):
    """does step o to the object and to the map"""
    g, xf = h.mod(G), h.mod(X)
    I = ((1.0, 0.0), (0.0, 1.0))
    if o == "T":
        d = [h.real("t%d%s" % (n, c), -20, 20) for c in "xyz"]
        x.translate(g.point(*d))
        m.t = [m.t[i] + d[i] for i in range(3)]
    elif o == "S":
        k = h.real("k%d" % n, 0.3, 4)
        x.scale(k, cent=g.point(2.0, -1.0))
        m.after(I, k, (2.0, -1.0))
    elif o == "R":
        x.rotate(90, g.point(1.0, 3.0))
        m.after(((0.0, -1.0), (1.0, 0.0)), 1.0, (1.0, 3.0))
    elif o == "r":
        x.rotate(-30)
        c, q = math.cos(math.pi / 6), math.sin(math.pi / 6)
        m.after(((c, q), (-q, c)))
    elif o in "XY":
        x.mirror("xz" if o == "X" else "yz")
        m.after(((1.0, 0.0), (0.0, -1.0)) if o == "X" else ((-1.0, 0.0), (0.0, 1.0)))
        m.rev = not m.rev
    elif o == "Z":
        x.mirror("yz", keepSign=False)
        m.after(((-1.0, 0.0), (0.0, 1.0)))
    else:
        d = [h.real("t%d%s" % (n, c), -20, 20) for c in "xyz"]
        x.transform(xf.Translation(g.point(*d)))
        m.t = [m.t[i] + d[i] for i in range(3)]


def extent(f, m):
    """the box of the pieces under the linear part"""
    P = []
    for s in f:
        P += [m.lin(pat(s, 0)), m.lin(pat(s, 1))]
        if s[0] == "a":
            c = m.lin(s[1])
            for i in (0, 1):
                for v in (-1, 1):
                    # the extreme point, and where it was
                    e = (v * m.M[i][0], v * m.M[i][1])
                    a = math.degrees(math.atan2(e[1], e[0]))
                    lo, hi = min(s[3], s[4]), max(s[3], s[4])
                    if any(lo - 1e-9 <= a + 360 * w <= hi + 1e-9 for w in (-1, 0, 1, 2)):
                        P.append(m.lin((s[1][0] + s[2] * e[0], s[1][1] + s[2] * e[1])))
    return [min(p[i] for p in P) for i in (0, 1)], [max(p[i] for p in P) for i in (0, 1)]


def native(h):
    """The triangulator is native code. It is stood for by clipping ears, and by the fan of a convex outline; the checks use only that
    its triangles cover the outline."""
    if not hasattr(h, "eng"):
        return
    t = h.mod("yapcad.triangulator")
    h.assume(hasattr(t, "_earcut") and hasattr(t._earcut, "triangulate_float32"))

    def left(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

    class E:
        def triangulate_float32(self, v, ends):
            h.assume(len(ends) == 1)
            n = int(ends[0])
            p = [(v[i][0], v[i][1]) for i in range(n)]
            if n != 6:
                return [k for i in range(1, n - 1) for k in (0, i, i + 1)]
            rest, r = list(range(n)), []
            while len(rest) > 2:
                for i in range(len(rest)):
                    a, b, c = rest[i - 1], rest[i], rest[(i + 1) % len(rest)]
                    if h.valid(left(p[a], p[b], p[c]) > 0) and not any(h.feasible(h.And(left(p[a], p[b], p[q]) >= 0, left(p[b], p[c], p[q]) >= 0, left(p[c], p[a], p[q]) >= 0)) for q in rest if q not in (a, b, c)):
                        break
                else:
                    h.assume(False)
                r += [a, b, c]
                rest.remove(b)
            return r
    t._earcut = E()


def query(h, x, k):
    """ask for everything that may be remembered"""
    x.length, x.bbox, x.center, x.geom
    if k in CLOSED and k != "quarter":
        x.surface(10.0, 0.5)
    x.sample(0.3)


def current(h, x, k, m, order):
    g, f = h.mod(G), FIG[k]
    if m.rev:
        f = [(s[0], s[2], s[1]) if s[0] == "l" else (s[0], s[1], s[2], s[4], s[3]) for s in reversed(f)]
    tol = 1e-4

    def length():
        h.eq(x.length, m.k * sum(plen(s) for s in f), "length", tol=tol)

    def box():
        lo, hi = extent(f, m)
        b = x.bbox
        h.eqs(b[0][:3], [m.k * lo[0] + m.t[0], m.k * lo[1] + m.t[1], m.t[2]], "bounding box", tol=tol)
        h.eqs(b[1][:3], [m.k * hi[0] + m.t[0], m.k * hi[1] + m.t[1], m.t[2]], "bounding box", tol=tol)

    def onit(y, u, what):
        p = y.sample(u)
        if k == "circle":       # where a circle starts is open
            c = m(f[0][1])
            h.eq((p[0] - c[0]) * (p[0] - c[0]) + (p[1] - c[1]) * (p[1] - c[1]), (3 * m.k) * (3 * m.k), what, tol=1e-3)
            h.eq(p[2], c[2], what, tol=tol)
        else:
            h.eqs(p[:3], m(at(f, u)), what, tol=tol)

    def samples():
        for u in (0.0, 0.13, 0.5, 0.77):
            onit(x, u, "sampled points")

    def centre():
        if k in ("quarter", "chain"):
            return
        c = f[0][1] if k == "circle" else at(f, 0.5) if k not in CLOSED else [sum(q[1][i] for q in f) / len(f) for i in (0, 1)]
        h.eqs(x.center[:3], m(c), "centre", tol=tol)

    def figure():
        y = h.mod(GY).Geometry(x.geom)
        for u in (0.2, 0.9):
            onit(y, u, "points of the figure")
        h.check(x.isclosed() == (k in CLOSED) and x.iscontinuous() and x.issampleable(), "kind of figure")

    def surface():
        if k not in CLOSED or k == "quarter":
            return
        s = x.surface(10.0, 0.5)
        a = 0
        for t in s[3]:
            p, q, r = (s[1][i] for i in t)
            a = a + ((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])) / 2
        w = m.k * m.k * CLOSED[k]
        h.check(h.And(abs(a) >= 0.9 * w, abs(a) <= 1.01 * w), "area of the surface")
        lo, hi = extent(f, m)
        h.check(h.And(*[h.And(p[i] >= m.k * lo[i] + m.t[i] - 1e-4, p[i] <= m.k * hi[i] + m.t[i] + 1e-4) for p in s[1] for i in (0, 1)]), "surface in place")
        h.check(h.And(*[h.And(p[2] - m.t[2] <= tol, m.t[2] - p[2] <= tol) for p in s[1]]), "surface in its plane")

    L = [length, box, samples, figure, surface, centre]
    for i in range(6):
        L[(i + order) % 6]()


HIST = ["T", "S", "R", "r", "X", "Y", "Z", "M", "TS", "SR", "RX", "XT", "YS", "TX", "rT", "SY", "RR", "XX", "XY"]
DEEP = ["TSR", "XRT", "SXS", "RTY", "YXR", "rXr", "TRS", "ZTX"]


@harness("eight figures; histories of moves with arbitrary offsets and factors, everything asked before each move", floats=True,
         each=[("%s/%s" % (k, s), dict(k=k, hist=s, order=(i + j) % 6, **({} if len(s) == 1 or k in ("triangle", "arc") else {"_tier": "thorough"})))
               for i, k in enumerate(FIG) for j, s in enumerate(HIST) if not (s == "M" and any(q[0] == "a" for q in FIG[k]))] +
              [("%s/%s" % (k, s), dict(k=k, hist=s, order=(i + j) % 6, _tier="thorough")) for i, k in enumerate(FIG) for j, s in enumerate(DEEP)])
def history(h, k, hist, order):
    native(h)
    g = h.mod(G)
    fig = build(g, k)
    x = h.mod(GY).Geometry(fig)
    m = Map()
    for n, o in enumerate(hist):
        query(h, x, k)
        move(h, o, x, m, n)
    current(h, x, k, m, order)
    h.check(fig == build(g, k), "the figure it was made from stays as it was")


@harness("six figures: moving a copy or altering what was handed out", floats=True, each=[(k, dict(k=k)) for k in ("line", "triangle", "notched", "arc", "circle", "quarter")])
def copies(h, k):
    native(h)
    g = h.mod(G)
    x = h.mod(GY).Geometry(build(g, k))
    query(h, x, k)
    y = h.mod(GY).Geometry(x)
    m, e = Map(), Map()
    move(h, "T", y, m, 0)
    z = x.geom
    while isinstance(z[0], list):
        z = z[0]
    z[0] = h.real("other", -50, 50)
    current(h, x, k, e, 0)
    current(h, y, k, m, 1)


@harness("points inside and outside closed figures that were moved", floats=True, each=[("%s/%s" % (k, s), dict(k=k, hist=s)) for k in CLOSED for s in ("T", "S", "R", "X") if k != "quarter" or s in "RX"])
def inside(h, k, hist):
    native(h)
    g = h.mod(G)
    x = h.mod(GY).Geometry(build(g, k))
    m = Map()
    for n, o in enumerate(hist):
        query(h, x, k)
        move(h, o, x, m, n)
        m.t[2] = 0.0 if o != "T" else m.t[2]
    if hist == "T":
        x.translate(g.point(0, 0, -m.t[2]))
        m.t[2] = 0.0
    h.check(bool(x.isinsideXY(g.point(*m(IN[k])))) is True, "inside")
    h.check(bool(x.isinsideXY(g.point(*m(OUT[k])))) is False, "outside")


@harness("lines crossing figures that were moved", floats=True, each=[("%s/%s" % (k, s), dict(k=k, hist=s)) for k in ("line", "open", "triangle", "notched", "arc", "circle") for s in ("T", "S", "R", "X")])
def crossing(h, k, hist):
    native(h)
    g = h.mod(G)
    x = h.mod(GY).Geometry(build(g, k))
    m = Map()
    for n, o in enumerate(hist):
        query(h, x, k)
        if o == "T":
            d = [h.real("t" + c, -20, 20) for c in "xy"]
            x.translate(g.point(*d))
            m.t = d + [0.0]
        else:
            move(h, o, x, m, n)
    a, b = {"line": ((0, 4), (4, 4)), "open": ((2, -1), (2, 1)), "triangle": ((3, -1), (3, 5)), "notched": ((1, 3), (5, -1)), "arc": ((1, 2), (7, 10)), "circle": ((1, 2), (7, 10))}[k]
    want = {"line": [(2.5, 4)], "open": [(2, 0)], "triangle": [(3, 0), (3, 2.25)], "notched": [(2, 2), (4, 0)], "arc": [(2.8, 4.4)], "circle": [(2.8, 4.4)]}[k]
    r = x.intersectXY(g.line(g.point(*m(a)), g.point(*m(b))))
    h.check(bool(r) and len(r) == len(want), "as many crossings")
    for w in want:
        w = m(w)
        h.check(h.Or(*[h.And(*[abs(q[i] - w[i]) <= 1e-4 for i in (0, 1)]) for q in r]), "crossings")


# ---- solids -----------------------------------------------------------------------------------------------
@harness("a box moved about: arbitrary offsets, factors and size", floats=True, each=[(s, dict(hist=s)) for s in ("T", "S", "R", "x", "y", "z", "TS", "xT", "Sz", "RT", "zz", "SR", "TT", "Rx")])
def solid_history(h, hist):
    g, g3 = h.mod(G), h.mod(G3)
    L = h.real("length", 0.5, 20)
    x = h.mod(GY).Geometry(h.mod("yapcad.geom3d_util").prism(L, 2.0, 3.0, g.point(5.0, -4.0, 7.0)))
    lo, hi = [5.0 - L / 2, -5.0, 5.5], [5.0 + L / 2, -3.0, 8.5]
    vol = 6.0 * L
    for n, o in enumerate(hist):
        x.bbox, x.length, x.center
        if o == "T":
            d = [h.real("t%d%s" % (n, c), -20, 20) for c in "xyz"]
            x.translate(g.point(*d))
            lo, hi = [lo[i] + d[i] for i in range(3)], [hi[i] + d[i] for i in range(3)]
        elif o == "S":
            k = h.real("k%d" % n, 0.3, 4)
            x.scale(k, cent=g.point(1.0, 2.0, -1.0))
            c = (1.0, 2.0, -1.0)
            lo, hi = [c[i] + k * (lo[i] - c[i]) for i in range(3)], [c[i] + k * (hi[i] - c[i]) for i in range(3)]
            vol = vol * k * k * k
        elif o == "R":
            x.rotate(90)
            lo, hi = [-hi[1], lo[0], lo[2]], [-lo[1], hi[0], hi[2]]
        else:
            i = "xyz".index(o)
            x.mirror({"x": "yz", "y": "xz", "z": "xy"}[o])
            lo[i], hi[i] = -hi[i], -lo[i]
    b = x.bbox
    h.eqs(b[0][:3], lo, "bounding box", tol=1e-4)
    h.eqs(b[1][:3], hi, "bounding box", tol=1e-4)
    s = x.geom
    h.check(g3.issolid(s, fast=False), "still a solid")
    v = 0
    for su in s[1]:
        for t in su[3]:
            p, q, r = (su[1][i] for i in t)
            v = v + (p[0] * (q[1] * r[2] - q[2] * r[1]) + p[1] * (q[2] * r[0] - q[0] * r[2]) + p[2] * (q[0] * r[1] - q[1] * r[0])) / 6
    h.eq(v, vol, "volume, facets outwards", tol=1e-3)


# ---- surfaces at other resolutions --------------------------------------------------------------------------
RES = {"finer angle": [(20.0, 0.5), (5.0, 0.5)], "coarser angle": [(5.0, 0.5), (20.0, 0.5)], "finer": [(5.0, 2.0), (5.0, 0.2)], "coarser": [(5.0, 0.2), (5.0, 2.0)],
       "there and back": [(10.0, 0.5), (10.0, 2.0), (10.0, 0.5)], "as given": [None, (30.0, 3.0), None]}


@harness("surfaces of figures at an arbitrary place, asked for at one resolution after another", floats=True,
         each=[("%s/%s" % (k, n), dict(k=k, n=n)) for k in ("circle", "notched", "pie") for n in RES if k != "notched" or n in ("finer", "as given")])
def resolutions(h, k, n):
    native(h)
    g = h.mod(G)
    d = [h.real("t" + c, -20, 20) for c in "xy"]

    def fig():
        x = h.mod(GY).Geometry(build(g, k) if k != "pie" else [g.line(g.point(0, 0), g.point(3, 0)), g.arc(g.point(0, 0), 3, 0, 90), g.line(g.point(0, 3), g.point(0, 0))])
        x.translate(g.point(*d))
        return x
    x = fig()
    for q in RES[n]:
        s = x.surface(*(q or ()))
        t = fig().surface(*(q or ()))
        h.check(len(s[1]) == len(t[1]) and s[3] == t[3], "the surface at that resolution")
        h.eqs([c for p in s[1] for c in p[:3]], [c for p in t[1] for c in p[:3]], "the surface at that resolution", tol=1e-9)
    if k == "circle":       # as many corners as a resolution asks for
        h.check(len(fig().surface(5.0, 0.1)[1]) > len(fig().surface(30.0, 3.0)[1]), "finer surfaces have more corners")
