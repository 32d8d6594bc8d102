"""Polygon objects: the outline through points, lines, arcs and rounded corners, and the outlines grown from them."""
import math
from symex.harness import harness
G = "yapcad.geom"
PY = "yapcad.poly"
TOL = 1e-4

# elements: ("p", point), ("l", from, to), ("a", centre, radius, from, to), ("c", centre, radius)
# outline pieces: ("l", p, q) or ("a", centre, radius, from, to)
MIX = {
    "points": ([("p", (0, 0)), ("p", (4, 0)), ("p", (4, 3))],
               [("l", (0, 0), (4, 0)), ("l", (4, 0), (4, 3)), ("l", (4, 3), (0, 0))]),
    "notched points": ([("p", (0, 0)), ("p", (6, 0)), ("p", (6, 4)), ("p", (3, 4)), ("p", (3, 2)), ("p", (0, 2))],
                       [("l", (0, 0), (6, 0)), ("l", (6, 0), (6, 4)), ("l", (6, 4), (3, 4)), ("l", (3, 4), (3, 2)), ("l", (3, 2), (0, 2)), ("l", (0, 2), (0, 0))]),
    "point, line, point": ([("p", (0, 0)), ("l", (4, 0), (4, 3)), ("p", (0, 3))],
                           [("l", (0, 0), (4, 0)), ("l", (4, 0), (4, 3)), ("l", (4, 3), (0, 3)), ("l", (0, 3), (0, 0))]),
    "two lines": ([("l", (0, 0), (4, 0)), ("l", (4, 3), (0, 3))],
                  [("l", (0, 0), (4, 0)), ("l", (4, 0), (4, 3)), ("l", (4, 3), (0, 3)), ("l", (0, 3), (0, 0))]),
    "line, point": ([("l", (0, 0), (4, 0)), ("p", (4, 3))],
                    [("l", (0, 0), (4, 0)), ("l", (4, 0), (4, 3)), ("l", (4, 3), (0, 0))]),
    "point, arc, point": ([("p", (0, 0)), ("a", (4, 1), 1, 270, 360), ("p", (5, 4))],
                          [("l", (0, 0), (4, 0)), ("a", (4, 1), 1, 270, 360), ("l", (5, 1), (5, 4)), ("l", (5, 4), (0, 0))]),
    "line, arc": ([("l", (0, 0), (6, 0)), ("a", (3, 0), 2, 0, 180)],
                  [("l", (0, 0), (6, 0)), ("l", (6, 0), (5, 0)), ("a", (3, 0), 2, 0, 180), ("l", (1, 0), (0, 0))]),
    "arc, arc": ([("a", (3, 0), 2, 270, 90), ("a", (0, 0), 2, 90, 270)],
                 [("a", (3, 0), 2, 270, 450), ("l", (3, 2), (0, 2)), ("a", (0, 0), 2, 90, 270), ("l", (0, -2), (3, -2))]),
    "belt": ([("c", (0, 0), 1), ("c", (4, 0), 1)],
             [("l", (0, -1), (4, -1)), ("a", (4, 0), 1, 270, 450), ("l", (4, 1), (0, 1)), ("a", (0, 0), 1, 90, 270)]),
}


def place(h, deep):
    """an arbitrary place, an arbitrary size"""
    if deep == "at":
        return [h.real("x", -50, 50), h.real("y", -50, 50), 0.0], 1.0
    if deep == "size":
        return [3.0, -2.0, 0.0], h.real("k", 0.4, 10)
    return [h.real("x", -50, 50), h.real("y", -50, 50), 0.0], h.real("k", 0.4, 10)


def elements(h, els, o, k):
    g = h.mod(G)
    P = lambda p: g.point(o[0] + k * p[0], o[1] + k * p[1])
    r = []
    for e in els:
        if e[0] == "p":
            r.append(P(e[1]))
        elif e[0] == "l":
            r.append(g.line(P(e[1]), P(e[2])))
        elif e[0] == "a":
            r.append(g.arc(P(e[1]), k * e[2], e[3], e[4]))
        else:
            r.append(g.arc(P(e[1]), k * e[2]))
    return r


def polygon(h, els, o, k, how):
    py = h.mod(PY)
    E = elements(h, els, o, k)
    if how == "list":
        return py.Polygon(E)
    p = py.Polygon()
    for e, s in zip(E, els):
        {"p": p.addPoint, "l": p.addLine, "a": p.addArc, "c": p.addArc}[s[0]](e)
    return p


def plen(s):
    return math.dist(s[1], s[2]) if s[0] == "l" else math.radians(s[4] - s[3]) * s[2]


def pat(s, t):
    if s[0] == "l":
        return tuple(s[1][i] + t * (s[2][i] - s[1][i]) for i in (0, 1))
    a = math.radians(s[3] + t * (s[4] - s[3]))
    return (s[1][0] + s[2] * math.cos(a), s[1][1] + s[2] * math.sin(a))


def at(f, u):
    d = (u % 1.0) * sum(plen(s) for s in f)
    for s in f:
        if d <= plen(s) or s is f[-1]:
            return pat(s, min(1.0, d / plen(s)))
        d -= plen(s)


def extent(f):
    P = []
    for s in f:
        P += [pat(s, 0), pat(s, 1)]
        if s[0] == "a":
            P += [pat(("a", s[1], s[2], a, a), 0) for a in range(-360, 810, 90) if s[3] <= a <= s[4]]
    return [min(p[i] for p in P) for i in (0, 1)], [max(p[i] for p in P) for i in (0, 1)]


def same(h, p, q):
    return h.And(*[h.And(p[i] - q[i] <= TOL, q[i] - p[i] <= TOL) for i in range(3)])


def outline(h, x, f, m, k):
    """x is the closed figure of the pieces f under m, which scales by k, begun at the corner it pleases"""
    g = h.mod(G)
    h.eq(x.length, k * sum(plen(s) for s in f), "length", tol=TOL)
    lo, hi = extent(f)
    lo, hi = m(lo), m(hi)
    b = x.bbox
    h.eqs(b[0][:3], lo, "bounding box", tol=TOL)
    h.eqs(b[1][:3], hi, "bounding box", tol=TOL)
    p = x.sample(0.0)
    for j in range(len(f)):
        if h.valid(same(h, p, m(pat(f[j], 0)))):
            break
    else:
        h.check(False, "begins at a corner")
        return
    f = f[j:] + f[:j]
    for u in (0.0, 0.07, 0.31, 0.45, 0.62, 0.86, 1.0, 1.31):
        h.eqs(x.sample(u)[:3], m(at(f, u)), "sampled points", tol=TOL)
    geom = x.geom
    h.check(x.isclosed() and g.iscontinuousgeomlist(geom) and g.isclosedgeomlist(geom), "one closed outline")
    for u in (0.2, 0.7):
        h.eqs(g.sample(geom, u)[:3], m(at(f, u)), "points of the outline", tol=TOL)


@harness("figures of points, lines, arcs and circles at an arbitrary place or of an arbitrary size", floats=True,
         each=[("%s/%s" % (n, d), dict(name=n, deep=d, how="list" if n in ("points", "point, arc, point", "arc, arc", "belt") and d == "size" else "add")) for n in MIX for d in ("at", "size")] +
              [("%s/both" % n, dict(name=n, deep="both", how="add", _tier="thorough")) for n in MIX])
def built(h, name, deep, how):
    o, k = place(h, deep)
    els, f = MIX[name]
    x = polygon(h, els, o, k, how)
    outline(h, x, f, lambda p: [o[0] + k * p[0], o[1] + k * p[1], 0.0], k)


# ---- rectangles ---------------------------------------------------------------------------------------------
def walk(h, x, pieces, what="outline"):
    """The pieces, whose sizes are arbitrary, are those of the outline: the corners follow one another and each piece is all of it."""
    g = h.mod(G)
    geom = x.geom
    h.check(len(geom) == len(pieces), what + ": pieces")
    E = [("l", e[0], e[1]) if g.isline(e) else ("a", e[0], e[1][0], g.samplearc(e, 0.0), g.samplearc(e, 0.5), g.samplearc(e, 1.0)) for e in geom]

    def like(e, w):
        if e[0] != w[0]:
            return False
        if e[0] == "l":
            return h.And(same(h, e[1], w[1]), same(h, e[2], w[2]))
        return h.And(same(h, e[3], w[3]), same(h, e[4], w[4]), same(h, e[5], w[5]))
    for j in range(len(pieces)):
        t = [like(e, w) for e, w in zip(E, pieces[j:] + pieces[:j])]
        if not any(v is False for v in t) and h.valid(t[0]):
            for v in t:
                h.check(v, what)
            return
    h.check(False, what)


def rounded(h, cx, cy, w, hh, r):
    """the outline at distance r from the rectangle of w by hh"""
    q = r * math.sqrt(0.5)
    X = [cx - w / 2, cx + w / 2]
    Y = [cy - hh / 2, cy + hh / 2]
    C = [(X[0], Y[0]), (X[1], Y[0]), (X[1], Y[1]), (X[0], Y[1])]
    D = [((-1, 0), (-1, -1), (0, -1)), ((0, -1), (1, -1), (1, 0)), ((1, 0), (1, 1), (0, 1)), ((0, 1), (-1, 1), (-1, 0))]
    out = []
    for i in range(4):
        c, n = C[i], C[(i + 1) % 4]
        d, e = D[i], D[(i + 1) % 4]
        out.append(("a", c, r, [c[0] + r * d[0][0], c[1] + r * d[0][1], 0.0], [c[0] + q * d[1][0], c[1] + q * d[1][1], 0.0], [c[0] + r * d[2][0], c[1] + r * d[2][1], 0.0]))
        out.append(("l", [c[0] + r * d[2][0], c[1] + r * d[2][1], 0.0], [n[0] + r * e[0][0], n[1] + r * e[0][1], 0.0]))
    return out


def box(h, x, lo, hi):
    b = x.bbox
    h.eqs(b[0][:2], lo, "bounding box", tol=TOL)
    h.eqs(b[1][:2], hi, "bounding box", tol=TOL)


SIZES = {"place": lambda h: (h.real("cx", -50, 50), h.real("cy", -50, 50), 6.0, 4.0, 1.0),
         "width": lambda h: (3.0, -2.0, h.real("w", 4, 50), 4.0, 1.0),
         "height": lambda h: (3.0, -2.0, 6.0, h.real("w", 3, 50), 1.0),
         "radius": lambda h: (3.0, -2.0, 6.0, 4.0, h.real("r", 0.2, 1.8)),
         "two": lambda h: (0.0, 0.0, h.real("w", 6, 50), 6.0, h.real("r", 0.2, 2.5))}


@harness("RoundRect and Rect of an arbitrary place, width, height or corner radius", floats=True, each=[(n, dict(n=n)) for n in SIZES])
def rectangles(h, n):
    g, py = h.mod(G), h.mod(PY)
    cx, cy, w, hh, r = SIZES[n](h)
    x = py.RoundRect(w, hh, 2 * r, g.point(cx, cy))
    walk(h, x, rounded(h, cx, cy, w - 2 * r, hh - 2 * r, r), "rounded rectangle")
    h.eq(x.length, 2 * (w - 2 * r + hh - 2 * r) + 2 * math.pi * r, "length", tol=TOL)
    box(h, x, [cx - w / 2, cy - hh / 2], [cx + w / 2, cy + hh / 2])
    h.eqs(x.center[:2], [cx, cy], "centre", tol=TOL)
    y = py.Rect(w, hh, g.point(cx, cy))
    P = [[cx + i * w / 2, cy + j * hh / 2, 0.0] for i, j in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    walk(h, y, [("l", P[i], P[(i + 1) % 4]) for i in range(4)], "rectangle")
    h.eq(y.length, 2 * (w + hh), "length", tol=TOL)
    box(h, y, [cx - w / 2, cy - hh / 2], [cx + w / 2, cy + hh / 2])
    h.eqs(y.center[:2], [cx, cy], "centre", tol=TOL)


@harness("a rectangle of arbitrary place or size, grown once or twice, asked before or not, moved after", floats=True,
         each=[("%s/%s" % (n, q), dict(n=n, q=q)) for n in SIZES for q in ("once", "twice", "asked", "round")])
def grown(h, n, q):
    g, py = h.mod(G), h.mod(PY)
    cx, cy, w, hh, r = SIZES[n](h)
    x = py.RoundRect(w, hh, 0.2, g.point(cx, cy)) if q == "round" else py.Rect(w, hh, g.point(cx, cy))
    if q in ("asked", "twice"):
        x.length, x.bbox, x.center, x.geom
    x.grow(r)
    if q == "twice":
        x.length, x.bbox, x.geom
        x.grow(0.5)
        r = r + 0.5
    x.grow(0.0)
    if q == "round":
        w, hh, r = w - 0.2, hh - 0.2, r + 0.1
    walk(h, x, rounded(h, cx, cy, w, hh, r), "grown outline")
    h.eq(x.length, 2 * (w + hh) + 2 * math.pi * r, "length", tol=TOL)
    box(h, x, [cx - w / 2 - r, cy - hh / 2 - r], [cx + w / 2 + r, cy + hh / 2 + r])
    h.eqs(x.center[:2], [cx, cy], "centre", tol=TOL)


WAYS = {"points": lambda g, P: P, "points, closed": lambda g, P: P + P[:1], "lines": lambda g, P: [g.line(P[0], P[1]), g.line(P[2], P[3])],
        "line and points": lambda g, P: [P[0], g.line(P[1], P[2]), P[3]], "circles": lambda g, P: [g.arc(p, 0.25) for p in P]}


@harness("a rectangle of arbitrary place, width or growth, given in five ways, grown", floats=True,
         each=[("%s/%s" % (n, d), dict(way=n, n=d)) for n in WAYS for d in ("place", "width", "radius")])
def grown_ways(h, way, n):
    g, py = h.mod(G), h.mod(PY)
    cx, cy, w, hh, r = SIZES[n](h)
    P = [g.point(cx + i * w / 2, cy + j * hh / 2) for i, j in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    E = WAYS[way](g, P)
    if way == "points, closed":
        x = py.Polygon(E)
    else:
        x = py.Polygon()
        for e in E:
            (x.addPoint if g.ispoint(e) else x.addLine if g.isline(e) else x.addArc)(e)
    x.grow(r)
    if way == "circles":
        r = r + 0.25
    walk(h, x, rounded(h, cx, cy, w, hh, r), "grown outline")
    h.eq(x.length, 2 * (w + hh) + 2 * math.pi * r, "length", tol=TOL)
    box(h, x, [cx - w / 2 - r, cy - hh / 2 - r], [cx + w / 2 + r, cy + hh / 2 + r])
    h.eqs(x.center[:2], [cx, cy], "centre", tol=TOL)


@harness("figures moved after they were asked, by arbitrary offsets and factors", floats=True,
         each=[("%s/%s" % (n, s), dict(name=n, hist=s)) for n in MIX for s in ("T", "S", "R", "X", "Y", "TS", "RT")])
def moved(h, name, hist):
    g = h.mod(G)
    els, f = MIX[name]
    x = polygon(h, els, [0.0, 0.0], 1.0, "add")
    A, k, t = ((1, 0), (0, 1)), 1.0, [0.0, 0.0]
    for i, s in enumerate(hist):
        x.length, x.bbox, x.center, x.geom, x.sample(0.3)
        if s == "T":
            d = [h.real("t%d%s" % (i, c), -20, 20) for c in "xy"]
            x.translate(g.point(*d))
            t = [t[0] + d[0], t[1] + d[1]]
        elif s == "S":
            q = h.real("k%d" % i, 0.4, 5)
            x.scale(q, cent=g.point(1.0, 2.0))
            k = k * q
            t = [1.0 + q * (t[0] - 1.0), 2.0 + q * (t[1] - 2.0)]
        else:
            if s == "R":
                x.rotate(90, g.point(1.0, 3.0))
                B, c = ((0, -1), (1, 0)), (1.0, 3.0)
            else:
                x.mirror("xz" if s == "X" else "yz")
                B, c = (((1, 0), (0, -1)) if s == "X" else ((-1, 0), (0, 1))), (0.0, 0.0)
                f = [("l", w[2], w[1]) if w[0] == "l" else ("b",) + w[1:] for w in reversed(f)]
            A = tuple(tuple(sum(B[i][m] * A[m][j] for m in (0, 1)) for j in (0, 1)) for i in (0, 1))
            d = [t[0] - c[0], t[1] - c[1]]
            t = [c[i] + B[i][0] * d[0] + B[i][1] * d[1] for i in (0, 1)]
    # the pieces in the frame of the turned figure
    L = lambda p: tuple(A[i][0] * p[0] + A[i][1] * p[1] for i in (0, 1))
    e = lambda a: math.degrees(math.atan2(*reversed(L((math.cos(math.radians(a)), math.sin(math.radians(a)))))))
    out = []
    for w in f:
        if w[0] == "l":
            out.append(("l", L(w[1]), L(w[2])))
        else:
            a = e(w[3] if w[0] == "a" else w[4])
            out.append(("a", L(w[1]), w[2], a, a + w[4] - w[3]))
    outline(h, x, out, lambda p: [k * p[0] + t[0], k * p[1] + t[1], 0.0], k)


# ---- edited -------------------------------------------------------------------------------------------------
Q = [(0, 0), (4, 0), (4, 3)]
EDITS = {"corner moved": ([("p", q) for q in Q], 1), "last corner moved": ([("p", q) for q in Q], 2), "corner set after the last": ([("p", q) for q in Q], 3),
         "corner added": ([("p", q) for q in Q], "p"), "line added": ([("p", q) for q in Q], "l"), "corner removed": ([("p", q) for q in Q] + [("p", (-3, 5))], "r"),
         "corner of a line and points moved": ([("l", (0, 0), (4, 0)), ("p", (4, 3))], 1)}


@harness("figures asked, then given another corner at an arbitrary place, and asked again", floats=True,
         each=[("%s%s" % (n, c), dict(name=n, again=a)) for n in EDITS for c, a in (("", False), (", twice", True))])
def edited(h, name, again):
    g = h.mod(G)
    els, e = EDITS[name]
    x = polygon(h, els, [0.0, 0.0], 1.0, "add")
    for turn in ((0, 1) if again else (0,)):
        x.length, x.bbox, x.center, x.geom, x.sample(0.3)
        v = h.real("v%d" % turn, 5, 40)
        P = [list(q) + [0.0] for q in Q]
        if e == "r":
            if turn:
                break
            v = 0.0
            x.remove(g.point(-3, 5))
        elif e == "p":
            P = (P if not turn else P + [[1.0, last, 0.0]]) + [[1.0, v, 0.0]]
            if turn:
                h.assume(v >= last + 1)
            x.addPoint(g.point(1.0, v))
        elif e == "l":
            if turn:
                break
            P += [[3.0, v, 0.0], [1.0, v, 0.0]]
            x.addLine(g.line(g.point(3.0, v), g.point(1.0, v)))
        else:
            i = 2 if len(els) == 2 else e
            p = [4.0, v, 0.0] if i else [0.0, v, 0.0]
            if i == 1:
                p = [v, 0.0, 0.0]
            if i == 3:
                p = [0.0, v, 0.0]
            P = P[:i] + [p] + P[i + 1:]
            x.setPoint(e, g.point(*p[:2]))
        last = v
        n = len(P)
        walk(h, x, [("l", P[i], P[(i + 1) % n]) for i in range(n)], "edited outline")
        h.check(h.And(*[h.And(x.bbox[0][a] - q[a] <= TOL, q[a] - x.bbox[1][a] <= TOL) for q in P for a in (0, 1)]), "bounding box holds the corners")
        h.check(h.And(*[h.Or(*[h.And(x.bbox[j][a] - q[a] <= TOL, q[a] - x.bbox[j][a] <= TOL) for q in P]) for j in (0, 1) for a in (0, 1)]), "bounding box is that of corners")
        y = polygon(h, [], [0.0, 0.0], 1.0, "add")
        for q in P:
            y.addPoint(g.point(*q[:2]))
        h.eq(x.length, y.length, "length", tol=TOL)
        s = x.sample(0.0)
        h.check(h.Or(*[h.And(*[h.And(s[a] - q[a] <= TOL, q[a] - s[a] <= TOL) for a in (0, 1)]) for q in P]), "begins at a corner")


@harness("what a figure was made from stays as it was, whatever is then done to the figure", floats=True,
         each=[("%s/%s/%s" % (n, how, s), dict(name=n, how=how, op=s)) for n, how in (("points", "add"), ("belt", "add"), ("belt", "list"), ("notched points", "list"), ("point, line, point", "add"), ("two lines", "add")) for s in "GTSRM"])
def untouched(h, name, how, op):
    g, py = h.mod(G), h.mod(PY)
    o, k = place(h, "at")
    els = MIX[name][0]
    E = elements(h, els, o, k)
    before = elements(h, els, o, k)
    if how == "list":
        x = py.Polygon(E)
    else:
        x = py.Polygon()
        for e, s in zip(E, els):
            {"p": x.addPoint, "l": x.addLine, "c": x.addArc}[s[0]](e)
    x.length, x.geom
    y = py.Polygon(x)
    if op == "G":
        x.grow(h.real("r", 0.2, 5))
    elif op == "T":
        x.translate(g.point(h.real("t", 1, 20), 2.0))
    elif op == "S":
        x.scale(h.real("t", 1.5, 4))
    elif op == "R":
        x.rotate(90)
    else:
        x.mirror("xz")
    x.length, x.geom
    flat = lambda v: [v] if not isinstance(v, (list, tuple)) else [w for u in v for w in flat(u)]
    a, b = flat(E), flat(before)
    h.check(len(a) == len(b), "the elements given")
    h.eqs(a, b, "the elements given", tol=1e-9)
    c = flat(y.elem)
    if len(c) == len(b):
        h.eqs(c, b, "the elements of a copy", tol=1e-9)
