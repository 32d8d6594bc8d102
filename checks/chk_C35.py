"""Set operations on plane figures."""
from symex.harness import harness
from symex.dsl import value
G = "yapcad.geom"
GU = "yapcad.geom_util"
TOL = 1e-3  # of lengths and areas
OPS = ("union", "intersection", "difference")
RECT = [(0, 0), (6, 0), (6, 4), (0, 4)]
SHAPE = {
    "small": [(0, 0), (2, 0), (2, 1), (0, 1)],
    "tall": [(0, 0), (2, 0), (2, 9), (0, 9)],
    "wide": [(0, 0), (9, 0), (9, 1), (0, 1)],
    "large": [(0, 0), (9, 0), (9, 7), (0, 7)],
    "triangle": [(0, 0), (3, 0), (3, 4)],
}
# where the second figure is put: its corner (x, y), one of them arbitrary
AT = {"small": {"along": ("d", 1.5), "over the bottom": ("d", -0.5), "up": (5.25, "d"), "up the middle": (1.75, "d")},
      "tall": {"along": ("d", -2.5), "half": ("d", 1.5), "up": (1.75, "d")},
      "wide": {"along": ("d", 1.5), "up": (-1.25, "d")},
      "large": {"along": ("d", -1.25), "up": (-1.75, "d"), "half": ("d", 1.25)},
      "triangle": {"along": ("d", 1.5), "up": (1.75, "d")}}


QUICK = {("small", "along"), ("small", "up"), ("tall", "along"), ("tall", "half"), ("wide", "along"), ("wide", "up"), ("large", "half"), ("triangle", "up")}


def inner(h, P, p, e):
    """p is inside the convex figure P of counter-clockwise corners, by more than e (less than -e outside)"""
    r = []
    for i in range(len(P)):
        a, b = P[i], P[(i + 1) % len(P)]
        d = (b[0] - a[0], b[1] - a[1])
        n = (float(d[0]) ** 2 + float(d[1]) ** 2) ** 0.5
        r.append((d[0] * (p[1] - a[1]) - d[1] * (p[0] - a[0])) >= e * n)
    return h.And(*r)


def cut(P, a, b, c):
    """the part of the convex figure P where a x + b y >= c, case by case"""
    out = []
    for i in range(len(P)):
        p, q = P[i], P[(i + 1) % len(P)]
        u, v = a * p[0] + b * p[1] - c, a * q[0] + b * q[1] - c
        if u >= 0:
            out.append(p)
        if (u > 0 and v < 0) or (u < 0 and v > 0):
            t = u / (u - v)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def area(P):
    return sum((P[i - 1][0] * P[i][1] - P[i][0] * P[i - 1][1] for i in range(len(P))), 0) / 2


def flat(g, x):
    if g.isline(x) or g.isarc(x):
        return [x]
    if g.ispoly(x):
        return [[x[i - 1], x[i]] for i in range(1, len(x))]
    return [e for y in x for e in flat(g, y)]


def loops(h, L, tol=TOL):
    """the pieces chained into closed loops"""
    L = list(L)
    out = []
    while L:
        c = [L.pop(0)]
        while not h.valid(near(h, c[-1][1], c[0][0], tol)):
            for i, e in enumerate(L):
                if h.valid(near(h, c[-1][1], e[0], tol)):
                    c.append(L.pop(i))
                    break
            else:
                h.check(False, "closed loops")
                return None
        out.append(c)
    return out


def near(h, p, q, tol=TOL):
    return h.And(*[h.And(p[i] - q[i] <= tol, q[i] - p[i] <= tol) for i in (0, 1)])


def exact_inside(h, convex=True):
    """The inside test, which C06 decides, is stood for by its definition."""
    if not hasattr(h, "eng"):
        return
    gu, g = h.mod(GU), h.mod(G)
    h.assume(hasattr(gu, "isinsideXY") and hasattr(gu, "isinsidebbox"))

    def isinside(x, p):
        E = flat(g, x)
        if any(g.isarc(e) for e in E):
            h.assume(len(E) == 1)
            c, r = E[0][0], E[0][1][0]
            return bool((p[0] - c[0]) * (p[0] - c[0]) + (p[1] - c[1]) * (p[1] - c[1]) < r * r)
        if convex:
            P = [e[0] for e in E]
            if bool(area(P) < 0):
                P.reverse()
            return bool(inner(h, P, p, 1e-6))
        n = False
        for a, b in E:      # edges along the axes
            if bool(h.Or(h.And(a[1] < p[1], b[1] >= p[1]), h.And(b[1] < p[1], a[1] >= p[1]))) and bool(a[0] > p[0]):
                n = not n
        return n
    gu.isinsideXY = isinside


@harness("a rectangle and a second convex figure moved along one axis by any amount", floats=True,
         each=[("%s/%s/%s%s" % (s, w, op, "/cw" if c else ""), dict(s=s, w=w, op=op, cw=c, swap=False, **({} if (s, w) in QUICK else {"_tier": "thorough"}))) for s in AT for w in AT[s] for op in OPS for c in (False,)] +
              [("%s/%s/%s/%s" % (s, w, op, v), dict(s=s, w=w, op=op, cw="cw" in v, swap="swap" in v)) for s, w in (("tall", "half"), ("triangle", "along")) for op in OPS for v in ("cw", "swap", "cw swap")])
def convex(h, s, w, op, cw, swap):
    g = h.mod(G)
    d = h.real("d", -12, 12)
    x, y = AT[s][w]
    o = (d if x == "d" else x, d if y == "d" else y)
    A = [(float(p[0]), float(p[1])) for p in RECT]
    B = [(o[0] + p[0], o[1] + p[1]) for p in SHAPE[s]]
    # the oracle: B cut by the sides of A; touching within a hundredth is left out
    X = SHAPE[s]
    for p in X:
        for q in (0, 6) if x == "d" else (0, 4):
            e = d + p[0 if x == "d" else 1] - q
            h.assume(h.Or(e >= 0.01, e <= -0.01))
    if s == "triangle" and x == "d":
        h.assume(h.Or(d <= -1.9, d >= -1.85))
        h.assume(h.Or(d <= 4.1, d >= 4.15))
    I = B
    for a, b, c in ((1, 0, 0.0), (-1, 0, -6.0), (0, 1, 0.0), (0, -1, -4.0)):
        I = cut(I, a, b, c)
    ai = area(I)
    aa, ab = 24.0, area([(float(p[0]), float(p[1])) for p in X])
    want = {"union": aa + ab - ai, "intersection": ai, "difference": (ab if swap else aa) - ai}[op]
    P = [g.point(*p) for p in A] + [g.point(*A[0])]
    Q = [g.point(*p) for p in B]
    if cw:
        Q.reverse()
    Q.append(Q[0])
    exact_inside(h)
    if swap:
        A, B, P, Q = B, A, Q, P
    r = h.mod(GU).combineglist(P, Q, op)
    judge(h, r, A, B, op, want)


def judge(h, r, A, B, op, want, tol=TOL, e0=0.001):
    """r is the union, intersection or difference of the convex figures A and B"""
    g = h.mod(G)
    L = loops(h, flat(g, r), e0)
    if L is None:
        return
    ar = [abs(area([e[0] for e in c])) for c in L]
    if op == "difference" and len(ar) == 2 and h.valid(h.And(*[inner(h, A, e[0], e0) for e in L[1]])):
        got = ar[0] - ar[1]
    else:
        got = sum(ar, 0)
    h.check(h.And(got - want <= tol, want - got <= tol), "area")
    for c in L:
        for e in c:
            for p in (e[0], [(e[0][i] + e[1][i]) / 2 for i in (0, 1)]):
                ia, ib = inner(h, A, p, e0), inner(h, B, p, e0)
                ca, cb = inner(h, A, p, -e0), inner(h, B, p, -e0)
                if op == "union":
                    h.check(h.And(h.Not(ia), h.Not(ib), h.Or(ca, cb)), "outline of the union")
                elif op == "intersection":
                    h.check(h.And(ca, cb, h.Not(h.And(ia, ib))), "outline of the intersection")
                else:
                    h.check(h.And(ca, h.Not(ib), h.Or(h.Not(ia), cb)), "outline of the difference")


# ---- figures that do not meet -------------------------------------------------------------------------------
def ring(g, P):
    return [g.point(*p) for p in P] + [g.point(*P[0])]


NOTCHED = [(0, 0), (8, 0), (8, 6), (5, 6), (5, 2), (3, 2), (3, 6), (0, 6)]
# first figure, second figure as functions of d, range of d, how they lie: apart, "in" (the second in the first) or "around" (the first in the second)
AWAY = {
    "circles apart": (lambda g, d: g.arc(g.point(0, 0), 3.0), lambda g, d: g.arc(g.point(d, 2.0), 1.0), (3.6, 20), "apart"),
    "circle in circle": (lambda g, d: g.arc(g.point(0, 0), 3.0), lambda g, d: g.arc(g.point(d, 0.5), 1.0), (-1.8, 1.8), "in"),
    "circle in rectangle": (lambda g, d: ring(g, RECT), lambda g, d: g.arc(g.point(d, 2.0), 1.0), (1.1, 4.9), "in"),
    "circle beside rectangle": (lambda g, d: ring(g, RECT), lambda g, d: g.arc(g.point(d, 2.0), 1.0), (7.1, 30), "apart"),
    "rectangle in circle": (lambda g, d: ring(g, RECT), lambda g, d: g.arc(g.point(d, 2.0), 5.0), (1.6, 4.4), "around"),
    "any circle around": (lambda g, d: ring(g, RECT), lambda g, d: g.arc(g.point(3, 2), d), (3.8, 50), "around"),
    "any circle in": (lambda g, d: ring(g, RECT), lambda g, d: g.arc(g.point(3, 2), d), (0.1, 1.9), "in"),
    "square in the notch": (lambda g, d: ring(g, NOTCHED), lambda g, d: ring(g, [(3.5, d), (4.5, d), (4.5, d + 1), (3.5, d + 1)]), (2.1, 4.9), "apart"),
    "square in an arm": (lambda g, d: ring(g, NOTCHED), lambda g, d: ring(g, [(1, d), (2, d), (2, d + 1), (1, d + 1)]), (0.1, 4.9), "in"),
    "square anywhere beside": (lambda g, d: ring(g, NOTCHED), lambda g, d: ring(g, [(9, d), (12, d), (12, d + 3), (9, d + 3)]), (-20, 20), "apart"),
}


@harness("two figures of which neither meets the other's outline, one of them at any place or of any size in the stated range", floats=True,
         each=[("%s/%s%s" % (n, op, "/swap" if w else ""), dict(n=n, op=op, swap=w)) for n in AWAY for op in OPS for w in (False, True)])
def away(h, n, op, swap):
    g = h.mod(G)
    a, b, (lo, hi), how = AWAY[n]
    d = h.real("d", lo, hi)
    a, b = a(g, d), b(g, d)
    if swap:
        a, b, how = b, a, {"in": "around", "around": "in"}.get(how, how)
    exact_inside(h, "notch" not in n and "arm" not in n and "beside" not in n)
    r = h.mod(GU).combineglist(a, b, op)
    want = {"union": {"apart": [a, b], "in": [a], "around": [b]}, "intersection": {"apart": [], "in": [b], "around": [a]},
            "difference": {"apart": [a], "in": [a, b], "around": []}}[op][how]
    got, want = flat(g, r) if r else [], flat(g, want)
    h.check(len(got) == len(want), "as many pieces")
    for e in want:
        ends = [g.sample(e, u) for u in (0.0, 0.5, 1.0)]
        h.check(h.Or(*[h.Or(*[h.And(*[near(h, g.sample(f, u), q) for u, q in zip(U, ends)]) for U in ((0.0, 0.5, 1.0), (1.0, 0.5, 0.0))])
                       for f in got if g.isarc(f) == g.isarc(e)]), "the pieces of the figures")


# ---- Boolean objects ----------------------------------------------------------------------------------------
def rect(h, x, y, w, hh):
    return h.mod("yapcad.poly").Rect(w, hh, h.mod(G).point(x + w / 2, y + hh / 2))


@harness("Boolean objects of two rectangles, one at any place along an axis", floats=True,
         each=[("%s/%s/%s" % (n, op, m), dict(n=n, op=op, m=m, **({} if (m == "moved") == (n == "tall") else {"_tier": "thorough"}))) for n in ("tall", "small") for op in OPS for m in ("", "moved")])
def objects(h, n, op, m):
    g = h.mod(G)
    d = h.real("d", -12, 12)
    w, hh, y = {"tall": (2.0, 9.0, 1.5), "small": (2.0, 1.0, 1.5)}[n]
    for q in (0.0, 4.0, 6.0, -2.0):
        h.assume(h.Or(d >= q + 0.1, d <= q - 0.1))
    A = [(float(p[0]), float(p[1])) for p in RECT]
    B = [(d, y), (d + w, y), (d + w, y + hh), (d, y + hh)]
    I = B
    for a, b, c in ((1, 0, 0.0), (-1, 0, -6.0), (0, 1, 0.0), (0, -1, -4.0)):
        I = cut(I, a, b, c)
    ai = area(I)
    want = {"union": 24.0 + w * hh - ai, "intersection": ai, "difference": 24.0 - ai}[op]
    exact_inside(h)
    x = h.mod("yapcad.combine").Boolean(op, [rect(h, 0, 0, 6.0, 4.0), rect(h, d, y, w, hh)])
    if m:
        x.geom, x.bbox
        t = h.real("t", -20, 20)
        x.translate(g.point(t, 1.0))
        A, B = ([(p[0] + t, p[1] + 1.0) for p in Z] for Z in (A, B))
    r = x.geom
    judge(h, r, A, B, op, want, 0.1, 0.05)
    if r:
        P = [e[0] for e in flat(g, r)]
        b = x.bbox
        for i in (0, 1):
            h.check(h.And(*[h.And(b[0][i] <= p[i] + 1e-6, b[1][i] >= p[i] - 1e-6) for p in P]), "bounding box around")
            h.check(h.And(h.Or(*[b[0][i] >= p[i] - 1e-6 for p in P]), h.Or(*[b[1][i] <= p[i] + 1e-6 for p in P])), "bounding box tight")


# operands as (x, y, width, height) of rectangles, "d" the arbitrary number; nested lists are unions; expected area, range of d
THREE = {
    "three apart": ("union", [(0, 0, 6, 4), (10, 0, 2, 2), ("d", 0, 2, 2)], lambda d: 24 + 4 + 4, (12.2, 30)),
    "bridge": ("union", [(0, 0, 6, 4), (10, 0, 6, 4), ("d", 1, 6, 1)], lambda d: 24 + 24 + 10 - d - 6 + d, (4.2, 5.8)),
    "all joined": ("union", [(0, 0, 6, 4), (5, 1, 6, 4), ("d", 3, 2, 8)], lambda d: 24 + 24 - 3 + 16 - 4, (6.2, 8.8)),
    "two holes": ("difference", [(0, 0, 6, 4), (1, 1, 1, 1), ("d", 1, 1, 1)], lambda d: 22, (2.2, 4.8)),
    "split and notched": ("difference", [(0, 0, 6, 4), (3, -1, 1, 6), ("d", -1, 1, 2)], lambda d: 19, (0.2, 1.8)),
    "hole and notch": ("difference", [(0, 0, 6, 4), (1, 1, 1, 1), ("d", -1, 1, 2)], lambda d: 22, (2.2, 4.8)),
    "three in common": ("intersection", [(0, 0, 6, 4), ("d", 1, 9, 9), (-1, -1, 5, 4)], lambda d: (4 - d) * 2, (0.2, 3.8)),
    "nothing in common": ("intersection", [(0, 0, 6, 4), ("d", 1, 9, 9), (0, 0, 1, 1)], lambda d: 0, (6.2, 20)),
    "two in one": ("intersection", [(0, 0, 6, 4), [(-1, 1, 2, 2), ("d", 1, 2, 2)]], lambda d: 2 + 2 * (6 - d), (4.2, 5.8)),
    "less two": ("difference", [(0, 0, 6, 4), [(-1, 1, 2, 2), ("d", 1, 2, 2)]], lambda d: 24 - 2 - 2 * (6 - d), (4.2, 5.8)),
    "two and two": ("union", [[(0, 0, 6, 4), (10, 0, 2, 2)], [("d", 0, 2, 2), (40, 0, 2, 2)]], lambda d: 24 + 12, (12.2, 37)),
    "all gone": ("difference", [(0, 0, 6, 4), [(-1, -1, 3, 6), ("d", -2, 12, 12)]], lambda d: 0, (-0.8, 1.8)),
    "none of nothing": ("intersection", [("d", 0, 6, 4), ("empty", (0, 0, 1, 1), (5, 5, 1, 1))], lambda d: 0, (-20, 20)),
    "less nothing": ("difference", [("d", 0, 6, 4), ("empty", (0, 0, 1, 1), (5, 5, 1, 1))], lambda d: 24, (-20, 20)),
}


@harness("Boolean objects of three and more rectangles, one at any place along an axis in the stated range", floats=True, each=[(n, dict(n=n)) for n in THREE])
def several(h, n):
    g, c = h.mod(G), h.mod("yapcad.combine")
    op, ops, want, (lo, hi) = THREE[n]
    d = h.real("d", lo, hi)

    def make(o):
        if isinstance(o, list):
            return c.Boolean("union", [make(q) for q in o])
        if o[0] == "empty":
            return c.Boolean("intersection", [make(q) for q in o[1:]])
        return rect(h, *[d if v == "d" else float(v) for v in o])
    x = c.Boolean(op, [make(o) for o in ops])
    exact_inside(h, False)
    even_odd(h, x.geom, want(d), 0.05)


def crossings(h, P, p):
    """p is inside the figure of corners P whose edges are along the axes"""
    n = []
    for i in range(len(P)):
        a, b = P[i - 1], P[i]
        n.append(h.And(h.Or(h.And(a[1] < p[1] - 0.01, b[1] > p[1] - 0.01), h.And(b[1] < p[1] - 0.01, a[1] > p[1] - 0.01)), a[0] > p[0] - 0.03))
    r = False
    for x in n:
        r = h.And(h.Or(r, x), h.Not(h.And(r, x)))
    return r


# ---- regions of the DSL -------------------------------------------------------------------------------------
A2 = "rectangle(6.0, 4.0, point(3.0, 2.0))"
DSL = {
    "union": ("union2d(%s, rectangle(2.0, 9.0, point(d, 5.0)))" % A2, lambda d: 24 + 18 - 2 * 3.5, (1.2, 4.8)),
    "difference": ("difference2d(%s, rectangle(2.0, 9.0, point(d, 5.0)))" % A2, lambda d: 24 - 2 * 3.5, (1.2, 4.8)),
    "intersection": ("intersection2d(%s, rectangle(2.0, 9.0, point(d, 5.0)))" % A2, lambda d: 2 * 3.5, (1.2, 4.8)),
    "apart": ("union2d(union2d(%s, rectangle(2.0, 2.0, point(11.0, 1.0))), rectangle(2.0, 2.0, point(d, 1.0)))" % A2, lambda d: 32, (13.2, 40)),
    "all apart": ("union2d_all([%s, rectangle(2.0, 2.0, point(11.0, 1.0)), rectangle(2.0, 2.0, point(d, 1.0))])" % A2, lambda d: 32, (13.2, 40)),
    "all joined": ("union2d_all([%s, rectangle(2.0, 2.0, point(6.5, 1.5)), rectangle(2.0, 2.0, point(d, 4.5))])" % A2, lambda d: 24 + 4 - 1 + 3, (1.2, 4.4)),
    "two holes": ("difference2d(difference2d(%s, rectangle(1.0, 1.0, point(1.5, 1.5))), rectangle(1.0, 1.0, point(d, 1.5)))" % A2, lambda d: 22, (2.7, 5.3)),
    "three holes": ("difference2d_all(%s, [rectangle(1.0, 1.0, point(1.5, 1.5)), rectangle(1.0, 1.0, point(d, 1.5)), rectangle(4.0, 0.5, point(3.0, 3.0))])" % A2, lambda d: 20, (2.7, 5.3)),
    "hole and notch": ("difference2d(difference2d(%s, rectangle(1.0, 1.0, point(1.5, 1.5))), rectangle(1.0, 2.0, point(d, 0.0)))" % A2, lambda d: 22, (2.7, 5.3)),
    "beside": ("difference2d(difference2d(%s, rectangle(4.0, 3.0, point(6.0, 4.0))), rectangle(0.5, 0.5, point(d, 3.5)))" % A2, lambda d: 21, (4.3, 5.6)),
    "all in common": ("intersection2d_all([%s, rectangle(4.0, 3.0, point(d, 3.0)), rectangle(5.0, 2.0, point(3.0, 3.5))])" % A2, lambda d: 4 * 1.5, (2.6, 3.4)),
    "nothing left": ("difference2d(%s, rectangle(9.0, 9.0, point(d, 2.0)))" % A2, lambda d: 0, (1.6, 4.4)),
    # figures of several outlines
    "bridge": ("union2d(union2d(%s, rectangle(6.0, 4.0, point(13.0, 2.0))), rectangle(6.0, 1.0, point(d, 2.0)))" % A2, lambda d: 52, (7.2, 8.8)),
    "common to two": ("intersection2d(%s, union2d(rectangle(2.0, 2.0, point(0.0, 2.0)), rectangle(2.0, 2.0, point(d, 2.0))))" % A2, lambda d: 2 + 2 * (7 - d), (5.2, 6.8)),
    "hole over hole": ("difference2d(difference2d(%s, rectangle(2.0, 2.0, point(2.0, 2.0))), rectangle(2.0, 1.0, point(d, 2.0)))" % A2, lambda d: 24 - 4 - 2 + 4 - d, (2.2, 3.8)),
    "notch over hole": ("difference2d(difference2d(%s, rectangle(1.0, 1.0, point(2.0, 2.0))), rectangle(2.0, 6.0, point(d, 2.0)))" % A2, lambda d: 16, (1.6, 2.4)),
}


@harness("DSL regions put together, one at any place along an axis in the stated range", floats=True, each=[(n, dict(n=n)) for n in DSL])
def dsl(h, n):
    g = h.mod(G)
    text, want, (lo, hi) = DSL[n]
    d = h.real("d", lo, hi)
    exact_inside(h, False)
    if hasattr(h, "eng"):
        g.isinsideXY = h.mod(GU).isinsideXY
    r = value(h, "emit %s" % text, {"d": ("float", d)}, "region2d")
    even_odd(h, r, want(d))


def even_odd(h, r, want, tol=0.01):
    """the area of the points inside an odd number of the loops"""
    L = loops(h, flat(h.mod(G), r), tol)
    if L is None:
        return
    got = 0
    P = [[e[0] for e in q] for q in L]
    for i, q in enumerate(P):
        k = sum(h.valid(crossings(h, r, q[0])) for j, r in enumerate(P) if j != i)
        got = got + (-1) ** k * abs(area(q))
    h.check(h.And(got - want <= 0.05, want - got <= 0.05), "area")
