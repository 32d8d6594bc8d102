"""Bezier, B-spline, Catmull-Rom and NURBS curves."""
from symex.harness import harness
G = "yapcad.geom"
S = "yapcad.spline"


def cpoints(h, n, axis):
    """n control points: one axis free, the others a fixed zig-zag"""
    g = h.mod(G)
    c = [h.real("c%d" % i, -50, 50) for i in range(n)]
    fix = [(2 * i - 3, (i * i) % 5 - 1) for i in range(n)]
    out = []
    for i in range(n):
        q = list(fix[i])
        q.insert(axis, c[i])
        out.append(q)
    return [g.point(*q) for q in out], out


def comb(ws, pts):
    return [sum(w * p[k] for w, p in zip(ws, pts)) for k in range(3)]


def binom(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    return r


def bern(n, t):
    return [binom(n, i) * t ** i * (1 - t) ** (n - i) for i in range(n + 1)]


@harness("2 to 5 control points with any coordinates on each axis in turn; all parameters, including outside [0, 1]; sampling with 1, 3 and 4 segments",
         each=[("%d%s" % (n, "xyz"[a]), dict(n=n, a=a, _tier="quick" if (n < 5 and (n + a) % 3 == 0) or n == 4 else "thorough")) for n in (2, 3, 4, 5) for a in range(3)])
def bezier(h, n, a):
    g, s = h.mod(G), h.mod(S)
    P, c = cpoints(h, n, a)
    b = g.bezier(P)
    t = h.real("t", 0, 1)
    h.eqs(s.evaluate_bezier(b, t), comb(bern(n - 1, t), c), "Bezier curve", n=3)
    d = [[(n - 1) * (c[i + 1][k] - c[i][k]) for k in range(3)] for i in range(n - 1)]
    h.eqs(s.bezier_tangent(P, t), comb(bern(n - 2, t), d) + [0], "Bezier tangent")
    o = h.real("o", 1, 9)
    h.eqs(s.evaluate_bezier(b, o), c[-1], "parameters above 1 give the end", n=3)
    h.eqs(s.evaluate_bezier(b, 1 - o), c[0], "parameters below 0 give the start", n=3)
    m = h.choice("m", [1, 3, 4])
    sm = s.sample_bezier(b, segments=m)
    h.check(len(sm) == m + 1, "number of samples")
    for i in range(m + 1):
        h.eqs(sm[i], comb(bern(n - 1, i / m), c), "sample of a Bezier curve", n=3)


def deboor(knots, c, d, k, u):
    """point of the spline in span [knots[k], knots[k+1])"""
    p = [list(c[j + k - d]) for j in range(d + 1)]
    for r in range(1, d + 1):
        for j in range(d, r - 1, -1):
            al = (u - knots[j + k - d]) / (knots[j + 1 + k - r] - knots[j + k - d])
            p[j] = [(1 - al) * x + al * y for x, y in zip(p[j - 1], p[j])]
    return p[d]


def span(h, knots, d, n):
    """a span of the domain and a parameter in it (its upper end only for the last)"""
    sp = [k for k in range(d, n) if knots[k + 1] > knots[k]]
    k = h.choice("span", sp)
    w = h.real("w", 0, 1)
    if k != sp[-1]:
        h.assume(w <= 0.999999)
    return k, knots[k] + w * (knots[k + 1] - knots[k])


def clamped(n, d):
    return [0.0] * (d + 1) + [(i + 1) / (n - d) for i in range(n - d - 1)] + [1.0] * (d + 1)


OB = [(2, 1), (4, 1), (3, 2), (5, 2), (4, 3), (6, 3)]


@harness("open B-splines of degree 1 to 3 with up to 6 control points (any coordinates on each axis in turn), every parameter; sampling with 4 segments",
         each=[("%d.%d%s" % (n, d, "xyz"[a]), dict(n=n, d=d, a=a, _tier="quick" if (n + a) % 3 == 0 or n == 6 and a == 1 else "thorough")) for n, d in OB for a in range(3)])
def bspline_open(h, n, d, a):
    g, s = h.mod(G), h.mod(S)
    P, c = cpoints(h, n, a)
    b = g.bspline(P, degree=d)
    kn = clamped(n, d)
    k, u = span(h, kn, d, n)
    h.eqs(s.evaluate_bspline(b, u), deboor(kn, c, d, k, u), "open B-spline", n=3)
    h.eqs(s.evaluate_bspline(b, 0), c[0], "start of an open B-spline", n=3)
    h.eqs(s.evaluate_bspline(b, 1), c[-1], "end of an open B-spline", n=3)
    h.eqs(s.evaluate_bspline(b, -0.5), c[0], "parameters below 0 give the start", n=3)
    h.eqs(s.evaluate_bspline(b, 1.5), c[-1], "parameters above 1 give the end", n=3)
    sm = s.sample_bspline(b, segments=4)
    h.check(len(sm) == 5, "number of samples")
    for i in range(5):
        x = i / 4
        kk = max(j for j in range(d, n) if kn[j] <= x and kn[j + 1] > kn[j])
        h.eqs(sm[i], deboor(kn, c, d, kk, x), "sample of an open B-spline", n=3)


@harness("closed B-splines of degree 1 to 3 with up to 5 control points (any coordinates on each axis in turn), every parameter",
         each=[("%d.%d%s" % (n, d, "xyz"[a]), dict(n=n, d=d, a=a, _tier="quick" if (n + a) % 3 == 0 or n == 5 and a == 1 else "thorough")) for n, d in ((3, 1), (3, 2), (5, 2), (4, 3), (5, 3)) for a in range(3)])
def bspline_closed(h, n, d, a):
    g, s = h.mod(G), h.mod(S)
    P, c = cpoints(h, n, a)
    b = g.bspline(P, degree=d, closed=True)
    ext = c + c[:d]
    kn = [float(i - d) / n for i in range(n + 2 * d + 1)]
    k, u = span(h, kn, d, n + d)
    h.eqs(s.evaluate_bspline(b, u), deboor(kn, ext, d, k, u), "closed B-spline", n=3)
    first = deboor(kn, ext, d, d, 0.0)
    h.eqs(s.evaluate_bspline(b, 0), first, "start of a closed B-spline", n=3)
    h.eqs(s.evaluate_bspline(b, 1), first, "a closed B-spline closes", n=3)
    sm = s.sample_bspline(b, segments=3)
    h.check(len(sm) == 4, "number of samples")
    h.eqs(sm[0], first, "first sample of a closed B-spline", n=3)
    h.eqs(sm[3], first, "last sample of a closed B-spline", n=3)
    x = 1 / 3
    kk = max(j for j in range(d, n + d) if kn[j] <= x)
    h.eqs(sm[1], deboor(kn, ext, d, kk, x), "sample of a closed B-spline", n=3)


def rational(kn, c, w, d, k, u):
    hom = [[q * wi for q in p] + [wi] for p, wi in zip(c, w)]
    r = deboor(kn, hom, d, k, u)
    return r


NB = [(3, 2, None), (4, 3, None), (4, 2, None), (5, 2, [0, 0, 0, 0.3, 0.3, 1, 1, 1]), (4, 2, [1, 1, 1, 2.5, 4, 4, 4]), (4, 2, [0, 1, 2, 3, 4, 5, 6])]


@harness("NURBS of degree 2 and 3 with up to 5 control points with default, non-uniform, shifted and unclamped knots; coordinates and one weight free; every parameter; sampling",
         each=[("%d%s%s" % (i, "xyz"[a], m), dict(i=i, a=a, m=m, _tier="quick" if (i + a) % 3 == 0 else "thorough")) for i in range(len(NB)) for a in range(3) for m in "cw"])
def nurbs(h, i, a, m):
    g, s = h.mod(G), h.mod(S)
    n, d, kn = NB[i]
    if m == "c":
        P, c = cpoints(h, n, a)
        w = [1.0, 2.0, 0.5, 3.0, 1.5][:n]
    else:
        c = [[float(v) for v in ((3 * j + 1) % 5, j, (j * j) % 4)] for j in range(n)]
        P = [g.point(*p) for p in c]
        w = [1.0, 2.0, 0.5, 3.0, 1.5][:n]
        w[h.choice("j", list(range(n)))] = h.real("w0", 0.05, 20)
    b = g.nurbs(P, degree=d, weights=w, knots=kn)
    if kn is None:
        kn = clamped(n, d)
    k, u = span(h, kn, d, n)
    lo, hi = kn[d], kn[n]
    r = rational(kn, c, w, d, k, u)
    p = s.evaluate_nurbs(b, (u - lo) / (hi - lo))
    h.eqs([p[q] * r[3] for q in range(3)], r[:3], "NURBS curve", n=3)
    e = rational(kn, c, w, d, n - 1, hi)
    p = s.evaluate_nurbs(b, 1)
    h.eqs([p[q] * e[3] for q in range(3)], e[:3], "end of a NURBS curve", n=3)
    st = rational(kn, c, w, d, d, lo)
    p = s.evaluate_nurbs(b, 0)
    h.eqs([p[q] * st[3] for q in range(3)], st[:3], "start of a NURBS curve", n=3)
    sm = s.sample_nurbs(b, samples=4)
    h.check(len(sm) == 4, "number of samples")
    x = lo + (hi - lo) / 3
    kk = max(j for j in range(d, n) if kn[j] <= x and kn[j + 1] > kn[j])
    for pt, ref in ((sm[0], st), (sm[3], e), (sm[1], rational(kn, c, w, d, kk, x))):
        h.eqs([pt[q] * ref[3] for q in range(3)], ref[:3], "sample of a NURBS curve", n=3)


def cr(P, t, tau):
    """cubic Hermite segment of a Catmull-Rom spline with knot distances t=(a,b,c)"""
    a, b, cc = t
    out = []
    for k in range(3):
        p0, p1, p2, p3 = [q[k] for q in P]
        s1 = (p2 - p1) / b
        m1 = b * (0 if a == 0 else (p1 - p0) / a - (p2 - p0) / (a + b) + s1)
        m2 = b * (0 if cc == 0 else s1 - (p3 - p1) / (b + cc) + (p3 - p2) / cc)
        u = tau
        out.append((2 * u ** 3 - 3 * u ** 2 + 1) * p1 + (u ** 3 - 2 * u ** 2 + u) * m1 + (3 * u ** 2 - 2 * u ** 3) * p2 + (u ** 3 - u ** 2) * m2)
    return out


def quad(c, i, closed):
    n = len(c)
    ix = [(i + j) % n if closed else min(max(i + j, 0), n - 1) for j in (-1, 0, 1, 2)]
    return [c[j] for j in ix], [ix[j] == ix[j + 1] for j in range(3)]


@harness("uniform Catmull-Rom splines of 2 to 5 points (any coordinates on each axis in turn), open and closed: every segment and parameter, the control points, and the sampling",
         each=[("%d%s%s" % (n, "oc"[cl], "xyz"[a]), dict(n=n, cl=cl, a=a, _tier="quick" if (n + a + cl) % 3 == 0 else "thorough")) for n in (2, 3, 4, 5) for cl in (0, 1) for a in range(3)])
def catmullrom_uniform(h, n, cl, a):
    g, s = h.mod(G), h.mod(S)
    P, c = cpoints(h, n, a)
    b = g.catmullrom(P, closed=bool(cl), alpha=0.0)
    m = n if cl else n - 1
    i = h.choice("i", list(range(m)))
    tau = h.real("tau", 0, 1)
    if i < m - 1:
        h.assume(tau <= 0.999999)
    q, same = quad(c, i, cl)
    h.eqs(s.evaluate_catmullrom(b, (i + tau) / m), cr(q, [1, 1, 1], tau), "Catmull-Rom curve", n=3)
    for j in range(m + 1):
        h.eqs(s.evaluate_catmullrom(b, j / m), c[j % n], "a Catmull-Rom curve passes through its points", n=3)
    sm = s.sample_catmullrom(b, segments_per_span=2)
    h.check(len(sm) == 2 * m + 1, "number of samples")
    for j in range(m):
        h.eqs(sm[2 * j], c[j], "samples at the points", n=3)
        h.eqs(sm[2 * j + 1], cr(quad(c, j, cl)[0], [1, 1, 1], 0.5), "samples between the points", n=3)
    h.eqs(sm[-1], c[m % n], "last sample", n=3)


# directions with square integer lengths between consecutive points
DIRS = [((1, 4, 8), 9), ((15, -20, 0), 25), ((-8, 4, 1), 9)]


@harness("centripetal and chordal Catmull-Rom splines through 3 and 4 points, segments in fixed directions with any length ratio, position and scale; every segment and parameter",
         each=[("%d%s" % (n, al), dict(n=n, al=al, _tier="quick" if n == 3 or al == 1.0 else "thorough")) for n in (3, 4) for al in (0.5, 1.0)])
def catmullrom_chordal(h, n, al):
    g, s = h.mod(G), h.mod(S)
    x, y, z = h.real("x", -50, 50), h.real("y", -50, 50), h.real("z", -50, 50)
    c = [[x, y, z]]
    L = []
    free = h.choice("free", [0, 1])
    rr = h.real("r", 0.2, 4)
    for i in range(n - 1):
        d, l = DIRS[i]
        r = rr if i == free else [2, 1.5, 3][i]
        L.append(r * {9: 3, 25: 5}[l] if al == 0.5 else r * l)
        r = r * r if al == 0.5 else r
        c.append([c[-1][k] + r * d[k] for k in range(3)])
    P = [g.point(*p) for p in c]
    b = g.catmullrom(P, alpha=al)
    m = n - 1
    i = h.choice("i", list(range(m)))
    tau = h.real("tau", 0, 1)
    if i < m - 1:
        h.assume(tau <= 0.999999)
    q, same = quad(c, i, False)
    t = [0 if i == 0 else L[i - 1], L[i], 0 if i == m - 1 else L[i + 1]]
    h.eqs(s.evaluate_catmullrom(b, (i + tau) / m), cr(q, t, tau), "Catmull-Rom curve", n=3, tol=1e-4)
    for j in range(m + 1):
        h.eqs(s.evaluate_catmullrom(b, j / m), c[j], "a Catmull-Rom curve passes through its points", n=3, tol=1e-5)
