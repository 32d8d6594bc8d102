"""Intersections of lines, circles and arcs in the XY plane; closest points on lines."""
from symex.harness import harness
G = "yapcad.geom"

DIRS = [((1, 0), 1), ((0, 1), 1), ((-3, 4), 5), ((5, 12), 13)]
CARD = [((1, 0), 0.0), ((0, 1), 90.0), ((-1, 0), 180.0), ((0, -1), 270.0)]


def pt(h, x, y, z=0.0):
    return h.mod(G).point(x, y, z)


def near(h, a, b, what, tol=1e-5):
    h.eqs(a[:2], b[:2], what, tol)


def inside01(h, *ts):
    """None at a boundary, else whether all are strictly in (0,1)"""
    for t in ts:
        h.assume(h.Or(t <= -1e-4, h.And(t >= 1e-4, t <= 1 - 1e-4), t >= 1 + 1e-4))
    for t in ts:
        if t < 0 or t > 1:
            return False
    return True


@harness("a line along four directions, another of any direction at more than 0.6 degrees, crossing at any point and any parameters of either line; lengths 0.01 and more",
         each=[("%d" % i, dict(i=i)) for i in range(len(DIRS))])
def line_line(h, i):
    g = h.mod(G)
    (dx, dy), dn = DIRS[i]
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    n = h.real("n", 0.01, 1000)
    p, q = h.real("p", -100, 100), h.real("q", -100, 100)      # second direction: p along, q across the first
    h.assume(h.Or(q >= 0.01, q <= -0.01))
    h.assume(h.And(p <= 100 * q, p >= -100 * q) if q > 0 else h.And(p <= -100 * q, p >= 100 * q))
    t, u = h.real("t", -5, 5), h.real("u", -5, 5)
    a = (n * dx, n * dy)
    b = (p * dx - q * dy, p * dy + q * dx)
    l1 = g.line(pt(h, X - t * a[0], Y - t * a[1], Z), pt(h, X + (1 - t) * a[0], Y + (1 - t) * a[1], Z))
    l2 = g.line(pt(h, X - u * b[0], Y - u * b[1], Z), pt(h, X + (1 - u) * b[0], Y + (1 - u) * b[1], Z))
    r = g.intersectXY(l1, l2, inside=False)
    h.check(r is not False and len(r) == 1, "infinite lines cross once")
    h.eqs(r[0][:3], [X, Y, Z], "the crossing point", tol=1e-4)
    pr = g.intersectXY(l1, l2, params=True)
    h.eq(pr[0][0], t, "parameter on the first line", tol=1e-4)
    h.eq(pr[1][0], u, "parameter on the second line", tol=1e-4)
    ins = inside01(h, t, u)
    s = g.intersectXY(l1, l2)
    if ins:
        h.check(s is not False and len(s) == 1, "crossing segments meet")
        h.eqs(s[0][:3], [X, Y, Z], "the meeting point", tol=1e-4)
    else:
        h.check(s is False, "segments that do not reach each other do not meet")


@harness("parallel lines along four directions, any offsets and lengths", each=[("%d" % i, dict(i=i)) for i in range(len(DIRS))])
def parallel(h, i):
    g = h.mod(G)
    (dx, dy), dn = DIRS[i]
    X, Y = h.real("x"), h.real("y")
    n, m = h.real("n", 0.01, 1000), h.real("m", 0.01, 1000)
    s, o = h.real("s", -50, 50), h.real("o", 0.01, 50)
    sg = h.choice("sg", [1, -1])
    l1 = g.line(pt(h, X, Y), pt(h, X + n * dx, Y + n * dy))
    x2, y2 = X + s * dx - o * dy, Y + s * dy + o * dx
    l2 = g.line(pt(h, x2, y2), pt(h, x2 + sg * m * dx, y2 + sg * m * dy))
    for ins in (True, False):
        h.check(g.intersectXY(l1, l2, inside=ins) is False, "parallel lines do not meet")
    h.check(g.intersectXY(l1, l2, params=True) is False, "parallel lines have no crossing parameters")


@harness("a segment along four directions of any position and length 0.1 and more, any point", each=[("%d" % i, dict(i=i)) for i in range(len(DIRS))])
def closest(h, i):
    g = h.mod(G)
    (dx, dy), dn = DIRS[i]
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    n = h.real("n", 0.1, 100)
    s, o = h.real("s", -3, 4), h.real("o", -50, 50)
    h.assume(h.Or(o >= 0.01, o <= -0.01))
    l = g.line(pt(h, X, Y, Z), pt(h, X + n * dx, Y + n * dy, Z))
    p = pt(h, X + s * n * dx - o * dy, Y + s * n * dy + o * dx, Z)
    foot = [X + s * n * dx, Y + s * n * dy, Z]
    od = h.abs(o) * dn
    near(h, g.linePointXY(l, p, inside=False), foot, "closest point of the line", 1e-4)
    h.eq(g.linePointXY(l, p, inside=False, distance=True), od, "distance of the line", tol=1e-4)
    h.eq(g.linePointXYDist(l, p, inside=False), od, "distance of the line", tol=1e-4)
    h.eq(g.linePointXY(l, p, params=True), s, "parameter of the closest point", tol=1e-4)
    h.assume(h.Or(s <= -0.01, h.And(s >= 0.01, s <= 0.99), s >= 1.01))
    c = g.linePointXY(l, p)
    d = g.linePointXY(l, p, distance=True)
    if s < 0:
        c0, e = l[0], s * n * dn
    elif s > 1:
        c0, e = l[1], (s - 1) * n * dn
    else:
        c0, e = foot, 0.0
    near(h, c, c0, "closest point of the segment", 1e-4)
    h.check(d >= 0, "a distance is not negative")
    h.eq(d * d, e * e + o * o * dn * dn, "distance of the segment", tol=1e-3)


def chord(h, i, full):
    """a circle and a line: the line passes at height hh of the centre and meets the circle at -m and +m of its foot"""
    (dx, dy), dn = DIRS[i]
    k = h.real("k", 0.05, 100)
    v = h.real("v", 0.05, 0.95) if full else h.choice("v", [0.125, 0.5, 0.9375])
    sg = h.choice("side", [1, -1])
    hh, m, r = sg * k * (1 - v * v), 2 * k * v, k * (1 + v * v)      # in units of the direction's length
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")

    def at(s):
        return [X + s * dx - hh * dy, Y + s * dy + hh * dx, Z]
    return X, Y, Z, at, m, r * dn, dn


@harness("a circle of any centre and radius, a line along four directions at any distance of the centre that crosses it (quick tier: at three fixed ratios of distance and radius), segment ends anywhere, both orientations",
         each=[("%d/%s" % (i, "fb"[d]), dict(i=i, d=d, full=False, _tier="quick" if (i + d) % 2 else "thorough")) for i in range(len(DIRS)) for d in (0, 1)]
         + [("%d/%s/full" % (i, "fb"[d]), dict(i=i, d=d, full=True, _tier="thorough")) for i in range(len(DIRS)) for d in (0, 1)], weight=2, fork_timeout=400)
def line_circle(h, i, d, full):
    g = h.mod(G)
    X, Y, Z, at, m, r, dn = chord(h, i, full)
    s0 = h.real("s0", -300, 300)
    n = h.real("n", 0.05, 500)
    s1 = s0 + n if not d else s0 - n
    l = g.line(g.point(*at(s0)), g.point(*at(s1)))
    c = g.arc(g.point(X, Y, Z), r)
    r1 = g.intersectXY(l, c, inside=False)
    h.check(r1 is not False and len(r1) == 2, "a secant meets the circle twice")
    # order along the line
    e = [at(m), at(-m)]
    if d:
        e = e[::-1]
    h.check(h.Or(h.And(*[r1[a][b] - e[a][b] <= 1e-4 for a in (0, 1) for b in (0, 1)] + [r1[a][b] - e[a][b] >= -1e-4 for a in (0, 1) for b in (0, 1)]),
                 h.And(*[r1[a][b] - e[1 - a][b] <= 1e-4 for a in (0, 1) for b in (0, 1)] + [r1[a][b] - e[1 - a][b] >= -1e-4 for a in (0, 1) for b in (0, 1)])), "the two crossings")
    for q in r1:
        h.eq((q[0] - X) * (q[0] - X) + (q[1] - Y) * (q[1] - Y), r * r, "crossings lie on the circle", tol=1e-3)
    lo, hi = (s0, s1) if not d else (s1, s0)
    want = []
    for s in (m, -m):
        h.assume(h.And(h.Or(s <= lo - 1e-3, s >= lo + 1e-3), h.Or(s <= hi - 1e-3, s >= hi + 1e-3)))
        if s > lo and s < hi:
            want.append(at(s))
    r2 = g.intersectXY(l, c)
    if not want:
        h.check(r2 is False, "a segment that does not reach the circle does not meet it")
        return
    h.check(r2 is not False and len(r2) == len(want), "every crossing within the segment is reported once")
    for w in want:
        h.check(h.Or(*[h.And(*[h.And(q[b] - w[b] <= 1e-4, q[b] - w[b] >= -1e-4) for b in (0, 1)]) for q in r2]), "the crossing is reported")


@harness("a circle and a line along four directions that passes it at a distance", each=[("%d" % i, dict(i=i)) for i in range(len(DIRS))])
def line_misses(h, i):
    g = h.mod(G)
    (dx, dy), dn = DIRS[i]
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    r = h.real("r", 0.01, 100)
    o = h.real("o", 0.0, 200)
    h.assume(o * dn >= r + 1e-3)
    sg = h.choice("side", [1, -1])
    s0 = h.real("s0", -300, 300)
    n = h.real("n", 0.05, 500)
    at = lambda s: g.point(X + s * dx - sg * o * dy, Y + s * dy + sg * o * dx, Z)
    l = g.line(at(s0), at(s0 + n))
    c = g.arc(g.point(X, Y, Z), r)
    for ins in (True, False):
        h.check(g.intersectXY(l, c, inside=ins) is False, "a line that passes the circle does not meet it")


@harness("two circles of any position along four directions and any radii that cross", each=[("%d" % i, dict(i=i)) for i in range(len(DIRS))], weight=2)
def circle_circle(h, i):
    g = h.mod(G)
    (dx, dy), dn = DIRS[i]
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    q = h.real("q", 0.05, 50)                  # half of the common chord
    v, w = h.real("v", 0.2, 5), h.real("w", 0.2, 5)
    i1, r1 = q * (1 - v * v) / (2 * v), q * (1 + v * v) / (2 * v)
    i2, r2 = q * (1 - w * w) / (2 * w), q * (1 + w * w) / (2 * w)
    D = i1 + i2
    h.assume(D >= 0.01)
    c1 = g.arc(g.point(X, Y, Z), r1 * dn)
    c2 = g.arc(g.point(X + D * dx, Y + D * dy, Z), r2 * dn)
    e = [[X + i1 * dx - s * q * dy, Y + i1 * dy + s * q * dx] for s in (1, -1)]
    for ins in (False, True):
        r = g.intersectXY(c1, c2, inside=ins)
        h.check(r is not False and len(r) == 2, "two crossings")
        for x in e:
            h.check(h.Or(*[h.And(*[h.And(p[b] - x[b] <= 1e-4, p[b] - x[b] >= -1e-4) for b in (0, 1)]) for p in r]), "the crossing is reported")


@harness("two circles apart or one within the other", each=[("%d/%s" % (i, k), dict(i=i, k=k)) for i in range(len(DIRS)) for k in ("apart", "within", "around")])
def circle_misses(h, i, k):
    g = h.mod(G)
    (dx, dy), dn = DIRS[i]
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    r1, r2 = h.real("r1", 0.01, 50), h.real("r2", 0.01, 50)
    D = h.real("D", 0, 200)
    if k == "apart":
        h.assume(D * dn >= r1 + r2 + 1e-3)
    elif k == "within":
        h.assume(D * dn + r2 + 1e-3 <= r1)
    else:
        h.assume(D * dn + r1 + 1e-3 <= r2)
    c1 = g.arc(g.point(X, Y, Z), r1)
    c2 = g.arc(g.point(X + D * dx, Y + D * dy, Z), r2)
    for ins in (False, True):
        h.check(g.intersectXY(c1, c2, inside=ins) is False, "circles that do not cross have no crossing")


@harness("an arc of any centre and radius, starts and sweeps any, and a ray from its centre at any angle not at its ends; and the chord through a point of it",
         each=[("ray/%d" % k, dict(k=k, chord=False)) for k in (0, 1)], weight=2)
def line_arc(h, k, chord):
    g = h.mod(G)
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    r = h.real("r", 0.05, 100)
    s = h.angle("s", 0, 359)
    w = h.angle("w", 1, 359)
    a = h.angle("a", 0, 359.99)
    c = g.arc(g.point(X, Y, Z), r, s, s + w, samplereverse=bool(k))
    n = h.real("n", 0.1, 300)
    ca, sa = h.cosd(a), h.sind(a)
    l = g.line(g.point(X, Y, Z), g.point(X + n * ca, Y + n * sa, Z))
    e = s + w
    ins = False
    for t in (0.0, 360.0):
        x = a + t
        h.assume(h.And(h.Or(s <= x - 1e-3, s >= x + 1e-3), h.Or(e <= x - 1e-3, e >= x + 1e-3)))
        if s <= x and x <= e:
            ins = True
    h.assume(h.Or(n <= r - 1e-3, n >= r + 1e-3))
    q = g.intersectXY(l, c)
    if ins and n > r:
        h.check(q is not False and len(q) == 1, "a ray through the arc meets it once")
        near(h, q[0], [X + r * ca, Y + r * sa], "the crossing", 1e-4)
        h.eq(q[0][2], Z, "in the plane")
    else:
        h.check(q is False, "a ray past the arc does not meet it")


@harness("two arcs of equal radius whose circles cross at 60 and 120 degrees, any position, radius, starts and sweeps not at the crossings", each=[("%d" % k, dict(k=k)) for k in (0, 1)], weight=2)
def arc_arc(h, k):
    g = h.mod(G)
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    r = h.real("r", 0.05, 100)
    arcs, ins = [], []
    for n, x0, angs in (("a", X, (60.0, 300.0)), ("b", X + r, (120.0, 240.0))):
        if n == "b" and k:
            arcs.append(g.arc(g.point(x0, Y, Z), r))
            ins.append([True, True])
            continue
        s = h.angle("s" + n, 0, 359)
        w = h.angle("w" + n, 1, 359)
        e = s + w
        arcs.append(g.arc(g.point(x0, Y, Z), r, s, e))
        f = []
        for a in angs:
            i = False
            for t in (0.0, 360.0):
                y = a + t
                h.assume(h.And(h.Or(s <= y - 1e-3, s >= y + 1e-3), h.Or(e <= y - 1e-3, e >= y + 1e-3)))
                if s <= y and y <= e:
                    i = True
            f.append(i)
        ins.append(f)
    q3 = h.sqrt(3.0) / 2
    want = [[X + r / 2, Y + (q3, -q3)[j] * r] for j in (0, 1) if ins[0][j] and ins[1][j]]
    q = g.intersectXY(arcs[0], arcs[1])
    if not want:
        h.check(q is False, "arcs that do not reach each other do not meet")
        return
    h.check(q is not False and len(q) == len(want), "every crossing within both arcs is reported once")
    for w in want:
        h.check(h.Or(*[h.And(*[h.And(p[b] - w[b] <= 1e-4, p[b] - w[b] >= -1e-4) for b in (0, 1)]) for p in q]), "the crossing is reported")


@harness("a rectangle, an L of two edges and a list of two lines, any position and size, and a line across them at any height", each=[(k, dict(k=k)) for k in ("rect", "ell", "list")])
def line_compound(h, k):
    g = h.mod(G)
    X, Y, Z = h.real("x"), h.real("y"), h.real("z")
    a, b = h.real("a", 0.1, 100), h.real("b", 0.1, 100)
    y = h.real("h", -10, 110)
    h.assume(h.And(h.Or(y <= -0.01, y >= 0.01), h.Or(y <= b - 0.01, y >= b + 0.01)))
    l, r = h.real("l", 0.1, 10), h.real("r", -150, 150)
    h.assume(h.Or(r <= -0.1, h.And(r >= 0.1, r <= a - 0.1), r >= a + 0.1))
    h.assume(r >= -l + 0.2)
    P = lambda u, v: g.point(X + u, Y + v, Z)
    line = g.line(P(-l, y), P(r, y))
    if k == "rect":
        f = g.poly(P(0, 0), P(a, 0), P(a, b), P(0, b), P(0, 0))
        xs = [0.0, a]
    elif k == "ell":
        f = g.poly(P(0, 0), P(0, b), P(a, b))
        xs = [0.0]
    else:
        f = [g.line(P(0, 0), P(0, b)), g.line(P(a, b), P(a, 0))]
        xs = [0.0, a]
    want = [x for x in xs if x < r] if y > 0 and y < b else []
    q = g.intersectXY(line, f)
    q2 = g.intersectXY(f, line)
    for got in (q, q2):
        if not want:
            h.check(got is False, "no crossing")
            continue
        h.check(got is not False and len(got) == len(want), "every crossing is reported once")
        for w in want:
            h.check(h.Or(*[h.And(p[0] - X - w <= 1e-4, p[0] - X - w >= -1e-4, p[1] - Y - y <= 1e-4, p[1] - Y - y >= -1e-4) for p in got]), "the crossing is reported")
