"""Affine transforms: xform matrices and the geom translate/rotate/scale/mirror/transform functions."""
from symex.harness import harness
X = "yapcad.xform"
G = "yapcad.geom"


def P(h, n, flat=False):
    g = h.mod(G)
    return g.point(h.real(n + "x"), h.real(n + "y"), 0.0 if flat else h.real(n + "z"))


def far(h, c):
    """a centre that is not within the library's tolerance of the origin"""
    h.assume(h.Or(c[0] >= 1e-3, c[0] <= -1e-3, c[1] >= 1e-3, c[1] <= -1e-3, c[2] >= 1e-3, c[2] <= -1e-3))
    return c


def mat(h, x, n):
    return [[h.real("%s%d%d" % (n, i, j)) for j in range(4)] for i in range(4)]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def mv(a, v):
    return [sum(a[i][k] * v[k] for k in range(4)) for i in range(4)]


def ent(m):
    return [[m.get(i, j) for j in range(4)] for i in range(4)]


def tr(a):
    return [[a[j][i] for j in range(4)] for i in range(4)]


@harness("all real 4x4 matrices (entries arbitrary), all vectors and scalars, all transpose flags",
         each=[("%d%d" % (a, b), dict(ta=a, tb=b)) for a in (0, 1) for b in (0, 1)])
def matrix_algebra(h, ta, tb):
    x = h.mod(X)
    a, b = mat(h, x, "a"), mat(h, x, "b")
    A = x.Matrix(a, trans=bool(ta)) if not ta or not tb else x.Matrix([e for r in a for e in r], trans=True)
    B = x.Matrix(b, trans=bool(tb))
    ea, eb = (tr(a) if ta else a), (tr(b) if tb else b)
    h.eqs(ent(A), ea, "entries of A (transpose flag)")
    C = A.mul(B)
    h.eqs(ent(C), mm(ea, eb), "product entries", tol=1e-5)
    v = [h.real("v%d" % i) for i in range(4)]
    h.eqs(A.mul(v), mv(ea, v), "matrix times vector")
    h.eqs(C.mul(v), A.mul(B.mul(v)), "composition acts as apply right then left", tol=1e-4)
    for i in range(4):
        h.eqs(list(A.getrow(i)), ea[i], "row")
        h.eqs(list(A.getcol(i)), [r[i] for r in ea], "column")
    h.eqs(ent(x.Matrix(A)), ea, "copy")
    h.eqs(ent(A.mul(2.5)), [[2.5 * e for e in r] for r in ea], "scalar multiple")


@harness("all positions and values of a set entry, row and column", each=[("%d" % t, dict(t=t)) for t in (0, 1)])
def matrix_set(h, t):
    x = h.mod(X)
    a = mat(h, x, "a")
    i, j = h.choice("i", range(4)), h.choice("j", [0, 2, 3])
    s = h.real("s")
    A = x.Matrix(a, trans=bool(t))
    A.set(i, j, s)
    e = tr(a) if t else [list(r) for r in a]
    e[i][j] = s
    h.eqs(ent(A), e, "set")
    r = [h.real("r%d" % k) for k in range(4)]
    A.setrow(j, list(r))
    e[j] = list(r)
    h.eqs(ent(A), e, "setrow")
    A.setcol(i, [r[3], r[2], r[1], r[0]])
    for k in range(4):
        e[k][i] = r[3 - k]
    h.eqs(ent(A), e, "setcol")


@harness("all offsets and points")
def translation(h):
    x, g = h.mod(X), h.mod(G)
    d, p = P(h, "d"), P(h, "p")
    T, Ti = x.Translation(d), x.Translation(d, inverse=True)
    h.eqs(T.mul(p)[:3], [p[i] + d[i] for i in range(3)], "translation adds the offset")
    h.eqs(Ti.mul(T.mul(p)), p, "inverse translation")
    h.eqs(T.mul(Ti.mul(p)), p, "inverse translation (left)")
    h.eqs(g.translate(p, d), [p[0] + d[0], p[1] + d[1], p[2] + d[2], 1.0], "translate(point)")
    h.eqs(g.transform(p, T), [p[0] + d[0], p[1] + d[1], p[2] + d[2], 1.0], "transform(point)")


@harness("all factors and points", each=[(k, dict(k=k)) for k in ("one", "three", "vect")])
def scaling(h, k):
    x, g = h.mod(X), h.mod(G)
    s = [h.real("s%d" % i) for i in range(3)]
    for e in s:
        h.assume(h.Or(e >= 1e-2, e <= -1e-2))
    p = P(h, "p")
    if k == "one":
        S, Si = x.Scale(s[0]), x.Scale(s[0], inverse=True)
        s = [s[0]] * 3
    elif k == "three":
        S, Si = x.Scale(*s), x.Scale(s[0], s[1], s[2], inverse=True)
    else:
        S, Si = x.Scale(g.point(*s)), x.Scale(g.point(*s), inverse=True)
    h.eqs(S.mul(p), [s[i] * p[i] for i in range(3)] + [1.0], "scaling multiplies")
    h.eqs(Si.mul(S.mul(p)), p, "inverse scaling")


def rodrigues(h, u, ang, p, c=(0.0, 0.0, 0.0)):
    q = [p[i] - c[i] for i in range(3)]
    co, si = h.cosd(ang), h.sind(ang)
    d = sum(u[i] * q[i] for i in range(3))
    cr = [u[1] * q[2] - u[2] * q[1], u[2] * q[0] - u[0] * q[2], u[0] * q[1] - u[1] * q[0]]
    return [c[i] + q[i] * co + cr[i] * si + u[i] * d * (1 - co) for i in range(3)]


def axis(h, k):
    if k in "xyz":
        return [float(k == c) for c in "xyz"], None
    a = [h.real("ax"), h.real("ay"), h.real("az")]
    m2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]
    if k == "unit":
        h.assume(m2 == 1)
        return a, a
    h.assume(h.And(m2 >= 0.01, h.Or(m2 >= 1.01, m2 <= 0.99)))
    m = h.sqrt(m2)
    return a, [e / m for e in a]


AX = [(k, dict(k=k)) for k in ("x", "y", "z", "unit", "nonunit")]


@harness("all angles (any size), axes and points; x, y, z, any unit and any non-unit axis", each=AX)
def rotation(h, k):
    x, g = h.mod(X), h.mod(G)
    a, u = axis(h, k)
    ang = h.angle("t", -1080, 1080)
    p = P(h, "p")
    A = g.point(*a)
    if k == "unit" and h.mode == "concrete":
        m = h.sqrt(sum(e * e for e in a)) or 1.0
        u = [e / m for e in a]
        A = g.point(*u)
    R, Ri = x.Rotation(A, ang), x.Rotation(A, ang, inverse=True)
    h.eqs(R.mul(p), rodrigues(h, u or a, ang, p) + [1.0], "right-handed rotation about the axis", tol=1e-5)
    h.eqs(Ri.mul(R.mul(p)), p, "inverse rotation", tol=1e-5)


def figs(h, kind, flat=False):
    """a figure and the list of its points in order"""
    g = h.mod(G)
    if kind == "point":
        f = P(h, "a", flat)
    elif kind == "line":
        f = g.line(P(h, "a", flat), P(h, "b", flat))
    elif kind == "poly":
        f = g.poly(P(h, "a", flat), P(h, "b", flat), P(h, "c", flat))
    else:
        a, b = P(h, "a", flat), P(h, "b", flat)
        f = [g.line(a, b), b, [g.poly(a, b, P(h, "c", flat))]]
    return f


def pts(f):
    if len(f) == 4 and not isinstance(f[0], list):
        return [f]
    r = []
    for e in f:
        r += pts(e)
    return r


def shape(f):
    return None if len(f) == 4 and not isinstance(f[0], list) else [shape(e) for e in f]


FIG = ("point", "line", "poly", "list")


def same(h, f, r, want, lab, tol=1e-5):
    h.check(shape(f) == shape(r), lab + ": structure kept")
    for a, b in zip(pts(r), want):
        h.eqs(list(a)[:3], b, lab, tol)
    h.check(len(pts(r)) == len(want), lab + ": point count")


@harness("all points, offsets and nested figure lists", each=[(k, dict(k=k)) for k in FIG])
def fig_translate(h, k):
    g = h.mod(G)
    f, d = figs(h, k), P(h, "d")
    before = [list(p) for p in pts(f)]
    same(h, f, g.translate(f, d), [[p[i] + d[i] for i in range(3)] for p in pts(f)], "translate")
    h.eqs(pts(f), before, "argument not modified")


@harness("all points, factors and centres", each=[("%s/%s" % (k, m), dict(k=k, m=m)) for k in FIG for m in ("uni", "uni/c", "two", "two/c", "three", "three/c")])
def fig_scale(h, k, m):
    g = h.mod(G)
    f = figs(h, k)
    n = 1 if m.startswith("uni") else 2 if m.startswith("two") else 3
    s = [h.real("s%d" % i) for i in range(n)]
    h.assume(h.Or(s[0] >= 1.001, h.And(s[0] <= 0.999, h.Or(s[0] >= 1e-3, s[0] <= -1e-3))))
    for e in s[1:]:
        h.assume(h.Or(e >= 1e-3, e <= -1e-3))
    c = far(h, P(h, "c0")) if m.endswith("/c") else [0.0, 0.0, 0.0, 1.0]
    r = g.scale(f, *s, cent=g.point(*c[:3])) if m.endswith("/c") else g.scale(f, *s)
    if n == 2:      # what becomes of z is open
        h.check(len(pts(r)) == len(pts(f)), "scale by two factors: point count")
        for p, q in zip(pts(f), pts(r)):
            h.eqs(q[:2], [c[i] + s[i] * (p[i] - c[i]) for i in range(2)], "scale by two factors")
        return
    s = s * 3 if n == 1 else s
    same(h, f, r, [[c[i] + s[i] * (p[i] - c[i]) for i in range(3)] for p in pts(f)], "scale about the centre")


@harness("all points, angles and centres; z axis, x axis and arbitrary unit axes",
         each=[("%s/%s/%s" % (k, a, c), dict(k=k, a=a, c=c)) for k in FIG for a in ("z", "x") for c in (0, 1)] + [("point/unit/1", dict(k="point", a="unit", c=1))])
def fig_rotate(h, k, a, c):
    g = h.mod(G)
    f = figs(h, k)
    ang = h.angle("t", -1080, 1080)
    h.assume(h.Or(ang >= 1e-3, ang <= -1e-3))
    ax, u = axis(h, a)
    ct = far(h, P(h, "c0")) if c else [0.0, 0.0, 0.0, 1.0]
    if a == "unit" and h.mode == "concrete":
        m = h.sqrt(sum(e * e for e in ax)) or 1.0
        ax = [e / m for e in ax]
    kw = {}
    if c:
        kw["cent"] = g.point(*ct[:3])
    if a != "z":
        kw["axis"] = g.point(*ax)
    r = g.rotate(f, ang, **kw)
    same(h, f, r, [rodrigues(h, ax, ang, p, ct) for p in pts(f)], "rotate about the centre")


@harness("all points", each=[("%s/%s" % (k, pl), dict(k=k, pl=pl)) for k in FIG for pl in ("xy", "xz", "yz")])
def fig_mirror(h, k, pl):
    g = h.mod(G)
    f = figs(h, k)
    r = g.mirror(f, pl)
    n = {"xy": 2, "xz": 1, "yz": 0}[pl]
    same(h, f, r, [[-p[i] if i == n else p[i] for i in range(3)] for p in pts(f)], "mirror")


@harness("all points and all affine matrices", each=[(k, dict(k=k)) for k in FIG])
def fig_transform(h, k):
    g, x = h.mod(G), h.mod(X)
    f = figs(h, k)
    a = [[h.real("m%d%d" % (i, j)) for j in range(4)] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
    r = g.transform(f, x.Matrix(a))
    same(h, f, r, [mv(a, p[:3] + [1.0])[:3] for p in pts(f)], "transform", tol=1e-4)


def an_arc(h, full, rev):
    g = h.mod(G)
    c, r = P(h, "c"), h.real("r", 1e-2, 100)
    if full:
        return g.arc(c, r)
    # start in (0,360), sweep given by the end angle, possibly through 0
    s, e = h.angle("s", 5, 355, den=4), h.angle("e", 5, 355, den=4)
    h.assume(h.Or(e >= s + 1, e <= s - 1))
    return g.arc(c, r, s, e, samplereverse=bool(rev))


ARC = [("%s%s" % (k, "r" if rev else ""), dict(k=k, rev=rev)) for k in ("translate", "scale", "rotate", "xy", "xz", "yz") for rev in (0, 1)] + [(k + "/circle", dict(k=k, full=1)) for k in ("translate", "scale", "rotate", "xy", "xz", "yz")]


@harness("all arcs (either sampling direction) and circles; sample points at u = 0, 1/4, 1", each=ARC, weight=2)
def arcs(h, k, rev=0, full=0):
    """the image of an arc has as its sample points the images of the arc's sample points"""
    g = h.mod(G)
    a = an_arc(h, full, rev)
    us = [0.0, 0.25, 1.0]
    vs = us
    if k == "translate":
        d = P(h, "d")
        b = g.translate(a, d)
        f = lambda p: [p[i] + d[i] for i in range(3)]
    elif k == "scale":
        s, c = h.real("k", 1.01, 50), far(h, P(h, "c0"))
        b = g.scale(a, s, cent=c)
        f = lambda p: [c[i] + s * (p[i] - c[i]) for i in range(3)]
    elif k == "rotate":
        t, c = h.choice("t", [90.0, -90.0, 37.0, -251.0, 360.0, 730.0]), far(h, P(h, "c0"))
        b = g.rotate(a, t, cent=c)
        f = lambda p: rodrigues(h, (0.0, 0.0, 1.0), t, p, c)
    else:
        b = g.mirror(a, k)
        n = {"xy": 2, "xz": 1, "yz": 0}[k]
        f = lambda p: [-p[i] if i == n else p[i] for i in range(3)]
    if full:
        h.check(g.iscircle(b), "a circle stays a circle")
        h.eqs(b[0][:3], f(a[0]), "centre moves by the map", tol=1e-5)
        h.eq(b[1][0], a[1][0] * (s if k == "scale" else 1), "radius")
        return
    for u, v in zip(us, vs):
        h.eqs(g.samplearc(b, v)[:3], f(g.samplearc(a, u)), "sample points of the image", tol=1e-5)
