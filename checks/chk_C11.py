"""Planes, triangle faces and their intersections."""
from symex.harness import harness
G3 = "yapcad.geom3d"
G = "yapcad.geom"
FR = {"xyz": ((1, 0, 0), (0, 1, 0), (0, 0, 1)), "yzx": ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
      "-y": ((0, -1, 0), (1, 0, 0), (0, 0, 1)), "g": ((2, 1, -2), (1, 2, 2), (2, -2, 1)),
      "p": ((3, 4, 0), (-4, 3, 0), (0, 0, 5)), "t": ((3, 4, 0), (0, 0, 5), (4, -3, 0))}
NO = {"g": 3, "p": 5, "t": 5}


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [a[i] - b[i] for i in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def at(o, fr, *c):
    return [o[j] + sum(q * FR[fr][i][j] for i, q in enumerate(c)) for j in range(3)]


def imp(h, a, b):
    return h.Or(h.Not(a), b)


def sq(a):
    return dot(a, a)


@harness("all triangles with one vertex and the size and shape arbitrary, in fixed frames", each=[("%s/%d" % (f, cl), dict(fr=f, closed=cl)) for f in FR for cl in (0, 1)])
def face_basis(h, fr, closed):
    g, g3 = h.mod(G), h.mod(G3)
    o = [h.real("o" + c, -100, 100) for c in "xyz"]
    a, c = h.real("a", 0.1, 50), h.real("c", 0.1, 50)
    b = h.real("b", -50, 50)
    k = NO.get(fr, 1)
    u, v, n = FR[fr]
    P = [o, at(o, fr, a), at(o, fr, b, c)]
    face = [g.point(*p) for p in P] + ([g.point(*P[0])] if closed else [])
    p0, nn = g3.tri2p0n(face)
    h.eqs(p0[:3], [(P[0][j] + P[1][j] + P[2][j]) / 3 for j in range(3)], "centre")
    h.eqs(nn, [q / k for q in n] + [0.0], "normal")
    q0, n2, F, R = g3.tri2p0n(face, basis=True)
    h.eqs(list(q0) + list(n2), list(p0) + list(nn), "same plane with a basis")
    f = [F.mul(p) for p in face]
    for p, w in zip(f, face):
        h.eq(p[2], 0.0, "the face lies in the plane z=0 of its basis")
        h.eqs(R.mul(p)[:3], w[:3], "back to the world")
    h.eqs(sub(f[1], f[0]), [a * k, 0.0, 0.0], "x along the first edge")
    h.eqs(sub(f[2], f[0]), [b * k, c * k, 0.0], "y to the left of it")
    h.eqs(F.mul(p0)[:3], [0.0, 0.0, 0.0], "origin at the centre")
    w = [h.real("w" + i, -100, 100) for i in "xyz"]
    z = F.mul(g.point(*w))
    d = dot(sub(w, p0), n) / k
    h.eq(z[2], d, "z is the distance above the face")
    h.eq(g3.signedPlaneDistance(g.point(*w), p0, nn), d, "signed distance")
    h.eqs(R.mul(z)[:3], w, "inverse")
    h.eqs(F.mul(R.mul(g.point(*w)))[:3], w, "inverse of the inverse")
    n1, m2, m3 = g3.normfunc(face)
    for m in (n1, m2, m3):
        h.eqs(m, [q / k for q in n] + [0.0], "facet normal")
    h.eq(g3.surfacearea(["surface", face, [nn] * 3, [[0, 1, 2]], [], []]), a * c * k * k / 2, "area")


TRI = {"right": ((0, 0), (6, 0), (0, 8)), "obtuse": ((0, 0), (5, 0), (-3, 4)), "cw": ((0, 0), (0, 3), (4, 0)), "third": ((0, 0), (8, 0), (4, 3))}


@harness("test points with the height and one coordinate arbitrary (in the frame of the face) for three triangles in fixed planes", each=[("%s/%s/%s%s" % (t, f, y, w), dict(t=t, fr=f, sym=y, at3=w)) for t in TRI for f in ("xyz",) for y, w in (("uz", 1.0), ("vz", 2.0), ("uz", -3.0), ("vz", 7.0))] + [("%s/%s/%s%s" % (t, f, y, w), dict(t=t, fr=f, sym=y, at3=w, _tier="thorough")) for t in TRI for f in ("yzx", "p") for y, w in (("uz", 1.0), ("vz", 2.0), ("uz", -3.0), ("vz", 7.0))])
def face_distance(h, t, fr, sym, at3):
    g, g3 = h.mod(G), h.mod(G3)
    o = [1.0, -2.0, 3.0]
    P = [at(o, fr, *c) for c in TRI[t]]
    w = [h.real(c, -20, 20) if c in sym else at3 for c in "uvz"]
    p = at(o, fr, *w)
    d = g3.signedFaceDistance(g.point(*p), [g.point(*q) for q in P])
    n = cross(sub(P[1], P[0]), sub(P[2], P[0]))
    nn = sq(n)
    above = dot(sub(p, P[0]), n)
    h.check(imp(h, above > 0.01 * nn, d >= 0), "positive on the side of the normal")
    h.check(imp(h, above < -0.01 * nn, d <= 0), "negative on the other side")
    d2 = d * d
    tol = 1e-4
    ed = [(P[i], P[(i + 1) % 3]) for i in range(3)]
    out = [dot(cross(sub(b, a), sub(p, a)), n) <= 0 for a, b in ed]
    # the closest point of a convex figure: the plane projection when it is inside every edge, the foot on an edge
    # when p lies outside that edge and beside it, the corner when p lies in the normal cone of the corner
    h.check(imp(h, h.Not(h.Or(*out)), abs(d2 - above * above / nn) <= tol), "distance to the plane over the face")
    for i, (a, b) in enumerate(ed):
        e = sub(b, a)
        k = dot(sub(p, a), e)
        h.check(imp(h, h.And(out[i], k >= 0, k <= sq(e)), abs(d2 - (sq(sub(p, a)) - k * k / sq(e))) <= tol), "distance to the edge beside it")
        c, f = ed[i - 1]
        h.check(imp(h, h.And(k <= 0, dot(sub(p, a), sub(f, c)) >= 0), abs(d2 - sq(sub(p, a))) <= tol), "distance to the corner beyond both edges")


@harness("all lines against the coordinate planes, limited and unlimited", each=[("%s/%d" % (k, i), dict(plane=k, inside=bool(i))) for k in ("xy", "yz", "xz") for i in (0, 1)])
def line_plane(h, plane, inside):
    g, g3 = h.mod(G), h.mod(G3)
    ax = {"xy": 2, "yz": 0, "xz": 1}[plane]
    a, b = [[h.real(n + c, -50, 50) for c in "xyz"] for n in "ab"]
    h.assume(abs(a[ax] - b[ax]) > 0.01)
    r = g3.linePlaneIntersect(g.line(g.point(*a), g.point(*b)), plane, inside)
    cut = h.Or(h.And(a[ax] <= 0, b[ax] >= 0), h.And(a[ax] >= 0, b[ax] <= 0)) if inside else True
    h.check(bool(r) == cut, "cut exactly when the ends are on both sides")
    if r:
        h.eq(r[ax], 0.0, "on the plane")
        h.eqs(cross(sub(r, a), sub(b, a)), [0.0] * 3, "on the line")


@harness("lines with arbitrary ends (two coordinates at a time) against a triangle or the plane of a triangle in fixed frames", each=[("%s/%s/%s" % (f, m, s), dict(fr=f, mode=m, sym=s)) for f in ("xyz", "p", "yzx") for m in ("inside", "free", "basis") for s in ("uv", "uz")])
def line_face(h, fr, mode, sym):
    g, g3 = h.mod(G), h.mod(G3)
    o = [1.0, -2.0, 3.0]
    P = [g.point(*at(o, fr, *c)) for c in ((0, 0), (6, 0), (0, 8))]
    ca, cb = [1.0, 2.0, 3.0], [2.0, 1.0, -2.0]
    for c in sym:
        ca["uvz".index(c)] = h.real("a" + c, -12, 12)
    cb[0] = h.real("bu", -12, 12)
    h.assume(abs(ca[2] - cb[2]) > 0.1)
    pl = g3.tri2p0n(P, basis=True) if mode == "basis" else P
    r = g3.linePlaneIntersect(g.line(g.point(*at(o, fr, *ca)), g.point(*at(o, fr, *cb))), pl, mode != "free")
    d = ca[2] - cb[2]
    t = ca[2] / d
    x = [ca[i] + t * (cb[i] - ca[i]) for i in range(3)]
    m = 1e-4
    if mode == "free":
        yes, no = True, False
    elif mode == "basis":
        yes, no = h.And(t > m, t < 1 - m), h.Or(t < -m, t > 1 + m)
    else:
        yes = h.And(t > m, t < 1 - m, x[0] > m, x[1] > m, 4 * x[0] + 3 * x[1] < 24 - m)
        no = h.Or(t < -m, t > 1 + m, x[0] < -m, x[1] < -m, 4 * x[0] + 3 * x[1] > 24 + m)
    if r:
        h.check(h.Not(no) if no is not False else True, "reported only where the line meets it")
        h.eqs(r[:3], at(o, fr, *x), "the point where line and plane meet", tol=1e-6)
    else:
        h.check(h.Not(yes) if yes is not True else False, "not missed")


TT = {"cross": ((0, 0, -2), (2, 1, 3), (3, -1, 1)), "corner": ((1, 1, 0), (3, 2, 4), (2, 3, -3)), "edge": ((-1, 1, 0), (4, 2, 0), (1, 1, 5)), "steep": ((0, 0, 6), (1, 0, -6), (0, 1, -6))}


def bary(h, p, T, n, m):
    return [dot(cross(sub(T[(i + 1) % 3], T[i]), sub(p, T[i])), n) >= m for i in range(3)]


@harness("pairs of triangles of fixed shape, one moved by an arbitrary vector along one or two directions; every common point is compared", each=[("%s/%s/%s" % (k, f, s), dict(k=k, fr=f, sym=s)) for k in TT for f, s in (("xyz", "u"), ("xyz", "v"), ("yzx", "z"))] + [("%s/p/u" % k, dict(k=k, fr="p", sym="u", _tier="thorough")) for k in TT])
def face_face(h, k, fr, sym):
    g, g3 = h.mod(G), h.mod(G3)
    o = [1.0, -2.0, 3.0]
    A = [at(o, fr, *c) for c in ((0, 0), (6, 0), (1, 5))]
    mv = [h.real("d" + c, -8, 8) if c in sym else 0.0 for c in "uvz"]
    B = [at(o, fr, *[c[i] + mv[i] for i in range(3)]) for c in TT[k]]
    pa, pb = [g.point(*p) for p in A], [g.point(*p) for p in B]
    na, nb = cross(sub(A[1], A[0]), sub(A[2], A[0])), cross(sub(B[1], B[0]), sub(B[2], B[0]))
    r = g3.triTriIntersect(pa, pb)
    m = 0.05
    free = g3.triTriIntersect(pa, pb, inside=False)
    h.check(bool(free), "the planes meet in a line")
    if free:
        for p in free:
            h.eq(dot(sub(p, A[0]), na), 0.0, "line in the first plane", tol=1e-3)
            h.eq(dot(sub(p, B[0]), nb), 0.0, "line in the second plane", tol=1e-3)
    e = cross(na, nb)
    if r:
        a, b = r
        for p in (a, b):
            h.eq(dot(sub(p, A[0]), na), 0.0, "in the first plane", tol=1e-3)
            h.eq(dot(sub(p, B[0]), nb), 0.0, "in the second plane", tol=1e-3)
            h.check(h.And(*bary(h, p, A, na, -m)), "within the first triangle")
            h.check(h.And(*bary(h, p, B, nb, -m)), "within the second triangle")
    elif free:
        a = free[0]
    else:
        return
    lam = h.real("lam", -30, 30)
    q = [a[i] + lam * e[i] / sq(e) ** 0.5 for i in range(3)]
    common = h.And(*bary(h, q, A, na, m), *bary(h, q, B, nb, m))
    if not r:
        h.check(h.Not(common), "no common point when none is reported")
        return
    ends = dot(sub(b, a), e) / sq(e) ** 0.5
    h.check(imp(h, common, h.And(h.Or(lam >= -1e-3, lam >= ends - 1e-3), h.Or(lam <= 1e-3, lam <= ends + 1e-3))), "every common point is on the reported segment")
