"""Generated solids: closed, outward oriented, of the stated dimensions."""
import math
from symex.harness import harness
U, G, G3, T = "yapcad.geom3d_util", "yapcad.geom", "yapcad.geom3d", "yapcad.triangulator"


EPS = 6e-6      # the library treats points within 5e-6 as one


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [a[i] - b[i] for i in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sq(a):
    return dot(a, a)


def same(h, p, q):
    d = [p[i] - q[i] for i in range(3)]
    for x in d:
        a = x if isinstance(x, (int, float)) else (x.approx() if hasattr(x, "approx") else None)
        if a is not None and abs(a) > EPS:
            return False
    return all(h.valid(abs(x) <= EPS) for x in d)


def weld(h, s):
    """facets as triples of positions (indices into the welded points)"""
    pts, out = [], []
    for su in s[1]:
        ix = []
        for p in su[1]:
            for i, q in enumerate(pts):
                if p is q or same(h, p, q):
                    ix.append(i)
                    break
            else:
                ix.append(len(pts))
                pts.append(p)
        out += [(tuple(ix[i] for i in f), su, f) for f in su[3]]
    return pts, out


def closed(h, s):
    pts, fs = weld(h, s)
    n = {}
    for t, _, _ in fs:
        h.check(len(set(t)) == 3, "facets have three corners")
        for i in range(3):
            e = (t[i], t[(i + 1) % 3])
            n[e] = n.get(e, 0) + 1
    h.check(bool(n) and all(c == 1 and n.get((b, a)) == 1 for (a, b), c in n.items()), "every edge is shared by two oppositely directed facets")
    return pts, fs


def volume(pts, fs):
    v = 0
    o = pts[0]
    for t, _, _ in fs:
        a, b, c = (sub(pts[i], o) for i in t)
        v = v + dot(a, cross(b, c))
    return v / 6


def normals(h, pts, fs):
    for t, su, f in fs:
        a, b, c = (pts[i] for i in t)
        n = cross(sub(b, a), sub(c, a))
        for i in f:
            h.check(dot(n, su[2][i]) > 0, "vertex normals point the way the facet faces")


def dims(h, s, lo, hi):
    for i in range(3):
        xs = [p[i] for su in s[1] for f in su[3] for p in (su[1][j] for j in f)]
        for x in xs:
            h.check(h.And(x >= lo[i] - 1e-4, x <= hi[i] + 1e-4), "within the stated size")
        h.check(h.Or(*[abs(x - lo[i]) <= 1e-4 for x in xs]), "reaches the stated size")
        h.check(h.Or(*[abs(x - hi[i]) <= 1e-4 for x in xs]), "reaches the stated size")


def cen(h, at):
    """at: which coordinates of the position are arbitrary"""
    return [h.real("c" + k, -50, 50) if k in at else v for k, v in zip("xyz", (3.0, -7.0, 2.5))]


def size(h, n, lo, hi, sym, v):
    return h.real(n, lo, hi) if sym else v


@harness("boxes of any size anywhere", floats=True)
def box(h):
    m, g = h.mod(U), h.mod(G)
    l, w, t = h.real("l", 0.1, 50), h.real("w", 0.1, 50), h.real("t", 0.1, 50)
    c = cen(h, "xyz")
    s = m.prism(l, w, t, g.point(*c))
    pts, fs = closed(h, s)
    h.eq(len(pts), 8, "eight corners")
    h.eq(volume(pts, fs), l * w * t, "volume")
    normals(h, pts, fs)
    dims(h, s, [c[0] - l / 2, c[1] - w / 2, c[2] - t / 2], [c[0] + l / 2, c[1] + w / 2, c[2] + t / 2])


CON = [("a%g/%s" % (a, at or "size"), dict(angr=a, at=at)) for a in (45, 30) for at in ("", "xyz")]


@harness("cylinders and frusta of any radii and height anywhere, three resolutions", each=CON, floats=True)
def frustum(h, angr, at):
    m, g = h.mod(U), h.mod(G)
    r0, r1, t = size(h, "r0", 0.1, 50, not at, 4.0), size(h, "r1", 0.1, 50, not at, 2.0), size(h, "t", 0.1, 50, not at, 5.0)
    c = cen(h, at)
    s = m.conic(r0, r1, t, g.point(*c), angr=angr)
    pts, fs = closed(h, s)
    n = round(360 / angr)
    h.eq(len(pts), 2 * n + 2, "two rings and two centres")
    h.eq(volume(pts, fs), n / 2 * math.sin(2 * math.pi / n) * t / 3 * (r0 * r0 + r0 * r1 + r1 * r1), "volume")
    normals(h, pts, fs)
    ring(h, pts, c, {0: r0, 1: r1}, t)


def ring(h, pts, c, rad, t):
    for p in pts:
        d = sub(p, c)
        e = d[0] * d[0] + d[1] * d[1]
        k = [k for k in (0, 1) if h.valid(abs(d[2] - k * t) <= 1e-5)]
        h.check(bool(k), "on one of the two ends")
        if k and not h.valid(e <= 1e-5):
            h.eq(e, rad[k[0]] * rad[k[0]], "on the stated circle", tol=1e-4)


@harness("cones of any radius and height anywhere, three resolutions", each=CON, floats=True)
def cone(h, angr, at):
    m, g = h.mod(U), h.mod(G)
    r0, t = size(h, "r0", 0.1, 50, not at, 4.0), size(h, "t", 0.1, 50, not at, 5.0)
    c = cen(h, at)
    s = m.conic(r0, 0.0, t, g.point(*c), angr=angr)
    pts, fs = closed(h, s)
    n = round(360 / angr)
    h.eq(len(pts), n + 2, "a ring, its centre and the apex")
    h.eq(volume(pts, fs), n / 2 * math.sin(2 * math.pi / n) * t / 3 * r0 * r0, "volume")
    normals(h, pts, [f for f in fs if True])
    ring(h, pts, c, {0: r0, 1: 0.0}, t)


ICO = 2.5361507101204093


@harness("spheres and spheroids of any size anywhere, subdivision depth 0 and 1", each=[("%s/%d/%s" % (k, d, at or "size"), dict(kind=k, depth=d, at=at)) for k in ("sphere", "spheroid") for d, at in ((0, ""), (0, "xz"), (1, ""))] + [("sphere/1/y", dict(kind="sphere", depth=1, at="y", _tier="thorough"))], floats=True)
def ball(h, kind, depth, at):
    m, g = h.mod(U), h.mod(G)
    d = size(h, "d", 0.5, 100, not at, 9.0)
    c = cen(h, at)
    if kind == "sphere":
        f = 0.0
        s = m.sphere(d, g.point(*c), depth)
    else:
        f = size(h, "f", -0.5, 0.9, not at, 0.25)
        s = m.oblate_spheroid(d, f, g.point(*c), depth)
    pts, fs = closed(h, s)
    h.eq(len(fs), 20 * 4 ** depth, "facets")
    a = d / 2
    b = a * (1 - f)
    for p in pts:
        q = sub(p, c)
        h.eq((q[0] * q[0] + q[1] * q[1]) * b * b + q[2] * q[2] * a * a, a * a * b * b, "on the stated surface", tol=1e-2)
    v = volume(pts, fs)
    if depth == 0:
        h.eq(v, ICO * a * a * b, "volume", tol=1e-2)
    else:
        h.check(h.And(v > 3.5 * a * a * b, v < 4.19 * a * a * b), "volume")
    for t, su, ff in fs:
        A, B, C = (pts[i] for i in t)
        h.check(dot(cross(sub(B, A), sub(C, A)), sub(A, c)) > 0, "facets face away from the centre")
        for i in ff:
            h.check(dot(su[2][i], sub(su[1][i], c)) > 0, "normals point away from the centre")


def fan(h, outer, holes=()):
    """The triangulator is native code. It is stood for by the fan of a convex outline, or by strips between an outline
    and one hole of as many corners; the checks below use only that its triangles cover the outline."""
    if not hasattr(h, "eng"):
        return
    t = h.mod(T)
    h.assume(hasattr(t, "_earcut") and hasattr(t._earcut, "triangulate_float32"))

    class E:
        def triangulate_float32(self, v, ends):
            ends = [int(e) for e in ends]
            if len(ends) == 1:
                return [k for i in range(1, ends[0] - 1) for k in (0, i, i + 1)]
            n = ends[0]
            h.assume(ends[1] == 2 * n)
            # the two run opposite ways: find the corner of the hole to pair with corner 0
            o = [j for j in range(n) if h.valid(h.And(abs(cross2(v[0], v[n + j])) <= 1e-5, dot2(v[0], v[n + j]) > 0))]
            h.assume(len(o) == 1)
            r = []
            for i in range(n):
                a, b = n + (o[0] - i) % n, n + (o[0] - i - 1) % n
                r += [i, (i + 1) % n, b, i, b, a]
            return r

    c = [sum(p[i] for p in outer) / len(outer) for i in (0, 1)]

    def dot2(a, b):
        return (a[0] - c[0]) * (b[0] - c[0]) + (a[1] - c[1]) * (b[1] - c[1])

    def cross2(a, b):
        return (a[0] - c[0]) * (b[1] - c[1]) - (a[1] - c[1]) * (b[0] - c[0])
    t._earcut = E()


def cross_z(p, q, r):
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def area2(P):
    return sum(P[i - 1][0] * P[i][1] - P[i - 1][1] * P[i][0] for i in range(len(P)))


def poly(h, n, cw, easy=False):
    """convex polygons with an arbitrary corner or two"""
    if n == 4 and easy:
        P = [[0.0, 0.0], [h.real("a", 2, 50), 0.0], [5.0, h.real("c", 1, 50)], [0.0, 3.0]]
        for i in range(4):
            h.assume(cross_z(P[i - 2], P[i - 1], P[i]) >= 0.5)
        return [P[1], P[0]] + P[:1:-1] if cw else P
    if n == 3:
        P = [[0.0, 0.0], [h.real("a", 1, 50), 0.0], [h.real("b", -20, 50), h.real("c", 1, 50)]]
    elif n == 4:
        P = [[0.0, 0.0], [h.real("a", 2, 50), 0.0], [h.real("b", 1, 50), h.real("c", 2, 50)], [0.0, h.real("d", 2, 50)]]
        for i in range(4):
            h.assume(cross_z(P[i - 2], P[i - 1], P[i]) >= 0.5)
    else:
        P = [[0.0, 0.0], [4.0, -1.0], [h.real("b", 5, 20), 2.0], [3.0, h.real("d", 5, 50)], [-1.0, 4.0]]
        for i in range(5):
            h.assume(cross_z(P[i - 2], P[i - 1], P[i]) >= 0.5)
    # the first edge stays along the x axis
    return [P[1], P[0]] + P[:1:-1] if cw else P


DIR = {"up": (0.0, 0.0, 1.0), "down": (0.0, 0.0, -1.0), "oblique": (0.6, 0.0, 0.8), "back": (0.0, 0.6, -0.8)}


@harness("extrusions of convex polygons with three to five corners, in either order, by any distance in four directions", each=[("%d%s/%s/%s" % (n, "cw" if cw else "ccw", d, f), dict(n=n, cw=cw, d=d, f=f)) for n in (3, 4) for cw in (0, 1) for d in DIR for f in ("XY",)] + [("%d%s/%s/%s" % (n, "cw" if cw else "ccw", d, f), dict(n=n, cw=cw, d=d, f=f, _tier="thorough")) for n, f in ((5, "XY"), (3, "")) for cw in (0, 1) for d in DIR], floats=True)
def extrusion(h, n, cw, d, f):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    P = poly(h, n, cw)
    dist = h.real("t", 0.5, 50)
    fan(h, P)
    s, _ = (g3.poly2surfaceXY if f else g3.poly2surface)([g.point(*p) for p in P])
    s = m.extrude(s, dist, g.vect(*DIR[d], 0))
    pts, fs = closed(h, s)
    h.eq(len(pts), 2 * n, "two copies of the outline")
    h.eq(volume(pts, fs), abs(DIR[d][2]) * dist * area2(P) / 2 * (-1 if cw else 1), "volume", tol=1e-4)
    normals(h, pts, [x for x in fs if len(x[1][3]) != 2 * n or x[1] is not s[1][1]])
    h.check(all(any(all(h.valid(abs(q[i] - (p + [0.0])[i] - k * dist * DIR[d][i]) <= 1e-5) for i in range(3)) for p in P for k in (0, 1)) for q in pts), "corners are those of the outline and its copy")


RN = {"ccw": 1, "cw": -1}


@harness("plates with a hole (outline and hole in either order), any thickness", each=[("%s/%s/%s" % (o, i, d), dict(o=o, i=i, d=d)) for o in RN for i in RN for d in ("up", "down")], floats=True)
def plate(h, o, i, d):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    a, b = h.real("a", 6, 50), h.real("b", 1, 2.5)
    dist = h.real("t", 0.5, 50)
    A = [[-a, -a], [a, -a], [a, a], [-a, a]][::RN[o]]
    B = [[-b, -b], [b, -b], [b, b], [-b, b]][::RN[i]]
    fan(h, A, [B])
    s, _ = g3.poly2surfaceXY([g.point(*p) for p in A], [[g.point(*p) for p in B]])
    s = m.extrude(s, dist, g.vect(*DIR[d], 0))
    pts, fs = closed(h, s)
    h.eq(len(pts), 16, "two copies of the outlines")
    h.eq(volume(pts, fs), 4 * (a * a - b * b) * dist, "volume", tol=1e-4)


TU = [("%s/%g" % (k, a), dict(k=k, minang=a)) for k in ("tube", "conic") for a in (90, 45)]


@harness("tubes and tapered tubes of any size", each=TU, floats=True)
def pipe(h, k, minang):
    m, g = h.mod(U), h.mod(G)
    r0, r1 = h.real("r0", 3, 50), h.real("r1", 3, 50)
    w = h.real("w", 0.5, 2)
    t = h.real("t", 0.5, 50)
    c = [0.0, 0.0, h.real("z", 1, 50)]
    fan(h, [[0.0, 0.0]])
    if k == "tube":
        r1 = r0
        s = m.tube(2 * r0, w, t, base_point=g.point(*c), minang=minang)
    else:
        s = m.conic_tube(2 * r0, 2 * r1, w, t, base_point=g.point(*c), minang=minang)
    pts, fs = closed(h, s)
    n = len(pts) // 4
    h.check(n >= 360 / minang, "at least the stated resolution")
    i0, i1 = r0 - w, r1 - w
    h.eq(volume(pts, fs), n / 2 * math.sin(2 * math.pi / n) * t / 3 * (r0 * r0 + r0 * r1 + r1 * r1 - i0 * i0 - i0 * i1 - i1 * i1), "volume", tol=1e-2)
    for p in pts:
        e = p[0] * p[0] + p[1] * p[1]
        h.check(h.Or(*[h.And(abs(p[2] - z) <= 1e-5, abs(e - q * q) <= 1e-4) for z, q in ((c[2], r0), (c[2], i0), (c[2] + t, r1), (c[2] + t, i1))]), "on the stated circles")


CO = {"straight": lambda z: 2.0 + 0.5 * z, "cone": lambda z: z + 0.0, "tip": lambda z: 4.0 - z, "spindle": lambda z: z if z < 2 else 4.0 - z, "bulge": lambda z: 1.0 + z * (4.0 - z)}


@harness("solids of revolution of five profiles of any scale", each=[("%s/%d/%d" % (k, st, n), dict(k=k, st=st, n=n)) for k in CO for st, n in ((2, 4), (4, 4), (2, 6))], floats=True)
def revolution(h, k, st, n):
    m = h.mod(U)
    q = h.real("q", 0.1, 50)
    s = m.makeRevolutionSolid(lambda z: q * CO[k](z), 0.0, 4.0, st, n)
    pts, fs = closed(h, s)
    dz = 4.0 / st
    v = 0
    for i in range(st):
        r0, r1 = CO[k](i * dz), CO[k]((i + 1) * dz)
        v += dz / 3 * (r0 * r0 + r0 * r1 + r1 * r1)
    h.eq(volume(pts, fs), n / 2 * math.sin(2 * math.pi / n) * v * q * q, "volume", tol=1e-2)
    for p in pts:
        e = p[0] * p[0] + p[1] * p[1]
        h.check(h.Or(e <= 1e-8, *[h.And(abs(p[2] - i * dz) <= 1e-5, abs(e - (q * CO[k](i * dz)) ** 2) <= 1e-4) for i in range(st + 1)]), "on the stated profile")


@harness("lofts between a triangle or quadrilateral with an arbitrary corner and a scaled copy of it at an arbitrary height", each=[("%d%s/%s/%g" % (n, "cw" if cw else "ccw", d, k), dict(n=n, cw=cw, up=d == "up", k=k)) for n in (3, 4) for cw in (0, 1) for d, k in (("up", 0.5), ("down", 2.0))], floats=True)
def lofted(h, n, cw, up, k):
    m, g = h.mod(U), h.mod(G)
    P = poly(h, n, cw, True)
    Q = [[k * p[0] + 1.0, k * p[1] - 2.0] for p in P]
    t = h.real("t", 0.5, 50)
    z = t if up else -t
    fan(h, P)
    s = m.makeLoftSolid([g.point(*p) for p in P], [g.point(*p, z) for p in Q])
    pts, fs = closed(h, s)
    h.eq(len(pts), 2 * n, "corners of the two loops")
    h.eq(volume(pts, fs), t / 3 * (1 + k + k * k) * area2(P) / 2 * (-1 if cw else 1), "volume", tol=1e-3)
    h.check(all(any(all(h.valid(abs(q[i] - p[i]) <= 1e-5) for i in range(3)) for p in [p + [0.0] for p in P] + [p + [z] for p in Q]) for q in pts), "corners are those of the loops")


@harness("shells: full, hemispherical and a third, any size", each=[("full", dict(k="full", _tier="thorough")), ("half", dict(k="half")), ("cap", dict(k="cap"))], floats=True)
def shell(h, k):
    m, g = h.mod(U), h.mod(G)
    r = h.real("r", 3, 50)
    w = 1.0
    c = [1.0, -2.0, 3.0]
    s = m.spherical_shell(2 * r, w, dict(full=4, half=2, cap=1)[k] * h.pi, g.point(*c), minang=30, steps=4)
    pts, fs = closed(h, s)
    for p in pts:
        q = sq(sub(p, c))
        h.check(h.Or(abs(q - r * r) <= 1e-3, abs(q - (r - w) * (r - w)) <= 1e-3), "on the two spheres")
    h.check(volume(pts, fs) > 0, "facets face outwards")


def block(h, g3, g, lo, hi):
    m = h.mod(U)
    return m.prism(*[hi[i] - lo[i] for i in range(3)], g.point(*[(lo[i] + hi[i]) / 2 for i in range(3)]))


@harness("stacks of two or three boxes with arbitrary sizes, start and gap", each=[("%s/%s/%s" % (ax, al, sp or "-"), dict(axis=ax, align=al, sp=sp)) for ax in "xyz" for al, sp in (("center", ""), ("min", "between"), ("max", "first"), ("min", "two"))], floats=True)
def stacking(h, axis, align, sp):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    k = "xyz".index(axis)
    o = (k + 1) % 3
    L = []
    for n in "ab":
        lo = [1.0, -2.0, 3.0]
        hi = [4.0, 1.0, 8.0]
        for i in (k, o):
            lo[i] = h.real(n + "l%d" % i, -20, 20)
            hi[i] = lo[i] + h.real(n + "s%d" % i, 0.5, 20)
        L.append((lo, hi))
    start, gap = h.real("start", -20, 20), h.real("gap", -1, 5)
    B = [block(h, g3, g, *x) for x in L]
    arg = {"": B, "between": [B[0], "space:2.5", B[1]], "first": ["space:1.5", B[0], B[1]], "two": [B[0], "space:1.75", "space:0.75", B[1], "space:4"]}[sp]
    keep = [[list(p) for p in su[1]] for b in B for su in b[1]]
    r = m.stack_solids(arg, axis=axis, start=start, gap=gap, align=align)
    h.eq(len(r), 2, "one copy each")
    pos = start + (1.5 if sp == "first" else 0)
    for n, (s, (lo, hi)) in enumerate(zip(r, L)):
        size_ = [hi[i] - lo[i] for i in range(3)]
        at = [0, 0, 0]
        at[k] = pos
        for i in range(3):
            if i != k:
                a, b = L[0][0][i], L[0][1][i]
                at[i] = {"center": (a + b) / 2 - size_[i] / 2, "min": a, "max": b - size_[i]}[align]
        dims(h, s, at, [at[i] + size_[i] for i in range(3)])
        pos = pos + size_[k] + gap + (2.5 if sp in ("between", "two") else 0)
    for x, y in zip(keep, [su[1] for b in B for su in b[1]]):
        h.eqs([q[:3] for q in y], [q[:3] for q in x], "the given solids stay in place")


AXES = {"x": (1, 0, 0), "y": (0, 2, 0), "z": (0, 0, 1), "-z": (0, 0, -1)}


@harness("rows and rings of copies of a tetrahedron of arbitrary shape and place", each=[("%s/%d" % (k, c), dict(k=k, count=c)) for k in ("row", "rowsurf", "ring", "ringsurf", "arc", "arcsurf") for c in (1, 2, 3, 4)] + [("%s/%d/%g/%s" % (k, c, a, x), dict(k=k, count=c, span=a, ax=x)) for k in ("arc", "arcsurf") for c, a, x in ((3, 180.0, "z"), (4, 330.0, "x"), (2, 350.0, "y"), (3, 300.0, "-z"), (4, 270.0, "y"), (2, -120.0, "x"), (5, 345.0, "z"), (3, 400.0, "z"))], floats=True)
def pattern(h, k, count, span=90.0, ax="z"):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    P = [[h.real("x", -20, 20), 1.0, 2.0], [4.0, h.real("y", -20, 20), 1.0], [3.0, 5.0, h.real("z", 1.5, 20)], [1.0, 1.0, -3.0]]
    n = [g.vect(1, 0, 0, 0)] * 4
    su = ["surface", [g.point(*p) for p in P], n, [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]], [], []]
    x = su if k.endswith("surf") else ["solid", [su], [], []]
    op = k.replace("surf", "")
    c = [1.0, 2.0, 3.0]
    if op == "row":
        d = [h.real("d" + q, -20, 20) for q in "xyz"]
        r = (m.linear_pattern_surface if x is su else m.linear_pattern_solid)(x, count, d)
        mv = lambda p, i: [p[j] + i * d[j] for j in range(3)]
    else:
        f = m.radial_pattern_surface if x is su else m.radial_pattern_solid
        if op == "ring":
            st = 360 / count
            r = f(x, count, center=g.point(*c))
        else:
            st = span / max(count - 1, 1)
            r = f(x, count, center=g.point(*c), axis=g.point(*AXES[ax]), angle=span)
            if ax[0] == "-":
                st = -st
        i0, i1 = {"z": (0, 1), "x": (1, 2), "y": (2, 0)}[ax[-1]]

        def mv(p, i):
            a = math.radians(st * i)
            q = sub(p, c)
            o = list(p)
            o[i0] = c[i0] + math.cos(a) * q[i0] - math.sin(a) * q[i1]
            o[i1] = c[i1] + math.sin(a) * q[i0] + math.cos(a) * q[i1]
            return o
    h.eq(len(r), count, "as many copies as asked for")
    for i, y in enumerate(r):
        ys = y if x is su else y[1][0]
        for p, q in zip(P, ys[1]):
            h.eqs(q[:3], mv(p, i), "each copy is moved by as many steps", tol=1e-4)
        h.check(ys[3] == su[3], "facets of the copy")


@harness("volume and area of boxes and tetrahedra", each=[("vol", dict(k="vol")), ("area", dict(k="area")), ("tet", dict(k="tet"))], floats=True)
def measure(h, k):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    if hasattr(h, "eng"):
        h.assume(hasattr(g3, "issolidclosed"))
        g3.issolidclosed = lambda x: True
    if k == "tet":
        P = [[h.real("x", 1, 20), 1.0, 2.0], [4.0, h.real("y", 6, 20), 1.0], [-3.0, -5.0, h.real("z", 1.5, 20)], [0.0, 0.0, -3.0]]
        n = [g.vect(1, 0, 0, 0)] * 4
        su = ["surface", [g.point(*p) for p in P], n, [[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]], [], []]
        v = dot(sub(P[1], P[0]), cross(sub(P[2], P[0]), sub(P[3], P[0]))) / 6
        h.eq(g3.volumeof(["solid", [su], [], []]), abs(v), "volume", tol=1e-4)
        return
    l, w, t = h.real("l", 0.1, 50), h.real("w", 0.1, 50), h.real("t", 0.1, 50)
    s = m.prism(l, w, t, g.point(3.0, -7.0, 2.0))
    if k == "vol":
        h.eq(g3.volumeof(s), l * w * t, "volume", tol=1e-4)
    else:
        h.eq(sum(g3.surfacearea(x) for x in s[1]), 2 * (l * w + w * t + l * t), "area", tol=1e-4)


@harness("a box of any length at any place, whole and with one facet missing", each=[("%s" % f, dict(f=f)) for f in ("whole", 0, 5, 7, 11)], floats=True)
def closedness(h, f):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    s = m.prism(h.real("l", 1, 20), 2.0, 3.0, g.point(1.0, 2.0, 3.0))
    if f == "whole":
        h.check(g3.issolidclosed(s) is True, "a whole box is closed")
    else:
        su = s[1][f // 2]
        su[3] = [x for i, x in enumerate(su[3]) if i != f % 2]
        h.check(g3.issolidclosed(s) is False, "a box with a facet missing is open")
