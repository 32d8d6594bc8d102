"""Moving surfaces and solids."""
import math
from symex.harness import harness
U, G, G3 = "yapcad.geom3d_util", "yapcad.geom", "yapcad.geom3d"


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [a[i] - b[i] for i in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


FAC = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]


def tetra(h, g, sym=True):
    """a tetrahedron with outward facets, one surface per facet pair, exact facet normals on two of its surfaces"""
    x = h.real("x", 4, 30) if sym else 5.0
    y = h.real("y", -30, 30) if sym else 2.0
    P = [[1.0, 1.0, -2.0], [x, 1.0, -2.0], [2.0, 6.0, -2.0], [1.5, 2.0 if not sym else y, 4.0]]
    return P


# outward facet normals times their length, as a function of the corners
def surf(g, P, fs, N, extra=None):
    s = ["surface", [g.point(*p) for p in P], [g.vect(*n, 0) for n in N], [list(f) for f in fs], [0, 1, 2], []]
    if extra is not None:
        s.append(extra)
    return s


def setup(h, kind, sym=True):
    g = h.mod(G)
    P = tetra(h, g, sym)
    k = 0.6, 0.0, 0.8
    # normals are arbitrary unit vectors here: what is followed is the vector, not the facet
    a = surf(g, P, FAC[:2], [k, (0.0, 1.0, 0.0), (-0.8, 0.6, 0.0), (0.0, 0.0, -1.0)], dict(layer="l", tags=["t"], deep=[[1]]))
    b = surf(g, P, FAC[2:], [(1.0, 0.0, 0.0), k, (0.0, -1.0, 0.0), (0.48, 0.6, 0.64)])
    if kind == "surface":
        return P, a, [a]
    return P, ["solid", [a, b], ["m"], ["procedure", "p"], dict(name="n", deep=[[2]])], [a, b]


def snap(x):
    if isinstance(x, (list, tuple)):
        return [snap(i) for i in x]
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    return x


def unchanged(h, a, b, label, more=False):
    if isinstance(a, list):
        h.check(isinstance(b, (list, tuple)) and len(a) == len(b), label + " (shape)")
        for x, y in zip(a, b):
            unchanged(h, x, y, label, more)
    elif isinstance(a, dict):
        h.check(set(a) <= set(b) if more else set(a) == set(b), label + " (keys)")
        for k in a:
            unchanged(h, a[k], b[k], label, more)
    elif isinstance(a, (str, bool, type(None))):
        h.check(a == b, label)
    else:
        h.eq(b, a, label)


def surfaces(x):
    return x[1] if x[0] == "solid" else [x]


def outcome(h, kind, x, r, mv, nv, flip, label, tol=1e-4):
    """r is x with every corner moved by mv, every normal by nv (up to a positive factor), facets turned iff flip"""
    h.check(r is not x, label + ": a copy")
    h.eq(len(r), len(x), label + ": same parts")
    if kind == "solid":
        unchanged(h, snap(x[2:]), r[2:], label + ": material, construction and metadata", True)
    for s, q in zip(surfaces(x), surfaces(r)):
        h.eq(len(q[1]), len(s[1]), label + ": corners")
        h.eq(len(q[2]), len(s[2]), label + ": normals")
        for p, w in zip(s[1], q[1]):
            h.eqs(w[:3], mv(p), label + ": corners", tol=tol)
            h.eq(w[3], 1, label + ": points stay points")
        for p, w in zip(s[2], q[2]):
            e = nv(p)
            if flip == "rev":
                e = [-c for c in e]
            h.eqs(w[:3], e, label + ": normals", tol=tol)
            h.eq(w[3], 0, label + ": normals stay directions")
        fs = s[3]
        want = [[f[0], f[2], f[1]] if flip else list(f) for f in fs]
        h.check(all(any(t == w[i:] + w[:i] for i in range(3)) for t, w in zip(q[3], want)) and len(q[3]) == len(want), label + ": facets turn over exactly when they must")
        h.check(list(q[4]) == list(s[4]) and list(q[5]) == list(s[5]), label + ": outlines")
        if len(s) == 7:
            unchanged(h, snap(s[6]), q[6], label + ": surface metadata", True)
            q[6]["deep"][0].append(9)
            h.check(s[6]["deep"] == [[1]], label + ": nothing shared with the original")
            q[6]["deep"][0].pop()
    if kind == "solid" and isinstance(r[4], dict):
        r[4]["deep"][0].append(9)
        h.check(x[4]["deep"] == [[2]], label + ": nothing shared with the original")
        r[4]["deep"][0].pop()


KIND = ("surface", "solid")
VIA = ("direct", "generic")


def fn(g3, op, kind, via):
    return getattr(g3, op + (kind if via == "direct" else ""))


@harness("a surface and a solid, all offsets", each=[("%s/%s" % (k, v), dict(kind=k, via=v)) for k in KIND for v in VIA], floats=True)
def moved(h, kind, via):
    g, g3 = h.mod(G), h.mod(G3)
    P, x, S = setup(h, kind)
    keep = snap(x)
    d = [h.real("d" + c, -50, 50) for c in "xyz"]
    r = fn(g3, "translate", kind, via)(x, g.point(*d))
    outcome(h, kind, x, r, lambda p: [p[i] + d[i] for i in range(3)], lambda n: n[:3], False, "moved", tol=1e-5)
    unchanged(h, keep, x, "the original stays as it was")
    r = fn(g3, "translate", kind, via)(x, g.vect(*d, 0))
    outcome(h, kind, x, r, lambda p: [p[i] + d[i] for i in range(3)], lambda n: n[:3], False, "moved by a vector", tol=1e-5)


def rodrigues(h, ax, t):
    c, s = h.cosd(t), h.sind(t)

    def f(v):
        w = cross(ax, v)
        k = dot(ax, v) * (1 - c)
        return [v[i] * c + w[i] * s + ax[i] * k for i in range(3)]
    return f


AX = {"z": (0, 0, 1), "-z": (0, 0, -1), "x": (1, 0, 0), "y": (0, 1, 0), "t": (2 / 3, -1 / 3, 2 / 3)}


@harness("a surface and a solid, all angles about five axes through the origin or an arbitrary centre", each=[("%s/%s/%s/%s" % (k, v, a, c), dict(kind=k, via=v, a=a, c=c)) for k, v in (("surface", "direct"), ("solid", "generic"), ("solid", "direct")) for a in AX for c in ("o", "c") if not (v == "direct" and k == "solid" and a in ("x", "-z"))], floats=True)
def turned(h, kind, via, a, c):
    g, g3 = h.mod(G), h.mod(G3)
    P, x, S = setup(h, kind, sym=False)
    keep = snap(x)
    t = h.angle("t", -720, 720)
    h.assume(abs(t) > 0.001)
    o = [0.0] * 3 if c == "o" else [h.real("c" + q, -50, 50) for q in "xyz"]
    if c == "c":
        h.assume(h.Or(*[abs(q) > 0.001 for q in o]))
    R = rodrigues(h, AX[a], t)
    r = fn(g3, "rotate", kind, via)(x, t, g.point(*o), g.point(*[3 * q for q in AX[a]]))
    outcome(h, kind, x, r, lambda p: [u + v for u, v in zip(R(sub(p, o)), o)], lambda n: R(n), False, "turned", tol=1e-3)
    unchanged(h, keep, x, "the original stays as it was")


@harness("a surface and a solid of arbitrary size, the three planes", each=[("%s/%s/%s" % (k, v, p), dict(kind=k, via=v, plane=p)) for k in KIND for v in VIA for p in ("xy", "yz", "xz")], floats=True)
def mirrored(h, kind, via, plane):
    g, g3 = h.mod(G), h.mod(G3)
    P, x, S = setup(h, kind)
    keep = snap(x)
    k = {"xy": 2, "yz": 0, "xz": 1}[plane]
    m = lambda p: [-p[i] if i == k else p[i] for i in range(3)]
    r = fn(g3, "mirror", kind, via)(x, plane)
    outcome(h, kind, x, r, m, m, True, "mirrored")
    unchanged(h, keep, x, "the original stays as it was")


@harness("a surface of arbitrary size", floats=True)
def reversed_(h):
    g, g3 = h.mod(G), h.mod(G3)
    P, x, S = setup(h, "surface")
    keep = snap(x)
    r = g3.reversesurface(x)
    outcome(h, "surface", x, r, lambda p: p[:3], lambda n: n[:3], "rev", "reversed")
    unchanged(h, keep, x, "the original stays as it was")


SG = [(1, 1, 1), (-1, 1, 1), (1, -1, -1), (-1, -1, -1)]


@harness("a surface and a solid, all scale factors of any sign about the origin or an arbitrary centre", each=[("%s/%s/%s/%s" % (k, m, i, c), dict(kind=k, mode=m, sg=SG[i], c=c)) for k in KIND for m in ("uniform", "three") for i in range(4) for c in ("o", "c") if not (m == "uniform" and i in (1, 2))] + [("%s/two/%d" % (k, i), dict(kind=k, mode="two", sg=((1, 1, 1), (1, -1, 1))[i], c="o")) for k in KIND for i in (0, 1)], floats=True)
def scaled(h, kind, mode, sg, c):
    g, g3 = h.mod(G), h.mod(G3)
    P, x, S = setup(h, kind, sym=False)
    keep = snap(x)
    if mode == "uniform":
        q = h.real("s", 0.1, 10) * sg[0]
        f = [q] * 3
    else:
        f = [h.real("s" + a, 0.1, 10) * s for a, s in zip("xyz", sg)]
    if mode == "two":       # a factor that is not given is that of x
        f[2] = f[0]
    o = [0.0] * 3 if c == "o" else [h.real("cx", 1, 50), -3.0, 7.0]
    op = fn(g3, "scale", kind, "generic" if sg[0] > 0 else "direct")
    r = op(x, f[0], cent=g.point(*o)) if mode == "uniform" else op(x, *f[:2], cent=g.point(*o)) if mode == "two" else op(x, *f, cent=g.point(*o))
    flip = sg[0] * sg[1] * sg[2] < 0
    for s, w in zip(surfaces(x), surfaces(r)):
        for p, u in zip(s[1], w[1]):
            h.eqs(u[:3], [o[i] + f[i] * (p[i] - o[i]) for i in range(3)], "scaled: corners", tol=2e-3)
        for n, u in zip(s[2], w[2]):
            # planes keep their direction: n is square to e iff the new normal is square to the scaled e
            e = [n[i] / f[i] for i in range(3)]
            h.eqs(cross(u, e), [0.0] * 3, "scaled: normals stay square to the surface", tol=1e-3)
            h.check(dot(u, e) > 0, "scaled: normals stay on their side")
            h.eq(dot(u, u), 1.0, "scaled: unit normals", tol=2e-3)
            h.eq(u[3], 0, "scaled: normals stay directions")
        want = [[t[0], t[2], t[1]] if flip else list(t) for t in s[3]]
        h.check(len(w[3]) == len(want) and all(any(t == v[i:] + v[:i] for i in range(3)) for t, v in zip(w[3], want)), "scaled: facets turn over exactly when they must")
        if len(s) == 7:
            unchanged(h, snap(s[6]), w[6], "scaled: surface metadata", True)
    if kind == "solid":
        unchanged(h, snap(x[2:]), r[2:], "scaled: material, construction and metadata", True)
    unchanged(h, keep, x, "the original stays as it was")


@harness("index lists of every kind of entry, on a surface of arbitrary size", each=[(w, dict(where=w)) for w in ("faces", "boundary", "holes")], floats=True)
def validity(h, where):
    g, g3 = h.mod(G), h.mod(G3)
    P, x, S = setup(h, "surface")
    h.check(g3.issurface(x, fast=False) is True, "a proper surface is valid")
    h.check(g3.issolid(["solid", [x], [], []], fast=False) is True, "a solid of it is valid")
    i = h.int("i", -6, 6)
    if where == "faces":
        x[3][1] = [0, i, 3]
    elif where == "boundary":
        x[4] = [0, 1, i]
    else:
        x[5] = [[0, 1, 2], [i, 1, 2]]
    ok = h.And(i >= 0, i < 4)
    h.check(g3.issurface(x, fast=False) == ok, "valid exactly when every index names a vertex")
    h.check(g3.issolid(["solid", [x], [], []], fast=False) == ok, "a solid is valid exactly when its surfaces are")
