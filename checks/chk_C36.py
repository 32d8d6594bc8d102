"""Points inside solids, solids that meet."""
from symex.harness import harness
U, G, G3 = "yapcad.geom3d_util", "yapcad.geom", "yapcad.geom3d"


def mesh(g, P, F):
    n = g.vect(0, 0, 1, 0)
    return ["solid", [["surface", [g.point(*p) for p in P], [n] * len(P), [list(f) for f in F], [], []]], [], []]


def prismatic(P, T, z0, z1):
    """closed mesh over an outline P (counterclockwise) triangulated by T"""
    n = len(P)
    V = [[*p, z0] for p in P] + [[*p, z1] for p in P]
    F = [[a, c, b] for a, b, c in T] + [[a + n, b + n, c + n] for a, b, c in T]
    for i in range(n):
        j = (i + 1) % n
        F += [[i, j, j + n], [i, j + n, i + n]]
    return V, F


ELL = ([(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)], [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)])
# outline of an L and its pieces (convex parts)
PARTS = [((0, 0, 0), (4, 1, 2)), ((0, 0, 0), (1, 4, 2))]
E = 1e-3


def inbox(h, p, lo, hi, m):
    return h.And(*[h.And(p[i] > lo[i] + m, p[i] < hi[i] - m) for i in range(3)])


def point(h, sym, at):
    return [h.real("p" + c, -6, 6) if c in sym else v for c, v in zip("xyz", at)]


@harness("all points with one coordinate arbitrary, off the surface by a thousandth, against a box", each=[("%s/%d" % (s, i), dict(sym=s, at=a)) for s in "xyz" for i, a in enumerate(((0.3, 0.4, 0.5), (-0.9, 0.2, 1.4), (0.25, -0.5, 0.75), (1.25, 0.0, 0.0)))], floats=True)
def box1(h, sym, at):
    box(h, sym, at)


@harness("all points with one coordinate arbitrary against an L-shaped block", each=[("%s/%d" % (s, i), dict(sym=s, at=a)) for s in "xyz" for i, a in enumerate(((0.3, 0.4, 0.5), (2.3, 0.7, 1.4), (0.6, 2.2, 1.1), (0.5, 0.5, 1.0), (2.0, 1.0 - 3e-7, 1.0), (1.7, 2.9, 0.3)))], floats=True)
def ell1(h, sym, at):
    ell(h, sym, at)


@harness("all points with two coordinates arbitrary, off the surface by a thousandth, against a box", each=[("%s/%d" % (s, i), dict(sym=s, at=a)) for s in ("xy", "yz", "xz") for i, a in enumerate(((0.3, 0.4, 0.5), (-0.9, 0.2, 1.4)))], floats=True, tier="thorough", fork_timeout=400)
def box(h, sym, at):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    s = m.prism(2.0, 3.0, 4.0, g.point(0.25, -0.5, 0.75))
    lo, hi = (-0.75, -2.0, -1.25), (1.25, 1.0, 2.75)
    p = point(h, sym, at)
    ins = inbox(h, p, lo, hi, E)
    out = h.Not(inbox(h, p, lo, hi, -E))
    h.assume(h.Or(ins, out))
    h.check(g3.solid_contains_point(s, g.point(*p)) == ins, "inside exactly when within the box")


@harness("all points with two coordinates arbitrary against an L-shaped block", each=[("%s/%d" % (s, i), dict(sym=s, at=a)) for s in ("xy", "yz", "xz") for i, a in enumerate(((0.3, 0.4, 0.5), (2.3, 0.7, 1.4), (0.6, 2.2, 1.1)))], floats=True, tier="thorough", fork_timeout=400)
def ell(h, sym, at):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    s = mesh(g, *prismatic(*ELL, 0.0, 2.0))
    p = point(h, sym, at)
    ins = h.Or(*[inbox(h, p, *b, E) for b in PARTS], inbox(h, p, (0, 0, 0), (1, 1, 2), E))
    out = h.And(*[h.Not(inbox(h, p, *b, -E)) for b in PARTS])
    h.assume(h.Or(ins, out))
    h.check(g3.solid_contains_point(s, g.point(*p)) == ins, "inside exactly when within the block")


@harness("a box queried, moved by an arbitrary amount, and queried again at an arbitrary point", each=[("%s/%s" % (a, o), dict(ax=a, op=o)) for a in "xyz" for o in ("translate", "mirror", "scale", "rotate")], floats=True)
def after_move(h, ax, op):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    k = "xyz".index(ax)
    s = m.prism(2.0, 3.0, 4.0, g.point(0.25, -0.5, 0.75))
    lo, hi = [-0.75, -2.0, -1.25], [1.25, 1.0, 2.75]
    h.check(g3.solid_contains_point(s, g.point(0.1, 0.2, 0.3)) is True, "the middle is inside")
    p = [0.6, 0.7, 0.4]
    p[k] = h.real("p", -20, 20)
    if op == "translate":
        d = [0.0] * 3
        d[k] = h.real("d", -10, 10)
        t = g3.translatesolid(s, g.point(*d))
        lo, hi = [lo[i] + d[i] for i in range(3)], [hi[i] + d[i] for i in range(3)]
    elif op == "scale":
        f = h.real("f", 0.5, 4)
        t = g3.scalesolid(s, f)
        lo, hi = [lo[i] * f for i in range(3)], [hi[i] * f for i in range(3)]
    elif op == "mirror":
        j = (k, (k + 1) % 3)[0]
        t = g3.mirrorsolid(s, ("yz", "xz", "xy")[j])
        lo[j], hi[j] = -hi[j], -lo[j]
    else:
        t = g3.rotatesolid(s, 90.0, g.point(0, 0, 0), g.point(*[float(i == k) for i in range(3)]))
        a, b = (k + 1) % 3, (k + 2) % 3
        L, H = list(lo), list(hi)
        lo[a], hi[a] = -H[b], -L[b]
        lo[b], hi[b] = L[a], H[a]
    ins = inbox(h, p, lo, hi, E)
    h.assume(h.Or(ins, h.Not(inbox(h, p, lo, hi, -E))))
    h.check(g3.solid_contains_point(t, g.point(*p)) == ins, "the moved copy contains the moved points")


@harness("two boxes, one moved by an arbitrary vector along one direction", each=[("%s/%s" % (a, k), dict(ax=a, kind=k)) for a in "xyz" for k in ("same", "bar", "small")], floats=True)
def meeting(h, ax, kind):
    m, g, g3 = h.mod(U), h.mod(G), h.mod(G3)
    k = "xyz".index(ax)
    a = m.prism(2.0, 3.0, 4.0, g.point(0.25, -0.5, 0.75))
    lo, hi = (-0.75, -2.0, -1.25), (1.25, 1.0, 2.75)
    sz = {"same": (2.0, 2.5, 3.5), "bar": (8.0, 0.5, 0.7), "small": (0.5, 0.6, 0.7)}[kind]
    c = [0.4, 0.3, 0.35]
    c[k] = h.real("c", -8, 8)
    b = m.prism(*sz, g.point(*c))
    gap = [h.Or(c[i] - sz[i] / 2 > hi[i] + E, c[i] + sz[i] / 2 < lo[i] - E) for i in range(3)]
    meet = [h.And(c[i] - sz[i] / 2 < hi[i] - E, c[i] + sz[i] / 2 > lo[i] + E) for i in range(3)]
    h.assume(h.Or(h.Or(*gap), h.And(*meet)))
    h.check(g3.solids_intersect(a, b) == h.And(*meet), "meet exactly when the boxes overlap")
    h.check(g3.solids_intersect(b, a) == h.And(*meet), "in either order")
