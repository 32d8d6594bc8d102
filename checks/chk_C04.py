"""Bounding boxes contain their figure and touch it on every side."""
from symex.harness import harness
G = "yapcad.geom"
G3 = "yapcad.geom3d"


def P(h, n, flat=False):
    g = h.mod(G)
    return g.point(h.real(n + "x"), h.real(n + "y"), 0.0 if flat else h.real(n + "z"))


def Q(h, n, i, axis):
    """a point with one arbitrary coordinate (the axis), or all if axis is None"""
    g = h.mod(G)
    c = [[1.0, -2.0, 3.0], [4.0, 0.5, -1.0], [-2.0, 7.0, 0.0], [0.25, 1.0, 9.0], [3.0, -5.0, -4.0]][i][:]
    for k in range(3):
        if axis is None or k == axis:
            c[k] = h.real(n + "xyz"[k])
    return g.point(*c)


AX = [("xyz"[k], k) for k in range(3)]


def is_box(h, b, pts, what, slack=0.0):
    """b contains every point and each side is reached (slack: of a point's own box)"""
    for c in range(3):
        lo, hi = b[0][c], b[1][c]
        h.check(h.And(*[lo <= p[c] for p in pts]), what + ": lower side below every point")
        h.check(h.And(*[hi >= p[c] for p in pts]), what + ": upper side above every point")
        h.check(h.Or(*[lo >= p[c] - slack for p in pts]), what + ": lower side is reached")
        h.check(h.Or(*[hi <= p[c] + slack for p in pts]), what + ": upper side is reached")


@harness("points, lines and polylines: up to 2 vertices (3 in the thorough tier) with all coordinates arbitrary, 3 to 5 vertices with one axis arbitrary at a time",
         each=[("%d" % n, dict(n=n, axis=None)) for n in (1, 2)] + [("3", dict(n=3, axis=None, _tier="thorough"))] + [("%d/%s" % (n, a), dict(n=n, axis=k)) for n in (3, 4, 5) for a, k in AX])
def poly_box(h, n, axis):
    g = h.mod(G)
    g3 = h.mod(G3)
    v = [Q(h, "v%d" % i, i, axis) for i in range(n)]
    if n == 1:
        is_box(h, g.bbox(v[0]), v, "point", 1e-4)
        return
    f = g.line(*v) if n == 2 else g.poly(*v)
    b = g.bbox(f) if n % 2 else g3.bbox(f)
    is_box(h, b, v, "polyline")
    # any point of any edge
    u = h.choice("u", [0.0, 0.3, 1.0])
    for i in range(n - 1):
        q = [v[i][k] + u * (v[i + 1][k] - v[i][k]) for k in range(3)]
        h.check(h.And(*[h.And(b[0][k] <= q[k], q[k] <= b[1][k]) for k in range(3)]), "edge points are inside")
    h.check(g.isinsidebbox(b, v[0]), "a vertex is inside the box")


@harness("figure lists of a point, a line, a polyline and a nested list, one axis arbitrary at a time", each=[("%d/%s" % (k, a), dict(k=k, axis=x)) for k in range(3) for a, x in AX])
def list_box(h, k, axis):
    g = h.mod(G)
    a, b, c, d = (Q(h, n, i, axis) for i, n in enumerate("abcd"))
    if k == 0:
        gl, pts = [a, g.line(b, c)], [a, b, c]
    elif k == 1:
        gl, pts = [g.poly(a, b, c)], [a, b, c]
    else:
        gl, pts = [[g.line(a, b)], g.line(c, d)], [a, b, c, d]
    is_box(h, g.bbox(gl), pts, "list")


def arc_spec(h, c, r, s, e):
    """per axis: the values the extremes are among"""
    ends = [[c[0] + r * h.cosd(x), c[1] + r * h.sind(x)] for x in (s, e)]
    lo, hi = [], []
    for ax, (top, bot) in enumerate(((0.0, 180.0), (90.0, 270.0))):
        vlo = [p[ax] for p in ends]
        vhi = [p[ax] for p in ends]
        for deg, lst, val in ((top, vhi, c[ax] + r), (bot, vlo, c[ax] - r)):
            inside = False
            for turn in (0.0, 360.0):
                x = deg + turn
                h.assume(h.Or(s <= x - 1e-6, s >= x + 1e-6))
                h.assume(h.Or(e <= x - 1e-6, e >= x + 1e-6))
                if s <= x and x <= e:
                    inside = True
            if inside:
                lst.append(val)
        lo.append(vlo)
        hi.append(vhi)
    return lo, hi


@harness("arcs alone and in a list, end angle given below or above 360: radius 2 and any centre, all starts and ends in one quadrant each, not on a multiple of 90 degrees (every pair of quadrants)",
         each=[("%s/%d%d" % (n, i, j), dict(k=k, i=i, j=j, _tier="quick" if (k + i + j) % 3 == 0 else "thorough")) for k, n in enumerate(("alone", "reduced", "list"))
               for i in range(4) for j in range(i, i + 5) if k != 1 or j >= 4], weight=2)
def arc_box(h, k, i, j):
    g = h.mod(G)
    c = P(h, "c")
    r = 2.0
    s = h.angle("s", 90 * i, 90 * i + 90)
    e = h.angle("e", 90 * j, 90 * j + 90)
    h.assume(h.And(e >= s + 1, e <= s + 359))
    lo, hi = arc_spec(h, c, r, s, e)
    if k == 1:
        h.assume(e > 360)
        e = e - 360.0
    a = g.arc(c, r, s, e)
    b = g.bbox([a]) if k == 2 else g.bbox(a)
    for ax in range(2):
        h.check(h.And(*[b[0][ax] <= v + 1e-6 for v in lo[ax]]), "lower side is below the arc")
        h.check(h.Or(*[b[0][ax] >= v - 1e-6 for v in lo[ax]]), "lower side is reached")
        h.check(h.And(*[b[1][ax] >= v - 1e-6 for v in hi[ax]]), "upper side is above the arc")
        h.check(h.Or(*[b[1][ax] <= v + 1e-6 for v in hi[ax]]), "upper side is reached")
    h.eq(b[0][2], c[2], "flat")
    h.eq(b[1][2], c[2], "flat")


@harness("circles of any centre and radius, alone and in a list with a point")
def circle_box(h):
    g = h.mod(G)
    c = P(h, "c")
    r = h.real("r", 0.01, 1000)
    a = g.arc(c, r)
    b = g.bbox(a)
    h.eqs(b[0][:3], [c[0] - r, c[1] - r, c[2]], "lower corner")
    h.eqs(b[1][:3], [c[0] + r, c[1] + r, c[2]], "upper corner")
    p = P(h, "p")
    d = g.bbox([a, p])
    is_box(h, d, [b[0], b[1], p], "list")


@harness("surfaces of 4 vertices and solids of two surfaces, one axis arbitrary at a time", each=[("%d/%s" % (k, a), dict(k=k, axis=x)) for k in range(2) for a, x in AX])
def mesh_box(h, k, axis):
    g = h.mod(G)
    g3 = h.mod(G3)
    n = [g.vect(0, 0, 1, 0)] * 3
    if k == 0:
        v = [Q(h, "v%d" % i, i, axis) for i in range(4)]
        s = g3.surface(v, [g.vect(0, 0, 1, 0)] * 4, [[0, 1, 2], [0, 2, 3]], [], [])
        is_box(h, g3.bbox(s), v, "surface")
        return
    va = [Q(h, "a%d" % i, i, axis) for i in range(3)]
    vb = [Q(h, "b%d" % i, i, axis) for i in range(2)] + [g.point(20.0, 21.0, -23.0)]
    sol = g3.solid([g3.surface(va, n, [[0, 1, 2]], [], []), g3.surface(vb, n, [[0, 1, 2]], [], [])])
    is_box(h, g3.bbox(sol), va + vb, "solid")
