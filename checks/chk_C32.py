"""Conic curves: ellipse, parabola, hyperbola."""
from symex.harness import harness
G = "yapcad.geom"

NORM = {"z": (0, 0, 1, 1), "tilt": (1, 2, 2, 3), "side": (3, -4, 0, 5), "down": (2, -1, -2, 3), "-z": (0, 0, -1, 1), "xz": (-3, 0, 4, 5)}


def frame(k):
    """images of the x and y axes under the least rotation taking +z to the normal"""
    a, b, c, n = NORM[k]
    if (a, b) == (0, 0):
        return ((1, 0, 0), (0, 1, 0)) if c > 0 else ((1, 0, 0), (0, -1, 0))
    a, b, c = a / n, b / n, c / n
    return ((1 - a * a / (1 + c), -a * b / (1 + c), -a), (-a * b / (1 + c), 1 - b * b / (1 + c), -b))


def place(h, k, rot, x, y, cen=None):
    """in-plane (x, y), turned by rot degrees, in the plane with normal k"""
    c, s = h.cosd(rot), h.sind(rot)
    u, v = x * c - y * s, x * s + y * c
    e, f = frame(k)
    r = [u * e[i] + v * f[i] for i in range(3)]
    return r if cen is None else [r[i] + cen[i] for i in range(3)]


def centre(h):
    return [h.real("x", -100, 100), h.real("y", -100, 100), h.real("z", -100, 100)]


def kw(k):
    a, b, c, n = NORM[k]
    return {} if k == "z" else dict(normal=[2 * a, 2 * b, 2 * c])


def unit(h, t, want, label):
    """t is the unit vector along want"""
    h.eq(sum(q * q for q in t[:3]), 1, label + ": unit length", tol=1e-5)
    h.eq(t[3], 0, label + ": direction")
    cr = [t[1] * want[2] - t[2] * want[1], t[2] * want[0] - t[0] * want[2], t[0] * want[1] - t[1] * want[0]]
    h.eqs(cr, [0, 0, 0], label + ": direction", tol=1e-4)
    h.check(sum(p * q for p, q in zip(t, want)) > 0, label + ": sense")


ROTS = [0, 30, -90, 210, -30]
CASES = [("%s%d" % (k, r), dict(k=k, r=r, _tier="quick" if i % 2 == 0 else "thorough")) for i, (k, r) in enumerate((k, r) for k in NORM for r in ROTS)]


@harness("ellipses with any centre and any two semi-axes in either order, six planes, five rotations; full ellipses at every parameter", each=CASES)
def ellipse_full(h, k, r):
    g = h.mod(G)
    c = centre(h)
    a, b = h.real("a", 0.1, 50), h.real("b", 0.1, 50)
    t = h.angle("t", 0, 360)
    e = g.ellipse(g.point(*c), a, b, rotation=r, **kw(k))
    h.check(g.isellipse(e) and g.isfullellipse(e), "full ellipse")
    if b > a:
        a, b, rr = b, a, r + 90
    else:
        rr = r
    h.eqs(g.ellipse_sample(e, t / 360), place(h, k, rr, a * h.cosd(t), b * h.sind(t), c), "point on an ellipse", n=3, tol=1e-5)


@harness("elliptical arcs between any two angles in [-180, 540] (end below start included), semi-axes 5 and 3, six planes, five rotations; start, middle and end", each=[("%s%d" % (k, r), dict(k=k, r=r, _tier="quick" if (i + j) % 3 == 0 or k == "z" else "thorough")) for i, k in enumerate(NORM) for j, r in enumerate(ROTS)])
def ellipse_arc(h, k, r):
    g = h.mod(G)
    c = [1.0, h.real("y", -100, 100), 2.0]
    s, f = h.angle("s", -180, 540), h.angle("f", -180, 540)
    h.assume(h.Or(s > 0.001, s < -0.001, f < 359.999, f > 360.001))
    e = g.ellipse(g.point(*c), 5, 3, rotation=r, start=s, end=f, **kw(k))
    h.check(not g.isfullellipse(e), "an elliptical arc is not a full ellipse")
    h.eqs(g.ellipse_sample(e, 0), place(h, k, r, 5 * h.cosd(s), 3 * h.sind(s), c), "start of an elliptical arc", n=3, tol=1e-5)
    h.eqs(g.ellipse_sample(e, 1), place(h, k, r, 5 * h.cosd(f), 3 * h.sind(f), c), "end of an elliptical arc", n=3, tol=1e-5)
    m = (s + f) / 2
    if f < s:
        m = m + 180
    h.assume(f - s >= -360)
    h.eqs(g.ellipse_sample(e, 0.5), place(h, k, r, 5 * h.cosd(m), 3 * h.sind(m), c), "middle of an elliptical arc", n=3, tol=1e-5)


@harness("tangents of ellipses of any size with axis ratio 7:1 at the ends of the axes and midway, and of circles at every parameter; six planes, five rotations; full ellipses and arcs", each=CASES)
def ellipse_tangent(h, k, r):
    g = h.mod(G)
    m = h.real("m", 0.1, 20)
    w = h.choice("arc", [None, (90, 450), (-90, 270)])
    ra, rb = h.choice("ab", [(1, 1), (7, 1)])
    if ra == 1:
        t = h.angle("t", 0, 360)
        h.assume(h.And(t >= 1, t <= 359))
    else:
        t = h.choice("tt", [45, 90, 135, 180, 225, 315])
    e = g.ellipse(g.point(1, 2, 3), m * ra, m * rb, rotation=r, **dict(kw(k), **({} if w is None else dict(start=w[0], end=w[1]))))
    u = t / 360
    if w is not None:
        u = (t - w[0]) / 360
        if u < 0:
            u = u + 1
    unit(h, g.ellipse_tangent(e, u), place(h, k, r, -ra * h.sind(t), rb * h.cosd(t)), "tangent of an ellipse")


@harness("parabolas with any vertex, focal length and parameter range, six planes, five rotations, every parameter", each=CASES)
def parabola(h, k, r):
    g = h.mod(G)
    c = centre(h)
    f = h.real("f", 0.05, 50)
    s, w = h.real("s", -50, 50), h.real("w", -50, 50)
    u = h.choice("u", [0, 1, 0.25, 0.5])
    p = g.parabola(g.point(*c), f, rotation=r, start=s, end=s + w, **kw(k))
    h.check(g.isparabola(p), "a parabola")
    t = s + u * w
    h.eqs(g.parabola_sample(p, u), place(h, k, r, t * t / (4 * f), t, c), "point on a parabola", n=3, tol=1e-5)
    uu = h.real("uu", 0, 1)
    p = g.parabola(g.point(*c), f, rotation=r, start=-3, end=5, **kw(k))
    t = -3 + uu * 8
    h.eqs(g.parabola_sample(p, uu), place(h, k, r, t * t / (4 * f), t, c), "point on a parabola", n=3, tol=1e-5)


@harness("tangents of parabolas of any focal length in six planes and five rotations at the parameters with rational speed", each=CASES)
def parabola_tangent(h, k, r):
    g = h.mod(G)
    f = h.real("f", 0.05, 50)
    a, b, c = h.choice("q", [(0, 1, 1), (3, 4, 5), (-3, 4, 5), (4, 3, 5), (-12, 5, 13)])
    # t/(2f) = a/b
    t = 2 * f * a / b
    s = h.choice("s", [-1, 2.5])
    p = g.parabola(g.point(1, 2, 3), f, rotation=r, start=t - s, end=t + s, **kw(k))
    unit(h, g.parabola_tangent(p, 0.5), place(h, k, r, a / b, 1), "tangent of a parabola")


@harness("hyperbolas with any centre and semi-axes, both branches, six planes, five rotations, every parameter of a fixed range and fixed fractions of any range", each=CASES)
def hyperbola(h, k, r):
    g = h.mod(G)
    c = centre(h)
    a, b = h.real("a", 0.1, 50), h.real("b", 0.1, 50)
    br = h.choice("branch", [1, -1])
    uu = h.real("uu", 0, 1)
    p = g.hyperbola(g.point(*c), a, b, rotation=r, start=-1, end=2, branch=br, **kw(k))
    h.check(g.ishyperbola(p), "a hyperbola")
    t = -1 + uu * 3
    h.eqs(g.hyperbola_sample(p, uu), place(h, k, r, br * a * h.cosh(t), b * h.sinh(t), c), "point on a hyperbola", n=3, tol=1e-5)
    s, e = h.real("s", -3, 3), h.real("e", -3, 3)
    p = g.hyperbola(g.point(*c), a, b, rotation=r, start=s, end=e, branch=br, **kw(k))
    u = h.choice("u", [0, 1, 0.5])
    t = s + u * (e - s)
    h.eqs(g.hyperbola_sample(p, u), place(h, k, r, br * a * h.cosh(t), b * h.sinh(t), c), "point on a hyperbola", n=3, tol=1e-5)


@harness("tangents of hyperbolas of any size with axis ratios 1:1 and 3:2 in six planes and five rotations at fixed parameters, both branches", each=CASES)
def hyperbola_tangent(h, k, r):
    g = h.mod(G)
    m = h.real("m", 0.1, 20)
    ra, rb = h.choice("ab", [(1, 1), (3, 2)])
    br = h.choice("branch", [1, -1])
    t = h.choice("t", [0, 0.5, -1.25])
    p = g.hyperbola(g.point(1, 2, 3), m * ra, m * rb, rotation=r, start=t - 1, end=t + 3, branch=br, **kw(k))
    unit(h, g.hyperbola_tangent(p, 0.25), place(h, k, r, br * ra * h.sinh(t), rb * h.cosh(t)), "tangent of a hyperbola")
