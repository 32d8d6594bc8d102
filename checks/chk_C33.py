"""Analytic surfaces: points, normals and tessellation."""
from symex.harness import harness
A = "yapcad.analytic_surfaces"

AX = {"z": (0, 0, 1, 1), "-z": (0, 0, -1, 1), "tilt": (1, 2, 2, 3), "x": (5, 0, 0, 5), "near": (-2, 3, 6, 7), "down": (4, -4, -7, 9), "low": (8, 1, -4, 9), "steep": (2, -6, 9, 11),
      "y": (0, 3, 0, 3), "-x": (-2, 0, 0, 2), "pm": (-3, 4, 12, 13), "pp": (5, 2, 14, 15), "mp": (3, -4, -12, 13), "mm": (-4, -3, 12, 13), "dn": (-4, -3, -12, 13), "lp": (-2, -1, 2, 3), "ln": (-1, 2, -2, 3), "xy": (-4, 3, 0, 5)}


def axis(k):
    a = AX[k]
    return [float(q) for q in a[:3]], [q / a[3] for q in a[:3]]


def sub(a, b):
    return [a[i] - b[i] for i in range(3)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def cen(h):
    return [h.real("x", -50, 50), h.real("y", -50, 50), h.real("z", -50, 50)]


EACH = [(k, dict(k=k)) for k in AX]
T = 1e-4


@harness("planes through any point with eighteen normals of any length, all parameters", each=EACH)
def plane(h, k):
    m = h.mod(A)
    o = cen(h)
    d, a = axis(k)
    s = m.plane_surface(o, d)
    u, v = h.real("u", -50, 50), h.real("v", -50, 50)
    r = sub(m.evaluate_surface(s, u, v), o)
    n = m.surface_normal(s, u, v)
    h.eqs(n, a + [0], "normal of a plane", tol=T)
    h.eq(dot(r, a), 0, "points of a plane", tol=T)
    h.eq(dot(r, r), u * u + v * v, "plane coordinates are lengths", tol=T)
    r1, r2 = sub(m.evaluate_surface(s, 1, 0), o), sub(m.evaluate_surface(s, 0, 1), o)
    h.eqs(cross(r1, r2), a, "the normal is that of u x v", tol=T)


def around(h, rad0, rad, a, R, t, label):
    """rad is rad0 turned by t about the axis, both of length R"""
    h.eq(dot(rad0, rad0), R * R, label + ": radius at u=0", tol=T)
    h.eq(dot(rad0, rad), R * R * h.cosd(t), label + ": angle", tol=T)
    h.eq(dot(cross(rad0, rad), a), R * R * h.sind(t), label + ": sense of the angle", tol=T)


@harness("spheres with any centre and radius, all longitudes and latitudes")
def sphere(h):
    m = h.mod(A)
    o = cen(h)
    R = h.real("r", 0.01, 50)
    s = m.sphere_surface(o, R)
    t, w = h.angle("t", 0, 360), h.angle("w", -90, 90)
    u, v = t * h.pi / 180, w * h.pi / 180
    n = [h.cosd(w) * h.cosd(t), h.cosd(w) * h.sind(t), h.sind(w)]
    h.eqs(m.evaluate_surface(s, u, v), [o[i] + R * n[i] for i in range(3)], "point of a sphere", n=3)
    h.eqs(m.surface_normal(s, u, v), n + [0], "normal of a sphere")


@harness("cylinders about eighteen axes through any point, any radius, all parameters", each=EACH)
def cylinder(h, k):
    m = h.mod(A)
    o = cen(h)
    d, a = axis(k)
    R = h.real("r", 0.01, 20)
    s = m.cylinder_surface(o, d, R)
    t = h.angle("t", 0, 360)
    v = h.real("v", -20, 20)
    u = t * h.pi / 180
    r = sub(m.evaluate_surface(s, u, v), o)
    h.eq(dot(r, a), v, "axial position on a cylinder", tol=T)
    rad = sub(r, [v * q for q in a])
    h.eq(dot(rad, rad), R * R, "radius of a cylinder", tol=T)
    around(h, sub(sub(m.evaluate_surface(s, 0, v), o), [v * q for q in a]), rad, a, R, t, "cylinder")
    n = m.surface_normal(s, u, v)
    h.eqs([R * q for q in n], rad + [0], "normal of a cylinder", tol=T)


@harness("cones about eighteen axes with any apex, half angles 30, 45 and atan(3/4), all angles and positive distances", each=EACH)
def cone(h, k):
    m = h.mod(A)
    o = cen(h)
    d, a = axis(k)
    w = h.choice("w", [30, 45, 60, 12])
    s = m.cone_surface(o, d, w * h.pi / 180)
    t = h.angle("t", 0, 360)
    v = h.real("v", 0.01, 20)
    u = t * h.pi / 180
    c, sn = h.cosd(w), h.sind(w)
    r = sub(m.evaluate_surface(s, u, v), o)
    h.eq(dot(r, r), v * v, "distance from the apex of a cone", tol=T)
    h.eq(dot(r, a), v * c, "axial position on a cone", tol=T)
    off = [v * c * q for q in a]
    rad = sub(r, off)
    around(h, sub(sub(m.evaluate_surface(s, 0, v), o), off), rad, a, v * sn, t, "cone")
    n = m.surface_normal(s, u, v)
    h.eq(dot(n, n), 1, "normal of a cone: unit", tol=T)
    h.eq(n[3], 0, "normal of a cone: direction")
    h.eq(dot(n, r), 0, "normal of a cone: square to the surface", tol=T)
    h.eq(dot(n, rad), v * sn * c, "normal of a cone: outward", tol=T)


@harness("tori about eighteen axes with any centre and radii, all angles", each=EACH)
def torus(h, k):
    m = h.mod(A)
    o = cen(h)
    d, a = axis(k)
    R, q = h.real("R", 0.02, 20), h.real("q", 0.01, 20)
    h.assume(q <= R - 0.005)
    s = m.torus_surface(o, d, R, q)
    t, w = h.angle("t", 0, 360), h.angle("w", 0, 360)
    u, v = t * h.pi / 180, w * h.pi / 180
    r = sub(m.evaluate_surface(s, u, v), o)
    h.eq(dot(r, a), q * h.sind(w), "height on a torus", tol=T)
    L = R + q * h.cosd(w)
    off = [q * h.sind(w) * x for x in a]
    rad = sub(r, off)
    around(h, sub(sub(m.evaluate_surface(s, 0, v), o), off), rad, a, L, t, "torus")
    n = m.surface_normal(s, u, v)
    h.eq(n[3], 0, "normal of a torus: direction")
    # (L - q cos w) = R : the tube's centre is R along rad/L
    h.eqs([L * q * x for x in n[:3]], [L * r[i] - R * rad[i] for i in range(3)], "normal of a torus", tol=T)


def deboor(knots, c, d, k, u):
    p = [list(c[j + k - d]) for j in range(d + 1)]
    for r in range(1, d + 1):
        for j in range(d, r - 1, -1):
            al = (u - knots[j + k - d]) / (knots[j + 1 + k - r] - knots[j + k - d])
            p[j] = [(1 - al) * x + al * y for x, y in zip(p[j - 1], p[j])]
    return p[d]


def spans(kn, d, n):
    return [k for k in range(d, n) if kn[k + 1] > kn[k]]


def par(h, nm, kn, d, n):
    sp = spans(kn, d, n)
    k = h.choice("span" + nm, sp)
    w = h.real(nm, 0, 1)
    if k != sp[-1]:
        h.assume(w <= 0.999999)
    return k, kn[k] + w * (kn[k + 1] - kn[k])


SURF = {
    "11": ([0, 0, 1, 1], [0, 0, 2, 2], 1, 1),
    "21": ([0, 0, 0, 0.5, 1, 1, 1], [0, 0, 1, 1], 2, 1),
    "12": ([1, 1, 2, 3, 3], [0, 0, 0, 1, 1, 1], 1, 2),
    "22u": ([0, 1, 2, 3, 4, 5], [0, 0, 0, 1, 2, 2, 2], 2, 2),
}


@harness("tensor-product B-spline surfaces of degree 1 and 2, clamped and unclamped knots, two heights and one weight free; every parameter pair in the domain, both ends included; the normal at the corners of the bilinear patch",
         each=[("%s%s" % (k, w), dict(k=k, w=w, _tier="quick" if k != "22u" or w == 0 else "thorough")) for k in SURF for w in (0, 1)])
def bspline(h, k, w):
    m = h.mod(A)
    ku, kv, p, q = SURF[k]
    nu, nv = len(ku) - p - 1, len(kv) - q - 1
    cp = [[[i + 0.25 * j, 2 * j - 0.5 * i, (i * i + 3 * j) % 4] for i in range(nu)] for j in range(nv)]
    wt = [[1 + ((i + 2 * j) % 3) * w for i in range(nu)] for j in range(nv)]
    if w:
        wt[-1][0] = h.real("w0", 0.1, 10)
    else:
        cp[0][0][2], cp[-1][-1][2] = h.real("a", -20, 20), h.real("b", -20, 20)
    s = m.bspline_surface(cp, ku, kv, p, q, weights=wt if w else None)
    a, u = par(h, "u", ku, p, nu)
    b, v = par(h, "v", kv, q, nv)
    hom = [[[x * wt[j][i] for x in cp[j][i]] + [wt[j][i]] for i in range(nu)] for j in range(nv)]
    r = deboor(kv, [deboor(ku, hom[j], p, a, u) for j in range(nv)], q, b, v)
    got = m.evaluate_surface(s, u, v)
    h.eqs([got[i] * r[3] for i in range(3)], r[:3], "point of a B-spline surface", n=3)
    h.check(s[2]["u_range"] == (ku[p], ku[nu]) and s[2]["v_range"] == (kv[q], kv[nv]), "parameter range")


@harness("bilinear patches (parallelograms in a fixed plane) of any size: the normal at the corners, edges and inside", each=[("c%d" % i, dict(i=i)) for i in range(3)])
def bspline_normal(h, i):
    m = h.mod(A)
    a, b = h.real("a", 1, 10), h.real("b", 1, 10)
    e, f, n = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 3, 4), (5, 0, 0), (0, 4 / 5, -3 / 5)), ((1, 2, 2), (2, 1, -2), (-2 / 3, 2 / 3, -1 / 3))][i]
    P = lambda x, y: [x * a * e[j] + y * b * f[j] for j in range(3)]
    s = m.bspline_surface([[P(0, 0), P(1, 0)], [P(0, 1), P(1, 1)]], [0, 0, 1, 1], [0, 0, 1, 1], 1, 1)
    u, v = h.choice("u", [0, 0.5, 1]), h.choice("v", [0, 0.25, 1])
    h.eqs(m.surface_normal(s, u, v), list(n) + [0], "normal of a B-spline surface", tol=1e-4)


KINDS = ["plane", "sphere", "cylinder", "cone", "torus", "bspline"]


@harness("tessellations of each kind of surface with any size and position on 2x3 and 4x4 grids: vertices, normals, faces, winding and boundary", each=[(k, dict(k=k)) for k in KINDS])
def tessellate(h, k):
    m = h.mod(A)
    o = cen(h)
    d, ax = axis("tilt")
    R = h.real("r", 0.1, 20)
    pi = h.pi
    if k == "plane":
        s = m.plane_surface(o, d, u_range=(-1, 2), v_range=(0.5, 4))
    elif k == "sphere":
        s = m.sphere_surface(o, R, u_range=(0, pi), v_range=(-pi / 4, pi / 2))
    elif k == "cylinder":
        s = m.cylinder_surface(o, d, R, u_range=(0, pi), v_range=(1, 4))
    elif k == "cone":
        s = m.cone_surface(o, d, pi / 6, u_range=(0, pi), v_range=(1, 4))
    elif k == "torus":
        s = m.torus_surface(o, d, R + 1, 0.5, u_range=(0, pi), v_range=(0, pi))
    else:
        s = m.bspline_surface([[[0, 0, 0], [1, 0, 0]], [[0, 2, 0], [1, 2, 0]]], [0, 0, 1, 1], [0, 0, 1, 1], 1, 1)
    nu, nv = h.choice("div", [(2, 3), (4, 4)] if k in ("plane", "bspline") else [(3, 3)])
    t = m.tessellate_surface(s, u_divisions=nu, v_divisions=nv)
    h.check(t[0] == "surface" and len(t) == 6, "a surface")
    V, N, F = t[1:4]
    h.check(len(V) == len(N) == (nu + 1) * (nv + 1), "one vertex and normal per grid point")
    (u0, u1), (v0, v1) = s[2]["u_range"], s[2]["v_range"]
    for j in range(nv + 1):
        for i in range(nu + 1):
            u, v = u0 + (u1 - u0) * i / nu, v0 + (v1 - v0) * j / nv
            q = j * (nu + 1) + i
            h.eqs(V[q], m.evaluate_surface(s, u, v), "grid vertex")
            if k != "bspline":
                h.eqs(N[q], m.surface_normal(s, u, v), "grid normal")
    # the faces cover each cell by two triangles, all wound the same way as the cell
    cells = {}
    for f in F:
        h.check(len(f) == 3 and len(set(f)) == 3, "triangles")
        ij = [divmod(q, nu + 1) for q in f]
        c = (min(a for a, _ in ij), min(b for _, b in ij))
        x = [(b - c[1], a - c[0]) for a, b in ij]
        ar = (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[2][0] - x[0][0]) * (x[1][1] - x[0][1])
        h.check(all(a in (0, 1) and b in (0, 1) for a, b in x) and ar == 1, "triangles of one grid cell, wound with the normal")
        cells.setdefault(c, []).append(frozenset(f))
    h.check(len(cells) == nu * nv and all(len(v) == 2 and len(v[0] & v[1]) == 2 for v in cells.values()), "two triangles per grid cell")
    for a, b in cells.values():
        dg = sorted(a & b)
        h.check(dg[1] - dg[0] in (nu + 2, nu), "the triangles share a diagonal")
    bd = t[4]
    ring = [q for q in range(len(V)) if q // (nu + 1) in (0, nv) or q % (nu + 1) in (0, nu)]
    h.check(sorted(bd) == ring, "the boundary has every edge vertex once")
    h.check(all(abs(bd[i] - bd[i - 1]) in (1, nu + 1) for i in range(len(bd))), "the boundary runs from neighbour to neighbour")
    # sense: the cell's winding agrees with the normal
    i00, i10, i01 = 1 * (nu + 1) + 1, 1 * (nu + 1) + 2, 2 * (nu + 1) + 1
    if k != "bspline":
        e, f = sub(V[i10], V[i00]), sub(V[i01], V[i00])
        mid = [N[i00][i] + N[i10][i] + N[i01][i] for i in range(3)]
        h.check(dot(cross(e, f), mid) > 0, "winding agrees with the normals")
