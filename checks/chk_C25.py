"""Mates: the solved pose makes the mated datums meet."""
from symex.harness import harness
from chk_C26 import FR, N, tilt
S = "yapcad.assembly.solver"
F = "yapcad.assembly.face_mate"
M = "yapcad.assembly.mate"
D = "yapcad.assembly.datum"
R = "yapcad.assembly.datum_registry"


def org(h, p):
    return [h.real(p + c, -200, 200) for c in "xyz"]


def datum(h, name, kind, o, d):
    m = h.mod(D)
    T = m.DatumType
    if kind == "axis":
        return m.Datum(name, T.AXIS, origin=list(o), direction=list(d))
    if kind == "circle":
        return m.Datum(name, T.CIRCLE, origin=list(o), normal=list(d), radius=4.0)
    return m.Datum(name, T.PLANE, origin=list(o), normal=list(d))


def register(h, **parts):
    r = h.mod(R).DatumRegistry
    for k, ds in parts.items():
        r.register_source(k, {d.name: d for d in ds})


def apply(T, p, w):
    return [T[i][0] * p[0] + T[i][1] * p[1] + T[i][2] * p[2] + T[i][3] * w for i in range(3)]


def dotp(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def rigid(h, T):
    c = [[T[i][j] for i in range(3)] for j in range(3)]
    for i in range(3):
        for j in range(i, 3):
            h.eq(dotp(c[i], c[j]), 1.0 if i == j else 0.0, "rotation is orthonormal", tol=1e-5)
    x = [c[0][1] * c[1][2] - c[0][2] * c[1][1], c[0][2] * c[1][0] - c[0][0] * c[1][2], c[0][0] * c[1][1] - c[0][1] * c[1][0]]
    h.eq(dotp(x, c[2]), 1.0, "no reflection", tol=1e-5)
    h.eqs([T[3][j] for j in range(4)], [0.0, 0.0, 0.0, 1.0], "bottom row")


def pose(h, np, p):
    """a parent pose: translation and rotation about z"""
    a = h.angle(p + "turn", -360, 360)
    T = np.eye(4)
    c, s = h.cosd(a), h.sind(a)
    rows = [[c, -s, 0.0, h.real(p + "tx", -100, 100)], [s, c, 0.0, h.real(p + "ty", -100, 100)], [0.0, 0.0, 1.0, h.real(p + "tz", -100, 100)], [0.0, 0.0, 0.0, 1.0]]
    return np.array(rows)


def meet(h, kind, T, oa, ob, da, db, fr, w, off, ang, tol=1e-5):
    """the stated relation between datum a and the moved datum b (directions da, db of length 1)"""
    no = apply(T, ob, 1.0)
    nd = apply(T, db, 0.0)
    if kind in ("coincident", "rigid"):
        h.eqs(no, oa, "origins coincide", tol=tol)
        h.eqs(nd, [-q for q in da], "normals opposed", tol=tol)
    elif kind in ("concentric", "revolute"):
        h.eqs(no, oa, "on the axis", tol=tol)
        h.eqs(nd, da, "axes aligned", tol=tol)
    elif kind == "parallel":
        h.eqs(nd, da, "directions aligned", tol=tol)
    elif kind == "perpendicular":
        h.eq(dotp(nd, da), 0.0, "square", tol=tol)
    elif kind == "distance":
        h.eqs(no, [oa[j] + off * da[j] for j in range(3)], "offset along the normal", tol=tol)
    else:
        u, v, n = FR[fr]
        k = float(N.get(fr, 1))
        h.eqs(apply(T, [q / k for q in u], 0.0), [q / k for q in u], "axis kept", tol=tol)
        h.eqs(apply(T, [q / k for q in v], 0.0), [(h.cosd(ang) * v[j] + h.sind(ang) * n[j]) / k for j in range(3)], "turned by the angle", tol=tol)


KINDS = ["coincident", "rigid", "concentric", "revolute", "parallel", "perpendicular", "distance", "angle"]
DK = {"coincident": "plane", "rigid": "plane", "concentric": "axis", "revolute": "axis", "parallel": "plane", "perpendicular": "axis", "distance": "plane", "angle": "axis"}


def setup(h, kind, fr, pre=""):
    oa, ob = org(h, pre + "a"), org(h, pre + "b")
    w = h.angle(pre + "w", 0, 180)
    la, lb = h.real(pre + "la", 0.1, 10), h.real(pre + "lb", 0.1, 10)
    k = float(N.get(fr, 1))
    A = datum(h, "x", DK[kind], oa, [la * q for q in FR[fr][0]])
    B = datum(h, "y", DK[kind], ob, tilt(h, fr, w, lb))
    return oa, ob, [q / k for q in FR[fr][0]], [q / k for q in tilt(h, fr, w, 1.0)], A, B, w


@harness("all origins, lengths, angles between the datums, offsets and parent poses", each=[("%s/%s%s" % (k, f, "w" if p else ""), dict(kind=k, fr=f, parent=p))
         for k in KINDS for f, p in (("xyz", 1), ("t", 0))])
def solved(h, kind, fr, parent):
    s, m, np = h.mod(S), h.mod(M), h.mod("numpy")
    oa, ob, da, db, A, B, w = setup(h, kind, fr)
    register(h, P=[A], Q=[B])
    off = h.real("off", -50, 50)
    ang = h.angle("ang", -360, 360)
    mt = m.Mate("m", m.MateType[kind.upper()], "P", "x", "Q", "y", offset=off, angle=ang * h.pi / 180)
    r = s.MateConstraintSolver().solve_mate(mt)
    h.check(r.success, "solved")
    meet(h, kind, r.transform, oa, ob, da, db, fr, w, off, ang)
    rigid(h, r.transform)
    if parent:
        W = pose(h, np, "p")
        g = s.MateConstraintSolver().solve_mate(mt, W)
        h.eqs(g.transform, W @ r.transform, "pose follows the parent")


@harness("all origins, offsets and parent poses; six histories of solving", each=[("%s/%d" % (k, i), dict(kind=k, hist=i)) for k in ("coincident", "distance", "revolute") for i in range(6)])
def histories(h, kind, hist):
    """what was solved before does not matter"""
    s, m, np = h.mod(S), h.mod(M), h.mod("numpy")
    fr = "y-x"
    k = float(N.get(fr, 1))
    oa, ob, oc = org(h, "a"), org(h, "b"), org(h, "c")
    off, off2 = h.real("off", -50, 50), h.real("off2", -50, 50)
    da, db = list(FR[fr][0]), list(FR[fr][1])
    register(h, P=[datum(h, "x", DK[kind], oa, da), datum(h, "x2", DK[kind], oc, db)], Q=[datum(h, "y", DK[kind], ob, db)])
    mt = m.Mate("m", m.MateType[kind.upper()], "P", "x", "Q", "y", offset=off)
    sv = s.MateConstraintSolver()
    W, V = pose(h, np, "p"), pose(h, np, "q")
    if hist == 0:                      # another parent pose first
        sv.solve_mate(mt, V)
    elif hist == 1:                    # the datum was moved in the registry
        sv.solve_mate(mt)
        register(h, Q=[datum(h, "y", DK[kind], oc, db)])
        ob = oc
    elif hist == 2:                    # the mate was edited
        sv.solve_mate(mt, W)
        mt.offset = off2
        off = off2
    elif hist == 3:                    # another mate of the same name, then of another datum
        sv.solve_mate(m.Mate("m", mt.mate_type, "P", "x2", "Q", "y", offset=off2))
    elif hist == 4:                    # through a chain and a batch
        sv.solve_all([mt], {"P": V})
        s.solve_mate_chain([mt], V, sv)
    else:                              # the returned array was altered by the caller
        t = sv.solve_mate(mt).transform
        t[0, 3] = t[0, 3] + 1.0
        sv.invalidate_cache("n")
    r = sv.solve_mate(mt, W)
    h.check(r.success, "solved")
    fresh = s.MateConstraintSolver(use_cache=False).solve_mate(mt)
    meet(h, kind, fresh.transform, oa, ob, da, db, fr, 90, off, 0)
    h.eqs(r.transform, W @ fresh.transform, "as if solved afresh")
    b = sv.solve_all([mt], {"P": V})["m"]
    h.eqs(b.transform, V @ fresh.transform, "batch solving uses its own parent poses")


@harness("all origins; chains of two and three mates", each=[(str(n), dict(n=n)) for n in (2, 3)])
def chain(h, n):
    s, m, np = h.mod(S), h.mod(M), h.mod("numpy")
    fs = ["xyz", "zx", "y-x", "-y"]
    parts = ["P%d" % i for i in range(n + 1)]
    o = {}
    for i, p in enumerate(parts):
        o[p] = (org(h, "a%d" % i), org(h, "b%d" % i))
        register(h, **{p: [datum(h, "out", "plane", o[p][0], FR[fs[i]][0]), datum(h, "in", "plane", o[p][1], FR[fs[i]][2])]})
    ms = [m.Mate("m%d" % i, m.MateType.COINCIDENT, parts[i], "out", parts[i + 1], "in") for i in range(n)]
    W = pose(h, np, "p")
    t = s.solve_mate_chain(ms, W)
    prev = W
    for i in range(n):
        T = t[parts[i + 1]]
        h.eqs(apply(T, o[parts[i + 1]][1], 1.0), apply(prev, o[parts[i]][0], 1.0), "world origins meet")
        h.eqs(apply(T, FR[fs[i + 1]][2], 0.0), [-q for q in apply(prev, FR[fs[i]][0], 0.0)], "world normals opposed")
        prev = T


@harness("names of mates and what invalidation forgets")
def unknown_datum(h):
    s, m = h.mod(S), h.mod(M)
    register(h, P=[datum(h, "x", "plane", org(h, "a"), [0.0, 0.0, 1.0])], Q=[])
    r = s.MateConstraintSolver().solve_mate(m.Mate("m", m.MateType.COINCIDENT, "P", "x", "Q", "y"))
    h.check(not r.success, "missing datum is an error")
    r = s.MateConstraintSolver().solve_mate(m.Mate("m", m.MateType.GEAR, "P", "x", "P", "x"))
    h.check(not r.success, "unsupported mate is an error")


FACEK = ["coincident", "aligned", "concentric", "parallel"]


@harness("all origins, lengths, angles between the datums, offsets and turns", each=[("%s/%s%s" % (k, f, t), dict(kind=k, fr=f, turn=t)) for k in FACEK for f, t in (("xyz", ""), ("y-x", ""), ("zx", "turned")) if not (t and k in ("concentric", "parallel"))] +
         [("%s/%s-%s" % (k, a, b), dict(kind=k, fr="zx", turn="", types=(a, b))) for k in FACEK for a, b in (("axis", "plane"), ("circle", "axis"), ("plane", "circle"), ("axis", "axis"), ("circle", "circle"))])
def face_mate(h, kind, fr, turn, types=None):
    f, m, np = h.mod(F), h.mod(M), h.mod("numpy")
    ax = kind == "concentric"
    oa, ob = org(h, "a"), org(h, "b")
    w = h.angle("w", 0, 180) if not turn else 90
    la, lb = h.real("la", 0.1, 10), h.real("lb", 0.1, 10)
    k = float(N.get(fr, 1))
    A = datum(h, "x", types[0] if types else "axis" if ax else "plane", oa, [la * q for q in FR[fr][0]])
    B = datum(h, "y", types[1] if types else "axis" if ax else "circle", ob, tilt(h, fr, w, lb))
    register(h, P=[A], Q=[B])
    off = h.real("off", -50, 50)
    rot = h.angle("rot", -360, 360) if turn else 0.0
    mt = f.FaceToFaceMate(name="m", parent_part="P", parent_datum="x", child_part="Q", child_datum="y", constraint=m.MateType[kind.upper()], offset_distance=off, rotation_about_normal=rot)
    T = mt.compute_transform()
    da, db = [q / k for q in FR[fr][0]], [q / k for q in tilt(h, fr, w, 1.0)]
    no, nd = apply(T, ob, 1.0), apply(T, db, 0.0)
    tol = 1e-5
    h.eqs(nd, [-q for q in da] if kind == "coincident" else da, "directions", tol=tol)
    if kind != "parallel":
        h.eqs(no, [oa[j] + off * da[j] for j in range(3)], "origin at the offset along the normal", tol=tol)
    else:
        h.eqs(no, [ob[j] + off * da[j] for j in range(3)], "moved only by the offset", tol=tol)
    rigid(h, T)
    if turn:
        # turning about the mating axis: compare with the mate without a turn
        mt0 = f.FaceToFaceMate(name="m", parent_part="P", parent_datum="x", child_part="Q", child_datum="y", constraint=m.MateType[kind.upper()], offset_distance=off)
        u, v, n = FR[fr]
        T0 = mt0.compute_transform()
        for e in (v, n):
            p0, p1 = apply(T0, e, 0.0), apply(T, e, 0.0)
            # p1 = p0 turned by rot about u
            cr = [(u[(j + 1) % 3] * p0[(j + 2) % 3] - u[(j + 2) % 3] * p0[(j + 1) % 3]) / k for j in range(3)]
            al = dotp(u, p0) / (k * k)
            h.eqs(p1, [h.cosd(rot) * (p0[j] - al * u[j]) + h.sind(rot) * cr[j] + al * u[j] for j in range(3)], "turned about the mating axis", tol=tol)
    W = pose(h, np, "p")
    h.eqs(mt.compute_transform(W), W @ T, "pose follows the parent")
    h.eqs(mt.compute_transform(), T, "asked again")
    v = mt.validate()
    h.check(v.satisfied, "a computed mate validates")
    V = f.FaceToFaceMate(name="m", parent_part="P", parent_datum="x", child_part="Q", child_datum="y", constraint=m.MateType[kind.upper()], offset_distance=off, rotation_about_normal=rot)
    V.compute_transform(W)
    h.check(V.validate().satisfied, "validates whatever the parent's pose")


@harness("all datums under translation and rotation", each=[(k, dict(kind=k)) for k in ("axis", "plane", "circle", "frame", "point")])
def moved_datum(h, kind):
    m, np = h.mod(D), h.mod("numpy")
    o = org(h, "a")
    T = m.DatumType
    le = h.real("len", 0.1, 10)
    a = h.angle("turn", -360, 360)
    c, s = h.cosd(a), h.sind(a)
    t = org(h, "t")
    X = [[c, 0.0, s, t[0]], [0.0, 1.0, 0.0, t[1]], [-s, 0.0, c, t[2]], [0.0, 0.0, 0.0, 1.0]]
    g, u = [2.0, -1.0, 2.0], [1.0, 2.0, 0.0]
    if kind == "frame":
        d = m.Datum("d", T.FRAME, origin=list(o), x_axis=[le * q for q in g], y_axis=[0.0, 3.0, 4.0])
    elif kind == "point":
        d = m.Datum("d", T.POINT, origin=list(o))
    else:
        d = datum(h, "d", kind, o, [le * q for q in g])
    e = d.transform(X)
    h.check(e.datum_type == d.datum_type and e.name == d.name, "same kind and name")
    h.eqs(list(e.origin)[:3], apply(X, o, 1.0), "origin moved")
    want = [q / 3 for q in apply(X, g, 0.0)]
    got = {"axis": e.direction, "plane": e.normal, "circle": e.normal, "frame": e.x_axis, "point": None}[kind]
    if got is not None:
        h.eqs(list(got)[:3], want, "direction turned, not moved, and of unit length")
    if kind == "frame":
        h.eqs(list(e.y_axis)[:3], [q / 5 for q in apply(X, [0.0, 3.0, 4.0], 0.0)], "y axis turned")
    if kind == "circle":
        h.eq(e.radius, 4.0, "radius kept")
    h.eqs(list(d.origin)[:3], o, "the original datum is left as it was")
