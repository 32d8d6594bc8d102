"""Collisions of assemblies: every pair once, boxes that overlap, and what is an interface and what an error."""
from symex.harness import harness
DE = "yapcad.collision.detector"
RE = "yapcad.collision.registry"
RS = "yapcad.collision.result"
IN = "yapcad.collision.interface"
GE = "yapcad.collision.gear_interface"
TH = "yapcad.collision.thread_interface"


def only(h, a, b, what):
    """a and b are the same truth"""
    h.check(h.And(h.implies(a, b), h.implies(b, a)), what)


# ---- boxes stand for the meshes ------------------------------------------------------------------------------
ROT = {"none": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "quarter z": [[0, -1, 0], [1, 0, 0], [0, 0, 1]], "half x": [[1, 0, 0], [0, -1, 0], [0, 0, -1]], "cycle": [[0, 0, 1], [1, 0, 0], [0, 1, 0]]}


def fake(h, m):
    """what the detector needs of trimesh: boxes"""
    np = m.np

    class Trimesh:
        volume = 1.0

        def __init__(self, lo, hi, inside=(), depth=()):
            self.lo, self.hi, self.inside, self.depth = list(lo), list(hi), list(inside), list(depth)

        def copy(self):
            return Trimesh(self.lo, self.hi, self.inside, self.depth)

        @property
        def bounds(self):
            return np.array([self.lo, self.hi])

        def apply_transform(self, T):
            R = [[T[i][j] for j in range(3)] for i in range(3)]
            lo, hi = [], []
            for i in range(3):
                j = [j for j in range(3) if R[i][j] != 0][0]
                s = R[i][j]
                a, b = (self.lo[j] * s, self.hi[j] * s) if s > 0 else (self.hi[j] * s, self.lo[j] * s)
                lo.append(a + T[i][3])
                hi.append(b + T[i][3])
            self.lo, self.hi = lo, hi

        def sample(self, n):
            return np.zeros((n, 3))

        def contains(self, pts):
            return np.array([i in self.inside for i in range(len(pts))], dtype=bool)

    class Proximity:
        class ProximityQuery:
            def __init__(self, mesh):
                self.mesh = mesh

            def signed_distance(self, pts):
                return np.array([self.mesh.depth[i] for i in range(len(pts))])

    class NS:
        proximity = Proximity
    NS.Trimesh = Trimesh
    m.trimesh, m.HAVE_TRIMESH, m.HAVE_OCC = NS, True, False
    return Trimesh


class Provider:
    def __init__(self, geom):
        self.geom, self.asked = geom, []

    def get_geometry(self, n):
        self.asked.append(n)
        return self.geom.get(n)


def matrix(R, t, form, m):
    rows = [[float(c) for c in R[i]] + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
    if form == "flat":
        return [c for r in rows for c in r]
    if form == "object":
        class T:
            matrix = rows
        return T()
    return rows


def moved(lo, hi, R, t):
    """oracle: the box under the move"""
    L, H = [], []
    for i in range(3):
        j = [j for j in range(3) if R[i][j]][0]
        a, b = lo[j] * R[i][j], hi[j] * R[i][j]
        if R[i][j] < 0:
            a, b = b, a
        L.append(a + t[i])
        H.append(b + t[i])
    return L, H


def meet(h, a, b):
    return h.And(*[h.And(a[0][i] <= b[1][i], b[0][i] <= a[1][i]) for i in range(3)])


@harness("two boxes, one of arbitrary size at an arbitrary place, turned or not", each=[("%s/%s" % (r, k), dict(r=r, k=k)) for r in ROT for k in ("size", "place", "both placed")], max_paths=80)
def boxes(h, r, k):
    m = h.mod(DE)
    Mesh = fake(h, m)
    lo = [h.real("l" + c, -10, 0) for c in "xyz"] if k == "size" else [-1.0, -2.0, -3.0]
    hi = [h.real("h" + c, 1, 10) for c in "xyz"] if k == "size" else [2.0, 1.0, 4.0]
    t = [h.real("t" + c, -20, 20) for c in "xyz"] if k != "size" else [7.0, -5.0, 3.0]
    u = [h.real("u" + c, -20, 20) for c in "xyz"] if k == "both placed" else [1.0, 0.5, 0.0]
    A, B = Mesh(lo, hi), Mesh([-3.0, -1.0, -2.0], [3.0, 5.0, 1.0])
    want = meet(h, moved(lo, hi, ROT[r], t), moved(B.lo, B.hi, ROT["half x"], u))
    d = m.CollisionDetector(Provider({"A": A, "B": B}))
    AABB = m.CollisionMethod.AABB
    x = d.check_collision("A", matrix(ROT[r], t, "rows", m), "B", matrix(ROT["half x"], u, {"size": "flat", "place": "object"}.get(k, "rows"), m), AABB)
    h.check(not x.error_message and (x.part_a, x.part_b) == ("A", "B"), "a finding")
    only(h, bool(x.collides), want, "boxes overlap or not")
    h.check(bool(x.is_error) == bool(x.collides) and not x.is_interface_overlap, "an overlap is an error")
    # the other way round, and again from the cache
    y = d.check_collision("B", matrix(ROT["half x"], u, "rows", m), "A", matrix(ROT[r], t, "flat", m), AABB)
    h.check(bool(y.collides) == bool(x.collides), "the other way round")
    # boxes that do not overlap are not looked at further
    d.mesh_sample_points = 4
    z = d.check_collision("A", matrix(ROT[r], t, "rows", m), "B", matrix(ROT["half x"], u, "rows", m), m.CollisionMethod.MESH)
    h.check(not z.error_message and not z.collides, "meshes without points inside do not collide")


@harness("meshes with points inside one another of an arbitrary depth", each=[("%d in a, %d in b" % n, dict(n=n)) for n in ((0, 0), (1, 0), (0, 2), (5, 5), (6, 5), (11, 0), (0, 12), (3, 8))])
def meshes(h, n):
    m = h.mod(DE)
    Mesh = fake(h, m)
    t = h.real("t", -20, 20)
    p = h.real("threshold", 0.01, 2)
    dep = [[-h.real("d%d%d" % (k, i), 0, 3) if i < 2 else -0.0 for i in range(12)] for k in range(2)]
    A, B = Mesh([0.0] * 3, [4.0] * 3, range(n[0]), dep[0]), Mesh([0.0] * 3, [5.0, 6.0, 7.0], range(n[1]), dep[1])
    d = m.CollisionDetector(Provider({"A": A, "B": B}), penetration_threshold=p, mesh_sample_points=12)
    d._has_mesh, d._has_brep = True, False
    x = d.check_collision("A", None, "B", matrix(ROT["none"], [t, 0.0, 0.0], "rows", m))
    near = h.And(t <= 4, t >= -5)
    deep = h.Or(*([-dep[0][i] > p for i in range(min(2, n[0]))] + [-dep[1][i] > p for i in range(min(2, n[1]))] + [False]))
    h.check(not x.error_message, "a finding")
    only(h, bool(x.collides), h.And(near, h.Or(sum(n) > 10, deep)), "more than ten points, or deeper than the threshold")


# ---- pairs ---------------------------------------------------------------------------------------------------
def partition(h, d, R, what):
    s = d.get_collision_summary(R)
    hit = [r for r in R if r.collides]
    E = [(r.part_a, r.part_b) for r in hit if not r.compatible_interface]
    I = [(r.part_a, r.part_b) for r in hit if r.compatible_interface]
    h.check(s["total_pairs"] == len(R) and s["collisions_detected"] == len(hit) and s["actual_errors"] == len(E) and s["expected_interfaces"] == len(I), what)
    h.check(s["error_pairs"] == E and s["interface_pairs"] == I and s["detection_failures"] == len([r for r in R if r.error_message]), what)
    h.check(all(r.is_error != r.is_interface_overlap for r in hit) and not any(r.is_error or r.is_interface_overlap for r in R if not r.collides), "either an error or an interface")
    for r in R:
        q = type(r).from_dict(r.to_dict())
        h.check((q.part_a, q.part_b, q.collides, q.method, q.compatible_interface, q.interface_names, q.error_message) == (r.part_a, r.part_b, r.collides, r.method, r.compatible_interface, r.interface_names, r.error_message), "findings are read back as written")


@harness("assemblies of up to five boxes in a row at arbitrary places, any pair excluded or not", each=[("%d/%s" % (n, k), dict(n=n, k=k)) for n in (0, 1, 2, 3, 4, 5) for k in ("places", "excluded") if n > 1 or k == "places"], max_paths=300)
def pairs(h, n, k):
    m = h.mod(DE)
    Mesh = fake(h, m)
    names = ["P%d" % ((3 * i + 1) % 7) for i in range(n)]
    geom = {q: Mesh([0.0] * 3, [1.0 + i, 1.0, 1.0]) for i, q in enumerate(names)}
    lost = names[-1] if n == 4 else None
    if lost:
        geom.pop(lost)
    x = [h.real("x%d" % i, 0, 9) if k == "places" and i < 3 else 2.0 * i for i in range(n)]
    every = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
    skip = []
    if k == "excluded":
        for j, (a, b) in enumerate(every[:6]):
            if h.bool("skip%d" % j):
                skip.append((a, b) if j % 2 else (b, a))
    d = m.CollisionDetector(Provider(geom))
    d._has_mesh = d._has_brep = False
    T = {q: matrix(ROT["none"], [x[i], 0.0, 0.0], "rows", m) for i, q in enumerate(names)}
    R = d.check_assembly(T, skip or None)
    gone = {frozenset(p) for p in skip}
    want = [p for p in every if frozenset(p) not in gone]
    h.check([(r.part_a, r.part_b) for r in R] == want, "every pair once but those excluded")
    for r in R:
        i, j = names.index(r.part_a), names.index(r.part_b)
        if lost in (r.part_a, r.part_b):
            h.check(r.error_message and lost in r.error_message and not r.collides, "a part without geometry is reported")
        else:
            only(h, bool(r.collides), h.And(x[i] <= x[j] + (1.0 + j), x[j] <= x[i] + (1.0 + i)), "each pair by its own boxes")
    partition(h, d, R, "summary")


# ---- interfaces ----------------------------------------------------------------------------------------------
def gear(h, n, part, **kw):
    return h.mod(GE).GearMeshInterface(name=n, part_name=part, **kw)


def thread(h, n, part, **kw):
    return h.mod(TH).ThreadInterface(name=n, part_name=part, **kw)




def within(h, a, b, tol):
    return h.And(a - b <= tol, b - a <= tol)


@harness("two gears of arbitrary module, pressure angle and helix, at an arbitrary distance", each=[(k, dict(k=k)) for k in ("module", "pressure", "helix", "distance")], max_paths=400)
def gears(h, k):
    ge = h.mod(GE)
    M = h.real("m", 0.2, 20)
    m2 = h.real("m2", 0.2, 20) if k == "module" else M
    P, p2 = (h.real("p", 10, 30), h.real("p2", 10, 30)) if k == "pressure" else (20.0, 20.0)
    H, h2 = (h.real("hx", -45, 45), h.real("hx2", -45, 45)) if k == "helix" else (0.0, 0.0)
    W, w2 = h.real("w", 1, 50), 12.5
    z = h.choice("teeth", [(18, 36), (20, 20), (36, 17)])
    a = gear(h, "a", "A", module=M, teeth=z[0], pressure_angle=P, face_width=W, helix_angle=H, backlash=0.25)
    b = gear(h, "b", "B", module=m2, teeth=z[1], pressure_angle=p2, face_width=w2, helix_angle=h2)
    h.eqs([a.pitch_diameter, a.outside_diameter, a.root_diameter], [M * z[0], M * (z[0] + 2), M * (z[0] - 2.5)], "diameters")
    r, hh = a.get_bounding_cylinder()
    h.eqs([r, hh], [M * (z[0] + 2) / 2, W], "the gear lies in its cylinder")
    for x, y in ((a, b), (b, a)):
        c = x.check_compatibility(y)
        sure = h.And(within(h, M, m2, 0.000999 * M), within(h, M, m2, 0.000999 * m2), within(h, P, p2, 0.4999))
        no = h.Or(h.Not(within(h, M, m2, 0.001001 * (M + m2) / 2)), h.Not(within(h, P, p2, 0.5001)))
        h.check(h.implies(sure, bool(c.is_compatible)), "gears of one module and pressure angle mesh")
        h.check(h.implies(no, not c.is_compatible), "others do not")
        if c.is_compatible:
            warn = any("elix" in q for q in c.warnings)
            h.check(h.implies(h.Not(within(h, H, -h2, 0.5001)), warn) if not warn else h.implies(within(h, H, -h2, 0.4999), False), "a warning if the helices do not fit")
    if k == "distance":
        D = h.real("D", 0, 800)
        tol = h.real("tol", 0.01, 1)
        t = M * (z[0] + z[1]) / 2
        h.eq(a.get_center_distance(b), t, "distance of the axes")
        c = ge.check_gear_mesh_collision(a, b, D, tol)
        h.check(h.implies(within(h, D, t, tol - 1e-6), bool(c.is_compatible)), "they mesh at that distance")
        h.check(h.implies(h.Not(within(h, D, t, tol + 1e-6)), not c.is_compatible), "and at no other")
        if c.is_compatible:
            h.eq(c.required_clearance, 0.25 + t - D, "clearance")


@harness("two threads of arbitrary diameter and pitch, inner or outer", each=[(k, dict(k=k)) for k in ("diameter", "pitch")], max_paths=80)
def threads(h, k):
    D = h.real("D", 1, 60)
    d2 = h.real("d2", 1, 60) if k == "diameter" else D
    P = h.real("P", 0.2, 6) if k == "pitch" else 1.5
    p2 = h.real("p2", 0.2, 6) if k == "pitch" else 1.5
    ia, ib = h.bool("inner a"), h.bool("inner b")
    L = h.real("L", 1, 30)
    th = h.mod(TH)
    a = thread(h, "a", "A", pitch=P, major_diameter=D, engagement_length=L, is_internal=ia)
    b = thread(h, "b", "B", pitch=p2, major_diameter=d2, engagement_length=10.0, is_internal=ib, thread_type=th.ThreadType.UNC if k == "pitch" else th.ThreadType.ISO_METRIC_FINE)
    h.eqs(list(a.get_bounding_cylinder()) + [a.minor_diameter, a.pitch_diameter], [D / 2, L, D - 1.0825 * P, D - 0.6495 * P], "dimensions")
    for x, y in ((a, b), (b, a)):
        c = x.check_compatibility(y)
        sure = h.And(ia != ib, within(h, D, d2, 0.000999 * D), within(h, D, d2, 0.000999 * d2), within(h, P, p2, 0.000999 * P), within(h, P, p2, 0.000999 * p2))
        no = h.Or(ia == ib, h.Not(within(h, D, d2, 0.001001 * (D + d2) / 2)), h.Not(within(h, P, p2, 0.001001 * (P + p2) / 2)))
        h.check(h.implies(sure, bool(c.is_compatible)), "an inner and an outer thread of one size engage")
        h.check(h.implies(no, not c.is_compatible), "others do not")
        if c.is_compatible:
            h.check((len(c.warnings) == 1) == (k == "pitch"), "a warning for threads of different standards")
            R, r = x.major_diameter / 2, (x.major_diameter - 1.0825 * x.pitch) / 2
            h.check(h.Or(within(h, c.overlap_volume, h.pi * (R * R - r * r) * L, 1e-6), h.Not(L <= 10)), "their overlap")
            h.check(h.Or(within(h, c.overlap_volume, h.pi * (R * R - r * r) * 10.0, 1e-6), h.Not(L >= 10)), "their overlap")
    g = gear(h, "g", "G")
    h.check(not g.check_compatibility(a).is_compatible and not a.check_compatibility(g).is_compatible, "a gear and a thread do not engage")


AX = {"same": ((0.0, 0.0, 2.0), (0.0, 0.0, 1.0)), "opposite": ((0.0, 0.0, 1.0), (0.0, 0.0, -3.0)), "along x": ((1.0, 0.0, 0.0), (1.0, 0.0, 0.0)), "tilted": ((0.6, 0.0, 0.8), (3.0, 0.0, 4.0))}


@harness("two cylinders with parallel axes at an arbitrary place along two directions", each=[(k, dict(k=k)) for k in AX], floats=True)
def cylinders(h, k):
    A, B = AX[k]
    n = [c / (A[0] ** 2 + A[1] ** 2 + A[2] ** 2) ** 0.5 for c in A]
    e = {"along x": [0.0, 1.0, 0.0], "tilted": [0.8, 0.0, -0.6]}.get(k, [0.6, 0.8, 0.0])
    s, r = h.real("along", -40, 40), h.real("across", -60, 60)
    o = (1.0, 2.0, 3.0)
    c = tuple(o[i] + s * n[i] + r * e[i] for i in range(3))
    a = gear(h, "a", "A", module=1.0, teeth=20, face_width=10.0, center=o, axis=A)
    b = thread(h, "b", "B", major_diameter=8.0, pitch=1.25, engagement_length=h.real("L", 1, 30), center=c, axis=B)
    for x, y in ((a, b), (b, a)):
        got = bool(x.overlaps_with(y, 0.5))
        lim = 5.0 + b.engagement_length / 2 + 0.5
        h.check(h.implies(h.And(within(h, s, 0, lim - 1e-6), within(h, r, 0, 15.5 - 1e-6)), got), "cylinders that come together overlap")
        h.check(h.implies(h.Or(h.Not(within(h, s, 0, lim + 1e-6)), h.Not(within(h, r, 0, 15.5 + 1e-6))), not got), "others do not")


KINDS = {"mesh": [("gear", 1.0, 0), ("gear", 1.0, 0)], "engage": [("out", 0, 0), ("in", 0, 0)], "wrong module": [("gear", 1.0, 0), ("gear", 2.0, 0)], "both outer": [("out", 0, 0), ("out", 0, 0)], "gear and thread": [("gear", 1.0, 0), ("in", 0, 0)]}


@harness("two parts whose boxes overlap or not, with two interfaces each that overlap or not", each=[("%s+%s" % (a, b), dict(a=a, b=b)) for a in KINDS for b in list(KINDS) + ["none"]], max_paths=100)
def verdicts(h, a, b):
    m, re = h.mod(DE), h.mod(RE)
    Mesh = fake(h, m)
    reg = re.InterfaceRegistry()
    # the registry may be given to the detector before anything is registered
    early = m.CollisionDetector(Provider({}), interface_registry=reg) if b == "engage" else None
    # interfaces of the first kind lie near the origin, those of the second far from it: only pairs of a kind may overlap
    want, bad, names = [], [], []
    for j, kind in enumerate((a, b)):
        if kind == "none":
            continue
        x = h.real("x%d" % j, 0, 60)
        for part, (q, mod, _) in zip("AB", KINDS[kind]):
            c = (500.0 * j + (x if part == "B" else 0.0), 0.0, 0.0)
            n = "%s%d" % (part, j)
            reg.register(gear(h, n, part, module=mod, teeth=20, center=c) if q == "gear" else thread(h, n, part, major_diameter=8.0, pitch=1.0, is_internal=q == "in", center=c))
        reach = {"mesh": 22.0, "engage": 8.0, "wrong module": 33.0, "both outer": 8.0, "gear and thread": 15.0}[kind] + 0.1
        (want if kind in ("mesh", "engage") else bad).append(x < reach)
        if kind in ("mesh", "engage"):
            names.append((x < reach, {"A%d" % j, "B%d" % j}))
    ok = h.And(h.Or(*(want + [False])), h.Not(h.Or(*(bad + [False]))))
    t = h.real("t", -9, 9)
    d = m.CollisionDetector(Provider({"A": Mesh([0.0] * 3, [1.0] * 3), "B": Mesh([0.0] * 3, [2.0] * 3), "C": Mesh([0.0] * 3, [2.0] * 3)}))
    if early is None:
        d.set_interface_registry(reg)
    else:
        d = early
        d.geometry_provider = Provider({"A": Mesh([0.0] * 3, [1.0] * 3), "B": Mesh([0.0] * 3, [2.0] * 3), "C": Mesh([0.0] * 3, [2.0] * 3)})
    d._has_mesh = d._has_brep = False
    T = {"A": matrix(ROT["none"], [0.0] * 3, "rows", m), "B": matrix(ROT["none"], [t, 0.0, 0.0], "rows", m), "C": matrix(ROT["none"], [100.0, 0, 0], "rows", m)}
    R = d.check_assembly(T)
    h.check(len(R) == 3 and not R[1].collides and not R[2].collides, "pairs")
    r = R[0]
    only(h, bool(r.collides), h.And(t <= 1, t >= -2), "overlap")
    only(h, bool(r.is_interface_overlap), h.And(r.collides, ok), "an interface exactly if one fits and none is at odds")
    only(h, bool(r.is_error), h.And(r.collides, h.Not(ok)), "an error otherwise")
    if r.is_interface_overlap:
        h.check(all(set(n) <= set(r.interface_names) if h.valid(c) else True for c, n in names) and set(r.interface_names) <= {q for _, n in names for q in n}, "the interfaces that fit are named")
    else:
        h.check(not r.interface_names, "none is named")
    partition(h, d, R, "summary")


@harness("registries after an arbitrary history of four steps", each=[("%d" % i, dict(first=i)) for i in range(6)], max_paths=1500)
def registry(h, first):
    re = h.mod(RE)
    I = h.mod(IN).InterfaceType
    reg = re.InterfaceRegistry()
    mk = {"a": lambda: gear(h, "a", "P"), "b": lambda: thread(h, "b", "P"), "c": lambda: gear(h, "c", "Q")}
    model = {}
    for s in range(4):
        op = first if s == 0 else h.choice("op%d" % s, list(range(6)))
        n = "abc"[op % 3]
        if op < 3:
            i = mk[n]()
            try:
                reg.register(i)
                done = True
            except ValueError:
                done = False
            h.check(done == (n not in model), "a name is taken once")
            if done:
                model[n] = i
        else:
            r = reg.unregister(n)
            h.check(r is model.pop(n, None), "what is removed is given back")
    h.check(len(reg) == len(model) and reg.get_all_interfaces() == list(model.values()) and list(reg) == list(model.values()), "what is registered")
    for n in "abcd":
        h.check((n in reg) == (n in model) and reg.get(n) is model.get(n), "by name")
    for p in "PQR":
        L = [i for i in model.values() if i.part_name == p]
        h.check(reg.get_interfaces_for_part(p) == L and reg.has_interfaces(p) == bool(L), "by part")
    h.check(sorted(reg.get_all_parts()) == sorted({i.part_name for i in model.values()}), "parts")
    for t in (I.GEAR_MESH, I.THREAD, I.KEY):
        h.check(reg.get_interfaces_by_type(t) == [i for i in model.values() if i.interface_type == t], "by type")


@harness("planetary sets of an arbitrary module, face width and plane", each=[("%d %d %d" % q, dict(q=q)) for q in ((18, 36, 3), (20, 20, 4), (30, 15, 6))], floats=True)
def planetary(h, q):
    ge = h.mod(GE)
    M, z, w = h.real("m", 0.2, 10), h.real("z", -50, 50), h.real("w", 1, 40)
    L = ge.create_planetary_gearbox_interfaces("G", M, q[0], q[1], q[0] + 2 * q[1], w, num_planets=q[2], mesh_plane_z=z)
    h.check([i.teeth for i in L] == [q[0], q[0] + 2 * q[1]] + [q[1]] * q[2] and len({i.name for i in L}) == len(L) and len({i.part_name for i in L}) == len(L), "gears")
    R = M * (q[0] + q[1]) / 2
    for i in L:
        h.eqs([i.module, i.face_width, i.center[2]], [M, w, z], "of one set")
    h.eqs(list(L[0].center[:2]) + list(L[1].center[:2]), [0.0] * 4, "sun and ring at the middle")
    for i, p in enumerate(L[2:]):
        h.eqs(list(p.center[:2]), [R * h.cosd(360.0 * i / q[2]), R * h.sind(360.0 * i / q[2])], "planets on their orbit", tol=1e-6)
        h.check(p.check_compatibility(L[0]).is_compatible and ge.check_gear_mesh_collision(L[0], p, R).is_compatible, "each meshes with the sun")
        # and touches the ring: its outermost pitch point lies on that of the ring
        h.eq(R + p.pitch_diameter / 2, L[1].pitch_diameter / 2, "each meshes with the ring", tol=1e-6)


@harness("bolt patterns of three bolts at arbitrary places", each=[(k, dict(k=k)) for k in ("M3", "M8", "m2.5", "M4x0.5", "M10X1.25")])
def bolts(h, k):
    th = h.mod(TH)
    P = [tuple(h.real("%s%d" % (c, i), -100, 100) for c in "xyz") for i in range(3)]
    L = th.create_bolt_pattern_interfaces("n", "A", "B", k, P, **({"engagement_length": 9.0} if k == "M8" else {}))
    size = {"M3": (3.0, 0.5, 4.5), "M8": (8.0, 1.25, 9.0), "m2.5": (2.5, 0.45, 3.75), "M4x0.5": (4.0, 0.5, 6.0), "M10X1.25": (10.0, 1.25, 15.0)}[k]
    h.check(len(L) == 6 and len({i.name for i in L}) == 6, "two for each bolt")
    for i, p in enumerate(P):
        for q in L[2 * i:2 * i + 2]:
            h.eqs(list(q.center), list(p), "place")
            h.eqs([q.major_diameter, q.pitch, q.engagement_length], list(size), "size")
        a, b = L[2 * i:2 * i + 2]
        h.check((a.part_name, b.part_name, a.is_internal, b.is_internal) == ("A", "B", False, True) and a.check_compatibility(b).is_compatible and b.check_compatibility(a).is_compatible, "bolt and hole engage")
