"""Faceted STEP files: the boundary they describe is the facets of the model."""
import math, re, io
from symex.harness import harness
G3 = "yapcad.geom3d"
SP = "yapcad.io.step"


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


# corners in cells of their own: arbitrary within them
CELL = [(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0), (1, 1, 5), (2, 2, -5), (9, 0, 0), (9, 4, 1), (12, 2, 7), (10, 9, 3)]
T = [[0, 2, 1], [0, 1, 4], [1, 2, 4], [2, 0, 4]]
MODELS = {
    "one facet": [[[0, 1, 2]]],
    "tetrahedron": [T],
    "tetrahedron of four surfaces": [[f] for f in T],
    "tetrahedron without a facet": [T[:3]],
    "two tetrahedra": [T, [[6, 8, 7], [6, 7, 9], [7, 8, 9], [8, 6, 9]]],
    "two that share a corner": [T, [[1, 8, 7], [1, 7, 9], [7, 8, 9], [8, 1, 9]]],
    "one closed, one open": [[[6, 8, 7], [6, 7, 9]], T],
    "octahedron": [[[0, 1, 4], [1, 2, 4]], [[2, 3, 4], [3, 0, 4]], [[1, 0, 5], [2, 1, 5], [3, 2, 5], [0, 3, 5]]],
    "square and back": [[[0, 1, 2], [0, 2, 3]], [[2, 1, 0], [3, 2, 0]]],
    "three facets at an edge": [[[0, 1, 2], [1, 0, 4], [0, 1, 5]]],
    "with degenerate facets": [[[0, 1, 1], [0, 1, 2], [2, 2, 2], [0, 2, 3], [3, 0, 3]]],
}


def model(h, k, var):
    g3 = h.mod(G3)
    X = [[10.0 * c for c in q] for q in CELL]
    lab, ax = var
    for i in range(len(X)):
        if lab == "all" or i == lab:
            for j, c in enumerate("xyz"):
                if c in ax:
                    X[i][j] = X[i][j] + h.real("c%d%s" % (i, c), -4, 4)
    surfs, want = [], []
    for F in MODELS[k]:
        ids = sorted({i for f in F for i in f}, reverse=True)
        surfs.append(['surface', [X[i] + [1.0] for i in ids], [[0, 0, 1, 0]] * len(ids), [[ids.index(i) for i in f] for f in F], [], []])
        want += [f for f in F if len(set(f)) == 3]
    return (surfs[0] if len(surfs) == 1 and k != "tetrahedron" else g3.solid(surfs)), want, X


def split(a):
    """the arguments of an entity: texts and lists"""
    out, depth, cur, q = [], 0, "", False
    for c in a:
        if c == "'":
            q = not q
        if c == "," and not depth and not q:
            out.append(cur.strip())
            cur = ""
            continue
        depth += (c == "(") - (c == ")") if not q else 0
        cur += c
    return out + [cur.strip()]


def parse(h, t):
    """{id: (kind, arguments)}"""
    h.check(t.startswith("ISO-10303-21;") and t.rstrip().endswith("END-ISO-10303-21;") and t.count("DATA;") == 1 and t.count("ENDSEC;") == 2, "frame of the file")
    E = {}
    for m in re.finditer(r"#(\d+)\s*=\s*(.*?);\s*\n", t[t.index("DATA;") + 5:], re.S):
        i = int(m.group(1))
        h.check(i not in E, "each entity has a number of its own")
        r = " ".join(m.group(2).split())
        n = re.match(r"([A-Z_0-9]+)\s*\((.*)\)$", r)
        E[i] = (n.group(1), split(n.group(2))) if n else ("", [r])
    for k, a in E.values():
        for ref in re.findall(r"#(\d+)", " ".join(a)):
            h.check(int(ref) in E, "what is referred to is there")
    return E


def ref(E, s, kind):
    return E[int(s[1:])] if E[int(s[1:])][0] == kind else None


def lst(s):
    return [x for x in split(s[s.index("(") + 1:s.rindex(")")]) if x]


def triple(h, a):
    v = lst(a)
    for t in v:
        h.check("e" in t.lower() or len(t.partition(".")[2]) >= 5, "digits")
    return [h.numeral(t) for t in v]


TOL = 2e-6


@harness("models whose corners are arbitrary within boxes", each=[("%s/%s%s" % (k, v[0], v[1]), dict(k=k, v=v)) for k in MODELS for v in ((0, "xyz"), (4, "xz"), (1, "y"), ("all", "x"))], floats=True)
def boundary(h, k, v):
    x, want, X = model(h, k, v)
    h.texts()
    f = io.StringIO()
    h.mod(SP).write_step(x, f, name="part")
    E = parse(h, f.getvalue())
    pt = {}
    for i, (n, a) in E.items():
        if n == "VERTEX_POINT":
            c = ref(E, a[1], "CARTESIAN_POINT")
            h.check(c is not None, "vertices are at points")
            pt[i] = triple(h, c[1][1])
    used = sorted({i for q in want for i in q})
    h.check(len(pt) == len(used), "one vertex for each corner")

    def which(p):
        for i in used:
            if h.valid(h.And(*[h.And(p[j] - X[i][j] <= 1.0, X[i][j] - p[j] <= 1.0) for j in range(3)])):
                h.eqs(p, X[i], "vertices are the corners", tol=TOL)
                return i
        h.check(False, "vertices are the corners")
        return -1
    at = {i: which(p) for i, p in pt.items()}
    faces, ends = {}, {}
    for i, (n, a) in E.items():
        if n == "EDGE_CURVE":
            s, e = int(a[1][1:]), int(a[2][1:])
            h.check(s in at and e in at and a[4] == ".T.", "edges run between vertices")
            h.check((min(s, e), max(s, e)) not in ends.values(), "one edge between two vertices")
            ends[i] = (min(s, e), max(s, e))
            l = ref(E, a[3], "LINE")
            h.check(l is not None and ref(E, l[1][2], "VECTOR") is not None, "edges are straight")
            o = ref(E, l[1][1], "CARTESIAN_POINT")
            h.check(o is not None, "edges are straight")
            h.eqs(triple(h, o[1][1]), X[at[s]], "the line of an edge begins at its first vertex", tol=TOL)
            w = ref(E, l[1][2], "VECTOR")[1]
            d = triple(h, ref(E, w[1], "DIRECTION")[1][1])
            L = h.numeral(w[2])
            h.eqs([L * c for c in d], sub(X[at[e]], X[at[s]]), "the line of an edge leads to its last vertex", tol=1e-3)
            h.eq(dot(d, d), 1.0, "directions are of unit length", tol=1e-4)
    found = []
    for i, (n, a) in E.items():
        if n != "ADVANCED_FACE":
            continue
        b = [ref(E, q, "FACE_OUTER_BOUND") for q in lst(a[1])]
        h.check(len(b) == 1 and b[0] is not None and b[0][1][2] == ".T.", "one bound")
        loop = ref(E, b[0][1][1], "EDGE_LOOP")
        walk = []
        for q in lst(loop[1][1]):
            o = ref(E, q, "ORIENTED_EDGE")
            ec = E[int(o[1][3][1:])]
            s, e = at[int(ec[1][1][1:])], at[int(ec[1][2][1:])]
            walk.append((s, e) if o[1][4] == ".T." else (e, s))
        h.check(len(walk) == 3 and all(walk[j][1] == walk[(j + 1) % 3][0] for j in range(3)), "the edges of a face follow one another")
        tri = [w[0] for w in walk]
        faces[i] = tri
        found.append(tri)
        pl = ref(E, a[2], "PLANE")
        ax = ref(E, pl[1][1], "AXIS2_PLACEMENT_3D")[1]
        o, z, r = triple(h, ref(E, ax[1], "CARTESIAN_POINT")[1][1]), triple(h, ref(E, ax[2], "DIRECTION")[1][1]), triple(h, ref(E, ax[3], "DIRECTION")[1][1])
        p, q, s = (X[j] for j in tri)
        c = cross(sub(q, p), sub(s, p))
        g = sub(o, p)
        h.check(h.And(dot(g, c) <= 1e-3, dot(g, c) >= -1e-3), "the plane of a face goes through it")
        h.eq(dot(z, z), 1.0, "directions are of unit length", tol=1e-4)
        h.eq(dot(r, r), 1.0, "directions are of unit length", tol=1e-4)
        h.eq(dot(r, z), 0.0, "the axes of a plane are square", tol=1e-4)
        d = cross(z, c)
        h.check(dot(d, d) <= 1e-8 * dot(c, c), "the plane of a face is that of its facet")
        h.check((dot(z, c) > 0) if a[3] == ".T." else (dot(z, c) < 0), "faces look the way of their facets")
    canon = lambda q: min(tuple(q[j:] + q[:j]) for j in range(3))
    h.check(sorted(map(canon, found)) == sorted(map(canon, want)), "the faces are the facets")
    # shells: parts that hang together by edges, closed when every edge is between two facets
    group = list(range(len(want)))
    ed = {}
    for j, q in enumerate(want):
        for m in range(3):
            ed.setdefault(frozenset((q[m], q[(m + 1) % 3])), []).append(j)
    for _ in want:
        for js in ed.values():
            lo = min(group[j] for j in js)
            for j in js:
                group[j] = lo
    exp = []
    for gi in sorted(set(group)):
        mem = [j for j in range(len(want)) if group[j] == gi]
        closed = all(len(js) == 2 for js in ed.values() if js[0] in mem)
        exp.append((closed, sorted(canon(want[j]) for j in mem)))
    got = []
    for i, (n, a) in E.items():
        if n in ("CLOSED_SHELL", "OPEN_SHELL"):
            h.check(all(int(q[1:]) in faces for q in lst(a[1])), "shells consist of faces")
            got.append((n == "CLOSED_SHELL", sorted(canon(faces[int(q[1:])]) for q in lst(a[1]))))
            up = [(m, b) for m, b in E.values() if m in ("MANIFOLD_SOLID_BREP", "SHELL_BASED_SURFACE_MODEL") and "#%d" % i in re.findall(r"#\d+", " ".join(b))]
            h.check(len(up) == 1 and (up[0][0] == "MANIFOLD_SOLID_BREP") == (n == "CLOSED_SHELL"), "closed shells are solids, open ones surfaces")
    h.check(sorted(got) == sorted(exp), "one shell for each part, closed exactly when each edge is between two facets")
    R = [a for n, a in E.values() if n == "ADVANCED_BREP_SHAPE_REPRESENTATION"]
    h.check(len(R) == 1 and sorted(lst(R[0][1])) == sorted("#%d" % i for i, (n, a) in E.items() if n in ("MANIFOLD_SOLID_BREP", "SHELL_BASED_SURFACE_MODEL")), "every part is in the shape")


@harness("a model of nothing but degenerate facets, wherever it is")
def nothing(h):
    p = [h.real("p" + c, -100, 100) for c in "xyz"]
    s = ['surface', [p + [1.0], p + [1.0], p + [1.0]], [[0, 0, 1, 0]] * 3, [[0, 1, 2]], [], []]
    f = io.StringIO()
    try:
        h.mod(SP).write_step(s, f)
    except ValueError:
        h.check(f.getvalue() == "", "nothing is written")
        return
    h.check(False, "a model without facets is refused")
