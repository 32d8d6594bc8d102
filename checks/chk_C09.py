"""Mesh views and STL files hold exactly the facets of the model."""
import math, re, io
from symex.harness import harness
G3 = "yapcad.geom3d"
ME = "yapcad.mesh"
ST = "yapcad.io.stl"
U = "yapcad.geometry_utils"


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def near(h, a, b, tol):
    return h.And(*[h.And(x - y <= tol, y - x <= tol) for x, y in zip(a, b)])


def righthand(h, n, p, q, r, what, tol=1e-6):
    """n is the unit normal of p, q, r"""
    c = cross(sub(q, p), sub(r, p))
    h.eq(dot(n, n), 1.0, what + " is of unit length", tol=tol)
    h.check(dot(n, c) > 0, what + " is on the right side")
    d = cross(n, c)
    # parallel, relative to the size of the triangle
    h.check(dot(d, d) <= tol * tol * dot(c, c), what + " is square to the facet")


@harness("one facet: two edges arbitrary in space, at an arbitrary place", each=[(k, dict(k=k)) for k in ("place", "edge", "both edges, flat", "both edges, mixed")], floats=True)
def facet(h, k):
    m = h.mod(ME)
    p = [h.real("p" + c, -100, 100) for c in "xyz"] if k == "place" else [1.0, 2.0, 3.0]
    a = [h.real("a" + c, -50, 50) for c in "xyz"] if k != "place" else [3.0, 0.0, 4.0]
    b = [h.real("b" + c, -50, 50) for c in "xyz"] if k.startswith("both") else [2.0, 1.0, -2.0]
    if k.endswith("flat"):
        a[2] = b[2] = 0.0
    if k.endswith("mixed"):
        a[2] = b[0] = 0.0
    q, r = [x + y for x, y in zip(p, a)], [x + y for x, y in zip(p, b)]
    c = cross(a, b)
    h.assume(dot(c, c) >= 1e-10)
    s = ['surface', [v + [1.0] for v in (p, q, r)], [[0, 0, 1, 0]] * 3, [[0, 1, 2]], [], []]
    t = list(m.mesh_view(s))
    h.check(len(t) == 1, "the facet appears once")
    n, u, v, w = t[0]
    h.eqs(list(u) + list(v) + list(w), p + q + r, "corners", tol=1e-9)
    righthand(h, list(n), p, q, r, "normal")


@harness("a facet whose corners come together or lie on a line, wherever", each=[(k, dict(k=k)) for k in ("same", "line", "point", "middle")])
def degenerate(h, k):
    m = h.mod(ME)
    p = [h.real("p" + c, -100, 100) for c in "xyz"]
    a = [h.real("a" + c, -50, 50) for c in "xyz"]
    q = [x + y for x, y in zip(p, a)]
    r = {"same": p, "line": [x + 2 * y for x, y in zip(p, a)], "point": p, "middle": [x + y / 2 for x, y in zip(p, a)]}[k]
    if k == "point":
        q = p
    s = ['surface', [v + [1.0] for v in (p, q, r)] + [[500.0, 0, 0, 1.0], [501.0, 0, 0, 1.0], [500.0, 1, 0, 1.0]], [[0, 0, 1, 0]] * 6, [[0, 1, 2], [3, 4, 5], [1, 2, 0]], [], []]
    t = list(m.mesh_view(s))
    h.check(len(t) == 1, "only the other facet is left")
    h.eqs(list(t[0][1]), [500.0, 0, 0], "the other facet", tol=1e-9)


# ---- models -------------------------------------------------------------------------------------------------
# corners in cells of their own: arbitrary within them
CELL = [(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0), (1, 1, 5), (2, 2, -5)]
MODELS = {
    "one facet": [[[0, 1, 2]]],
    "tetrahedron": [[[0, 2, 1], [0, 1, 4], [1, 2, 4], [2, 0, 4]]],
    "square and back": [[[0, 1, 2], [0, 2, 3]], [[2, 1, 0], [3, 2, 0]]],
    "one facet twice": [[[0, 1, 2], [1, 2, 0], [0, 1, 2]]],
    "octahedron": [[[0, 1, 4], [1, 2, 4]], [[2, 3, 4], [3, 0, 4]], [[1, 0, 5], [2, 1, 5], [3, 2, 5], [0, 3, 5]]],
    "with an empty surface": [[[0, 1, 2]], [], [[0, 2, 3]]],
    "with degenerate facets": [[[0, 1, 1], [0, 1, 2], [2, 2, 2], [0, 2, 3], [3, 0, 3]]],
}


def model(h, k, var):
    """a surface or solid, and its facets: var names the corner and axes that are arbitrary"""
    g3 = h.mod(G3)
    X = [[10.0 * c for c in q] for q in CELL]
    lab, ax = var
    for i in range(6):
        if lab == "all" or i == lab:
            for j, c in enumerate("xyz"):
                if c in ax:
                    X[i][j] = X[i][j] + h.real("c%d%s" % (i, c), -4, 4)
    surfs, want = [], []
    for F in MODELS[k]:
        ids = sorted({i for f in F for i in f}, reverse=True)
        surfs.append(['surface', [X[i] + [1.0] for i in ids], [[0, 0, 1, 0]] * len(ids), [[ids.index(i) for i in f] for f in F], [], []])
        want += [[X[i] for i in f] for f in F if len(set(f)) == 3]
    return (surfs[0] if len(surfs) == 1 and k != "tetrahedron" else g3.solid(surfs)), want, [f for F in MODELS[k] for f in F if len(set(f)) == 3]


VARS = [(0, "xyz"), (4, "xz"), ("all", "x")]
EACH = [("%s/%s%s" % (k, v[0], v[1]), dict(k=k, v=v)) for k in MODELS for v in VARS]


@harness("surfaces and solids whose corners are arbitrary within boxes", each=EACH, floats=True)
def view(h, k, v):
    x, want, _ = model(h, k, v)
    t = list(h.mod(ME).mesh_view(x))
    h.check(len(t) == len(want), "as many facets")
    for f, w in zip(t, want):
        h.eqs([c for p in f[1:] for c in p], [c for p in w for c in p], "corners in their order", tol=1e-9)
        righthand(h, list(f[0]), *w, "normal")


NAMES = ["yapCAD", "", "solid part", "a" * 100, "Stra\u00dfe", "facet 1", "SOLID"]


def records(h, b):
    n = len(b)
    h.check(n >= 84, "header and count")
    import struct
    k = struct.unpack('<I', b[80:84])[0] if isinstance(b[80:84], bytes) else -1
    return n, k


def back(h, r, want, faces, tol, dedupe=True):
    """what is read is the facets, in order, and corners that coincide are one corner"""
    h.check(isinstance(r, list) and r[0] == 'solid' and len(r[1]) == (1 if want else 0), "one surface")
    if not want:
        return
    s = r[1][0]
    h.check(len(s[3]) == len(want), "as many facets read")
    for f, w in zip(s[3], want):
        h.eqs([c for i in f for c in s[1][i][:3]], [c for p in w for c in p], "corners read", tol=tol)
    n = len({i for f in faces for i in f}) if dedupe else 3 * len(faces)
    h.check(len(s[1]) == n and len(s[2]) == n, "corners that coincide are read as one" if dedupe else "each facet has corners of its own")
    for i, m in enumerate(s[2]):
        h.check(s[1][i][3] == 1 and m[3] == 0, "corners are points and normals directions")


@harness("binary files of surfaces and solids whose corners are arbitrary within boxes, under several names", each=EACH, floats=True)
def binary(h, k, v):
    st = h.mod(ST)
    x, want, faces = model(h, k, v)
    File = h.binary(ST)
    i = list(MODELS).index(k) + VARS.index(v)
    name = NAMES[i % len(NAMES)]
    f = File()
    st.write_stl(x, f, binary=True, name=name)
    b = f.getvalue()
    n, count = records(h, b)
    h.check(n == 84 + 50 * len(want) and count == len(want), "length and count")
    Struct = File.Struct
    for j, w in enumerate(want):
        q = Struct('<12fH').unpack(b[84 + 50 * j:134 + 50 * j])
        h.eqs(list(q[3:12]), [c for p in w for c in p], "corners in the file", tol=1e-6)
        righthand(h, list(q[:3]), *w, "normal in the file", tol=1e-5)
        h.check(q[12] == 0, "no attributes")
    # read on with plain normals
    b = b[:84]
    for j, w in enumerate(want):
        b = b + Struct('<12fH').pack(*FLAT[j % 3], *[c for p in w for c in p], 0)
    for d in (True, False):
        r = st.read_stl(File(b), deduplicate=d)
        back(h, r, want, faces, 1e-6, d)
        if not d and want:
            h.eqs([c for n in r[1][0][2] for c in n[:3]], [c for j in range(len(want)) for i in range(3) for c in FLAT[j % 3]], "normals read", tol=1e-6)


FLAT = [(0.0, 0.0, 1.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)]
NUM = r"([-+]?\d+(?:\.(\d*))?(?:[eE]([-+]?\d+))?)"


def numerals(h, line, what):
    """the numbers of a line, each with enough digits"""
    out = []
    for t in line:
        m = re.fullmatch(NUM, t)
        h.check(m is not None and (len(m.group(2) or "") >= 6 or "e" not in t.lower() and len(t) >= 17), what)
        out.append(h.numeral(t))
    return out


@harness("text files of surfaces and solids whose corners are arbitrary within boxes", each=[e for e in EACH if not e[0].endswith("allx")] + [("tetrahedron/allx", dict(k="tetrahedron", v=("all", "x")))], floats=True)
def text(h, k, v):
    st = h.mod(ST)
    x, want, faces = model(h, k, v)
    h.texts()
    f = io.StringIO()
    name = ["yapCAD", "part 7", "facet"][VARS.index(v)]
    st.write_stl(x, f, binary=False, name=name)
    t = f.getvalue()
    L = [q.split() for q in t.split("\n") if q.strip()]
    h.check(L[0] == ["solid"] + name.split() and L[-1] == ["endsolid"] + name.split() and len(L) == 2 + 7 * len(want), "lines of the file")
    for j, w in enumerate(want):
        B = L[1 + 7 * j:8 + 7 * j]
        h.check(B[0][:2] == ["facet", "normal"] and B[1] == ["outer", "loop"] and all(q[0] == "vertex" and len(q) == 4 for q in B[2:5]) and B[5] == ["endloop"] and B[6] == ["endfacet"], "shape of a facet")
        n = numerals(h, B[0][2:], "digits")
        righthand(h, n, *w, "normal in the file", tol=1e-5)
        h.eqs([c for q in B[2:5] for c in numerals(h, q[1:], "digits")], [c for p in w for c in p], "corners in the file", tol=2e-6)
    # read on with plain normals
    t = re.sub("(normal) .*", r"\1 0.0 0.0 1.0", t)
    r = st.read_stl(io.BytesIO(t.encode("utf-8")))
    back(h, r, want, faces, 2e-6)


@harness("files in which two corners of different facets come near each other", each=[(k, dict(k=k)) for k in ("apart", "same")], floats=True)
def merging(h, k):
    st = h.mod(ST)
    File = h.binary(ST)
    d = h.real("d", 0.001, 3) if k == "apart" else 0.0
    t = h.real("t", -20, 20)
    P = [[t, 0, 0], [t + 10.0, 0, 0], [t, 10.0, 0], [t + 10.0 + d, 0, 0], [t + 10.0, 10.0, 5.0]]
    F = [[0, 1, 2], [3, 4, 2]]
    s = ['surface', [p + [1.0] for p in P], [[0, 0, 1, 0]] * 5, F, [], []]
    f = File()
    st.write_stl(s, f)
    r = st.read_stl(File(f.getvalue()))
    back(h, r, [[P[i] for i in q] for q in F], F if k == "apart" else [[0, 1, 2], [1, 4, 2]], 1e-6)
