"""Geometry JSON: what is written is read back."""
import math
from symex.harness import harness
G = "yapcad.geom"
G3 = "yapcad.geom3d"
J = "yapcad.io.geometry_json"
M = "yapcad.metadata"
TOL = 1e-9
FACES = [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]
CORNERS = [(0, 0, 0), (4, 0, 0), (0, 3, 0), (1, 1, 5)]
NORMALS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0.6, 0.8, 0)]


def asjson(h, x):
    """what a JSON file holds of the document"""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, dict):
        h.check(all(isinstance(k, str) for k in x), "keys are texts")
        return {k: asjson(h, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [asjson(h, v) for v in x]
    # anything else is a number
    return x + 0


def trip(h, entities, **kw):
    j = h.mod(J)
    doc = asjson(h, j.geometry_to_json(entities, **kw))
    return doc, j.geometry_from_json(doc)


def tetra(h, n, sym=True, at=0.0):
    """a closed surface with arbitrary normals, and corners that are arbitrary within boxes beside one another ("free": the last corner is anywhere)"""
    CELL = [(0, 2, 1), (3, 0, 2), (1, 3, 0), (2, 1, 3)]
    if sym:
        V = [[h.real("%s%d%s" % (n, i, c), *((-100, 100) if sym == "free" and i == 3 else (at + 30 * CELL[i][k] - 50, at + 30 * CELL[i][k] - 22))) for k, c in enumerate("xyz")] + [1.0] for i in range(4)]
        N = [[h.real("%sn%d%s" % (n, i, c), -1, 1) for k, c in enumerate("xyz")] + [0.0] for i in range(4)]
    else:
        V = [[p[k] + at for k in range(3)] + [1.0] for p in CORNERS]
        N = [list(p) + [0.0] for p in NORMALS]
    return ['surface', V, N, [list(f) for f in FACES], [], []]


def snap(s):
    return [list(v) for v in s[1]], [list(v) for v in s[2]], [list(f) for f in s[3]]


def samesurface(h, r, want, what="surface"):
    V, N, F = want
    h.check(isinstance(r, list) and r[0] == 'surface' and len(r[1]) == len(V) and len(r[2]) == len(N), what)
    h.eqs([c for v in r[1] for c in v], [c for v in V for c in v], what + ": corners", tol=TOL)
    h.eqs([c for v in r[2] for c in v], [c for v in N for c in v], what + ": normals", tol=TOL)
    h.check([list(f) for f in r[3]] == F, what + ": faces")


def samesolid(h, r, shell, voids=()):
    h.check(isinstance(r, list) and r[0] == 'solid' and len(r[1]) == len(shell), "solid")
    for s, w in zip(r[1], shell):
        samesurface(h, s, w)
    v = [x for x in r[2] if x]
    h.check(len(v) == len(voids), "voids")
    for x, w in zip(v, voids):
        h.check(len(x) == len(w), "voids")
        for s, t in zip(x, w):
            samesurface(h, s, t, "surface of a void")


def box_of(h, doc, kind, P):
    """the stated box is that of the corners"""
    b = [e["boundingBox"] for e in doc["entities"] if e["type"] == kind][0]
    for k in range(3):
        h.check(h.And(*[h.And(b[k] <= p[k] + 1e-6, b[k + 3] >= p[k] - 1e-6) for p in P]), "the box holds the corners")
        h.check(h.And(h.Or(*[h.And(b[k] - p[k] <= 1e-6, p[k] - b[k] <= 1e-6) for p in P]), h.Or(*[h.And(b[k + 3] - p[k] <= 1e-6, p[k] - b[k + 3] <= 1e-6) for p in P])), "the box is tight")


SOLIDS = ["one", "several surfaces", "two", "the same twice", "a moved copy", "one surface twice", "with a void", "with two voids"]


@harness("solids with arbitrary corners and normals", each=[(k, dict(k=k)) for k in SOLIDS])
def solids(h, k):
    g, g3 = h.mod(G), h.mod(G3)
    a = tetra(h, "a", "free" if k == "one" else True)
    b = tetra(h, "b", True, 200.0)
    c = tetra(h, "c", False, 20.0)
    A, B, C = snap(a), snap(b), snap(c)
    s = g3.solid([a])
    if k == "one":
        doc, r = trip(h, [s])
        box_of(h, doc, "solid", A[0])
        want = [([A], [])]
    elif k == "several surfaces":
        s = g3.solid([a, b, c])
        doc, r = trip(h, [s], units="mm")
        h.check(doc.get("units") == "mm", "units")
        box_of(h, doc, "solid", A[0] + B[0] + C[0])
        want = [([A, B, C], [])]
    elif k == "two":
        _, r = trip(h, [s, g3.solid([b, c])])
        want = [([A], []), ([B, C], [])]
    elif k == "the same twice":
        _, r = trip(h, [s, s])
        want = [([A], []), ([A], [])]
    elif k == "a moved copy":
        h.mod(M).ensure_solid_id(s)
        h.mod(M).ensure_surface_id(s[1][0])
        d = [h.real("d" + q, 1, 50) for q in "xyz"]
        t = g3.translatesolid(s, g.point(*d))
        _, r = trip(h, [s, t, g3.solid([b])])
        want = [([A], []), ([([[p[i] + d[i] for i in range(3)] + [1.0] for p in A[0]], A[1], A[2])], []), ([B], [])]
    elif k == "one surface twice":
        _, r = trip(h, [g3.solid([a, b, a])])
        want = [([A, B, A], [])]
    else:
        v = [[b]] if k == "with a void" else [[b], [c, b]]
        s[2] = v
        _, r = trip(h, [s])
        want = [([A], [[B]] if k == "with a void" else [[B], [C, B]])]
    h.check(len(r) == len(want), "as many solids")
    for x, (shell, voids) in zip(r, want):
        samesolid(h, x, shell, voids)
    h.check(snap(a) == A and snap(b) == B, "what was written stays as it was")


MIX = ["surface", "two surfaces", "the same surface and a moved copy", "solid and surface", "solid and sketch", "surface and sketch", "solid, its own surface moved and sketch", "sketches"]


def sketch(h, g):
    x = h.real("sx", -50, 50)
    return [g.line(g.point(0, 0), g.point(x, 3.0)), g.line(g.point(x, 3.0), g.point(1.0, x))], [[[0.0, 0.0], [x, 3.0]], [[x, 3.0], [1.0, x]]]


def samesketch(h, r, S):
    g = h.mod(G)
    h.check(isinstance(r, list) and len(r) == len(S) and all(g.isline(e) for e in r), "sketch")
    h.eqs([c for e in r for p in e for c in p[:2]], [c for e in S for p in e for c in p], "sketch", tol=TOL)


@harness("surfaces, solids and sketches with arbitrary corners in one document", each=[(k, dict(k=k)) for k in MIX])
def mixed(h, k):
    g, g3 = h.mod(G), h.mod(G3)
    a, b = tetra(h, "a", "free" if k == "surface" else True), tetra(h, "b", True, 200.0)
    A, B = snap(a), snap(b)
    s, S = sketch(h, g)
    d = [h.real("d" + q, 1, 50) for q in "xyz"]
    moved = lambda W: ([[p[i] + d[i] for i in range(3)] + [1.0] for p in W[0]], W[1], W[2])
    if k == "surface":
        doc, r = trip(h, [a])
        box_of(h, doc, "surface", A[0])
        want = [("f", A)]
    elif k == "two surfaces":
        _, r = trip(h, [a, b])
        want = [("f", A), ("f", B)]
    elif k == "the same surface and a moved copy":
        h.mod(M).ensure_surface_id(a)
        _, r = trip(h, [a, g3.translatesurface(a, g.point(*d))])
        want = [("f", A), ("f", moved(A))]
    elif k == "solid and surface":
        _, r = trip(h, [g3.solid([a]), b])
        want = [("s", A), ("f", B)]
    elif k == "solid and sketch":
        _, r = trip(h, [g3.solid([a]), s])
        want = [("s", A), ("k", S)]
    elif k == "surface and sketch":
        _, r = trip(h, [a, s])
        want = [("f", A), ("k", S)]
    elif k == "sketches":
        _, r = trip(h, [s, s[:1], s[1:]])
        want = [("k", S), ("k", S[:1]), ("k", S[1:])]
    else:
        h.mod(M).ensure_surface_id(a)
        _, r = trip(h, [g3.solid([a]), g3.translatesurface(a, g.point(*d)), s])
        want = [("s", A), ("f", moved(A)), ("k", S)]
    h.check(len(r) == len(want), "as many entities")
    # their order is open between kinds
    kind = lambda x: x[0] if x and isinstance(x[0], str) else "sketch"
    for n, t in (("solid", "s"), ("surface", "f"), ("sketch", "k")):
        X = [x for x in r if kind(x) == n]
        W = [w for q, w in want if q == t]
        h.check(len(X) == len(W), "as many of each kind")
        for x, w in zip(X, W):
            if t == "s":
                samesolid(h, x, [w])
            elif t == "f":
                samesurface(h, x, w)
            else:
                samesketch(h, x, w)


# ---- figures ------------------------------------------------------------------------------------------------
def figure(h, k, which):
    """a figure, its points or parameters as read back, and points on it"""
    g = h.mod(G)
    at = which == "place"
    x, y = (h.real("x", -50, 50), h.real("y", -50, 50)) if at else (3.0, -2.0)
    R = h.real("r", 0.1, 1.2) if which == "size" else 1.0
    P = lambda u, v: g.point(x + u, y + v)
    if k == "line":
        return g.line(P(0, 0), P(R, 2.0)), [("line", [(x, y), (x + R, y + 2.0)])]
    if k == "polyline":
        q = [P(0, 0), P(R, 2.0), P(4.0, 1.0), P(4.0, -R)]
        return q, [("line", [(a[0], a[1]), (b[0], b[1])]) for a, b in zip(q, q[1:])]
    if k == "polygon":
        q = [P(0, 0), P(R, 0.0), P(R, 3.0), P(0, 0)]
        return q, [("line", [(a[0], a[1]), (b[0], b[1])]) for a, b in zip(q, q[1:])]
    if k.startswith("circle"):
        e = g.arc(g.point(x, y), R, samplereverse=k.endswith("reversed"))
        return e, [("arc", (x, y), (R, 0, 360), -2 if k.endswith("reversed") else -1)]
    if k.startswith("arc"):
        s, t = (h.real("start", 5, 40), h.real("end", 50, 85)) if which == "angles" else (20.0, 290.0) if "wide" in k else (20.0, 70.0)
        if "wide" in k and which == "angles":
            t = t + 180.0
        if "last" in k:
            s, t = (h.real("start", 5, 355) if which == "angles" else 180.0), 360.0
        if "across" in k:
            s, t = h.real("start", 200, 350), h.real("end", 5, 100)
        e = g.arc(g.point(x, y), R, s, t, samplereverse=k.endswith("reversed"))
        return e, [("arc", (x, y), (R, s, t), -2 if k.endswith("reversed") else -1)]
    if k.startswith("ellipse"):
        rot = h.real("rot", 0, 350) if which == "angles" else 30.0
        kw = {}
        if k.endswith("arc"):
            kw = dict(start=h.real("start", 1, 100) if which == "angles" else 25.0, end=h.real("end", 120, 359) if which == "angles" else 200.0)
        e = g.ellipse(g.point(x, y), R + 2.0, R, rotation=rot, **kw)
        return e, [("ellipse", (x, y), (R + 2.0, R, rot, kw.get("start", 0), kw.get("end", 360)))]
    C = [P(0, 0), P(1.0, R), P(3.0, 1.0), P(4.0, 4.0), P(6.0, 2.0)]
    if k.startswith("catmullrom"):
        a = h.real("alpha", 0, 1) if which == "angles" else 0.25
        c = k.endswith("closed")
        e = g.catmullrom(C, closed=c, alpha=a)
        return e, [("catmullrom", [(p[0], p[1]) for p in C], c, a)]
    w = [1.0, h.real("w", 0.2, 4) if which == "angles" else 2.0, 0.5, 1.0, 3.0]
    kw = dict(knots=[0.0, 0.0, 0.0, 0.25, 0.5, 1.0, 1.0, 1.0]) if k.endswith("knots") else {}
    e = g.nurbs(C, degree=2, weights=w, **kw)
    return e, [("nurbs", [(p[0], p[1]) for p in C], 2, w, list(e[2]["knots"]))]


def samefigure(h, r, want):
    g = h.mod(G)
    h.check(len(r) == len(want), "as many figures")
    for e, w in zip(r, want):
        if w[0] == "line":
            h.check(g.isline(e), "line")
            h.eqs([c for p in e for c in p[:2]], [c for p in w[1] for c in p], "line", tol=TOL)
        elif w[0] == "arc":
            h.check(g.isarc(e) and e[1][3] == w[3], "arc and its direction")
            h.eqs([e[0][0], e[0][1], e[0][2]], [w[1][0], w[1][1], 0.0], "arc", tol=TOL)
            h.eqs(e[1][:3], list(w[2]), "arc", tol=TOL)
            h.check(bool(g.iscircle(e)) == (w[2][1] == 0 and w[2][2] == 360), "full circles stay so")
        elif w[0] == "ellipse":
            h.check(g.isellipse(e), "ellipse")
            h.eqs(e[1][:2], list(w[1]), "ellipse", tol=TOL)
            m = e[2]
            h.eqs([m["semi_major"], m["semi_minor"], m["rotation"], m["start"], m["end"]], list(w[2]), "ellipse", tol=TOL)
            h.eqs(list(m["normal"])[:3], [0.0, 0.0, 1.0], "ellipse", tol=TOL)
        elif w[0] == "catmullrom":
            h.check(g.iscatmullrom(e) and len(e[1]) == len(w[1]) and e[2]["closed"] is w[2], "spline")
            h.eqs([c for p in e[1] for c in p[:2]], [c for p in w[1] for c in p], "spline", tol=TOL)
            h.eq(e[2]["alpha"], w[3], "spline", tol=TOL)
        else:
            h.check(g.isnurbs(e) and len(e[1]) == len(w[1]) and e[2]["degree"] == w[2], "nurbs")
            h.eqs([c for p in e[1] for c in p[:2]], [c for p in w[1] for c in p], "nurbs", tol=TOL)
            h.eqs(list(e[2]["weights"]), w[3], "nurbs weights", tol=TOL)
            h.eqs(list(e[2]["knots"]), w[4], "nurbs knots", tol=TOL)


KINDS = [("line", "place size"), ("polyline", "place size"), ("polygon", "place size"), ("circle", "place size"), ("circle reversed", "place"), ("arc", "place size angles"),
         ("arc reversed", "place size"), ("arc wide", "place size"), ("arc wide reversed", "place"), ("arc to the last", "place angles"), ("arc across", "angles"), ("ellipse", "place size angles"), ("ellipse arc", "place size angles"),
         ("catmullrom", "place angles"), ("catmullrom closed", "place"), ("nurbs", "place angles"), ("nurbs knots", "place")]


@harness("figures at an arbitrary place, of an arbitrary size, or between arbitrary angles", floats=True,
         each=[("%s/%s" % (k, w), dict(k=k, w=w)) for k, W in KINDS for w in W.split()])
def figures(h, k, w):
    h.mod(J)
    if hasattr(h, "eng"):
        # the polyline drawn beside each figure is not what is read back
        j = h.mod(J)
        if k.split()[0] in ("ellipse", "catmullrom", "nurbs") or w == "angles":
            h.assume(hasattr(j, "_sample_geometry_element") and hasattr(j, "bbox2d"))
            j._sample_geometry_element = lambda e, *a, **kw: []
            j.bbox2d = lambda e: None
    e, want = figure(h, k, w)
    g = h.mod(G)
    last = g.line(g.point(7.0, 7.0), g.point(8.0, 9.0))
    doc, r = trip(h, [[e, last]])
    h.check(len(r) == 1, "one sketch")
    samefigure(h, r[0], want + [("line", [(7.0, 7.0), (8.0, 9.0)])])


@harness("a lone line and polyline at an arbitrary place", each=[(k, dict(k=k)) for k in ("line", "polyline", "polygon")])
def lone(h, k):
    e, want = figure(h, k, "place")
    doc, r = trip(h, [e])
    h.check(len(r) == 1, "one sketch")
    samefigure(h, r[0], want)


# ---- names, layers, tags ------------------------------------------------------------------------------------
WAYS = ["own", "tuple", "dict", "layer of the solid", "layer of its surface", "tuple on a surface", "metadata of a void"]


@harness("a solid with a number in its metadata that is arbitrary, in seven ways", each=[(k, dict(k=k)) for k in WAYS])
def metadata(h, k):
    g3, m = h.mod(G3), h.mod(M)
    a = tetra(h, "a", True)
    A = snap(a)
    q = h.real("density", 1, 9000)
    extra = {"name": "bracket", "layer": "steel", "tags": ["one", "two"], "material": {"density_kg_m3": q, "grade": None}, "flag": True}

    def same(meta, what):
        h.check(meta.get("name") == "bracket" and meta.get("layer") == "steel" and list(meta.get("tags")) == ["one", "two"] and meta.get("flag") is True, what)
        h.check(list(meta["material"].keys()) == ["density_kg_m3", "grade"] and meta["material"]["grade"] is None, what)
        h.eq(meta["material"]["density_kg_m3"], q, what, tol=TOL)
    s = g3.solid([a])
    if k == "tuple on a surface":
        doc, r = trip(h, [(a, extra)])
        h.check(len(r) == 1, "one surface")
        samesurface(h, r[0], A)
        same(m.get_surface_metadata(r[0]), "metadata of the surface")
        return
    if k == "own":
        meta = m.get_solid_metadata(s, create=True)
        meta.update(extra)
        keep = meta["entityId"]
        doc, r = trip(h, [s])
        h.check(m.get_solid_metadata(r[0])["entityId"] == keep and doc["entities"][0]["id"] == keep and doc["entities"][0]["name"] == "bracket", "id and name stay")
    elif k == "tuple":
        doc, r = trip(h, [(s, extra)])
    elif k == "dict":
        doc, r = trip(h, [{"geometry": s, "metadata": extra}])
    elif k == "layer of the solid":
        m.get_solid_metadata(s, create=True).update(extra)
        doc, r = trip(h, [s])
        h.check(m.get_surface_metadata(r[0][1][0])["layer"] == "steel", "surfaces without a layer are on that of the solid")
    elif k == "layer of its surface":
        m.get_solid_metadata(s, create=True).update(extra)
        m.set_layer(m.get_surface_metadata(a, create=True), "paint")
        doc, r = trip(h, [s])
        h.check(m.get_surface_metadata(r[0][1][0])["layer"] == "paint", "surfaces keep a layer of their own")
    else:
        m.get_solid_metadata(s, create=True).update(extra)
        b = tetra(h, "b", False, 10.0)
        bm = m.get_surface_metadata(b, create=True)
        m.set_layer(bm, "hollow")
        s[2] = [[b]]
        doc, r = trip(h, [s])
        h.check(m.get_surface_metadata(r[0][2][0][0])["layer"] == "hollow" and m.get_surface_metadata(r[0][2][0][0])["entityId"] == bm["entityId"], "metadata of the surface of a void")
    h.check(len(r) == 1, "one solid")
    samesolid(h, r[0], [A], [[snap(b)]] if k == "metadata of a void" else [])
    same(m.get_solid_metadata(r[0]), "metadata of the solid")


@harness("documents of two solids, a surface and a sketch with one fault, wherever it is", each=[(k, dict(k=k)) for k in ("none", "schema", "no schema", "id", "empty id", "shell", "void")])
def malformed(h, k):
    j = h.mod(J)
    n = h.choice("where", [0, 1, 2, 3])
    ent = [{"type": "solid", "id": "A", "shell": ["s", "t"], "voids": [["v"]]}, {"type": "solid", "id": "B", "shell": ["u"], "voids": [[], ["w"]]}] + \
          [{"type": "surface", "id": c, "vertices": [[0, 0, 0, 1]] * 3, "normals": [[0, 0, 1, 0]] * 3, "faces": [[0, 1, 2]], "metadata": {}} for c in "stuvw"] + \
          [{"type": "sketch", "id": "K", "primitives": [{"kind": "line", "start": [0, 0], "end": [1, 1]}]}]
    doc = {"schema": j.SCHEMA_ID, "entities": ent}
    if k == "schema":
        doc["schema"] = [j.SCHEMA_ID + "x", j.SCHEMA_ID[:-1], "", j.SCHEMA_ID.upper()][n]
    elif k == "no schema":
        del doc["schema"]
    elif k == "id":
        del ent[[0, 1, 3, 7][n]]["id"]
    elif k == "empty id":
        ent[[0, 1, 3, 7][n]]["id"] = ["", None][n % 2]
    elif k == "shell":
        if n < 2:
            ent[0]["shell"][n] = "gone"
        elif n == 2:
            ent[1]["shell"] = ["gone"]
        else:
            del ent[4]
    elif k == "void":
        if n == 0:
            ent[0]["voids"] = [["gone"]]
        elif n == 1:
            ent[1]["voids"][1][0] = "gone"
        elif n == 2:
            ent[0]["voids"].append(["v", "gone"])
        else:
            del ent[5]
    try:
        r = j.geometry_from_json(doc)
    except ValueError:
        r = None
    h.check((r is not None) == (k == "none"), "faults are refused")
