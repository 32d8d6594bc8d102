"""Spatial index: NTree queries against brute force; box overlap primitives."""
from symex.harness import harness
O = "yapcad.octtree"
G = "yapcad.geom"


def box(h, p, lo=None, hi=None, flat=False, deg=False):
    g = h.mod(G)
    a = [h.real(p + c + "0", lo, hi) for c in "xyz"]
    b = [h.real(p + c + "1", lo, hi) for c in "xyz"]
    if flat:
        a[2] = b[2] = 0.0
    for u, v in zip(a, b):
        h.assume(u <= v)
    return [g.point(*a), g.point(*b)]


def overlap(h, a, b, n):
    return h.And(*[h.And(a[0][i] <= b[1][i], b[0][i] <= a[1][i]) for i in range(n)])


@harness("all pairs of boxes (2D and 3D, touching and degenerate included)", each=[("2d", dict(d=2)), ("3d", dict(d=3))], weight=3)
def overlap_exact(h, d):
    o = h.mod(O)
    a, b = box(h, "a"), box(h, "b")
    r = o.boxoverlap2(a, b, dim3=(d == 3))
    w = overlap(h, a, b, d)
    if r:
        h.check(w, "reported overlaps are real")
    else:
        h.check(h.Not(w), "no overlap is missed")


def grid(g, kind):
    """fixed elements that make the tree split"""
    P = g.point
    if kind == "quad":
        return [[P(-8, -8), P(-6, -6)], [P(6, 6), P(8, 8)], [P(-8, 6), P(-7, 8)], [P(6, -8), P(8, -7)]]
    return [[P(sx * 8.0, sy * 8.0, sz * 8.0), P(sx * 7.0, sy * 7.0, sz * 7.0)] for sx in (-1, 1) for sy in (-1, 1) for sz in (-1, 1)]


def check_query(h, o, t, els, q, d, lab):
    got = t.getElements(q)
    for i, e in enumerate(els):
        m = sum(1 for x in got if x is e or (isinstance(x, tuple) and x[0] is e))
        bb = [[min_(h, e[0][k], e[1][k]) for k in range(3)], [max_(h, e[0][k], e[1][k]) for k in range(3)]]
        w = overlap(h, bb, q, d)
        if m == 0:
            h.check(h.Not(w), lab + ": overlapping element missed")
        else:
            h.check(w, lab + ": returned element does not overlap")
            h.check(m == 1, lab + ": element returned once")
    h.check(len(got) <= len(els), lab + ": nothing else returned")


def min_(h, a, b):
    return a if a <= b else b


def max_(h, a, b):
    return a if a >= b else b


@harness("fixed elements forcing a split plus one arbitrary box element (mode 0, fixed queries) or an arbitrary query box (mode 1, fixed elements); in 3D two of the three axes are arbitrary at a time", weight=5, budget=300,
         each=[("quad/q0/%d" % i, dict(kind="quad", mode=0, sel=i, _tier="quick" if i < 2 else "thorough")) for i in range(3)]
         + [("quad/q1/%d" % i, dict(kind="quad", mode=1, sel=i)) for i in range(2)]
         + [("oct/q0/%d%d" % (i, ax), dict(kind="oct", mode=0, sel=i, ax=ax, _tier="quick" if (i + ax) in (1, 4) else "thorough")) for i in range(3) for ax in range(3)]
         + [("oct/q1/%d%d" % (i, ax), dict(kind="oct", mode=1, sel=i, ax=ax, _tier="quick" if (i == ax) or ax == 2 else "thorough")) for i in range(2) for ax in range(3)])
def split_query(h, kind, mode, sel, ax=2):
    """ax: the coordinate that is fixed (2D: z)"""
    o, g = h.mod(O), h.mod(G)
    d = 2 if kind == "quad" else 3
    els = grid(g, kind)
    flat = d == 2
    free = [i for i in range(3) if i != ax]
    if mode == 0:
        lo, hi = [0.0] * 3, [0.0] * 3
        lo[ax], hi[ax] = (0.0, 0.0) if flat else (-0.5, 0.75)
        for k, i in enumerate(free):
            lo[i] = h.real("e%d0" % i, -7, 7)
            if k == 0 or flat:
                hi[i] = h.real("e%d1" % i, -7, 7)
                h.assume(lo[i] <= hi[i])
            else:
                hi[i] = lo[i] + 0.25
        b = [g.point(*lo), g.point(*hi)]
        q = [[g.point(-1, -1, -1), g.point(1, 1, 1)], [g.point(2, -5, -1), g.point(3, -4, 5)], [g.point(-8, -8, -8), g.point(0, 0, 0)]][sel]
    else:
        b = [[g.point(-1, -1, -1), g.point(1, 1, 1)], [g.point(0, 0, 0), g.point(0, 0, 0)]][sel]
        w = [0.0, 4.5][sel]
        lo = [0.0] * 3
        lo[ax] = 0.0 if flat else h.choice("qc", [-7.5, 0.5])
        for i in free:
            lo[i] = h.real("q%d" % i)
        q = [g.point(*lo), g.point(*[c + w for c in lo])]
        if flat:
            b = [g.point(b[0][0], b[0][1]), g.point(b[1][0], b[1][1])]
    els.append([b[0], b[1]])
    t = o.NTree(n=4 if flat else 8)
    for i, e in enumerate(els):
        t.addElement(e, tag=("t%d" % i if i % 2 else None))
    check_query(h, o, t, els, q, d, kind)


@harness("queries interleaved with insertions; one arbitrary element, arbitrary point query", weight=4, each=[("quad", dict(kind="quad")), ("oct", dict(kind="oct"))])
def incremental(h, kind):
    o, g = h.mod(O), h.mod(G)
    d = 2 if kind == "quad" else 3
    els = grid(g, kind)
    flat = d == 2
    t = o.NTree(n=4 if flat else 8)
    x, y = h.real("x", -20, 20), (h.choice("y", [3.0, -7.0]) if flat else 3.0)
    z = 0.0 if flat else h.real("z", 5, 9)
    late = [g.point(x, y, z), g.point(x, y, z)]
    q = [g.point(h.real("qx"), 1.0, -30), g.point(h.real("qx") + 0.5, 9.0, 30)]
    h.check(t.getElements(q) == [], "empty tree has no elements")
    k = h.choice("when", [0, 1, len(els) - 2])
    for e in els[:k]:
        t.addElement(e)
    if k:
        for _ in range(h.choice("queries", [1, 2])):
            check_query(h, o, t, els[:k], q, d, "before")
    t.addElement(late)
    if k:
        check_query(h, o, t, els[:k] + [late], q, d, "between")
    for e in els[k:]:
        t.addElement(e)
    check_query(h, o, t, els[:k] + [late] + els[k:], q, d, "after")


@harness("deep trees: split to the depth and size limits; arbitrary point query", weight=4,
         each=[("%s/%s/%d/%s" % (k, m, dpt, "full" if full else "y"), dict(kind=k, mind=m, dpt=dpt, full=full, _tier="thorough" if full else "quick")) for k in ("quad", "oct") for m, dpt in ((0.25, 5), (3.0, 1), (0.25, 1)) for full in (0, 1)])
def deep(h, kind, mind, dpt, full):
    o, g = h.mod(O), h.mod(G)
    flat = kind == "quad"
    P = g.point
    els = grid(g, kind) + [[P(0.5 * i, 0.4 * i, 0 if flat else 0.3 * i), P(0.5 * i + 0.3, 0.4 * i + 0.1, 0 if flat else 0.3 * i + 0.5)] for i in range(6)]
    t = o.NTree(n=4 if flat else 8, mindim=mind, maxdepth=dpt)
    for e in els:
        t.addElement(e)
    x, y = h.real("x"), h.real("y") if full else h.choice("yc", [0.9, -7.2, 6.9])
    z = 0.0 if flat else h.choice("z", [0.6, -7.5])
    w = h.choice("w", [0.0, 0.35]) if flat else 0.2
    q = [P(x, y, z), P(x + w, y + w, z if flat else z + w)]
    check_query(h, o, t, els, q, 2 if flat else 3, "deep")


@harness("element given at construction")
def constructed(h):
    o, g = h.mod(O), h.mod(G)
    els = grid(g, "quad") + [[g.point(1, 1), g.point(2, 3)]]
    t = o.NTree(n=4, geom=list(els))
    x, y = h.real("x"), h.real("y")
    q = [g.point(x, y), g.point(x + 1, y + 0.5)]
    check_query(h, o, t, els, q, 2, "constructed")


@harness("a tree given elements at construction, queried, then added to one, two or five times with queries in between; one arbitrary element, arbitrary point query", weight=4, each=[("quad", dict(kind="quad")), ("oct", dict(kind="oct"))])
def constructed_grown(h, kind):
    o, g = h.mod(O), h.mod(G)
    flat = kind == "quad"
    d = 2 if flat else 3
    els = grid(g, kind)
    n0 = h.choice("n0", [1, 3])
    first = [list(e) for e in els[:n0]]
    t = o.NTree(n=4 if flat else 8, geom=list(first), center=h.choice("centre", [None, g.point(0.5, 0.25)]) if flat else None)
    els = [list(e) for e in els]
    now = first
    x = h.real("x", -20, 20)
    late = [g.point(x, 3.0, 0.0), g.point(x, 3.0, 0.0)]
    q = [g.point(h.real("qx"), 1.0, -30), g.point(h.real("qx") + 0.5, 9.0, 30)]
    if bool(h.choice("first", [True, False])):
        check_query(h, o, t, now, q, d, "constructed")
    extra = els[n0:]
    seq = [late] + extra[:h.choice("more", [0, 1, 4])]
    for e in seq:
        t.addElement(e)
        now = now + [e]
        check_query(h, o, t, now, q, d, "grown")
