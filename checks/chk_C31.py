"""Segmentation of swept elements: paths, cuts, joints, rings."""
from symex.harness import harness
P = "yapcad.manufacturing.path_utils"
S = "yapcad.manufacturing.segmentation"
D = "yapcad.manufacturing.data"
CN = "yapcad.manufacturing.connectors"
R = "yapcad.manufacturing.rings"

# directions of integer length
DIRS = [(3.0, 0.0, 4.0), (0.0, -2.0, 0.0), (2.0, 1.0, -2.0), (-4.0, 3.0, 0.0)]


def seglen(d):
    return {(3.0, 0.0, 4.0): 5.0, (0.0, -2.0, 0.0): 2.0, (2.0, 1.0, -2.0): 3.0, (-4.0, 3.0, 0.0): 5.0}[d]


def linepath(h, n, off=0):
    """n joined line segments of symbolic lengths: path, lengths, corner points"""
    p = [h.real("o" + c, -100, 100) for c in "xyz"]
    segs, lens, pts = [], [], [list(p)]
    for i in range(n):
        d = DIRS[(i + off) % 4]
        k = h.real("k%d" % i, 0.01, 50)
        q = [p[j] + k * d[j] for j in range(3)]
        segs.append({"type": "line", "start": list(p), "end": list(q)})
        lens.append(k * seglen(d))
        pts.append(list(q))
        p = q
    return {"segments": segs}, lens, pts


def at(h, pts, i, u):
    return [pts[i][j] + u * (pts[i + 1][j] - pts[i][j]) for j in range(3)]


def cell(h, n, t):
    """index of the segment holding parameter t in [0, 1]"""
    i = 0
    while i < n - 1 and t * n >= i + 1:
        i += 1
    return i


@harness("all joined line paths and parameters", each=[(str(n), dict(n=n)) for n in (1, 2, 3, 4)])
def line_point(h, n):
    m = h.mod(P)
    path, lens, pts = linepath(h, n)
    t = h.real("t", -0.5, 1.5)
    g, tan = m.evaluate_path3d_at_t(path, t)
    tc = h.real("tc", 0, 1)
    h.assume(h.Or(h.And(t >= 0, t <= 1, tc == t), h.And(t < 0, tc == 0), h.And(t > 1, tc == 1)))
    i = cell(h, n, tc)
    h.eqs(list(g)[:3], at(h, pts, i, tc * n - i), "point at parameter")
    d = DIRS[i % 4]
    h.eqs(list(tan)[:3], [c / seglen(d) for c in d], "unit tangent along the segment")
    pp, nn = m.compute_cut_plane(path, t)
    h.eqs(list(pp) + list(nn), list(g) + list(tan), "cut plane is at the point, square to the path")


@harness("all joined line paths and lengths along them", each=[(str(n), dict(n=n, _tier="quick" if n < 4 else "thorough")) for n in (1, 2, 3, 4)])
def line_length(h, n):
    m = h.mod(P)
    path, lens, pts = linepath(h, n)
    tot = sum(lens)
    h.eq(m.path_length(path), tot, "length is the sum of the segment lengths")
    s = h.real("s", -10, 2000)
    t = m.length_to_parameter(path, s)
    h.check(h.And(t >= 0, t <= 1), "parameter in range")
    if s >= tot:
        h.eq(t, 1.0, "beyond the end")
    elif s <= 0:
        h.eq(t, 0.0, "before the start")
    else:
        i, a = 0, 0.0
        while i < n - 1 and s >= a + lens[i]:
            a = a + lens[i]
            i += 1
        g, _ = m.evaluate_path3d_at_t(path, t)
        d = DIRS[i % 4]
        h.eqs(list(g)[:3], [pts[i][j] + (s - a) * d[j] / seglen(d) for j in range(3)], "point at that length")
        h.eq(m.parameter_to_length(path, t), s, "parameter back to length")


@harness("all joined line paths and spans", each=[(str(n), dict(n=n, _tier="quick" if n < 4 else "thorough")) for n in (1, 2, 3, 4)])
def line_sub(h, n):
    m = h.mod(P)
    path, lens, pts = linepath(h, n)
    a, b = h.real("a", 0, 1), h.real("b", 0, 1)
    h.assume(b > a)
    segs = m.extract_sub_path(path, a, b)["segments"]
    i, j = cell(h, n, a), cell(h, n, b)
    A, B = at(h, pts, i, a * n - i), at(h, pts, j, b * n - j)
    h.check(len(segs) >= 1, "something left")
    h.eqs(segs[0]["start"], A, "starts at the first parameter")
    h.eqs(segs[-1]["end"], B, "ends at the second parameter")
    for u, v in zip(segs, segs[1:]):
        h.eqs(u["end"], v["start"], "pieces join")
    want = (b * n - j) * lens[j] + sum(lens[:j]) - sum(lens[:i]) - (a * n - i) * lens[i]
    h.eq(m.path_length({"segments": segs}), want, "length of the span", tol=1e-5)
    k = [q for q in range(i + 1, j + 1) if bool(b * n > q)]
    h.check(len(segs) == len(k) + 1, "one piece per segment touched")
    for q, u in zip(k, segs[1:]):
        h.eqs(u["start"], pts[q], "corner kept")


# arcs: frame vectors u, v of the plane (n = u x v), integer norms
FR = {"z": ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)), "-y": ((1.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, -1.0, 0.0)),
      "g": ((2 / 3, 1 / 3, -2 / 3), (1 / 3, 2 / 3, 2 / 3), (2 / 3, -2 / 3, 1 / 3))}


def pt(c, fr, r, a, b):
    u, v, _ = FR[fr]
    return [c[j] + r * (a * u[j] + b * v[j]) for j in range(3)]


def arcseg(h, fr, a0, sweep):
    c = [h.real("c" + k, -50, 50) for k in "xyz"]
    r = h.real("r", 0.1, 50)
    ns = h.real("normal_length", 0.1, 10)
    nn = [ns * q for q in FR[fr][2]]
    return c, r, {"type": "arc", "center": c, "start": pt(c, fr, r, h.cosd(a0), h.sind(a0)),
                  "end": pt(c, fr, r, h.cosd(a0 + sweep), h.sind(a0 + sweep)), "normal": nn}


ARCS = [("%s_%d_%d" % (f, a, s), dict(fr=f, a0=a, sweep=s)) for f, a, s in
        [("z", 0, 90), ("z", 30, 90), ("z", 90, 270), ("-y", 45, 90), ("-y", 0, 270), ("g", 0, 90), ("g", 90, 270), ("z", 180, 180)]]


@harness("all centres, radii and parameters of arcs with fixed ends", each=ARCS)
def arc_point(h, fr, a0, sweep):
    m = h.mod(P)
    c, r, seg = arcseg(h, fr, a0, sweep)
    w = h.angle("w", 0, sweep)
    g, tan = m.evaluate_path3d_at_t({"segments": [seg]}, w / sweep)
    co, si = h.cosd(a0 + w), h.sind(a0 + w)
    h.eqs(list(g)[:3], pt(c, fr, r, co, si), "point on the arc")
    h.eqs(list(tan)[:3], pt([0.0] * 3, fr, 1.0, -si, co), "unit tangent")


@harness("all centres and radii of arcs with fixed ends", each=ARCS)
def arc_length(h, fr, a0, sweep):
    m = h.mod(P)
    c, r, seg = arcseg(h, fr, a0, sweep)
    h.eq(m.path_length({"segments": [seg]}), r * sweep * h.pi / 180, "radius times sweep")


@harness("all centres, radii and spans of arcs with fixed ends", each=[ARCS[i] for i in (0, 2, 3, 4, 5)])
def arc_sub(h, fr, a0, sweep):
    m = h.mod(P)
    c, r, seg = arcseg(h, fr, a0, sweep)
    w = h.angle("w", 0, sweep)
    h.assume(w > 1)
    for lo, hi in ((0, w), (w, sweep)):
        if bool(hi - lo > 1):
            s = m.extract_sub_path({"segments": [seg]}, lo / sweep, hi / sweep)["segments"]
            h.check(len(s) == 1, "one piece")
            h.eqs(s[0]["start"], pt(c, fr, r, h.cosd(a0 + lo), h.sind(a0 + lo)), "starts at the first parameter")
            h.eqs(s[0]["end"], pt(c, fr, r, h.cosd(a0 + hi), h.sind(a0 + hi)), "ends at the second parameter")
            h.eqs(s[0]["center"], c, "same centre")
            h.eqs(s[0]["normal"], seg["normal"], "same turning sense")


@harness("all line-arc-line paths and parameters")
def mixed(h):
    m = h.mod(P)
    c, r, seg = arcseg(h, "z", 0, 90)
    k0, k1 = h.real("k0", 0.1, 50), h.real("k1", 0.1, 50)
    a, b = seg["start"], seg["end"]
    path = {"segments": [{"type": "line", "start": [a[0], a[1] - k0, a[2]], "end": a}, seg,
                         {"start": b, "end": [b[0] - k1, b[1], b[2]]}]}
    al = r * h.pi / 2
    h.eq(m.path_length(path), k0 + al + k1, "total length")
    s = h.real("s", 0, 200)
    h.assume(s <= k0 + al + k1)
    t = m.length_to_parameter(path, s)
    if s < k0:
        h.eq(t, s / k0 / 3, "on the first line")
    elif s < k0 + al:
        h.eq(t, (1 + (s - k0) / al) / 3, "on the arc")
    else:
        h.eq(t, (2 + (s - k0 - al) / k1) / 3, "on the last line")


def prov(h, path, **k):
    d = h.mod(D)
    return d.SweptElementProvenance(id="beam", operation="sweep", outer_profile=k.pop("profile", None), spine=path, metadata=k.pop("metadata", {}), **k)


@harness("all joined line paths and length limits, up to five segments", each=[(str(n), dict(n=n, _tier="quick" if n < 3 else "thorough")) for n in (1, 2, 3)], fork_timeout=400)
def planned_cuts(h, n):
    m = h.mod(S)
    u = h.mod(P)
    path, lens, pts = linepath(h, n)
    tot = sum(lens)
    lim = h.real("limit", 0.01, 2000)
    h.assume(lim * 4 >= tot)
    cuts = m.compute_optimal_cuts(prov(h, path), lim)
    if tot <= lim:
        h.check(len(cuts) == 0, "no cut when it fits")
        return
    h.check(len(cuts) >= 1, "cut when it does not fit")
    ls = [0.0]
    for c in cuts:
        h.check(c.element_id == "beam", "cut of this element")
        h.check(h.And(c.parameter > 0, c.parameter < 1), "cut strictly inside")
        ls.append(u.parameter_to_length(path, c.parameter))
    ls.append(tot)
    for a, b in zip(ls, ls[1:]):
        h.check(b > a, "cuts in increasing order")
        h.check(b - a <= lim * (1 + 1e-6), "segment fits the limit")


@harness("all profiles, walls and clearances")
def connector_size(h):
    m = h.mod(CN)
    w, t = h.real("w", 0.1, 500), h.real("t", 0.1, 500)
    wall, cl = h.real("wall", 0, 100), h.real("clearance", 0, 10)
    ok = h.And(w - 2 * wall - 2 * cl > 0, t - 2 * wall - 2 * cl > 0)
    try:
        a, b = m.compute_connector_profile_dimensions(w, t, wall, cl)
    except ValueError:
        h.check(h.Not(ok), "refused only when nothing is left")
        return
    h.check(ok, "accepted only when something is left")
    h.eq(a, w - 2 * wall - 2 * cl, "width leaves wall and clearance on both sides")
    h.eq(b, t - 2 * wall - 2 * cl, "height leaves wall and clearance on both sides")


@harness("all profiles, spines and cuts")
def connector_spec(h):
    m = h.mod(CN)
    w, t = h.real("w", 1, 500), h.real("t", 1, 500)
    wall, cl, tp = h.real("wall", 0.01, 100), h.real("clearance", 0, 10), h.real("tp", 0, 1)
    path, lens, pts = linepath(h, 2)
    h.assume(h.And(w - 2 * wall - 2 * cl > 0, t - 2 * wall - 2 * cl > 0))
    s = m.compute_connector_spec("beam", tp, w, t, wall, path, fit_clearance=cl)
    h.check(s.element_id == "beam" if hasattr(s, "element_id") else True, "for this element")
    h.eq(s.center_parameter, tp, "centred on the cut")
    h.eq(s.fit_clearance, cl, "clearance as asked")
    h.check(s.length > 0, "positive length")


PERM = [(0, 1), (1, 0)]
UN = ["a", "b", "none"]


@harness("all cut parameters and orders; every choice of tab side, failing cut and failing union", each=[("%d%s" % (n, "c" if c else ""), dict(n=n, conn=c)) for n in (1, 2) for c in (0, 1)] + [("3", dict(n=3, conn=0))])
def joints(h, n, conn):
    """the book-keeping of segment_swept_element; solids are stand-ins that record what was done to them"""
    m, d = h.mod(S), h.mod(D)
    g = h.mod("yapcad.geom")
    # these need the CAD kernel, which is not encoded: no verdict where they are not there to be replaced
    h.assume(all(hasattr(m, k) for k in ("split_solid_at_plane", "create_interior_connector", "_union_connector_with_segment")))
    path, lens, pts = linepath(h, 2)
    ts = [h.real("t%d" % i, 0.01, 0.99) for i in range(n)]
    un = [h.choice("u%d" % i, UN) if conn else "a" for i in range(n)]
    bad = h.choice("bad_cut", [None] + list(range(n)))
    badu = h.choice("bad_union", [False, True]) if conn else False
    for i in range(n):
        for j in range(i):
            h.assume(h.Or(ts[i] - ts[j] > 0.001, ts[j] - ts[i] > 0.001))
    cuts = [d.CutPoint(element_id="beam", parameter=ts[i], union_connector_with=un[i]) for i in range(n)]
    calls = []

    def split(solid, p, nrm):
        k = len(calls)
        calls.append((list(p), list(nrm)))
        if k == bad:
            raise RuntimeError("no")
        return (solid[0] + ["|%d" % k], solid[1]), ([], solid[1])

    def conns(w, hh, spine, t, **k):
        return t

    def union(solid, c):
        if badu:
            raise RuntimeError("no")
        return (solid[0] + [c], solid[1])
    keep = m.split_solid_at_plane, m.create_interior_connector, m._union_connector_with_segment
    m.split_solid_at_plane, m.create_interior_connector, m._union_connector_with_segment = split, conns, union
    prof = [[g.line(g.point(-5.0, -4.0), g.point(5.0, -4.0)), g.line(g.point(5.0, -4.0), g.point(5.0, 4.0)),
             g.line(g.point(5.0, 4.0), g.point(-5.0, 4.0)), g.line(g.point(-5.0, 4.0), g.point(-5.0, -4.0))]]
    try:
        r = m.segment_swept_element(prov(h, path, profile=prof, wall_thickness=1.0, metadata={"solid": ([], "S")}), cuts, build_connectors=bool(conn))
    finally:
        m.split_solid_at_plane, m.create_interior_connector, m._union_connector_with_segment = keep
    order = sorted(range(n), key=lambda i: ts[i])
    sg = r.segments
    u = h.mod(P)
    for (p, nrm), i in zip(calls, order):
        q, tan = u.evaluate_path3d_at_t(path, ts[i])
        h.eqs(p + nrm, list(q) + list(tan), "planes follow the spine in order")
    done = [i for k, i in enumerate(order) if k != bad]
    h.check(len(sg) == len(done) + 1, "one more segment than cuts made")
    h.check(len(r.warnings) >= n - len(done), "a failed cut is reported")
    h.check(len(set(s.id for s in sg)) == len(sg), "distinct names")
    h.check(all(s.parent_element_id == "beam" for s in sg), "segments of this element")
    ends = [0.0] + [ts[i] for i in done] + [1.0]
    for k, s in enumerate(sg):
        h.eqs(list(s.parameter_range), [ends[k], ends[k + 1]], "ranges partition the spine")
    for k, s in enumerate(sg):
        want = [sg[j].id for j in (k - 1, k + 1) if 0 <= j < len(sg)]
        h.check(sorted(s.mates_with) == sorted(want), "mates with its neighbours")
        h.check(sorted(r.assembly_graph.get(s.id, [])) == sorted(want), "assembly graph agrees")
    h.check(len(r.assembly_graph) == len(sg), "assembly graph lists every segment")
    if conn:
        sep = 0
        tabs = [[] for _ in sg]
        recv = [False] * len(sg)
        for k, i in enumerate(done):
            if un[i] == "none" or badu:
                sep += 1
            elif un[i] == "a":
                tabs[k].append(ts[i])
                recv[k + 1] = True
            else:
                tabs[k + 1].append(ts[i])
                recv[k] = True
        h.check(len(r.connectors) == sep, "a connector not joined to a segment is delivered separately")
        for k, s in enumerate(sg):
            h.check(bool(s.has_connector_tab) == bool(tabs[k]), "tab flag")
            got = [q for q in s.solid[0] if not isinstance(q, str)]
            h.check(len(got) == len(tabs[k]), "connector joined to the side asked for")
            h.eqs(got, tabs[k], "connector of the joint")
            h.check(s.connector_type == ("male" if tabs[k] else "female" if recv[k] else "none"), "connector type")
    else:
        h.check(len(r.connectors) == 0, "no connectors asked for")


def rot(ax, p, c, s):
    x, y, z = p
    return {"x": [x, y * c - z * s, y * s + z * c], "y": [x * c + z * s, y, -x * s + z * c], "z": [x * c - y * s, x * s + y * c, z]}[ax]


@harness("all radii, centres and tilts", each=[("%s%d" % (a, n), dict(ax=a, n=n)) for a in "xyz" for n in (4, 12)])
def ring_spine(h, ax, n):
    m = h.mod(R)
    r = h.real("r", 0.1, 500)
    c = tuple(h.real("c" + k, -500, 500) for k in "xyz")
    t = h.angle("tilt", -360, 360)
    h.assume(h.Or(t > 0.01, t < -0.01, t == 0))
    segs = m.create_ring_spine(r, c, t, ax, n)["segments"]
    h.check(len(segs) == n, "segment count")
    for i, s in enumerate(segs):
        for k, e in ((i, "start"), (i + 1, "end")):
            a = k * 360 / n
            q = rot(ax, [r * h.cosd(a), r * h.sind(a), 0.0], h.cosd(t), h.sind(t))
            h.eqs(s[e], [q[j] + c[j] for j in range(3)], "ring corner")


@harness("all radii, centres, tilts and fixed attachment angles", each=[("%s%d" % (a, b), dict(ax=a, b=b)) for a in "xyz" for b in (0, 30, 135, 270)])
def ring_attachment(h, ax, b):
    m = h.mod(R)
    r = h.real("r", 0.1, 500)
    c = tuple(h.real("c" + k, -500, 500) for k in "xyz")
    t = h.angle("tilt", -360, 360)
    h.assume(h.Or(t > 0.01, t < -0.01, t == 0))
    p, d = m.compute_arc_attachment_point(r, b, c, t, ax)
    q = rot(ax, [h.cosd(b), h.sind(b), 0.0], h.cosd(t), h.sind(t))
    h.eqs(list(p), [c[j] + r * q[j] for j in range(3)], "on the ring")
    h.eqs(list(d), [-v for v in q], "pointing at the centre")


@harness("all profile sizes and walls")
def ring_profile(h):
    m = h.mod(R)
    w, t, wall = h.real("w", 0.1, 500), h.real("t", 0.1, 500), h.real("wall", 0.01, 100)
    p = m.create_ring_profile(w, t, wall)
    hollow = h.And(w > 2 * wall, t > 2 * wall)
    h.check(bool(hollow) == (len(p) == 2), "hollow when the wall leaves room")
    for k, loop in enumerate(p):
        a, b = w / 2 - k * wall, t / 2 - k * wall
        area = 0.0
        for u, v in zip(loop, loop[1:] + loop[:1]):
            h.eqs(u[1], v[0], "loop is closed")
            h.check(h.And(h.Or(u[0][0] == a, u[0][0] == -a), h.Or(u[0][1] == b, u[0][1] == -b)), "corner of the rectangle")
            area = area + u[0][0] * u[1][1] - u[1][0] * u[0][1]
        h.eq(area, (8 if k == 0 else -8) * a * b, "outer loop counter-clockwise, hole clockwise")


@harness("all circumferences and limits, one hole at any angle, up to four segments", fork_timeout=400, each=[(str(n), dict(n=n)) for n in (2, 3, 4)])
def ring_cuts(h, n):
    m = h.mod(R)
    circ = 1000.0
    a = h.real("hole", 0, 360)
    dist = h.real("distance", 0.1, 3)
    lim = h.real("limit", 200, 999)
    h.assume(h.And(lim * n >= circ, lim * (n - 1) < circ))
    cuts = m.compute_ring_cuts_avoiding_holes(circ, lim, [a], dist)
    h.check(len(cuts) == n - 1, "enough cuts for the limit")
    p = a / 360
    for i, c in enumerate(cuts):
        h.check(h.And(c > 0, c < 1), "cut strictly inside")
        g = c - p
        for k in (-1, 0, 1):
            h.check(h.Or((g + k) * circ >= dist * (1 - 1e-9), (g + k) * circ <= -dist * (1 - 1e-9)), "clear of the hole")
        h.check(h.And(c - (i + 1) / n <= 0.0071, c - (i + 1) / n >= -0.0071), "near the even spacing")


@harness("no cut when the ring fits")
def ring_fits(h):
    m = h.mod(R)
    circ, lim = h.real("circ", 1, 1000), h.real("limit", 1, 5000)
    h.assume(circ <= lim)
    h.check(m.compute_ring_cuts_avoiding_holes(circ, lim, [h.real("hole", 0, 360)]) == [], "no cuts")
