"""Arcs: sampling, unsampling, length, centre, reversal and segmentation."""
from symex.harness import harness
G = "yapcad.geom"


def P(h, n, flat=False):
    g = h.mod(G)
    return g.point(h.real(n + "x"), h.real(n + "y"), 0.0 if flat else h.real(n + "z"))


def the_arc(h, wrap=0, rev=False, lo=-360.0):
    """arc of any centre, radius, start and sweep; returns arc, centre, radius, start, sweep"""
    g = h.mod(G)
    c = P(h, "c")
    r = h.real("r", 0.01, 1000)
    s = h.angle("s", lo, lo + 720.0)
    w = h.angle("w", 1.0, 359.0)
    e = s + w + 360.0 * wrap
    return g.arc(c, r, s, e, samplereverse=rev), c, r, s, w


def on(h, c, r, a):
    return [c[0] + r * h.cosd(a), c[1] + r * h.sind(a), c[2]]


REV = [("fwd", dict(rev=False)), ("rev", dict(rev=True))]


@harness("all centres, radii, start angles in [-360,360], sweeps in [1,359] degrees with the end angle given modulo 360 (three turns) and every parameter in [0,1]",
         each=[("%s/%d" % (n, k), dict(rev=d["rev"], k=k)) for n, d in REV for k in (-1, 0, 1)])
def arc_sample(h, rev, k):
    g = h.mod(G)
    a, c, r, s, w = the_arc(h, k, rev)
    t = h.angle("t", 0, 359)
    h.assume(t <= w)
    u = t / w
    x = s + w - t if rev else s + t
    h.eqs(g.sample(a, u)[:3], on(h, c, r, x), "sampled point", tol=1e-4)
    pol = g.samplearc(a, u, polar=True)
    d = pol[2] - x
    m = d / 360.0
    h.check(h.And(pol[2] >= 0, pol[2] < 360), "polar angle is reduced")
    h.check(h.Or(*[h.And(m - n <= 1e-9, m - n >= -1e-9) for n in (-3, -2, -1, 0, 1, 2, 3)]), "polar angle is the swept angle")
    h.eq(pol[1], r, "polar radius")
    h.eqs(g.sample(a, 0.0)[:3], on(h, c, r, s + w if rev else s), "u=0 is the start", tol=1e-4)
    h.eqs(g.sample(a, 1.0)[:3], on(h, c, r, s if rev else s + w), "u=1 is the end", tol=1e-4)
    h.eqs(g.center(a)[:3], on(h, c, r, s + w / 2), "the centre of an arc is its midpoint", tol=1e-4)
    h.eq(g.length(a), r * w * h.pi / 180, "length is radius times sweep", tol=1e-4)


@harness("as arc_sample", each=[("%s/%d" % (n, k), dict(rev=d["rev"], k=k)) for n, d in REV for k in (0, 1)])
def arc_unsample(h, rev, k):
    g = h.mod(G)
    a, c, r, s, w = the_arc(h, k, rev, lo=0.0)
    t = h.angle("t", 0, 359)
    h.assume(t <= w)
    p = g.point(*on(h, c, r, s + t))
    u = g.unsample(a, p)
    h.check(u is not False, "a point of the arc has a parameter")
    # at the very ends of an arc of nearly a full turn the two ends may be confused by rounding
    h.assume(h.And(t >= 1e-6, t <= w - 1e-6))
    h.eq(u * w, w - t if rev else t, "unsample inverts sample", tol=1e-4)
    o = h.real("off", 1e-3, 100)
    q = g.point(*on(h, c, r + o, s + t))
    h.check(g.unsample(a, q) is False, "a point off the circle has no parameter")


@harness("all circles, forward and reversed; every parameter in [0,1)", each=REV)
def circle(h, rev):
    g = h.mod(G)
    c = P(h, "c")
    r = h.real("r", 0.01, 1000)
    a = g.arc(c, r, samplereverse=rev)
    h.check(g.iscircle(a) is True, "an arc without angles is a circle")
    t = h.angle("t", 0, 360)
    h.assume(t < 360)
    u = t / 360.0
    p = on(h, c, r, -t if rev else t)
    h.eqs(g.sample(a, u)[:3], p, "sampled point", tol=1e-4)
    v = g.unsample(a, g.point(*p))
    h.check(v is not False, "a point of the circle has a parameter")
    h.assume(t >= 1e-6)
    h.eq(v * 360.0, t, "unsample inverts sample", tol=1e-4)
    h.eq(g.length(a), 2 * h.pi * r, "circumference", tol=1e-4)
    h.eqs(g.center(a)[:3], c[:3], "the centre of a circle is its centre")


@harness("all arcs and circles; every pair of parameters u1 < u2 (also wrapping for circles); every parameter of the segment",
         each=[("%s/%s" % (n, k), dict(rev=d["rev"], k=k)) for n, d in REV for k in ("arc", "circle", "wrap", "whole")])
def arc_segment(h, rev, k):
    g = h.mod(G)
    if k == "arc":
        a, c, r, s, w = the_arc(h, 0, rev, lo=0.0)
    else:
        c = P(h, "c")
        r = h.real("r", 0.01, 1000)
        s, w = 0.0, 360.0
        a = g.arc(c, r, samplereverse=rev)
    f = h.choice("f", [0.0, 0.25, 0.5, 1.0])
    if k == "whole":
        z = g.segment(a, 0.0, 1.0)
        h.eq(g.length(z), 2 * h.pi * r, "the whole circle", tol=1e-4)
        h.eqs(g.sample(z, f)[:3], g.sample(a, f)[:3], "the whole circle is sampled alike", tol=1e-4)
        return
    t1 = h.angle("t1", 0, 360)
    t2 = h.angle("t2", 0, 360)
    h.assume(h.And(t1 <= w, t2 <= w))
    if k == "wrap":
        h.assume(h.And(t2 <= t1 - 1, t1 <= 359, t2 >= 0.5))
        d = t2 + 360.0 - t1
    else:
        h.assume(t1 + 1 <= t2)
        if k == "circle":
            h.assume(t2 - t1 <= 359)
        d = t2 - t1
    z = g.segment(a, t1 / w, t2 / w)
    h.check(g.isarc(z), "a segment of an arc is an arc")
    h.eq(g.length(z), r * d * h.pi / 180, "length of the segment", tol=1e-4)
    x = t1 + d * f
    h.eqs(g.sample(z, f)[:3], on(h, c, r, s + w - x if rev else s + x), "the segment follows the arc", tol=1e-4)


@harness("all arcs and circles, forward and reversed; sampled at five parameters", each=[("%s/%s" % (n, k), dict(rev=d["rev"], k=k)) for n, d in REV for k in ("arc", "circle")])
def arc_reverse(h, rev, k):
    g = h.mod(G)
    if k == "arc":
        a, c, r, s, w = the_arc(h, 0, rev, lo=0.0)
    else:
        a = g.arc(P(h, "c"), h.real("r", 0.01, 1000), samplereverse=rev)
    l = g.line(P(h, "p"), P(h, "q"))
    b = g.reverseGeomList([a, l])
    h.check(len(b) == 2, "number of figures")
    h.eqs([x[:3] for x in b[0]], [l[1][:3], l[0][:3]], "the last figure comes first, reversed")
    for f in (0.0, 0.25, 0.5, 0.75, 1.0):
        h.eqs(g.sample(b[1], f)[:3], g.sample(a, 1.0 - f)[:3], "a reversed arc runs backwards", tol=1e-4)
    h.eq(g.length(b[1]), g.length(a), "same length")
    h.check(g.reverseGeomList(b)[0] == a, "reversing twice gives the arc back")
