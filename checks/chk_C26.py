"""Design constraints and coincidence: verdicts agree with the geometry."""
from symex.harness import harness
C = "yapcad.assembly.constraint"
M = "yapcad.assembly.mate"
D = "yapcad.assembly.datum"

# orthogonal frames (u, v, n) of integer vectors of the same length N
FR = {"xyz": ((1, 0, 0), (0, 1, 0), (0, 0, 1)), "y-x": ((0, 1, 0), (-1, 0, 0), (0, 0, 1)),
      "zx": ((0, 0, 1), (1, 0, 0), (0, 1, 0)), "g": ((2, 1, -2), (1, 2, 2), (2, -2, 1)),
      "p": ((3, 4, 0), (-4, 3, 0), (0, 0, 5)), "t": ((3, 4, 0), (0, 0, 5), (4, -3, 0)),
      "-z": ((0, 0, -5), (3, 4, 0), (4, -3, 0)), "-x": ((-5, 0, 0), (0, 3, 4), (0, -4, 3)),
      "-y": ((0, -1, 0), (1, 0, 0), (0, 0, 1))}
N = {"g": 3, "p": 5, "t": 5, "-z": 5, "-x": 5}


def tilt(h, fr, w, length):
    """vector at angle w from the first frame vector"""
    u, v, _ = FR[fr]
    return [length * (h.cosd(w) * u[j] + h.sind(w) * v[j]) for j in range(3)]


def datum(h, kind, o, d):
    m = h.mod(D)
    T = m.DatumType
    if kind == "axis":
        return m.Datum("d", T.AXIS, origin=list(o), direction=list(d))
    if kind == "plane":
        return m.Datum("d", T.PLANE, origin=list(o), normal=list(d))
    if kind == "circle":
        return m.Datum("d", T.CIRCLE, origin=list(o), normal=list(d), radius=5.0)
    return m.Datum("d", T.POINT, origin=list(o))


def con(h, t, **k):
    m = h.mod(C)
    return m.Constraint(name="c", constraint_type=getattr(m.ConstraintType, t), part="p", datum="d", **k)


def org(h, p="o"):
    return [h.real(p + c, -500, 500) for c in "xyz"]


def verdict(h, got, want_in, want_out, lab):
    if bool(got):
        h.check(h.Not(want_out), lab + ": passed only within tolerance")
    else:
        h.check(h.Not(want_in), lab + ": failed only outside tolerance")


E = 1e-3


def dev(h, got, want, lab):
    h.check(h.And(got - want <= E, want - got <= E), lab)


FACE = {"xyz": "+x", "-x": "-X", "y-x": "+Y", "-y": "-y", "zx": "+z", "-z": "-Z"}


@harness("all origins, angles, lengths and tolerances; six directions", each=[(f, dict(fr=f)) for f in FACE])
def facing(h, fr):
    w = h.angle("w", 0, 180)
    tol = h.real("tol", 0.1, 170)
    d = datum(h, h.choice("kind", ["plane", "circle"]), org(h), tilt(h, fr, w, h.real("len", 0.01, 100)))
    r = con(h, "FACING", direction=FACE[fr], tolerance_deg=tol).evaluate(d)
    verdict(h, r.passed, w <= tol - E, w >= tol + E, "facing")
    dev(h, r.error_value, w, "error is the angle")


PP = [(f + ("" if k == "axis" else k), dict(fr=f, kind=k)) for f in ("xyz", "g", "t") for k in ("axis", "plane")]


@harness("all origins, angles, lengths and tolerances", each=PP)
def parallel(h, fr, kind):
    w = h.angle("w", 0, 180)
    tol = h.real("tol", 0.1, 89)
    al = h.real("axis_length", 0.01, 100)
    d = datum(h, kind, org(h), tilt(h, fr, w, h.real("len", 0.01, 100)))
    r = con(h, "PARALLEL_TO", axis=tuple(al * q for q in FR[fr][0]), tolerance_deg=tol).evaluate(d)
    verdict(h, r.passed, h.Or(w <= tol - E, w >= 180 - tol + E), h.And(w >= tol + E, w <= 180 - tol - E), "parallel")
    dev(h, r.error_value, w if w <= 90 else 180 - w, "error is the angle between the lines")


@harness("all origins, angles, lengths and tolerances", each=PP)
def perpendicular(h, fr, kind):
    w = h.angle("w", 0, 180)
    tol = h.real("tol", 0.1, 89)
    al = h.real("axis_length", 0.01, 100)
    d = datum(h, kind, org(h), tilt(h, fr, w, h.real("len", 0.01, 100)))
    r = con(h, "PERPENDICULAR_TO", axis=tuple(al * q for q in FR[fr][0]), tolerance_deg=tol).evaluate(d)
    verdict(h, r.passed, h.And(w <= 90 + tol - E, w >= 90 - tol + E), h.Or(w >= 90 + tol + E, w <= 90 - tol - E), "perpendicular")
    dev(h, r.error_value, abs(w - 90), "error is the angle from square")


TAN = [("%s%s" % (f, k), dict(fr=f, kind=k)) for f in ("xyz", "y-x", "p") for k in ("axis", "plane")]


def radial(h, fr):
    """centre, and a point at any radius and height in the direction of the first frame vector"""
    c = org(h, "c")
    R, H = h.real("R", 0.01, 500), h.real("H", -500, 500)
    return c, [c[0] + R * FR[fr][0][0], c[1] + R * FR[fr][0][1], c[2] + H]


@harness("all centres, radii, heights, angles and tolerances; any rise of the direction", each=TAN)
def tangent(h, fr, kind):
    c, o = radial(h, fr)
    w = h.angle("w", 0, 180)
    tol = h.real("tol", 0.1, 89)
    v = tilt(h, fr, w, h.real("len", 0.01, 100))
    v[2] = h.real("rise", -100, 100)
    r = con(h, "TANGENT_TO_CIRCLE", center=tuple(c), radius=h.real("radius", 0.1, 500), tolerance_deg=tol).evaluate(datum(h, kind, o, v))
    verdict(h, r.passed, h.And(w <= 90 + tol - E, w >= 90 - tol + E), h.Or(w >= 90 + tol + E, w <= 90 - tol - E), "tangent")
    dev(h, r.error_value, abs(w - 90), "error is the angle from square")
    b = h.mod(C).is_tangent_to_circle(tuple(o), tuple(v), tuple(c), 1.0, tol)
    h.check(bool(b) == bool(r.passed), "the helper agrees")


@harness("all centres, radii, heights, angles and tolerances", each=[(f + "_" + d, dict(fr=f, dr=d)) for f in ("xyz", "y-x", "p", "t") for d in ("inward", "outward")])
def facing_radially(h, fr, dr):
    c, o = radial(h, fr)
    w = h.angle("w", 0, 180)
    tol = h.angle("tol", 1, 89)
    v = tilt(h, fr, w, h.real("len", 0.01, 100))
    r = con(h, "RADIAL_FROM_CENTER", center=tuple(c), direction=dr, tolerance_deg=tol).evaluate(datum(h, h.choice("kind", ["plane", "axis"]), o, v))
    ct, co = h.cosd(tol), h.cosd(w) * (1 if dr == "outward" else -1)
    verdict(h, r.passed, co >= ct + 1e-9, co <= ct - 1e-9, dr)
    t = w if dr == "outward" else 180 - w
    if r.passed:
        h.check(r.error_value == 0, "no error within the tolerance")
    else:
        dev(h, r.error_value, t, "error is the angle from the stated direction")
    b = h.mod(C).is_radial_from_center(tuple(o), tuple(v), tuple(c), dr, tol)
    h.check(bool(b) == bool(r.passed), "the helper agrees")


@harness("all centres, points, radii and tolerances")
def at_radius(h):
    c, o = org(h, "c"), org(h)
    R, tol = h.real("radius", 0.1, 500), h.real("tol", 0.001, 50)
    r = con(h, "AT_RADIUS", center=tuple(c), radius=R, tolerance_mm=tol).evaluate(datum(h, "point", o, None))
    q = (o[0] - c[0]) * (o[0] - c[0]) + (o[1] - c[1]) * (o[1] - c[1])
    lo, hi = R - tol, R + tol
    e = 1e-6
    verdict(h, r.passed, h.And(q <= (hi - e) * (hi - e), h.Or(lo <= 0, q >= (lo + e) * (lo + e))),
            h.Or(q >= (hi + e) * (hi + e), h.And(lo >= e, q <= (lo - e) * (lo - e))), "at radius")
    d = h.sqrt(q)
    dev(h, r.error_value, abs(d - R), "error is the distance from the cylinder")


@harness("constraints without the data they need")
def incomplete(h):
    d = datum(h, "point", org(h), None)
    ax = datum(h, "axis", org(h), [0.0, 0.0, 1.0])
    t = h.choice("t", ["FACING", "TANGENT_TO_CIRCLE", "RADIAL_FROM_CENTER", "PARALLEL_TO", "PERPENDICULAR_TO", "AT_RADIUS", "CUSTOM", "MIN_DISTANCE"])
    h.check(not con(h, t).evaluate(d).passed, "not passed without data")
    h.check(not con(h, t).evaluate(ax).passed, "not passed without data")
    if t in ("TANGENT_TO_CIRCLE", "RADIAL_FROM_CENTER"):
        c = org(h, "c")
        ok = con(h, t, center=tuple(c), radius=3.0, direction="outward").evaluate(d)
        h.check(not ok.passed, "a point has no direction")


# coincidence of datums
def offset(h, fr, a, b, c):
    u, v, n = FR[fr]
    k = float(N.get(fr, 1))
    return [(a * u[j] + b * v[j] + c * n[j]) / k for j in range(3)]


def between(x, lo, hi, h):
    return h.And(x >= lo, x <= hi)


@harness("all positions and tolerances")
def coincident_points(h):
    m = h.mod(M)
    a, b = org(h, "a"), org(h, "b")
    tol = h.real("tol", 0.001, 50)
    r = m.evaluate_coincident(datum(h, "point", a, None), datum(h, "point", b, None), tol, 1.0)
    q = sum((a[j] - b[j]) * (a[j] - b[j]) for j in range(3))
    verdict(h, r.satisfied, q <= (tol * (1 - 1e-6)) * (tol * (1 - 1e-6)), q >= (tol * (1 + 1e-6)) * (tol * (1 + 1e-6)), "points")


@harness("all positions and tolerances", each=[("%s%d" % (f, s), dict(fr=f, s=s)) for f in ("xyz", "g", "zx") for s in (0, 1)])
def coincident_point_plane(h, fr, s):
    m = h.mod(M)
    a = org(h, "a")
    x, y, z = h.real("x", -100, 100), h.real("y", -100, 100), h.real("z", -100, 100)
    tol = h.real("tol", 0.001, 50)
    o = offset(h, fr, x, y, z)
    b = [a[j] + o[j] for j in range(3)]
    n = h.real("len", 0.01, 100)
    P, Q = datum(h, "plane", a, [n * k for k in FR[fr][2]]), datum(h, "point", b, None)
    r = m.evaluate_coincident(*((P, Q) if s else (Q, P)), tolerance_mm=tol)
    verdict(h, r.satisfied, between(z, -tol + 1e-6, tol - 1e-6, h), h.Or(z >= tol + 1e-6, z <= -tol - 1e-6), "point on plane")


@harness("all offsets, angles and tolerances", each=[("%s_%s" % (f, k), dict(fr=f, kind=k)) for f in ("xyz", "g") for k in ("plane", "axis", "circle")])
def coincident_directed(h, fr, kind):
    m = h.mod(M)
    a = org(h, "a")
    x, y, z = h.real("x", -100, 100), h.real("y", -100, 100), h.real("z", -100, 100)
    tol, td = h.real("tol", 0.01, 50), h.real("tol_deg", 0.1, 89)
    u, v, n = FR[fr]
    w = h.angle("w", 0, 180)
    # the first datum looks along n, the second is tilted by w towards u
    al = h.real("len_a", 0.01, 100)
    A = datum(h, kind, a, [al * q for q in n])
    o = offset(h, fr, x, y, z)
    B = datum(h, kind, [a[j] + o[j] for j in range(3)], [h.cosd(w) * n[j] + h.sind(w) * u[j] for j in range(3)])
    r = m.evaluate_coincident(A, B, tol, td)
    ain, aout = h.Or(w <= td - E, w >= 180 - td + E), h.And(w >= td + E, w <= 180 - td - E)
    if kind == "plane":
        din, dout = between(z, -tol + 1e-6, tol - 1e-6, h), h.Or(z >= tol + 1e-6, z <= -tol - 1e-6)
    else:
        q = x * x + y * y + (z * z if kind == "circle" else 0.0)
        din, dout = q <= (tol - 1e-6) * (tol - 1e-6), q >= (tol + 1e-6) * (tol + 1e-6)
    verdict(h, r.satisfied, h.And(ain, din), h.Or(aout, dout), kind)


@harness("all limits and states")
def mate_limits(h):
    m = h.mod(M)
    lo, hi, vm, em = (h.real(k, -100, 100) if k in "lohi" else h.real(k, 0, 100) for k in ("lo", "hi", "vm", "em"))
    p, v, e = h.real("p"), h.real("v"), h.real("e")
    vl, el = h.real("vl", -100, 100), h.real("el", -100, 100)
    which = h.choice("which", ["both", "low", "high", "none"])
    lows = h.choice("lows", [False, True])
    L = m.MateLimits(min_value=lo if which in ("both", "low") else None, max_value=hi if which in ("both", "high") else None, max_velocity=vm, max_effort=em, **(dict(min_velocity=vl, min_effort=el) if lows else {}))
    r = m.Mate("m", m.MateType.REVOLUTE, "a", "x", "b", "y", limits=L).evaluate(p, v, e)
    bl = which in ("both", "low") and bool(p < lo)
    bh = which in ("both", "high") and bool(p > hi)
    h.check(bool(r["satisfied"]) == (not bl and not bh), "satisfied within the limits")
    h.eq(r["error"], (lo - p if bl else 0.0) + (p - hi if bh else 0.0), "error is the overshoot")
    bv = bool(h.Or(v > vm, v < -vm))
    be = bool(h.Or(e > em, e < -em))
    h.check(len(r["limit_violations"]) == bl + bh + bv + be + (lows and bool(v < vl)) + (lows and bool(e < el)), "each violated limit listed")


@harness("all ratios, offsets, pitches and positions", each=[(t, dict(t=t)) for t in ("GEAR", "RACK_PINION", "CAM", "SCREW", "REVOLUTE")])
def coupling(h, t):
    m = h.mod(M)
    k, o, p, x = h.real("ratio", -50, 50), h.real("offset", -50, 50), h.real("pitch", -50, 50), h.real("x", -100, 100)
    rev, pitched = h.choice("reverse", [False, True]), h.choice("pitched", [False, True])
    mt = m.Mate("m", m.MateType[t], "a", "x", "b", "y", coupling_ratio=k, coupling_offset=o, coupling_reverse=rev, coupling_pitch=p if pitched else None)
    h.check(mt.is_coupled() == (t != "REVOLUTE"), "coupled types")
    if t == "REVOLUTE":
        try:
            mt.compute_coupled_motion(x)
            h.check(False, "refused")
        except ValueError:
            pass
        return
    r = p / (2 * h.pi) if (pitched and t == "SCREW") else k
    h.eq(mt.compute_coupled_motion(x), (r * x + o) * (-1 if rev else 1), "driven position")
    q = m.Mate.from_dict(mt.to_dict())
    h.eq(q.compute_coupled_motion(x), mt.compute_coupled_motion(x), "saved and reloaded")


@harness("all circles; two to six holes", each=[(str(n), dict(n=n)) for n in (2, 4, 6)])
def bolt_circle(h, n):
    m, d = h.mod(M), h.mod(D)
    a = org(h, "a")
    ra, rb, tol = h.real("ra", 0.1, 100), h.real("rb", 0.1, 100), h.real("tol", 0.01, 10)
    T = d.DatumType.CIRCLE
    z = h.real("z", -20, 20)
    A = d.Datum("a", T, origin=list(a), normal=[0.0, 0.0, 2.0], radius=ra)
    B = d.Datum("b", T, origin=[a[0], a[1], a[2] + z], normal=[0.0, 0.0, -1.0], radius=rb)
    r = m.check_bolt_circle_alignment(A, B, n, tol)
    q = (ra - rb) * (ra - rb) + z * z
    zi, ri = between(z, -tol, tol, h), between(ra - rb, -tol, tol, h)
    verdict(h, r.satisfied, q <= (tol - 1e-6) * (tol - 1e-6), q >= (tol + 1e-6) * (tol + 1e-6), "holes meet")
