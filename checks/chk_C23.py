"""Rigid transforms: kinematics.Transform."""
from symex.harness import harness
T = "yapcad.kinematics.transform"


def rot(h, M, k, p=""):
    if k == "axis":
        ax = [h.real(p + "ax"), h.real(p + "ay"), h.real(p + "az")]
        h.assume(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2] >= 1e-6)
        return M.from_axis_angle(tuple(ax), h.angle(p + "t"))
    if k == "euler":
        return M.from_euler_xyz(h.angle(p + "rx"), h.angle(p + "ry"), h.angle(p + "rz"))
    return getattr(M, "from_rotation_" + k)(h.angle(p + "t"))


def rigid(h, M, k, p=""):
    return M.from_translation(h.real(p + "x"), h.real(p + "y"), h.real(p + "z")) @ rot(h, M, k, p)


def arb(h, M, p=""):
    """a rigid transform given by arbitrary orthonormal matrix entries (rows by Euler angles)"""
    return rigid(h, M, "euler", p)


def mats(h, A, B, lab):
    h.eqs(list(A.matrix), list(B.matrix), lab)


def pt(h, p):
    return (h.real(p + "x"), h.real(p + "y"), h.real(p + "z"))


KINDS = [(k, dict(k=k)) for k in ("x", "y", "z", "axis", "euler")]


@harness("all translations, all angles", each=KINDS)
def inverse(h, k):
    M = h.mod(T).Transform
    t = rigid(h, M, k)
    mats(h, t @ t.inverse(), M.identity(), "T@T^-1")
    mats(h, t.inverse() @ t, M.identity(), "T^-1@T")
    mats(h, t.inverse().inverse(), t, "double inverse")


@harness("all translations, angles and points", each=KINDS)
def isometry(h, k):
    """points keep their distances, vectors their dot products and handedness"""
    M = h.mod(T).Transform
    t = rigid(h, M, k)
    a, b = pt(h, "a"), pt(h, "b")
    ta, tb = t.transform_point(a), t.transform_point(b)
    d = sum((x - y) * (x - y) for x, y in zip(a, b))
    h.eq(sum((x - y) * (x - y) for x, y in zip(ta, tb)), d, "distance preserved", tol=1e-5)
    va, vb = t.transform_vector(a), t.transform_vector(b)
    h.eq(sum(x * y for x, y in zip(va, vb)), sum(x * y for x, y in zip(a, b)), "dot product preserved", tol=1e-5)
    # a vector is a difference of points
    h.eqs([x - y for x, y in zip(tb, ta)], t.transform_vector(tuple(y - x for x, y in zip(a, b))), "vector = point difference", tol=1e-5)
    R = t.rotation_matrix
    det = (R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0])
           + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]))
    h.eq(det, 1.0, "proper rotation")
    h.eqs(t.translation, t.transform_point((0.0, 0.0, 0.0)), "translation is the image of the origin")


@harness("all pairs and points", each=[("e", {})])
def compose(h):
    M = h.mod(T).Transform
    a, b = rigid(h, M, "axis", "a"), rigid(h, M, "euler", "b")
    p = pt(h, "p")
    h.eqs((a @ b).transform_point(p), a.transform_point(b.transform_point(p)), "compose = apply right then left", tol=1e-5)
    h.eqs((a @ b).transform_vector(p), a.transform_vector(b.transform_vector(p)), "compose vectors", tol=1e-5)
    mats(h, (a @ b).inverse(), b.inverse() @ a.inverse(), "inverse of composition")
    mats(h, a @ M.identity(), a, "right identity")
    mats(h, M.identity() @ a, a, "left identity")


@harness("all angles and points")
def elementary(h):
    """rotations are counterclockwise right-handed, translation adds"""
    M = h.mod(T).Transform
    t = h.angle("t")
    c, s = h.cosd(t), h.sind(t)
    x, y, z = p = pt(h, "p")
    h.eqs(M.from_rotation_x(t).transform_point(p), (x, c * y - s * z, s * y + c * z), "Rx")
    h.eqs(M.from_rotation_y(t).transform_point(p), (c * x + s * z, y, -s * x + c * z), "Ry")
    h.eqs(M.from_rotation_z(t).transform_point(p), (c * x - s * y, s * x + c * y, z), "Rz")
    q = pt(h, "q")
    h.eqs(M.from_translation(*q).transform_point(p), [u + v for u, v in zip(p, q)], "translation")
    h.eqs(M.from_translation(*q).transform_vector(p), p, "vectors ignore translation")
    mats(h, M.from_axis_angle((1, 0, 0), t), M.from_rotation_x(t), "axis x")
    mats(h, M.from_axis_angle((0, 1, 0), t), M.from_rotation_y(t), "axis y")
    mats(h, M.from_axis_angle((0, 0, 1), t), M.from_rotation_z(t), "axis z")


@harness("all axes (length >= 1e-3) and angles")
def axis_angle(h):
    M = h.mod(T).Transform
    ax = pt(h, "a")
    n2 = sum(u * u for u in ax)
    h.assume(n2 >= 1e-6)
    t = h.angle("t")
    R = M.from_axis_angle(ax, t)
    h.eqs(R.transform_vector(ax), ax, "axis is fixed")
    # a perpendicular vector turns by t:  R v = c v + s (a/|a|) x v
    w = pt(h, "w")
    v = (ax[1] * w[2] - ax[2] * w[1], ax[2] * w[0] - ax[0] * w[2], ax[0] * w[1] - ax[1] * w[0])
    n = h.sqrt(n2)
    axv = (ax[1] * v[2] - ax[2] * v[1], ax[2] * v[0] - ax[0] * v[2], ax[0] * v[1] - ax[1] * v[0])
    h.eqs(R.transform_vector(v), [h.cosd(t) * a + h.sind(t) * b / n for a, b in zip(v, axv)], "perpendicular turns by the angle", tol=1e-4)


@harness("all angles; cos(pitch) zero or above 1e-6")
def euler(h):
    M = h.mod(T).Transform
    rx, ry, rz = h.angle("rx"), h.angle("ry"), h.angle("rz")
    t = M.from_euler_xyz(rx, ry, rz)
    mats(h, t, M.from_rotation_x(rx) @ M.from_rotation_y(ry) @ M.from_rotation_z(rz), "intrinsic XYZ order")
    cy = h.cosd(ry)
    h.assume(h.Or(cy > 0.001, cy < -0.001))
    mats(h, M.from_euler_xyz(*t.to_euler_xyz()), t, "euler round trip")


@harness("pitch exactly +-90 degrees", each=[("+", dict(p=90)), ("-", dict(p=-90))])
def gimbal(h, p):
    M = h.mod(T).Transform
    t = M.from_euler_xyz(h.angle("rx"), p, h.angle("rz"))
    mats(h, M.from_euler_xyz(*t.to_euler_xyz()), t, "euler round trip at gimbal lock")


@harness("all positions and angles")
def position_rpy(h):
    M = h.mod(T).Transform
    x, y, z = pt(h, "q")
    r = (h.angle("rx"), h.angle("ry"), h.angle("rz"))
    t = M.from_position_rpy(x, y, z, *r)
    mats(h, t, M.from_translation(x, y, z) @ M.from_euler_xyz(*r), "position then rotation")


@harness("all rigid transforms")
def dicts(h):
    M = h.mod(T).Transform
    t = rigid(h, M, "z")
    d = t.to_dict()
    mats(h, M.from_dict(d), t, "matrix round trip")
    d2 = {"translation": d["translation"], "rotation_xyz": d["rotation_xyz"]}
    mats(h, M.from_dict(d2), t, "translation+rotation round trip")


@harness("all rigid transforms: operations leave their arguments alone")
def pure(h):
    M = h.mod(T).Transform
    a, b = rigid(h, M, "z", "a"), rigid(h, M, "x", "b")
    A, B = [list(r) for r in a.matrix], [list(r) for r in b.matrix]
    c = a @ b
    i = a.inverse()
    a.transform_point((1.0, 2.0, 3.0))
    r = a.rotation_matrix
    r[0, 0] = 77.0
    i.matrix[0, 3] = 55.0
    c.matrix[1, 3] = 55.0
    h.eqs([list(x) for x in a.matrix], A, "left operand unchanged")
    h.eqs([list(x) for x in b.matrix], B, "right operand unchanged")
