"""Kinematic chains: forward kinematics, joints and cache coherence."""
import itertools
from symex.harness import harness
K = "yapcad.kinematics"


def mats(h, A, B, lab):
    h.eqs(list(A.matrix), list(B.matrix), lab)


def tr(h, M, p):
    return M.from_translation(*[h.real(p + c, -1000, 1000) for c in "xyz"])


AX = {"x": (1.0, 0.0, 0.0), "y": (0.0, 1.0, 0.0), "z": (0.0, 0.0, 1.0), "s": (0.0, 3.0, 4.0), "g": (2.0, -1.0, -2.0), "m": (0.0, 0.0, -2.0)}
RT = ["fixed", "revolute", "prismatic", "cylindrical", "spherical"]


def motion(h, M, jt, ax, v):
    """reference: what a joint value means"""
    import math
    a = AX[ax]
    n = math.sqrt(sum(u * u for u in a))
    a = tuple(u / n for u in a)
    if jt in ("revolute", "cylindrical"):
        c, s = h.cosd(v), h.sind(v)
        x, y, z = a
        C = 1 - c
        return M.from_matrix([[c + x * x * C, x * y * C - z * s, x * z * C + y * s, 0.0],
                              [y * x * C + z * s, c + y * y * C, y * z * C - x * s, 0.0],
                              [z * x * C - y * s, z * y * C + x * s, c + z * z * C, 0.0],
                              [0.0, 0.0, 0.0, 1.0]])
    if jt == "prismatic":
        return M.from_translation(a[0] * v, a[1] * v, a[2] * v)
    return M.identity()


@harness("all base offsets and joint values, six axis directions of any length", each=[(j + a, dict(jt=j, ax=a)) for j in RT for a in AX])
def joint(h, jt, ax):
    k = h.mod(K)
    M = k.Transform
    sc = h.real("axis_length", 0.01, 100)
    base = tr(h, M, "b") @ M.from_rotation_y(h.angle("t"))
    v = h.angle("v", -720, 720)
    j = k.Joint("j", k.JointType(jt), base_transform=base, axis=tuple(q * sc for q in AX[ax]), value=v, min_limit=-1e9, max_limit=1e9)
    mats(h, j.get_transform(), base @ motion(h, M, jt, ax, v), "joint transform = base then motion")


@harness("all values and limits of a joint, fresh and reloaded")
def reloaded_limits(h):
    k = h.mod(K)
    lo, hi, v, w = h.real("lo"), h.real("hi"), h.real("v"), h.real("w")
    h.assume(lo <= hi)
    ch = k.KinematicChain("c")
    ch.add_part(k.KinematicPart(name="A", joint=k.Joint("j", k.JointType(h.choice("jt", RT)), axis=AX["g"], min_limit=lo, max_limit=hi)))
    ch.set_joint_value("A", v, clamp=h.choice("clamp", [True, False]))
    c2 = k.KinematicChain.from_dict(ch.to_dict(include_world_transforms=False))
    h.eq(c2.get_joint_value("A"), ch.get_joint_value("A"), "value survives")
    a, b = ch.parts["A"].joint, c2.parts["A"].joint
    h.eq(b.min_limit, lo, "lower limit survives")
    h.eq(b.max_limit, hi, "upper limit survives")
    h.eqs(list(b.axis), list(a.axis), "axis survives")
    ch.set_joint_value("A", w)
    c2.set_joint_value("A", w)
    h.eq(c2.get_joint_value("A"), ch.get_joint_value("A"), "the reloaded joint clamps alike")


@harness("all values and limits")
def limits(h):
    k = h.mod(K)
    lo, hi, v = h.real("lo"), h.real("hi"), h.real("v")
    h.assume(lo <= hi)
    ch = k.KinematicChain("c")
    ch.add_part(k.KinematicPart(name="A", joint=k.Joint("j", k.JointType.REVOLUTE, min_limit=lo, max_limit=hi)))
    ch.set_joint_value("A", v)
    g = ch.get_joint_value("A")
    h.check(h.And(g >= lo, g <= hi), "clamped value within limits")
    h.check(h.implies(h.And(v >= lo, v <= hi), g == v), "value inside limits is kept")
    h.check(h.implies(v > hi, g == hi), "above goes to the upper limit")
    h.check(h.implies(v < lo, g == lo), "below goes to the lower limit")
    ch.set_joint_value("A", v, clamp=False)
    h.eq(ch.get_joint_value("A"), v, "unclamped value kept")


# tree shapes: parent index of parts 1..n (0 = root)
TREES = {"chain": [None, 0, 1], "fork": [None, 0, 0], "two": [None, None, 1], "deep": [None, 0, 1, 2]}
JT = ["revolute", "prismatic", "cylindrical", "revolute"]
JA = ["z", "x", "y", "x"]


def build(h, k, shape, vals, framed):
    M = k.Transform
    ch = k.KinematicChain("c")
    ps = TREES[shape]
    for i, p in enumerate(ps):
        part = k.KinematicPart(name="P%d" % i, parent=None if p is None else "P%d" % p,
                               parent_frame="F" if (framed and p is not None) else "ORIGIN",
                               joint=k.Joint("j%d" % i, k.JointType(JT[i]), base_transform=M.from_translation(h.real("bx%d" % i), 0.0, h.real("bz%d" % i)),
                                             axis=AX[JA[i]], value=vals[i], min_limit=-1e9, max_limit=1e9))
        part.add_frame("F", M.from_translation(h.real("fx%d" % i), h.real("fy%d" % i), 0.0) @ M.from_rotation_z(90))
        ch.add_part(part)
    return ch


def oracle(h, k, shape, vals, framed, i):
    """world transform of part i, computed from scratch"""
    M = k.Transform
    p = TREES[shape][i]
    own = M.from_translation(h.real("bx%d" % i), 0.0, h.real("bz%d" % i)) @ motion(h, M, JT[i], JA[i], vals[i])
    if p is None:
        return own
    w = oracle(h, k, shape, vals, framed, p)
    if framed:
        w = w @ frame(h, M, p)
    return w @ own


def frame(h, M, i):
    return M.from_translation(h.real("fx%d" % i), h.real("fy%d" % i), 0.0) @ M.from_rotation_z(90)


def vname(h, i, n):
    return h.angle("v%d_%d" % (i, n), -720, 720)


SH = [(s + ("F" if f else ""), dict(shape=s, framed=f)) for s in TREES for f in (False, True)]


@harness("all joint values, offsets and frames; four tree shapes", each=SH)
def fk(h, shape, framed):
    """forward kinematics of every part and frame"""
    k = h.mod(K)
    n = len(TREES[shape])
    vals = [vname(h, i, 0) for i in range(n)]
    ch = build(h, k, shape, vals, framed)
    al = ch.get_all_world_transforms()
    h.check(sorted(al) == sorted("P%d" % i for i in range(n)), "every part is listed")
    for i in range(n):
        w = oracle(h, k, shape, vals, framed, i)
        mats(h, ch.get_world_transform("P%d" % i), w, "world transform P%d" % i)
        mats(h, al["P%d" % i], w, "listed world transform P%d" % i)
        mats(h, ch.get_world_transform("P%d" % i, "F"), w @ frame(h, k.Transform, i), "world transform of frame")
    a, b = oracle(h, k, shape, vals, framed, n - 1), oracle(h, k, shape, vals, framed, 0)
    rel = ch.get_relative_transform("P0", "P%d" % (n - 1))
    mats(h, b @ rel, a, "relative transform")
    rel = ch.get_relative_transform("P%d" % (n - 1), "P0", "F", "F")
    mats(h, a @ frame(h, k.Transform, n - 1) @ rel, b @ frame(h, k.Transform, 0), "relative transform of frames")


HIST = [(s + "%d%s" % (first, "F" if f else ""), dict(shape=s, framed=f, first=first, _tier="quick" if (not f or s == "deep") else "thorough"))
        for s in ("chain", "fork", "deep") for f in (False, True) for first in range(len(TREES[s]))]


@harness("all histories of 3 joint moves interleaved with queries; all values", each=HIST, weight=2)
def history(h, shape, framed, first):
    """after any interleaving of moves and queries, queries answer as if computed afresh"""
    k = h.mod(K)
    n = len(TREES[shape])
    vals = [vname(h, i, 0) for i in range(n)]
    ch = build(h, k, shape, vals, framed)
    for step in range(2):
        # query before the move (may fill caches): none, leaf, one part, or all
        q = h.choice("q%d" % step, [None, n - 1, 1, "all"])
        if q == "all":
            ch.get_all_world_transforms()
        elif q is not None:
            ch.get_world_transform("P%d" % q)
        m = first if step == 0 else h.choice("m%d" % step, list(range(n)))
        vals = list(vals)
        vals[m] = vname(h, m, step + 1)
        ch.set_joint_value("P%d" % m, vals[m])
    for i in range(n):
        mats(h, ch.get_world_transform("P%d" % i), oracle(h, k, shape, vals, framed, i), "fresh after history P%d" % i)


@harness("all values; parts added after queries")
def grow(h):
    k = h.mod(K)
    M = k.Transform
    ch = k.KinematicChain("c")
    v = [h.angle("v%d" % i) for i in range(3)]
    off = [tr(h, M, "o%d" % i) for i in range(3)]
    J = lambda i: k.Joint("j", k.JointType.REVOLUTE, base_transform=off[i], value=v[i], min_limit=-1e9, max_limit=1e9)
    ch.add_part(k.KinematicPart(name="A", joint=J(0)))
    ch.get_world_transform("A")
    ch.add_part(k.KinematicPart(name="B", parent="A", joint=J(1)))
    ch.get_all_world_transforms()
    ch.add_part(k.KinematicPart(name="C", parent="B", joint=J(2)))
    w = M.identity()
    for i, nme in enumerate("ABC"):
        w = w @ off[i] @ M.from_rotation_z(v[i])
        mats(h, ch.get_world_transform(nme), w, "world of " + nme)
    h.check(ch.get_chain_to_root("C") == ["C", "B", "A", ch.DATUM_NAME], "ancestors in order")
    h.check(sorted(ch.get_all_descendants("A")) == ["B", "C"], "descendants")
    for bad in (lambda: ch.add_part(k.KinematicPart(name="A")), lambda: ch.add_part(k.KinematicPart(name="Z", parent="nope"))):
        try:
            bad()
            h.check(False, "duplicate names and unknown parents are rejected")
        except ValueError:
            h.check(True, "duplicate names and unknown parents are rejected")


@harness("all values; every storage order of the parts", each=SH[:6])
def roundtrip(h, shape, framed):
    """dictionary round trip, whatever order the parts are stored in"""
    k = h.mod(K)
    n = len(TREES[shape])
    vals = [vname(h, i, 0) for i in range(n)]
    ch = build(h, k, shape, vals, framed)
    d = ch.to_dict(include_world_transforms=False)
    perms = list(itertools.permutations(sorted(d["parts"])))
    order = h.choice("perm", perms)
    d = dict(d, parts={nm: d["parts"][nm] for nm in order})
    c2 = k.KinematicChain.from_dict(d)
    h.check(sorted(c2.parts) == sorted(ch.parts), "same parts")
    for i in range(n):
        mats(h, c2.get_world_transform("P%d" % i), oracle(h, k, shape, vals, framed, i), "world transform survives")
        mats(h, c2.get_world_transform("P%d" % i, "F"), ch.get_world_transform("P%d" % i, "F"), "frame survives")
        a, b = ch.parts["P%d" % i], c2.parts["P%d" % i]
        h.check(a.parent == b.parent and a.parent_frame == b.parent_frame and a.joint.joint_type == b.joint.joint_type, "structure survives")
        h.eq(b.joint.min_limit, a.joint.min_limit, "limits survive")
        h.eq(b.joint.max_limit, a.joint.max_limit, "limits survive")
    m = h.choice("m", list(range(n)))
    nv = vname(h, m, 1)
    c2.set_joint_value("P%d" % m, nv)
    vals = list(vals)
    vals[m] = nv
    mats(h, c2.get_world_transform("P%d" % (n - 1)), oracle(h, k, shape, vals, framed, n - 1), "still articulates")
