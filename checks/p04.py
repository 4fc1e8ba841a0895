"""P04 coordinate transformations, kinematic chains and trajectories."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.core import Transformation, Direction, Transformable
from hermespy.core.transformation import TransformableBase
from hermespy.simulation.animation import LinearTrajectory, StaticTrajectory, BITrajectoryB

check = Check("P04", "Coordinate frames compose, invert and stay up to date along kinematic chains")

PI = np.pi
angle = st.one_of(floats(-PI, PI), st.sampled_from([0.0, PI / 2, -PI / 2, PI, -PI, PI / 4, 1e-9, PI / 2 - 1e-9, PI / 2 - 1e-7, -PI / 2 + 1e-8, PI / 2 - 1e-5]))
coord = st.one_of(floats(-1e3, 1e3), st.sampled_from([0.0, 1.0, -1.0, 1e-6]))
vec = st.lists(coord, min_size=3, max_size=3)
rpy = st.lists(angle, min_size=3, max_size=3)
unitq = seeds


def Rx(a):
    return np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])


def Ry(a):
    return np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])


def Rz(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])


def Mref(rpy, pos):
    m = np.eye(4)
    m[:3, :3] = Rz(rpy[2]) @ Ry(rpy[1]) @ Rx(rpy[0])
    m[:3, 3] = pos
    return m


def T(rpy, pos):
    return Transformation.From_RPY(np.array(rpy, float), np.array(pos, float))


def nd(x):
    return np.asarray(x).view(np.ndarray)


def quat(seed, special):
    g = np.random.default_rng(seed)
    q = g.standard_normal(4)
    if special == 1:
        q[g.integers(0, 4)] = 0.0
    if special == 2:  # rotations by pi: zero scalar part
        q[0] = 0.0
    if special == 3:
        k = g.integers(0, 4)
        q = np.eye(4)[k] + 1e-9 * q
    if special == 4:
        q[0] = 1e-8
    return q / np.linalg.norm(q)


def qmat(q):
    w, x, y, z = q
    # rotation of the basis vectors by q v q*
    def mul(a, b):
        return np.array([
            a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
            a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
            a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
        ])
    conj = np.array([w, -x, -y, -z])
    return np.stack([mul(mul(q, np.r_[0.0, e]), conj)[1:] for e in np.eye(3)], axis=1)


@check.facet(
    "rotation",
    R(a=rpy, p=vec, q=seeds, special=st.integers(0, 4), qs=logfloats(0.1, 10.0), b=rpy, pb=vec),
    quick=1500, thorough=60000, shards=2,
    rule="rotation about at least two axes",
)
def rotation(c, r):
    r.nontrivial(sum(abs(x) > 1e-6 for x in c["a"]) >= 2)
    t = T(c["a"], c["p"])
    M = Mref(c["a"], c["p"])
    r.close(nd(t), M, "roll, pitch, yaw: rotation about x, then y, then z", rtol=1e-12)
    r.close(nd(t.translation), np.array(c["p"]), "translation")
    # Round trip over Euler angles reproduces the rotation, even at gimbal lock
    e = nd(t.rotation_rpy)
    r.check(np.all(np.isfinite(e)) and np.all(np.abs(e) <= PI + 1e-9) and abs(e[1]) <= PI / 2 + 1e-9, f"principal Euler angles {e}")
    r.close(Mref(e, c["p"])[:3, :3], M[:3, :3], "Euler angles represent the rotation", rtol=0, atol=1e-7)
    if abs(c["a"][1]) < PI / 2 - 1e-3 and max(abs(c["a"][0]), abs(c["a"][2])) < PI - 1e-6:
        r.close(e, np.array(c["a"]), "Euler angle round trip", rtol=0, atol=1e-9)
    # Quaternions
    q = quat(c["q"], c["special"])
    r.cls(f"quaternion-class-{c['special']}")
    tq = Transformation.From_Quaternion(c["qs"] * q, np.array(c["p"], float))
    r.close(nd(tq)[:3, :3], qmat(q), "rotation by a quaternion", rtol=0, atol=1e-9)
    r.close(nd(tq)[:3, 3], np.array(c["p"], float), "position of a quaternion pose")
    qq = nd(tq.rotation_quaternion)
    r.close(np.asarray(np.linalg.norm(qq)), np.asarray(1.0), "unit quaternion", rtol=1e-7)
    r.close(qmat(qq), qmat(q), "quaternion round trip", rtol=0, atol=1e-7)
    t2 = t.copy()
    t2.rotation_quaternion = nd(tq.rotation_quaternion)
    r.close(nd(t2)[:3, :3], qmat(q), "rotation set by quaternion", rtol=0, atol=1e-7)
    r.close(nd(t2)[:3, 3], np.array(c["p"], float), "setting the rotation retains the translation")
    t3 = tq.copy()
    t3.rotation_rpy = np.array(c["a"])
    r.close(nd(t3)[:3, :3], M[:3, :3], "rotation set by Euler angles", rtol=0, atol=1e-12)
    t3.translation = np.array(c["pb"])
    r.close(nd(t3), Mref(c["a"], c["pb"]), "translation set", rtol=1e-12)
    # Composition and inversion
    tb = T(c["b"], c["pb"])
    comp = nd(t @ tb)
    r.close(comp, M @ Mref(c["b"], c["pb"]), "composition", rtol=1e-12)
    r.close(nd(t.invert()) @ M, np.eye(4), "inversion", rtol=0, atol=1e-7)
    r.check(isinstance(t.invert(), Transformation), "inverse is a transformation")
    # Positions and directions
    p = np.array(c["pb"])
    r.close(nd(t.transform_position(p)), M[:3, :3] @ p + M[:3, 3], "transformed position", rtol=1e-12)
    r.close(nd(t.invert().transform_position(t.transform_position(p))), p, "position round trip", rtol=0, atol=1e-7)
    r.close(nd(t.rotate_direction(p)), M[:3, :3] @ p, "rotated direction", rtol=1e-12)
    if np.linalg.norm(p) > 1e-9:
        u = p / np.linalg.norm(p)
        d = t.transform_direction(p, normalize=True)
        r.close(nd(d), M[:3, :3] @ u, "normalised transformed direction", rtol=0, atol=1e-9)
        ud = Direction.From_Cartesian(p, True)
        r.close(nd(ud), u, "normalised direction", rtol=0, atol=1e-12)
        az, ze = ud.to_spherical()
        r.check(-PI <= az <= PI and 0 <= ze <= PI, f"spherical coordinates {az} {ze}")
        r.close(nd(Direction.From_Spherical(az, ze)), u, "direction over spherical coordinates", rtol=0, atol=2e-8)
    az, ze = c["a"][0], abs(c["a"][1])
    d = Direction.From_Spherical(az, ze)
    r.close(nd(d), np.array([np.sin(ze) * np.cos(az), np.sin(ze) * np.sin(az), np.cos(ze)]), "direction of azimuth and zenith", rtol=0, atol=1e-12)
    a2, z2 = d.to_spherical()
    r.check(np.isfinite(a2) and np.isfinite(z2), "spherical coordinates are finite")
    r.close(nd(Direction.From_Spherical(a2, z2)), nd(d), "spherical round trip", rtol=0, atol=2e-8)
    for k in (1, 2):
        r.close(nd(Transformation.From_Translation(np.array(c["p"][:k])))[:3, 3], np.r_[c["p"][:k], np.zeros(3 - k)], "low-dimensional translation")


@check.facet(
    "lookat",
    R(a=rpy, p=vec, target=vec, up=st.one_of(vec, st.sampled_from([[0, 1, 0], [0, 0, 1], [1, 0, 0]])), along=st.sampled_from(["free", "up", "down", "same"]), d=logfloats(0.1, 100.0), ints=st.booleans()),
    quick=600, thorough=20000,
    rule="the target is away from the up axis",
)
def lookat(c, r):
    up = np.array(c["up"], float)
    if np.linalg.norm(up) < 1e-3:
        up = np.array([0.0, 1.0, 0.0])
    pos = np.array(c["p"], float)
    target = np.array(c["target"], float)
    if c["along"] == "up":
        target = pos + c["d"] * up / np.linalg.norm(up)
    elif c["along"] == "down":
        target = pos - c["d"] * up / np.linalg.norm(up)
    elif c["along"] == "same":
        target = pos.copy()
    r.cls(c["along"])
    t = T(c["a"], c["p"])
    before = nd(t).copy()
    kept_up, kept_target = up.copy(), target.copy()
    out = t.lookat(target, up)
    r.equal(up, kept_up, "the up vector is not altered")
    r.equal(target, kept_target, "the target is not altered")
    r.check(out is t, "lookat modifies and returns the transformation")
    M = nd(t)
    r.close(M[:3, 3], pos, "looking somewhere does not move")
    rot = M[:3, :3]
    r.close(rot.T @ rot, np.eye(3), "a rotation", rtol=0, atol=1e-6)
    r.close(np.asarray(np.linalg.det(rot)), np.asarray(1.0), "a proper rotation", rtol=0, atol=1e-6)
    r.equal(M[3], np.array([0, 0, 0, 1.0]), "affine")
    dist = np.linalg.norm(target - pos)
    if dist == 0:
        r.close(rot, before[:3, :3], "looking at itself keeps the orientation")
        return
    if dist > 1e-3:
        f = (target - pos) / dist
        r.close(rot[:, 2], f, "the z-axis points towards the target", rtol=0, atol=1e-6)
        w = up / np.linalg.norm(up)
        if np.linalg.norm(np.cross(w, f)) > 1e-4:
            r.nontrivial()
            r.check(abs(rot[:, 0] @ w) < 1e-6, "the x-axis is level")
            r.check(rot[:, 1] @ w > 0, "the y-axis points up")


ops = st.lists(
    st.one_of(
        st.tuples(st.just("pose"), st.integers(0, 4), rpy, vec),
        st.tuples(st.just("position"), st.integers(0, 4), st.lists(coord, min_size=1, max_size=3)),
        st.tuples(st.just("orientation"), st.integers(0, 4), rpy),
        st.tuples(st.just("base"), st.integers(0, 4), st.integers(-1, 5)),
        st.tuples(st.just("link"), st.integers(0, 4), st.integers(-1, 5)),
        st.tuples(st.just("unlink"), st.integers(0, 4)),
        st.tuples(st.just("lookat"), st.integers(0, 4), vec),
        st.tuples(st.just("read"), st.integers(0, 4)),
    ),
    min_size=3,
    max_size=14,
)


@check.facet(
    "chain",
    R(ops=ops, init=seeds, point=vec),
    quick=1200, thorough=60000, shards=2,
    rule="a chain of at least two links is modified after its coordinates were read",
)
def chain(c, r):
    """Histories on five frames and one fixed base against a dictionary model."""
    g = np.random.default_rng(c["init"])
    fixed = TransformableBase()
    frames, pose, base = [], [], []
    for k in range(5):
        a, p = g.uniform(-PI, PI, 3), g.uniform(-10, 10, 3)
        frames.append(Transformable(T(a, p)) if k else Transformable())
        pose.append(Mref(a, p) if k else np.eye(4))
        base.append(None)

    for k in range(1, 5):
        if g.random() < 0.8:
            base[k] = int(g.integers(0, k))
            frames[k].set_base(frames[base[k]])
    if g.random() < 0.5:
        base[0] = 5
        fixed.add_link(frames[0])

    def glob(k):
        if base[k] is None or base[k] == 5:
            return pose[k]
        return glob(base[k]) @ pose[k]

    def ancestors(k):
        out = set()
        while k is not None and k != 5:
            out.add(k)
            k = base[k]
        return out

    def depth(k):
        return len(ancestors(k))

    def verify(k):
        G = glob(k)
        sc = max(1.0, np.abs(G).max())
        f = frames[k]
        r.close(nd(f.forwards_transformation), G, f"global transformation of frame {k}", rtol=1e-9, scale=sc)
        r.close(nd(f.backwards_transformation) @ G, np.eye(4), "backwards transformation inverts", rtol=0, atol=1e-6 * sc)
        r.close(nd(f.global_position), G[:3, 3], "global position", rtol=1e-9, scale=sc)
        r.close(Mref(nd(f.global_orientation), [0, 0, 0])[:3, :3], G[:3, :3], "global orientation", rtol=0, atol=1e-6)
        r.close(nd(f.pose), pose[k], "pose", rtol=1e-9, scale=sc)
        r.close(nd(f.position), pose[k][:3, 3], "position", rtol=1e-9, scale=sc)
        r.equal(f.is_base, base[k] is None, "is base")
        p = np.array(c["point"])
        o = frames[(k + 1) % 5]
        Go = glob((k + 1) % 5)
        s2 = max(sc, np.abs(Go).max(), np.abs(p).max())
        r.close(nd(f.to_local_coordinates(o)), np.linalg.inv(G) @ Go, "local coordinates of another frame", rtol=0, atol=1e-6 * s2)
        r.close(nd(f.to_local_coordinates(T([0, 0, 0], p))), np.linalg.inv(G) @ Mref([0, 0, 0], p), "local coordinates of a transformation", rtol=0, atol=1e-6 * s2)
        r.close(nd(f.to_local_coordinates(p)), np.linalg.inv(G) @ Mref([0, 0, 0], p), "local coordinates of a point", rtol=0, atol=1e-6 * s2)
        r.close(nd(f.to_local_coordinates(p, np.array([0.3, -0.2, 0.1]))), np.linalg.inv(G) @ Mref([0.3, -0.2, 0.1], p), "local coordinates of a posed point", rtol=0, atol=1e-6 * s2)

    read = set()
    for k in range(5):
        if g.random() < 0.5:
            verify(k)
            read.add(k)
    for op in c["ops"]:
        k = op[1]
        f = frames[k]
        if op[0] == "read":
            verify(k)
            read.add(k)
            continue
        affected = [j for j in range(5) if k in ancestors(j)]
        if any(j in read and depth(j) >= 2 for j in affected):
            r.nontrivial()
            r.cls("modified-" + op[0])
        if op[0] == "pose":
            v = T(op[2], op[3])
            f.pose = v
            pose[k] = Mref(op[2], op[3])
            v[:3, 3] += 1.0  # the frame owns its pose
        elif op[0] == "position":
            f.position = np.array(op[2], float)
            pose[k] = pose[k].copy()
            pose[k][:3, 3] = np.r_[op[2], np.zeros(3 - len(op[2]))]
        elif op[0] == "orientation":
            f.orientation = np.array(op[2], float)
            pose[k] = Mref(op[2], pose[k][:3, 3])
        elif op[0] in ("base", "link"):
            b = op[2]
            if b == -1:
                if op[0] == "link":
                    continue
                f.set_base(None)
                base[k] = None
            elif b == 5:
                f.set_base(fixed) if op[0] == "base" else fixed.add_link(f)
                base[k] = 5
            elif b != k and k not in ancestors(b):
                f.set_base(frames[b]) if op[0] == "base" else frames[b].add_link(f)
                base[k] = b
        elif op[0] == "unlink":
            if base[k] is not None:
                (fixed if base[k] == 5 else frames[base[k]]).remove_link(f)
                base[k] = None
            else:
                try:
                    fixed.remove_link(f)
                except RuntimeError:
                    pass
                else:
                    r.fail("removing a link which does not exist is refused")
                fixed.remove_link(f, force_removal=False)
        elif op[0] == "lookat":
            tgt = np.array(op[2], float)
            f.lookat(tgt)
            m = nd(T([0, 0, 0], pose[k][:3, 3]))
            d = tgt - pose[k][:3, 3]
            if np.linalg.norm(d) < 1e-3 or np.linalg.norm(np.cross(d / np.linalg.norm(d), [0, 1, 0])) < 1e-3:
                m = nd(f.pose)
            else:
                z = d / np.linalg.norm(d)
                x = np.cross([0, 1.0, 0], z)
                x /= np.linalg.norm(x)
                m[:3, 0], m[:3, 1], m[:3, 2] = x, np.cross(z, x), z
            pose[k] = m.copy()
        # frames linked to this one
        for j in range(5):
            linked = frames[j] in f.linked_frames
            r.equal(linked, base[j] == k, f"frame {j} registered as linked to {k}")
    for k in range(5):
        verify(k)


@check.facet(
    "trajectory",
    R(kind=st.sampled_from(["linear", "static", "b"]), a=rpy, p=vec, b=rpy, pb=vec, start=st.one_of(st.just(0.0), floats(0.0, 10.0)), duration=logfloats(1e-3, 100.0), ts=st.lists(floats(-0.2, 1.3), min_size=2, max_size=6), target=vec, look=st.booleans(), v=vec),
    quick=500, thorough=20000,
    rule="sampled strictly within the movement",
)
def trajectory(c, r):
    s, d = (c["start"] if c["kind"] == "linear" else 0.0), c["duration"]
    pa, pb = np.array(c["p"]), np.array(c["pb"])
    if c["kind"] == "linear":
        tr = LinearTrajectory(T(c["a"], pa), T(c["b"], pb), d, s) if s else LinearTrajectory(T(c["a"], pa), T(c["b"], pb), d)
        r.close(np.asarray(tr.max_timestamp), np.asarray(s + d), "end of the trajectory")
    elif c["kind"] == "static":
        tr = StaticTrajectory(T(c["a"], pa), np.array(c["v"]))
        r.check(tr.max_timestamp <= 0.0, "static trajectories do not end")
    else:
        tr = BITrajectoryB(c["duration"], d)
        h = c["duration"]
        pa, pb = np.array([0, h, 0]), np.array([0, 0.5 * h, 0])
        r.close(np.asarray(tr.max_timestamp), np.asarray(d), "end of the trajectory")
    r.cls(c["kind"])
    if c["look"]:
        tr.lookat(StaticTrajectory.From_Translation(np.array(c["target"])))
    for x in c["ts"]:
        t = s + x * d
        if t < 0:
            continue
        r.nontrivial(0 < x < 1)
        smp = tr.sample(t)
        r.equal(smp.timestamp, t, "time stamp of the sample")
        pos = nd(smp.pose)[:3, 3]
        r.close(nd(tr.sample_translation(t)), pos, "sampled position", rtol=1e-12)
        r.close(nd(tr.sample_velocity(t)), nd(smp.velocity), "sampled velocity", rtol=1e-12)
        sc = max(1.0, np.abs(pa).max(), np.abs(pb).max())
        rot = nd(smp.pose)[:3, :3]
        r.close(rot.T @ rot, np.eye(3), "orientation is a rotation", rtol=0, atol=1e-6)
        if c["kind"] == "linear":
            w = min(max(x, 0.0), 1.0)
            r.close(pos, pa + w * (pb - pa), "linear movement, constant beyond its ends", rtol=1e-9, scale=sc)
        elif c["kind"] == "static":
            r.close(pos, pa, "no movement")
            r.close(nd(smp.velocity), np.array(c["v"]), "constant velocity")
        else:
            legs = h * np.array([[0, 1, 0], [0, 0, 0], [0.5, 0, 0], [0.5, 0.5, 0], [0, 0.5, 0]])
            tm = np.array([0, 0.4, 0.6, 0.8, 1.0])
            ref = np.array([np.interp(x, tm, legs[:, k]) for k in range(3)])
            r.close(pos, ref, "path along the legs of the letter", rtol=1e-9, scale=h)
        # velocity is the derivative of the position, zero while resting
        if c["kind"] != "static":
            if 0 < x < 1 and (c["kind"] == "linear" or min(abs(x - k) for k in (0, 0.4, 0.6, 0.8, 1)) > 1e-3):
                e = 1e-4 * d
                if s <= t - e and t + e <= s + d:
                    num = (nd(tr.sample_translation(t + e)) - nd(tr.sample_translation(t - e))) / (2 * e)
                    vs = max(np.abs(pb - pa).max() / d, np.abs(num).max(), sc / d * 1e-3)
                    r.close(nd(smp.velocity), num, "velocity is the derivative of the position", rtol=1e-4, scale=vs)
            elif x < -1e-9 or x > 1 + 1e-9:
                r.close(nd(smp.velocity), np.zeros(3), "no velocity beyond the trajectory")
        if c["look"]:
            tgt = np.array(c["target"]) - pos
            if np.linalg.norm(tgt) > 1e-3:
                r.close(rot[:, 2], tgt / np.linalg.norm(tgt), "tracks its target", rtol=0, atol=1e-6)
        elif c["kind"] == "linear":
            Ra, Rb = Mref(c["a"], pa)[:3, :3], Mref(c["b"], pb)[:3, :3]
            w = min(max(x, 0.0), 1.0)
            tot = np.arccos(np.clip((np.trace(Ra.T @ Rb) - 1) / 2, -1, 1))
            part = np.arccos(np.clip((np.trace(Ra.T @ rot) - 1) / 2, -1, 1))
            rest = np.arccos(np.clip((np.trace(rot.T @ Rb) - 1) / 2, -1, 1))
            r.close(np.array([part, rest]), np.array([w * tot, (1 - w) * tot]), "uniform rotation between both orientations", rtol=0, atol=1e-6)
        elif c["kind"] == "static":
            r.close(rot, Mref(c["a"], pa)[:3, :3], "constant orientation", rtol=0, atol=1e-12)
    if c["look"]:
        tr.lookat_disable()
        off = nd(tr.sample(s).pose)[:3, :3]
        r.close(off, nd(tr.sample_orientation(s)), "tracking disabled", rtol=0, atol=1e-12)
        tr.lookat_enable()
        tgt = np.array(c["target"]) - nd(tr.sample_translation(s))
        if np.linalg.norm(tgt) > 1e-3:
            r.close(nd(tr.sample(s).pose)[:3, 2], tgt / np.linalg.norm(tgt), "tracking enabled", rtol=0, atol=1e-6)
