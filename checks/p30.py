"""P30 radar channels."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, logfloats

from hermespy.core import Transformation, DenseSignal, SparseSignal, SignalBlock, AntennaMode
from hermespy.channel import (
    SingleTargetRadarChannel, MultiTargetRadarChannel, VirtualRadarTarget, PhysicalRadarTarget, FixedCrossSection,
)
from hermespy.channel.radar.multi import RadarCrossSectionModel
from hermespy.simulation import SimulatedDevice, SimulatedCustomArray, SimulatedIdealAntenna, SimulatedDipole, StaticTrajectory, LinearTrajectory
from checks.p14 import device, dev, C0, PI

check = Check("P30", "Radar channels echo signals at each target's delay, Doppler and cross section")

vec = st.lists(floats(-60, 60).map(lambda v: v if abs(v) > 1e-3 else 0.0), min_size=3, max_size=3)
vel = st.lists(floats(-200, 200), min_size=3, max_size=3)
target = R(pos=vec, vel=vel, rpy=st.lists(floats(-PI, PI), min_size=3, max_size=3), end=vec, moving=st.booleans(), static=st.booleans(),
           rcs=st.one_of(logfloats(1e-3, 1e3), st.just(0.0)), directive=st.booleans(), physical=st.booleans())
base = R(a=dev, b=dev, va=vel, vb=vel, mono=st.booleans(), fc=logfloats(1e8, 1e11), bw=logfloats(1e6, 1e9), seed=seeds, gain=logfloats(1e-2, 1e2),
         attenuate=st.booleans(), t=floats(0, 5), blocks=st.lists(st.tuples(st.integers(0, 20), st.integers(1, 25)), min_size=1, max_size=3))


class Directive(RadarCrossSectionModel):
    """a cross section depending on both directions in the target's own frame"""

    def __init__(self, s):
        self.s = s

    def get_cross_section(self, impinging_direction, emerging_direction):
        i, e = np.asarray(impinging_direction).view(np.ndarray).ravel(), np.asarray(emerging_direction).view(np.ndarray).ravel()
        return directive(self.s, i, e)

    def serialize(self, process):
        ...


def directive(s, i, e):
    return s * (2 + i[0]) * (2 - e[1]) * (1.5 + e[2] * i[2])


def link(c):
    a = device(c["a"], c["fc"], c["bw"])
    b = a if c["mono"] else device(c["b"], c["fc"], c["bw"])
    for d, v in ((a, c["va"]), (b, c["vb"])):
        if d is b and c["mono"]:
            continue
        d.trajectory = StaticTrajectory(d.trajectory.pose, np.array(v, float)) if hasattr(d.trajectory, "pose") else StaticTrajectory(d.pose, np.array(v, float))
    return a, b


def resp(d, tgt, fc, t, mode):
    return np.asarray(d.state(t).antennas.cartesian_array_response(fc, np.asarray(tgt, float), "global", mode))


def echo(a, b, fc, t, p, v, rcs, phase, att):
    """matrix, relative velocity and delay of the documented target echo"""
    sa, sb = a.state(t), b.state(t)
    da, db = p - np.asarray(sa.position), p - np.asarray(sb.position)
    ra, rb = np.linalg.norm(da), np.linalg.norm(db)
    amp = C0 * np.sqrt(rcs) / ((4 * PI) ** 1.5 * fc * ra * rb) if att else 1.0
    H = amp * np.exp(1j * phase) * resp(b, p, fc, t, AntennaMode.RX) @ resp(a, p, fc, t, AntennaMode.TX).T
    w = (v - np.asarray(sa.velocity)) @ da / ra + (v - np.asarray(sb.velocity)) @ db / rb
    return H, float(w), (ra + rb) / C0


def los(a, b, fc, t, att):
    sa, sb = a.state(t), b.state(t)
    d = np.asarray(sa.position) - np.asarray(sb.position)
    n = np.linalg.norm(d)
    H = (C0 / (4 * PI * fc * n) if att else 1.0) * resp(b, sa.position, fc, t, AntennaMode.RX) @ resp(a, sb.position, fc, t, AntennaMode.TX).T
    return H, float((np.asarray(sa.velocity) - np.asarray(sb.velocity)) @ d / n), n / C0


def judge(r, c, s, a, b, comps, what):
    fc, bw, t0 = c["fc"], c["bw"], c["t"]
    N, M = a.num_transmit_antennas, b.num_receive_antennas
    if any(min(d * bw % 1, -d * bw % 1) < 1e-6 for _, _, d in comps) or any(d * bw > 20000 for _, _, d in comps):
        return
    off, blocks, offs = 0, [], []
    for i, (gap, n) in enumerate(c["blocks"]):
        off += gap + (1 if i else 0)
        blocks.append(cmat(c["seed"] + i, N, n))
        offs.append(off)
        off += n
    x = np.zeros((N, off), complex)
    for B, o in zip(blocks, offs):
        x[:, o : o + B.shape[1]] = B
    tail = max([int(d * bw) for _, _, d in comps], default=0)
    t = t0 + np.arange(off) / bw
    want = np.zeros((M, off + tail), complex)
    for H, v, d in comps:
        k = int(d * bw)
        want[:, k : k + off] += np.sqrt(c["gain"]) * H @ (x * np.exp(2j * PI * fc * v / C0 * t))
    scale = np.max(np.abs(want), initial=1e-300)
    # phases accumulate rounding of t * doppler
    tol = 1e-7 + 1e-14 * max([abs(fc * v / C0) * t[-1] for _, v, _ in comps], default=0) * 10
    dense = DenseSignal.FromNDArray(x.copy(), bw, fc)
    sparse = SparseSignal([SignalBlock(N, B.shape[1], o, np.ascontiguousarray(B).tobytes()) for B, o in zip(blocks, offs)], bw, fc)
    for name, sig in (("dense", dense), ("sparse", sparse)):
        y = s.propagate(sig)
        got = np.asarray(y.to_dense()).view(np.ndarray)
        L = max(got.shape[1], want.shape[1])
        pad = lambda z: np.concatenate([z, np.zeros((M, L - z.shape[1]))], axis=1)
        r.close(pad(got), pad(want), f"{what}: propagated {name} signal", rtol=tol, scale=scale, atol=0)
        r.equal((y.sampling_rate, y.carrier_frequency), (bw, fc), f"{what}: parameters of the {name} signal")
        r.equal(np.asarray(sig.to_dense()).view(np.ndarray)[:, :off], x, "input unchanged")
    if tail < 400:
        ref = np.zeros((M, N, off, tail + 1), complex)
        for H, v, d in comps:
            ref[:, :, :, int(d * bw)] += np.sqrt(c["gain"]) * H[:, :, None] * np.exp(2j * PI * fc * v / C0 * t)
        for mt in (tail + 1, max(1, tail), tail + 4):
            G = np.asarray(s.state(off, mt).dense_state())
            L = max(G.shape[3], tail + 1, mt)
            p4 = lambda z: np.concatenate([z, np.zeros(z.shape[:3] + (L - z.shape[3],))], axis=3)
            r.close(p4(G)[..., :mt], p4(ref)[..., :mt], f"{what}: channel state", rtol=tol, scale=np.max(np.abs(ref), initial=1e-300), atol=0)
            r.check(not np.any(p4(G)[..., mt:]), "no taps beyond the requested number")


@check.facet("multi", R(base=base, targets=st.lists(target, min_size=0, max_size=4), interference=st.booleans(), dist=st.sampled_from([float("inf"), 5.0])), quick=250, thorough=8000, shards=2, rule="at least two moving targets or interference between moving devices")
def multi(case, r):
    c = case["base"]
    a, b = link(c)
    fc, bw, t = c["fc"], c["bw"], c["t"]
    ch = MultiTargetRadarChannel(case["interference"], case["dist"], c["attenuate"], c["gain"], seed=c["seed"])
    objs = []
    for q in case["targets"]:
        T0 = Transformation.From_RPY(np.array(q["rpy"]), np.array(q["pos"], float))
        if q["moving"]:
            T1 = Transformation.From_RPY(np.array(q["rpy"]), np.array(q["end"], float))
            tr = LinearTrajectory(T0, T1, 10.0)
            p = np.array(q["pos"], float) + (np.array(q["end"], float) - np.array(q["pos"], float)) * t / 10.0
            v = (np.array(q["end"], float) - np.array(q["pos"], float)) / 10.0
        else:
            tr = StaticTrajectory(T0, np.array(q["vel"], float))
            p, v = np.array(q["pos"], float), np.array(q["vel"], float)
        if min(np.linalg.norm(p - np.asarray(d.state(t).position)) for d in (a, b)) < 0.05:
            return
        cs = Directive(q["rcs"]) if q["directive"] else FixedCrossSection(q["rcs"])
        if q["physical"]:
            body = SimulatedDevice(pose=tr)
            o = ch.make_target(body, cs, static=q["static"])
        else:
            o = VirtualRadarTarget(cs, tr, static=q["static"])
            ch.add_target(o)
            ch.add_target(o)
        objs.append((o, p, v, q, T0))
    r.equal(set(ch.targets), {o[0] for o in objs}, "registered targets")
    sep = np.linalg.norm(np.asarray(a.state(t).position) - np.asarray(b.state(t).position))
    if 0 < sep < 0.05:
        return
    r.nontrivial(len(objs) > 1 or (case["interference"] and sep > 0))
    s = ch.realize().sample(a, b, t, fc, bw)
    expected_los = case["interference"] and sep > 0
    r.equal(len(s.paths), len(objs) + expected_los, "one path per target and interference")
    comps, static, param = [], [], []
    tp = [p for p in s.paths if p.ground_truth is not None]
    used = set()
    for o, p, v, q, T0 in objs:
        m = [x for x in tp if id(x) not in used and np.allclose(x.position, p, rtol=0, atol=1e-6) and x.static == q["static"] and np.allclose(x.velocity, v, atol=1e-6)]
        rot = np.asarray(T0).view(np.ndarray)[:3, :3]
        i = rot.T @ (p - np.asarray(a.state(t).position))
        e = rot.T @ (np.asarray(b.state(t).position) - p)
        rcs = directive(q["rcs"], i / np.linalg.norm(i), e / np.linalg.norm(e)) if q["directive"] else q["rcs"]
        m = [x for x in m if abs(x.cross_section - rcs) <= 1e-6 * (1 + rcs)]
        r.check(m, "target path with the target's position, velocity and cross section", (p, v, rcs))
        used.add(id(m[0]))
        r.check(0 <= m[0].reflection_phase <= 2 * PI, "reflection phase")
        comp = echo(a, b, fc, t, p, v, rcs, m[0].reflection_phase, c["attenuate"])
        r.close(m[0].propagation_delay(a.state(t), b.state(t)), comp[2], "propagation delay", rtol=1e-9, atol=0)
        r.close(m[0].relative_velocity(a.state(t), b.state(t)), comp[1], "relative velocity", rtol=1e-8, scale=300.0)
        comps.append(comp)
        param.append((p, v, rcs, m[0].reflection_phase))
        if q["static"]:
            static.append(comp)
    if expected_los:
        comp = los(a, b, fc, t, c["attenuate"])
        comps.append(comp)
        static.append(comp)
    judge(r, c, s, a, b, comps, "targets")
    judge(r, c, s.null_hypothesis(), a, b, static, "null hypothesis")
    if not c["mono"]:
        z = ch.realization.reciprocal_sample(s, b, a, t, fc, bw)
        back = [echo(b, a, fc, t, *q, c["attenuate"]) for q in param] + ([los(b, a, fc, t, c["attenuate"])] if expected_los else [])
        judge(r, c, z, b, a, back, "reciprocal link")
    if objs:
        try:
            o = VirtualRadarTarget(FixedCrossSection(1.0), StaticTrajectory(a.state(t).pose))
            ch.add_target(o)
            ch.realize().sample(a, b, t, fc, bw)
            bad = True
        except RuntimeError:
            bad = False
        r.check(not bad, "targets colliding with a device are refused")


span = lambda lo, hi: st.one_of(floats(lo, hi), st.tuples(floats(lo, hi), floats(lo, hi)).map(sorted))


@check.facet("single", R(base=base, rng=span(0.5, 100), rcs=logfloats(1e-3, 1e3), az=span(-PI, PI), ze=span(0, PI), v=st.one_of(span(-200, 200), vel.map(lambda v: ["vec"] + v)), exists=st.booleans(), dist=st.sampled_from([float("inf"), 5.0])), quick=250, thorough=8000, rule="moving target with random parameters")
def single(case, r):
    c = case["base"]
    a, b = link(c)
    fc, bw, t = c["fc"], c["bw"], c["t"]
    tup = lambda x: tuple(x) if isinstance(x, (list, tuple)) else x
    v = case["v"]
    vv = np.array(v[1:], float) if isinstance(v, list) and v[0] == "vec" else tup(v)
    kw = dict(target_azimuth=tup(case["az"]), target_zenith=tup(case["ze"]), target_exists=case["exists"], velocity=vv, decorrelation_distance=case["dist"], attenuate=c["attenuate"], gain=c["gain"])
    ch = SingleTargetRadarChannel(tup(case["rng"]), case["rcs"], seed=c["seed"], **kw)
    s = ch.realize().sample(a, b, t, fc, bw)
    s2 = SingleTargetRadarChannel(tup(case["rng"]), case["rcs"], seed=c["seed"], **kw).realize().sample(a, b, t, fc, bw)
    r.equal(len(s.paths), int(case["exists"]), "a path exists if the target exists")
    if not case["exists"]:
        judge(r, c, s, a, b, [], "no target")
        return
    r.nontrivial(isinstance(case["rng"], (list, tuple)))
    p = s.paths[0]
    r.equal((list(p.position), p.reflection_phase), (list(s2.paths[0].position), s2.paths[0].reflection_phase), "equal seeds")
    d = np.asarray(p.position) - np.asarray(a.state(t).position)
    n = np.linalg.norm(d)
    u = d / n
    lohi = lambda x: (x[0], x[1]) if isinstance(x, (list, tuple)) else (x, x)
    lo, hi = lohi(case["rng"])
    r.check(lo * (1 - 1e-9) - 1e-9 <= n <= hi * (1 + 1e-9) + 1e-9, "target range from the radar sensor", (lo, n, hi))
    ze = np.arccos(np.clip(u[2], -1, 1))
    lo, hi = lohi(case["ze"])
    r.check(lo - 1e-6 <= ze <= hi + 1e-6, "target zenith", (lo, ze, hi))
    if np.sin(ze) > 1e-4:
        lo, hi = lohi(case["az"])
        az = np.arctan2(u[1], u[0])
        r.check(any(lo - 1e-6 <= az + k <= hi + 1e-6 for k in (-2 * PI, 0, 2 * PI)), "target azimuth", (lo, az, hi))
    w = np.asarray(p.velocity, float)
    if isinstance(vv, np.ndarray):
        r.close(w, vv, "velocity vector", rtol=1e-9)
    else:
        lo, hi = lohi(vv)
        k = float(w @ u)
        r.close(w, k * u, "radial velocity", rtol=1e-6, scale=abs(k) + 1e-6)
        r.check(lo - 1e-6 <= k <= hi + 1e-6, "absolute velocity", (lo, k, hi))
    if min(n, np.linalg.norm(np.asarray(p.position) - np.asarray(b.state(t).position))) < 0.05:
        return
    comp = echo(a, b, fc, t, np.asarray(p.position, float), w, case["rcs"], p.reflection_phase, c["attenuate"])
    judge(r, c, s, a, b, [comp], "single target")
    judge(r, c, s.null_hypothesis(), a, b, [], "null hypothesis")


@check.facet("distribution", R(seed=seeds, dist=st.sampled_from([float("inf"), 5.0])), quick=6, thorough=60, rule="all")
def distribution(c, r):
    """uniform target parameters over 400 realizations (error probability below 1e-8)"""
    r.nontrivial(True)
    n = 400
    a = SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6)
    ch = SingleTargetRadarChannel((10.0, 30.0), 1.0, (-1.0, 2.0), (0.5, 2.5), velocity=(-20.0, 50.0), decorrelation_distance=c["dist"], seed=c["seed"])
    P = [ch.realize().sample(a, a).paths[0] for _ in range(n)]
    pos = np.array([p.position for p in P], float)
    rg = np.linalg.norm(pos, axis=1)
    cols = [(rg - 10) / 20, (np.arctan2(pos[:, 1], pos[:, 0]) + 1) / 3, (np.arccos(pos[:, 2] / rg) - 0.5) / 2,
            (np.array([np.asarray(p.velocity, float) @ q for p, q in zip(P, pos)]) / rg + 20) / 70, np.array([p.reflection_phase for p in P]) / (2 * PI)]
    for name, u in zip(("range", "azimuth", "zenith", "velocity", "phase"), cols):
        r.check(u.min() >= -1e-9 and u.max() <= 1 + 1e-9, name + " within its limits", (u.min(), u.max()))
        k = np.max(np.abs(np.sort(u) - np.arange(1, n + 1) / n))
        r.check(k < np.sqrt(11 / n) + (0.02 if np.isfinite(c["dist"]) else 0.0), name + " is uniform", k)
    C = np.corrcoef(np.array(cols)) - np.eye(5)
    r.check(np.max(np.abs(C)) < 6.5 / np.sqrt(n), "parameters are independent", np.max(np.abs(C)))
