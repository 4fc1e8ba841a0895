"""P31 3GPP cluster delay line channels: rays, large scale parameters and tabulated models."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.core import Transformation, Direction, DenseSignal, SparseSignal, SignalBlock, AntennaMode
from hermespy.channel import (
    CDL, CDLType, UrbanMicrocells, UrbanMacrocells, RuralMacrocells, IndoorOffice, IndoorFactory,
    O2IState, LOSState, DelayNormalization,
)
from hermespy.channel.cdl.cluster_delay_lines import ClusterDelayLineSample
from hermespy.channel.cdl.indoor_factory import FactoryType
from hermespy.channel.cdl.indoor_office import OfficeType
from hermespy.channel.channel import LinkState
from hermespy.simulation import (
    SimulatedDevice, SimulatedUniformArray, SimulatedIdealAntenna, SimulatedDipole, SimulatedPatchAntenna, StaticTrajectory,
)

check = Check("P31", "3GPP cluster delay line channels superimpose the rays their standard prescribes")

C0 = 299792458.0
PI = np.pi
ANT = [SimulatedIdealAntenna, SimulatedDipole, SimulatedPatchAntenna]
SUB = [[0, 1, 2, 3, 4, 5, 6, 7, 18, 19], [8, 9, 10, 11, 16, 17], [12, 13, 14, 15]]
OFFS = np.array([0.0447, 0.1413, 0.2492, 0.3715, 0.5129, 0.6797, 0.8844, 1.1481, 1.5195, 2.1551])
OFFS = np.sort(np.r_[OFFS, -OFFS])


def device(fc, bw, ant, dims, spacing, rpy, pos, vel):
    return SimulatedDevice(
        carrier_frequency=fc, bandwidth=bw, oversampling_factor=1,
        antennas=SimulatedUniformArray(ANT[ant], spacing, tuple(dims)),
        pose=StaticTrajectory(Transformation.From_RPY(np.array(rpy, float), np.array(pos, float)), np.array(vel, float)),
    )


def unit(az, ze):
    return np.array([np.cos(az) * np.sin(ze), np.sin(az) * np.sin(ze), np.cos(ze)])


def response(state, direction, fc, mode):
    """far-field response (elements x polarizations) towards a unit direction in local coordinates"""
    arr = state.antennas
    pos = np.asarray(arr.transmit_topology if mode == AntennaMode.TX else arr.receive_topology)
    pol = arr.characteristics(Direction.From_Cartesian(direction, True), mode, "local")
    return np.exp(2j * PI * fc / C0 * (pos @ direction))[:, None] * np.asarray(pol)


def rot(state):
    return np.asarray(state.pose).view(np.ndarray)[:3, :3]


def displaced_response(state, direction, fc, mode):
    """the recorded finding: the local direction of a ray is taken for a position in global coordinates"""
    arr = state.antennas
    m = rot(state)
    pos = np.asarray(arr.transmit_topology if mode == AntennaMode.TX else arr.receive_topology) @ m.T + np.asarray(state.position)
    pol = arr.characteristics(direction, mode, "global")
    return np.exp(-2j * PI * fc / C0 * np.linalg.norm(direction - pos, axis=1))[:, None] * np.asarray(pol)


def rays(tx, rx, s, fc, ray_response=response):
    """list of (matrix, doppler shift, delay): equations 7.5-22, 7.5-28 to 7.5-30 of TR 38.901"""
    out = []
    vel = np.asarray(rx.velocity) - np.asarray(tx.velocity)
    K = 10 ** (s["K"] / 10)
    n = len(s["delays"])
    for c in range(n):
        groups = SUB if c < 2 else [range(20)]
        for g, idx in enumerate(groups):
            d = s["delays"][c] + (s["spread"] * (0.0, 1.28, 2.56)[g] if c < 2 else 0.0)
            for m in idx:
                dt, dr = unit(s["aod"][c, m], s["zod"][c, m]), unit(s["aoa"][c, m], s["zoa"][c, m])
                H = ray_response(rx, dr, fc, AntennaMode.RX) @ s["jones"][:, :, c, m] @ ray_response(tx, dt, fc, AntennaMode.TX).T
                H = H * np.sqrt(s["powers"][c] / 20)
                if s["los"]:
                    H = H / np.sqrt(1 + K)
                out.append((H, fc / C0 * float((rot(rx) @ dr) @ vel), d + s["offset"]))
    if s["los"]:
        v = np.asarray(rx.position) - np.asarray(tx.position)
        dist = np.linalg.norm(v)
        v = v / dist
        H = response(rx, rot(rx).T @ -v, fc, AntennaMode.RX) @ np.diag([1, -1]) @ response(tx, rot(tx).T @ v, fc, AntennaMode.TX).T
        H = H * np.sqrt(K / (1 + K) * np.sum(s["powers"])) * np.exp(-2j * PI * dist * fc / C0)
        out.append((H, -fc / C0 * float(v @ vel), s["delays"][0] + s["offset"]))
    return out


def expected_propagation(rr, x, first, rate, taps):
    y = np.zeros((rr[0][0].shape[0], x.shape[1] + taps), complex)
    t = (first + np.arange(x.shape[1])) / rate
    for H, f, d in rr:
        k = int(np.floor(d * rate))
        y[:, k : k + x.shape[1]] += (H @ x) * np.exp(2j * PI * f * t)
    return y


dim = st.sampled_from([[1, 1, 1], [2, 1, 1], [1, 3, 1], [2, 2, 1], [1, 1, 2]])
pose = R(rpy=st.lists(floats(-3.0, 3.0), min_size=3, max_size=3), pos=st.lists(floats(-50, 50), min_size=3, max_size=3), vel=st.lists(floats(-60, 60), min_size=3, max_size=3))


@check.facet(
    "rays",
    R(seed=seeds, n=st.integers(1, 5), los=st.booleans(), K=floats(-5, 15), fc=logfloats(3e8, 6e10), bw=logfloats(1e5, 1e9),
      ta=st.integers(0, 2), ra=st.integers(0, 2), td=dim, rd=dim, spacing=floats(0.3, 1.2), tp=pose, rp=pose,
      spread=st.sampled_from([0.0, 0.3, 2.0]), off=st.sampled_from([0, 0, 3]), N=st.integers(1, 12), first=st.sampled_from([0, 0, 5, 31]), taps=st.integers(1, 40)),
    quick=40, thorough=1500, shards=3,
    rule="several clusters or a line of sight, an array of several antennas and a non-zero relative velocity",
)
def f_rays(case, r):
    g = np.random.default_rng(case["seed"])
    fc, bw, n = case["fc"], case["bw"], case["n"]
    lam = C0 / fc
    rp = dict(case["rp"])
    rp["pos"] = [p + 100.0 * (i == case["seed"] % 3) + 3 for i, p in enumerate(rp["pos"])]
    tx = device(fc, bw, case["ta"], case["td"], case["spacing"] * lam, case["tp"]["rpy"], case["tp"]["pos"], case["tp"]["vel"]).state(0.0)
    rx = device(fc, bw, case["ra"], case["rd"], case["spacing"] * lam, rp["rpy"], rp["pos"], rp["vel"]).state(0.0)
    spread = case["spread"] / bw
    # keep every (sub-)cluster delay away from the borders of the sampling grid
    delays = []
    while len(delays) < n:
        d = (g.integers(0, 20) + 0.05 + 0.9 * g.random()) / bw if delays or case["off"] else 0.03 / bw
        fr = [(d + spread * q + case["off"] * 1.001 / bw) * bw % 1 for q in (0, 1.28, 2.56)]
        if all(0.01 < x < 0.99 for x in fr):
            delays.append(d)
    delays = np.sort(np.array(delays))
    s = dict(
        los=case["los"], K=case["K"], aoa=g.uniform(-PI, PI, (n, 20)), zoa=g.uniform(0.1, PI - 0.1, (n, 20)),
        aod=g.uniform(-PI, PI, (n, 20)), zod=g.uniform(0.1, PI - 0.1, (n, 20)), offset=case["off"] * 1.001 / bw,
        delays=delays, spread=spread, powers=g.uniform(0.01, 2, n),
        jones=g.standard_normal((2, 2, n, 20)) + 1j * g.standard_normal((2, 2, n, 20)),
    )
    link = LinkState(tx, rx, fc, bw, 0.0)
    sample = ClusterDelayLineSample(
        s["los"], s["K"], s["aoa"], s["zoa"], s["aod"], s["zod"], s["offset"], s["delays"], s["spread"], s["powers"], s["jones"], link,
    )
    rr = rays(tx, rx, s, fc)
    amp = sum(np.linalg.norm(H) for H, _, _ in rr)
    taps = int(max(np.floor(d * bw) for *_, d in rr))
    N, first = case["N"], case["first"]
    x = g.standard_normal((tx.antennas.num_transmit_antennas, N)) + 1j * g.standard_normal((tx.antennas.num_transmit_antennas, N))
    want = expected_propagation(rr, x, first, bw, taps)
    if first:
        signal = SparseSignal([SignalBlock(x.shape[0], N, first, np.ascontiguousarray(x).tobytes())], bw, fc)
    else:
        signal = DenseSignal.FromNDArray(x, bw, fc)
    y = sample.propagate(signal)
    got = np.zeros((want.shape[0], first + N + taps + 80), complex)
    arr = np.asarray(y.to_dense().view(np.ndarray))
    r.check(arr.shape[1] <= got.shape[1], f"propagated signal of {arr.shape[1]} samples for delays of {taps} samples")
    got[:, : arr.shape[1]] = arr
    ref = np.zeros_like(got)
    ref[:, first : first + want.shape[1]] = want
    scale = amp * float(np.max(np.abs(x)))
    displaced = not np.allclose(got, ref, rtol=0, atol=1e-7 * scale)
    if displaced:
        # either precisely the recorded finding or a violation
        rr = rays(tx, rx, s, fc, displaced_response)
        ref[:, first : first + want.shape[1]] = expected_propagation(rr, x, first, bw, taps)
    r.close(got, ref, "propagated signal versus the sum over all rays", rtol=1e-7, scale=scale)
    # channel state
    csi = sample.state(N, case["taps"])
    st_ = np.asarray(csi.to_impulse_response().dense_state())
    r.check(st_.shape[3] <= case["taps"], f"channel state of {st_.shape[3]} taps, at most {case['taps']} requested")
    href = np.zeros((*st_.shape[:3], max(st_.shape[3], taps + 1)), complex)
    for H, f, d in rr:
        href[..., int(np.floor(d * bw))] += H[:, :, None] * np.exp(2j * PI * f * np.arange(N) / bw)
    k = min(case["taps"], st_.shape[3])
    r.close(st_[..., :k], href[..., :k], "channel state versus the sum over all rays", rtol=1e-7, scale=amp)
    if k < min(case["taps"], href.shape[3]):
        r.check(np.max(np.abs(href[..., k : case["taps"]])) <= 1e-12 * amp, "channel state misses delayed rays")
    r.close(sample.expected_energy_scale, float(np.sum(s["powers"])), "expected energy scale")
    # reciprocal sample of resting devices
    back = sample.reciprocal(LinkState(rx, tx, fc, bw, 0.0))
    c2 = np.asarray(back.state(1, taps + 1).to_impulse_response().dense_state())
    c1 = np.asarray(sample.state(1, taps + 1).to_impulse_response().dense_state())
    r.close(c2, c1.swapaxes(0, 1), "reciprocal sample versus transposed channel", rtol=1e-7, scale=amp)
    r.nontrivial((n > 1 or case["los"]) and x.shape[0] * want.shape[0] > 1 and np.any(np.array(case["tp"]["vel"]) != np.array(rp["vel"])))
    r.cls("line of sight", case["los"])
    r.cls("offset block", first > 0)
    r.cls("truncated taps", case["taps"] < taps + 1)
    r.cls("delay offset", case["off"] > 0)
    if displaced:
        r.finding("array responses of the rays treat local directions as global positions", "ray directions taken for global positions")


# ----------------------------------------------------------------------------------------------
# scenarios: name -> parameters of TR 38.901 tables 7.4.1-1, 7.5-6 per state (LOS, NLOS)
SC = {
    "UMi": dict(cls=UrbanMicrocells, N=(12, 19), asd=(3, 10), asa=(17, 22), zsa=(7, 7), K=(9, 5), xpr=((9, 3), (8, 3)), r=(3.0, 2.1),
                cds=lambda f, i: (5e-9, 11e-9)[i]),
    "UMa": dict(cls=UrbanMacrocells, N=(12, 20), asd=(5, 2), asa=(11, 15), zsa=(7, 7), K=(9, 3.5), xpr=((8, 4), (7, 3)), r=(2.5, 2.3),
                cds=lambda f, i: 1e-9 * max(0.25, 6.5622 - 3.4084 * np.log10(f))),
    "RMa": dict(cls=RuralMacrocells, N=(11, 10), asd=(2, 2), asa=(3, 3), zsa=(3, 3), K=(7, 4), xpr=((12, 4), (7, 3)), r=(3.8, 1.7),
                cds=lambda f, i: 3.91e-9),
    "InH": dict(cls=IndoorOffice, N=(15, 19), asd=(5, 5), asa=(8, 11), zsa=(9, 9), K=(7, 4), xpr=((11, 4), (10, 4)), r=(3.6, 3.0),
                cds=lambda f, i: 3.91e-9),
    "InF": dict(cls=IndoorFactory, N=(25, 25), asd=(5, 5), asa=(8, 8), zsa=(9, 9), K=(7, 8), xpr=((12, 6), (11, 6)), r=(2.7, 3.0),
                cds=lambda f, i: 3.91e-9),
}
FT = {"SL": FactoryType.SL, "SH": FactoryType.SH, "DL": FactoryType.DL, "DH": FactoryType.DH}


def pathloss(name, i, fc, d2, d3, hmax, hmin, ft):
    f, lg = fc / 1e9, np.log10
    if name == "UMi":
        hb, hu = 10.0, min(22.5, max(1.5, hmin))
        bp = 4 * (hb - 1) * (hu - 1) * fc / 3e8
        los = 32.4 + 21 * lg(d3) + 20 * lg(f) if d2 < bp else 32.4 + 40 * lg(d3) + 20 * lg(f) - 9.5 * lg(bp**2 + (hb - hu) ** 2)
        nlos = 35.3 * lg(d3) + 22.4 + 21.3 * lg(f) - 0.3 * (hu - 1.5)
    elif name == "UMa":
        hb, hu = 25.0, min(22.5, max(1.5, hmin))
        bp = 4 * (hb - 1) * (hu - 1) * fc / 3e8
        los = 28 + 22 * lg(d3) + 20 * lg(f) if d2 < bp else 28 + 40 * lg(d3) + 20 * lg(f) - 9 * lg(bp**2 + (hb - hu) ** 2)
        nlos = 13.54 + 39.08 * lg(d3) + 20 * lg(f) - 0.6 * (hu - 1.5)
    elif name == "RMa":
        hb, hu, h, W = min(150, max(5, hmax)), min(10, max(1, hmin)), 5.0, 20.0
        bp = 2 * PI * hb * hu * fc / 3e8
        p1 = lambda d: 20 * lg(40 * PI * d * f / 3) + min(0.03 * h**1.72, 10) * lg(d) - min(0.044 * h**1.72, 14.77) + 0.002 * lg(h) * d
        los = p1(d3) if d2 <= bp else p1(bp) + 40 * lg(d3 / bp)
        nlos = 161.04 - 7.1 * lg(W) + 7.5 * lg(h) - (24.37 - 3.7 * (h / hb) ** 2) * lg(hb) + (43.42 - 3.1 * lg(hb)) * (lg(d3) - 3) + 20 * lg(f) - (3.2 * lg(11.75 * hu) ** 2 - 4.97)
    elif name == "InH":
        los = 32.4 + 17.3 * lg(d3) + 20 * lg(f)
        nlos = 38.3 * lg(d3) + 17.3 + 24.9 * lg(f)
    else:
        los = 31.84 + 21.5 * lg(d3) + 19 * lg(f)
        sl = 33 + 25.5 * lg(d3) + 20 * lg(f)
        nlos = {"SL": sl, "DL": max(sl, 18.6 + 35.7 * lg(d3) + 20 * lg(f)), "SH": 32.4 + 23 * lg(d3) + 20 * lg(f), "DH": 33.63 + 21.9 * lg(d3) + 20 * lg(f)}[ft]
    return los if i == 0 else max(los, nlos)


def zsd_mean(name, i, f, d2, hu, hb):
    """mean of the decadic logarithm of the zenith of departure spread"""
    if name == "UMi":
        return max(-0.21, -14.8 * d2 / 1000 + 0.01 * abs(hu - hb) + 0.83) if i == 0 else max(-0.5, -3.1 * d2 / 1000 + 0.01 * max(hu - hb, 0) + 0.2)
    if name == "UMa":
        return max(-0.5, -2.1 * d2 / 1000 - 0.01 * (hu - 1.5) + (0.75 if i == 0 else 0.9))
    if name == "RMa":
        return max(-1, -(0.17, 0.19)[i] * d2 / 1000 - 0.01 * (hu - 1.5) + (0.22, 0.28)[i])
    if name == "InH":
        return -1.43 * np.log10(1 + max(6.0, f)) + 2.228 if i == 0 else 1.08
    return (1.35, 1.2)[i]


def build(case, state, gain=1.0, seed=None, oxygen=False):
    name = case["sc"]
    kw = dict(delay_normalization=DelayNormalization.TOF if case["tof"] else DelayNormalization.ZERO, oxygen_absorption=oxygen,
              gain=gain, seed=case["seed"] if seed is None else seed)
    if state is not None:
        kw["expected_state"] = (LOSState if name in ("InH", "InF") else O2IState)(state)
    if name == "InH":
        return IndoorOffice(office_type=OfficeType.OPEN if case["open"] else OfficeType.MIXED, **kw)
    if name == "InF":
        return IndoorFactory(2000.0, 900.0, FT[case["ft"]], case["clutter"], **kw)
    return SC[name]["cls"](**kw)


scenario = dict(
    sc=st.sampled_from(list(SC)), seed=seeds, tof=st.booleans(), open=st.booleans(), ft=st.sampled_from(list(FT)), clutter=floats(3.0, 6.0),
    fc=logfloats(6e8, 9e10), d2=logfloats(5, 3000), phi=floats(-3.1, 3.1), ht=floats(1.5, 24), hb=floats(6, 35), swap=st.booleans(),
)


def place(case, **kw):
    d2 = case["d2"] if case["sc"] not in ("InH", "InF") else min(case["d2"], 150.0)
    u = np.array([np.cos(case["phi"]) * d2, np.sin(case["phi"]) * d2])
    p, q = np.array([3.0, -4.0, case["ht"]]), np.array([3.0 + u[0], -4.0 + u[1], case["hb"]])
    if case["swap"]:
        p, q = q, p
    return p, q


@check.facet(
    "scenario",
    R(**scenario, los=st.booleans(), gain=logfloats(0.01, 10), tr=st.lists(floats(-3.0, 3.0), min_size=3, max_size=3), rr=st.lists(floats(-3.0, 3.0), min_size=3, max_size=3)),
    quick=30, thorough=1200, shards=3,
    rule="a scenario, large-scale state, positions and orientations of both devices",
)
def f_scenario(case, r):
    name, i = case["sc"], 0 if case["los"] else 1
    T = SC[name]
    p, q = place(case)
    fc, bw = case["fc"], 1e8
    f = fc / 1e9
    a = device(fc, bw, 0, [1, 1, 1], 0.1, case["tr"], p, [0, 0, 0])
    b = device(fc, bw, 0, [1, 1, 1], 0.1, case["rr"], q, [0, 0, 0])
    ch = build(case, i, case["gain"])
    real = ch.realize()
    s = real.sample(a, b, 0.0, fc, bw)
    d3, d2 = float(np.linalg.norm(p - q)), float(np.linalg.norm((p - q)[:2]))
    hmax, hmin = max(p[2], q[2]), min(p[2], q[2])
    r.equal(bool(s.line_of_sight), i == 0, "line of sight flag of the expected large-scale state")
    # power
    pl = case["gain"] * 10 ** (-pathloss(name, i, fc, d2, d3, hmax, hmin, case["ft"]) / 10)
    total = float(np.sum(s.cluster_powers))
    r.check(pl * (1 - 25 * 10**-2.5) <= total <= pl * (1 + 1e-9), f"cluster powers sum to {total:.4e}, path loss and gain allow {pl:.4e}")
    r.close(s.expected_energy_scale, total, "expected energy scale", rtol=1e-9, atol=0)
    r.check(np.all(s.cluster_powers >= s.cluster_powers.max() * 10**-2.5 * (1 - 1e-9)), "clusters more than 25 dB below the strongest cluster")
    # delays
    n = s.num_clusters
    r.check(1 <= n <= T["N"][i], f"{n} clusters, the scenario has {T['N'][i]}")
    r.check(s.cluster_delays.shape == (n,) and s.cluster_powers.shape == (n,), "one delay and power per cluster")
    r.check(np.all(np.diff(s.cluster_delays) >= 0) and np.all(s.cluster_delays >= 0), "cluster delays are sorted and non-negative")
    if i == 0:
        r.check(s.cluster_delays[0] == 0.0, "first line of sight cluster has no excess delay")
        r.check(abs(s.rice_factor - T["K"][0]) <= 6 * T["K"][1], f"rice factor {s.rice_factor} dB")
    r.close(s.delay_offset, d3 / C0 if case["tof"] else 0.0, "time of flight delay", rtol=1e-9, atol=1e-18)
    r.close(s.cluster_delay_spread, T["cds"](f, i), "delay spread within a cluster", rtol=1e-9, atol=1e-18)
    # angles
    for what, ang, c in (
        ("azimuth of departure", s.azimuth_of_departure, T["asd"][i]), ("azimuth of arrival", s.azimuth_of_arrival, T["asa"][i]),
        ("zenith of arrival", s.zenith_of_arrival, T["zsa"][i]),
        ("zenith of departure", s.zenith_of_departure, 3 / 8 * 10 ** zsd_mean(name, i, f, d2, hmin, hmax)),
    ):
        r.check(ang.shape == (n, 20), f"{what}: {ang.shape} rays")
        deg = np.sort(180 / PI * ang, axis=1)
        r.close(deg - deg.mean(axis=1, keepdims=True), np.tile(c * OFFS, (n, 1)), f"{what}: offsets of the rays of each cluster", rtol=1e-6, atol=1e-6)
    if i == 0:
        td = rot(a.state(0)).T @ (q - p) / d3
        rd = rot(b.state(0)).T @ (p - q) / d3
        for what, az, ze, d in (("departure", s.azimuth_of_departure, s.zenith_of_departure, td), ("arrival", s.azimuth_of_arrival, s.zenith_of_arrival, rd)):
            got = unit(float(np.mean(az[0])), float(np.mean(ze[0])))
            r.close(got, d, f"first cluster {what} direction versus line of sight", rtol=1e-6, atol=1e-6)
    # polarization
    J = s.polarization_transformations[:, :, :n]
    r.close(np.abs(J[[0, 1], [0, 1]]), np.ones((2, *J.shape[2:])), "co-polarization magnitudes")
    r.close(np.abs(J[0, 1]), np.abs(J[1, 0]), "cross-polarization magnitudes")
    xpr = -20 * np.log10(np.abs(J[0, 1]))
    m, sd = T["xpr"][i]
    r.check(np.all(np.abs(xpr - m) <= 7 * sd), f"cross-polarization ratios from {xpr.min():.1f} to {xpr.max():.1f} dB")
    # determinism and gain
    ch2 = build(case, i, 2 * case["gain"])
    s2 = ch2.realize().sample(a, b, 0.0, fc, bw)
    r.close(s2.cluster_powers, 2 * s.cluster_powers, "cluster powers of twice the gain", rtol=1e-9, atol=0)
    r.equal(np.asarray(s2.azimuth_of_arrival), np.asarray(s.azimuth_of_arrival), "same seed, same angles")
    again = real.sample(a, b, 0.0, fc, bw)
    r.equal(np.asarray(again.cluster_powers), np.asarray(s.cluster_powers), "sampling a realization twice")
    r.equal(np.asarray(again.polarization_transformations), np.asarray(s.polarization_transformations), "sampling a realization twice")
    # reciprocity
    back = real.reciprocal_sample(s, b, a, 0.0, fc, bw)
    taps = int(np.ceil(s.max_delay * bw)) + 2
    if taps < 3000:
        h1 = np.asarray(s.state(1, taps).to_impulse_response().dense_state())
        h2 = np.asarray(back.state(1, taps).to_impulse_response().dense_state())
        r.close(h2, h1.swapaxes(0, 1), "reciprocal channel", rtol=1e-6, atol=0)
    r.nontrivial(n > 1)
    r.cls(f"{name} {'LOS' if i == 0 else 'NLOS'}")
    r.cls("TOF", case["tof"])


@check.facet(
    "path loss",
    R(**scenario, los=st.booleans(), gain=logfloats(0.01, 10), more=st.lists(logfloats(5, 5000), min_size=4, max_size=4)),
    quick=60, thorough=2500, shards=3,
    rule="a scenario and several distances of which at least one is beyond 300 m",
)
def f_pathloss(case, r):
    name, i = case["sc"], 0 if case["los"] else 1
    fc, bw = case["fc"], 1e8
    r.nontrivial(name not in ("InH", "InF") and max(case["more"]) > 300)
    r.cls(f"{name} {'LOS' if i == 0 else 'NLOS'}")
    real = build(case, i, case["gain"]).realize()
    for d2 in case["more"]:
        p, q = place(dict(case, d2=d2))
        a = device(fc, bw, 0, [1, 1, 1], 0.1, [0, 0, 0], p, [0, 0, 0])
        b = device(fc, bw, 0, [1, 1, 1], 0.1, [0, 0, 0], q, [0, 0, 0])
        s = real.sample(a, b, 0.0, fc, bw)
        pl = case["gain"] * 10 ** (-pathloss(name, i, fc, float(np.linalg.norm((p - q)[:2])), float(np.linalg.norm(p - q)), max(p[2], q[2]), min(p[2], q[2]), case["ft"]) / 10)
        total = float(np.sum(s.cluster_powers))
        r.check(pl * (1 - 25 * 10**-2.5) <= total <= pl * (1 + 1e-9), f"cluster powers at {np.linalg.norm(p - q):.1f} m sum to {total:.4e}, path loss and gain allow {pl:.4e}")


@check.facet(
    "statistics",
    R(**scenario),
    quick=10, thorough=80, shards=5,
    rule="a scenario, distance and frequency; realizations are drawn until the moments of its parameters are decidable",
    explicit=[dict(sc=s, seed=7 + k, tof=False, open=False, ft="SL", clutter=4.0, fc=6e9, d2=60.0, phi=0.3, ht=1.5, hb=10.0, swap=False) for k, s in enumerate(SC)],
)
def f_statistics(case, r):
    name = case["sc"]
    p, q = place(case)
    fc, bw = case["fc"], 1e8
    a = device(fc, bw, 0, [1, 1, 1], 0.1, [0, 0, 0], p, [0, 0, 0])
    b = device(fc, bw, 0, [1, 1, 1], 0.1, [0, 0, 0], q, [0, 0, 0])
    d2 = float(np.linalg.norm((p - q)[:2]))
    hmax, hmin = max(p[2], q[2]), min(p[2], q[2])
    f, lg = fc / 1e9, np.log10
    # rice factor and delay spread
    n = 40
    T = SC[name]
    V, S = 2000.0, 900.0
    ds = {
        "UMi": [(-0.24 * lg(1 + max(2, f)) - 7.14, 0.38), (-0.24 * lg(1 + max(2, f)) - 6.83, 0.16 * lg(1 + max(2, f)) + 0.28)],
        "UMa": [(-6.955 - 0.0963 * lg(max(6, f)), 0.66), (-6.28 - 0.204 * lg(max(6, f)), 0.39)],
        "RMa": [(-7.49, 0.55), (-7.43, 0.48)],
        "InH": [(-0.01 * lg(1 + f) - 7.692, 0.18), (-0.28 * lg(1 + f) - 7.173, 0.1 * lg(1 + f) + 0.055)],
        "InF": [(lg(26 * V / S + 14) - 9.35, 0.15), (lg(30 * V / S + 32) - 9.44, 0.19)],
    }[name]
    for i in (0, 1):
        ch = build(case, i)
        K, L = [], []
        for _ in range(n):
            s = ch.realize().sample(a, b, 0.0, fc, bw)
            K.append(s.rice_factor)
            if i == 1 and s.num_clusters > 1:
                # first spacing of sorted exponentially distributed delays
                L.append(lg(max(1e-30, (s.cluster_delays[1] - s.cluster_delays[0]) * (T["N"][i] - 1) / T["r"][i])))
        if i == 0:
            m, sd = T["K"]
            r.check(abs(np.mean(K) - m) <= 5.5 * sd / np.sqrt(n), f"mean rice factor of {np.mean(K):.2f} dB, expected {m}")
        else:
            m, sd = ds[i]
            m, sd = m - 0.2507, np.hypot(0.557, sd)
            r.check(len(L) >= n // 2, f"{n - len(L)} of {n} realizations consist of a single cluster")
            r.check(abs(np.mean(L) - m) <= 5.5 * sd / np.sqrt(len(L)) + 0.05, f"mean logarithmic delay spacing of {np.mean(L):.2f}, expected {m:.2f}")
    # line of sight probability
    if name == "UMi":
        prob = 1.0 if d2 <= 18 else 18 / d2 + np.exp(-d2 / 36) * (1 - 18 / d2)
    elif name == "UMa":
        hu = min(23.0, hmin)
        c = ((hu - 13) / 10) ** 1.5 if hu > 13 else 0.0
        prob = 1.0 if d2 <= 18 else (18 / d2 + np.exp(-d2 / 63) * (1 - 18 / d2)) * (1 + c * 1.25 * (d2 / 100) ** 3 * np.exp(-d2 / 150))
    elif name == "RMa":
        prob = 1.0 if d2 <= 10 else np.exp(-(d2 - 10) / 1000)
    elif name == "InH":
        if case["open"]:
            prob = 1.0 if d2 <= 5 else np.exp(-(d2 - 5) / 70.8) if d2 <= 49 else np.exp(-(d2 - 49) / 211.7) * 0.54
        else:
            prob = 1.0 if d2 <= 1.2 else np.exp(-(d2 - 1.2) / 4.7) if d2 < 6.5 else np.exp(-(d2 - 6.5) / 32.6) * 0.32
    else:
        size, dens = {"SL": (10, 0.2), "DL": (2, 0.6), "SH": (10, 0.2), "DH": (2, 0.6)}[case["ft"]]
        k = -size / np.log(1 - dens)
        if case["ft"] in ("SH", "DH"):
            k *= (hmax - hmin) / (case["clutter"] - hmin)
            if case["clutter"] <= hmin:
                return
        prob = float(np.exp(-d2 / k))
    prob = min(1.0, prob)
    ch = build(case, None)
    m, hits = 160, 0
    real = None
    for j in range(m):
        if j % 16 == 0:
            real = ch.realize()
        hits += bool(real.sample(*move(a, b, p, q, j % 16), 0.0, fc, bw).line_of_sight)
    tol = 5.5 * np.sqrt(max(prob * (1 - prob), 0.25 / m) / m)
    r.check(abs(hits / m - prob) <= tol + 1e-9, f"{name}: line of sight in {hits} of {m} samples, probability {prob:.3f}")
    r.nontrivial(0.02 < prob < 0.98)
    r.cls(name)


def move(a, b, p, q, j):
    """translate both devices far beyond any decorrelation distance"""
    o = np.array([5e4 * (j % 4), 7e4 * (j // 4), 0.0])
    a.trajectory = StaticTrajectory(Transformation.From_Translation(p + o))
    b.trajectory = StaticTrajectory(Transformation.From_Translation(q + o))
    return a, b


OX = np.array([[52, 0], [53, 1], [54, 2.2], [55, 4], [56, 6.6], [57, 9.7], [58, 12.6], [59, 14.6], [60, 15], [61, 14.6], [62, 14.3], [63, 10.5], [64, 6.8], [65, 3.9], [66, 1.9], [67, 1], [68, 0]])


@check.facet(
    "oxygen",
    R(**{**scenario, "fc": st.one_of(logfloats(6e8, 9e10), floats(52e9, 68e9))}),
    quick=8, thorough=150, shards=1, rule="line of sight state, where no minimal delay has been removed",
)
def f_oxygen(case, r):
    """equation 7.6-1: loss of alpha(f)/1000 dB per metre of the total path length"""
    p, q = place(case)
    fc, bw = case["fc"], 1e8
    a = device(fc, bw, 0, [1, 1, 1], 0.1, [0, 0, 0], p, [0, 0, 0])
    b = device(fc, bw, 0, [1, 1, 1], 0.1, [0, 0, 0], q, [0, 0, 0])
    s0 = build(case, 0).realize().sample(a, b, 0.0, fc, bw)
    s1 = build(case, 0, oxygen=True).realize().sample(a, b, 0.0, fc, bw)
    length = float(np.linalg.norm(p - q)) + C0 * np.asarray(s0.cluster_delays)
    got = np.asarray(s1.cluster_powers) / np.asarray(s0.cluster_powers)
    want = 10 ** (-1e-4 * np.interp(fc / 1e9, OX[:, 0], OX[:, 1]) * length)
    r.nontrivial()
    if not np.allclose(got, want, rtol=1e-6, atol=0):
        # the recorded defect: one decibel per metre squared, whatever the frequency
        same = np.allclose(got, 10 ** (-2e-2 * length), rtol=1e-6, atol=0)
        r.fail(
            f"oxygen absorption scales the power of the first cluster by {got[0]:.3e}, expected {want[0]:.3e}",
            "oxygen absorption independent of the carrier frequency" if same else None,
        )


# ----------------------------------------------------------------------------------------------
from checks.p31_tables import TABLES, CLUSTER  # noqa: E402


@check.facet(
    "tabulated",
    R(type=st.sampled_from("ABCDE"), rms=logfloats(1e-10, 1e-6), K=floats(0, 20), gain=logfloats(0.01, 100), seed=seeds, fc=logfloats(5e8, 9e10)),
    quick=25, thorough=600, shards=1, rule="any model",
)
def f_tabulated(case, r):
    t = TABLES[case["type"]]
    cp = CLUSTER[case["type"]]
    fc, bw = case["fc"], 1e8
    a = device(fc, bw, 0, [1, 1, 1], 0.1, [0, 0, 0], [0, 0, 0], [0, 0, 0])
    b = device(fc, bw, 0, [1, 1, 1], 0.1, [0, 0, 0], [30, 5, 2], [0, 0, 0])
    ch = CDL(CDLType("ABCDE".index(case["type"])), case["rms"], case["K"], gain=case["gain"], seed=case["seed"])
    real = ch.realize()
    s = real.sample(a, b, 0.0, fc, bw)
    r.close(s.cluster_delays, case["rms"] * t[:, 0], "cluster delays", rtol=1e-9, atol=0)
    r.close(s.cluster_powers, case["gain"] * 10 ** (t[:, 1] / 10), "cluster powers", rtol=1e-9, atol=0)
    for what, ang, col, c in (
        ("azimuth of departure", s.azimuth_of_departure, 2, cp[0]), ("azimuth of arrival", s.azimuth_of_arrival, 3, cp[1]),
        ("zenith of departure", s.zenith_of_departure, 4, cp[2]), ("zenith of arrival", s.zenith_of_arrival, 5, cp[3]),
    ):
        r.close(np.sort(180 / PI * ang, axis=1), t[:, col, None] + c * OFFS, what, rtol=1e-7)
    J = s.polarization_transformations
    r.close(np.abs(J[0, 0]), np.ones(J.shape[2:]), "co-polarization")
    r.close(np.abs(J[1, 1]), np.ones(J.shape[2:]), "co-polarization")
    r.close(np.abs(J[0, 1]), np.full(J.shape[2:], 10 ** (-cp[4] / 20)), "cross-polarization")
    r.close(np.abs(J[1, 0]), np.full(J.shape[2:], 10 ** (-cp[4] / 20)), "cross-polarization")
    r.equal(bool(s.line_of_sight), case["type"] in "DE", "line of sight")
    r.equal(s.rice_factor, case["K"], "rice factor")
    taps = int(np.ceil(s.max_delay * bw)) + 2
    if taps < 1500:
        h1 = np.asarray(s.state(1, taps).to_impulse_response().dense_state())
        h2 = np.asarray(real.reciprocal_sample(s, b, a, 0.0, fc, bw).state(1, taps).to_impulse_response().dense_state())
        r.close(h2, h1.swapaxes(0, 1), "reciprocal channel", rtol=1e-6, atol=0)
        # no further splitting: nothing arrives beyond the tabulated delays
        last = int(np.floor(case["rms"] * t[:, 0].max() * bw + 1e-6))
        r.check(np.all(np.abs(h1[..., last + 1 :]) <= 1e-15), "energy beyond the last tabulated delay")
    r.nontrivial()
    r.cls(f"CDL-{case['type']}")
