"""P14 link channels: ideal, delay and multipath fading models."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, logfloats

from hermespy.core import Transformation, DenseSignal, SparseSignal, SignalBlock, Signal, AntennaMode
from hermespy.channel import (
    IdealChannel, RandomDelayChannel, SpatialDelayChannel, MultipathFadingChannel, TDL, TDLType, Cost259, Cost259Type,
    Exponential, StandardAntennaCorrelation, CorrelationType, CustomAntennaCorrelation,
)
from hermespy.simulation import SimulatedDevice, SimulatedCustomArray, SimulatedIdealAntenna, StaticTrajectory

check = Check("P14", "Link channels apply exactly the delays, gains and fading they publish")

C0 = 299792458.0
PI = np.pi
MODES = [AntennaMode.DUPLEX, AntennaMode.TX, AntennaMode.RX]

vec = st.lists(floats(-40, 40).map(lambda v: v if abs(v) > 1e-3 else 0.0), min_size=3, max_size=3)
dev = R(pos=vec, modes=st.lists(st.integers(0, 2), min_size=1, max_size=4), seed=seeds)
FAD = ["fading", "tdl", "cost", "exp"]
kinds = st.sampled_from(["ideal", "spatial", "random", "fixed"] + FAD + ["fading"])
taps = st.lists(st.tuples(floats(0, 40), logfloats(1e-3, 1), st.one_of(st.just(0.0), logfloats(0.01, 100), st.just(-1.0))), min_size=1, max_size=5)
model = R(
    kind=kinds, gain=logfloats(1e-3, 1e2), seed=seeds, loss=st.booleans(), delay=floats(0, 40).map(lambda v: v if v > 1e-3 else 0.0), span=floats(0, 30), taps=taps, n=st.integers(0, 9),
    type=st.integers(0, 4), doppler=floats(0, 0.5), los=st.one_of(st.none(), floats(0, 0.5)), angle=st.one_of(st.none(), floats(-PI, PI)),
    corr=st.sampled_from(["none", "none", "LOW", "MEDIUM", "HIGH", "custom"]), dist=st.sampled_from([float("inf"), 3.0, 50.0]), rms=floats(0.5, 4),
)


def device(c, fc, bw, n=None):
    g = np.random.default_rng(c["seed"])
    modes = list(c["modes"])
    if all(m == 2 for m in modes):
        modes[0] = 0
    if all(m == 1 for m in modes):
        modes[-1] = 0
    if n is not None:
        modes = [0] * n
    ports = [SimulatedIdealAntenna(MODES[m], Transformation.From_Translation(g.normal(size=3) * 0.1)) for m in modes]
    return SimulatedDevice(
        carrier_frequency=fc, bandwidth=bw, oversampling_factor=1, antennas=SimulatedCustomArray(ports),
        pose=StaticTrajectory(Transformation.From_RPY(g.uniform(-PI, PI, 3), np.array(c["pos"], float)), g.normal(size=3)),
    )


def covariance(seed, n):
    a = cmat(seed, n, n)
    return a @ a.conj().T + np.eye(n)


def channel(c, bw, gain=None):
    """Delays in cases are given in samples"""
    kw = dict(gain=c["gain"] if gain is None else gain, seed=c["seed"])
    k = c["kind"]
    if k == "ideal":
        return IdealChannel(**kw)
    if k == "spatial":
        return SpatialDelayChannel(c["loss"], **kw)
    if k == "random":
        return RandomDelayChannel((c["delay"] / bw, (c["delay"] + c["span"]) / bw), c["dist"], c["loss"], **kw)
    if k == "fixed":
        return RandomDelayChannel(c["delay"] / bw, c["dist"], c["loss"], **kw)
    kw.update(
        correlation_distance=c["dist"], num_sinusoids=c["n"], los_angle=c["angle"], doppler_frequency=c["doppler"] * bw,
        los_doppler_frequency=None if c["los"] is None else c["los"] * bw,
    )
    if c["corr"] == "custom":
        kw["antenna_correlation"] = CustomAntennaCorrelation(covariance(c["seed"], 4))
    elif c["corr"] != "none":
        kw["antenna_correlation"] = StandardAntennaCorrelation(CorrelationType[c["corr"]])
    if k == "fading":
        t = c["taps"]
        return MultipathFadingChannel(
            np.array([x[0] / bw for x in t]), np.array([x[1] for x in t]), np.array([np.inf if x[2] < 0 else x[2] for x in t]), **kw
        )
    if k == "tdl":
        ty = TDLType(["A", "B", "C", "D", "E"].index(["A", "B", "C", "D", "E"][c["type"]]) if c["type"] < 3 else c["type"] + 1)
        if c["type"] > 2:
            kw["los_doppler_frequency"] = None
        return TDL(ty, c["rms"] / bw, **kw)
    if k == "cost":
        return Cost259(Cost259Type(c["type"] % 3), **kw)
    return Exponential(1 / bw, c["rms"] / bw, **kw)


STD = {"LOW": (0.0, 0.0), "MEDIUM": (0.3, 0.3), "MEDIUM_A": (0.3, 0.3874), "HIGH": (0.9, 0.9)}


def standard(f, n):
    """3GPP TS 36.101 annex B correlation matrices of uniform linear arrays"""
    if n == 1:
        return np.ones((1, 1))
    e = np.abs(np.subtract.outer(np.arange(n), np.arange(n))) / (n - 1)
    return np.where(e == 0, 1.0, f ** (e**2) if f > 0 else 0.0)


def usable(c, a, b):
    """standard correlations exist for 1, 2 and 4 antennas only"""
    if c["kind"] in FAD and c["corr"] in STD:
        return a.num_transmit_antennas in (1, 2, 4) and b.num_receive_antennas in (1, 2, 4)
    return True


def spatial(dev_, target, fc, mode):
    """spherical propagation phases of the elements times their field patterns (decided by P05)"""
    st_ = dev_.state(0.0)
    arr = st_.antennas
    pose = np.asarray(st_.pose).view(np.ndarray)
    pos = np.asarray(arr.transmit_topology if mode == AntennaMode.TX else arr.receive_topology) @ pose[:3, :3].T + pose[:3, 3]
    phase = np.exp(-2j * PI * fc / C0 * np.linalg.norm(pos - target, axis=1))
    return phase[:, None] * np.asarray(arr.characteristics(np.asarray(target), mode, "global"))


def model_taps(c, s, a, b, fc, bw):
    """[(delay in samples, f(sample indices) -> gains, spatial matrix)] from the documented equations and the published
    parameters of the sample"""
    M, N = b.num_receive_antennas, a.num_transmit_antennas
    k = c["kind"]
    g = np.sqrt(c["gain"])
    if k == "ideal":
        H = np.ones((M, N)) if 1 in (M, N) else np.eye(M, N)
        return [(0, lambda n: np.full(len(n), g), H)]
    if k in ("spatial", "random", "fixed"):
        v = np.asarray(b.state(0.0).position) - np.asarray(a.state(0.0).position)
        d = np.linalg.norm(v)
        amp = g * (C0 / (4 * PI * fc * s.delay * C0) if c["loss"] and s.delay > 0 else 1.0)
        if d > 0:
            H = spatial(b, np.asarray(a.state(0.0).position), fc, AntennaMode.RX) @ spatial(a, np.asarray(b.state(0.0).position), fc, AntennaMode.TX).T
        else:
            H = np.ones((M, N))
        return [(round(s.delay * bw), lambda n: np.full(len(n), amp), H)]
    H = np.asarray(s.spatial_response)[:M, :N]
    out = []
    for l in range(len(s.delay_profile)):
        def f(n, l=l):
            t = np.asarray(n) / bw
            h = s.los_gains[l] * np.exp(1j * (t * s.los_doppler * np.cos(s.los_angles[l]) + s.los_phases[l]))
            nn = s.nlos_angles.shape[1]
            for i in range(nn):
                h = h + s.nlos_gains[l] * np.exp(1j * (t * s.nlos_doppler * np.cos((2 * PI * (i + 1) + s.nlos_angles[l, i]) / nn) + s.nlos_phases[l, i]))
            return h * np.sqrt(s.power_profile[l] * c["gain"])
        out.append((int(np.rint(s.delay_profile[l] * bw)), f, H))
    return out


def apply(taps_, x, start, length):
    """superposition of all taps for samples x beginning at index start"""
    M = taps_[0][2].shape[0]
    y = np.zeros((M, length), complex)
    for d, f, H in taps_:
        y[:, start + d : start + d + x.shape[1]] += H @ (x * f(start + np.arange(x.shape[1]))[None, :])
    return y


case_ = R(m=model, a=dev, b=dev, fc=logfloats(1e8, 1e11), bw=logfloats(1e4, 1e9), seed=seeds, same=st.booleans(),
          blocks=st.lists(st.tuples(st.integers(0, 20), st.integers(1, 25)), min_size=1, max_size=3), t=floats(0, 10))


def setup(c):
    fc, bw = c["fc"], c["bw"]
    a, b = device(c["a"], fc, bw), device(dict(c["b"], pos=c["a"]["pos"]) if c["same"] else c["b"], fc, bw)
    return a, b, fc, bw


@check.facet("propagation", case_, quick=400, thorough=12000, shards=2, rule="several antennas and several blocks or taps")
def propagation(c, r):
    a, b, fc, bw = setup(c)
    m = c["m"]
    r.cls(m["kind"])
    if not usable(m, a, b):
        return
    ch = channel(m, bw)
    s = ch.realize().sample(a, b, c["t"], fc, bw)
    N, M = a.num_transmit_antennas, b.num_receive_antennas
    T_ = model_taps(m, s, a, b, fc, bw)
    r.nontrivial(N * M > 1 and (len(c["blocks"]) > 1 or len(T_) > 1))
    r.equal((s.carrier_frequency, s.bandwidth, s.num_transmit_antennas, s.num_receive_antennas), (fc, bw, N, M), "state of the sample")
    # blocks with gaps
    off, blocks, offs = 0, [], []
    for i, (gap, n) in enumerate(c["blocks"]):
        off += gap + (1 if i else 0)
        blocks.append(cmat(c["seed"] + i, N, n))
        offs.append(off)
        off += n
    total = off
    x = np.zeros((N, total), complex)
    for B, o in zip(blocks, offs):
        x[:, o : o + B.shape[1]] = B
    tail = max(t[0] for t in T_)
    want = apply(T_, x, 0, total + tail)
    scale = float(np.max(np.abs(want))) + 1e-300
    dense = DenseSignal.FromNDArray(x.copy(), bw, fc, noise_power=0.25, delay=1e-6)
    sparse = SparseSignal([SignalBlock(N, B.shape[1], o, np.ascontiguousarray(B).tobytes()) for B, o in zip(blocks, offs)], bw, fc, noise_power=0.25, delay=1e-6)
    for name, sig in (("dense", dense), ("sparse", sparse)):
        y = s.propagate(sig)
        got = np.asarray(y.to_dense()).view(np.ndarray)
        full = np.zeros((M, max(total + tail, got.shape[1])), complex)
        full[:, : got.shape[1]] = got
        r.close(full[:, : total + tail], want, f"propagated {name} signal", rtol=1e-8, scale=scale, atol=0)
        r.check(got.shape[1] <= total + tail or not np.any(full[:, total + tail :]), f"no samples after the last delayed sample of a {name} signal")
        r.equal((y.sampling_rate, y.carrier_frequency, y.noise_power, y.delay, y.num_streams), (bw, fc, 0.25, 1e-6, M), f"parameters of the propagated {name} signal")
        r.equal(np.asarray(sig.to_dense()).view(np.ndarray)[:, :total], x, f"{name} input unchanged")
        again = np.asarray(s.propagate(sig).to_dense()).view(np.ndarray)
        r.equal(again, got, f"{name} propagation repeats")
    # channel state describes the same transformation
    for mt in (tail + 1, max(1, (tail + 1) // 2), tail + 5):
        csi = s.state(total, mt)
        H = np.asarray(csi.dense_state())
        ref = np.zeros((M, N, total, min(tail + 1, mt)), complex)
        for d, f, Hs in T_:
            if d < ref.shape[3]:
                ref[:, :, :, d] += Hs[:, :, None] * f(np.arange(total))[None, None, :]
        L = max(H.shape[3], ref.shape[3])
        pad = lambda z: np.concatenate([z, np.zeros(z.shape[:3] + (L - z.shape[3],))], axis=3)
        r.check(H.shape[:3] == ref.shape[:3] and H.shape[3] <= mt, "dimensions of the channel state", H.shape)
        r.close(pad(H), pad(ref), "channel state", rtol=1e-8, scale=scale + np.max(np.abs(ref)), atol=0)
        if mt > tail:
            z = np.asarray(csi.propagate(DenseSignal.FromNDArray(x.copy(), bw, fc))).view(np.ndarray)
            full = np.zeros((M, max(total + tail, z.shape[1])), complex)
            full[:, : z.shape[1]] = z
            r.close(full[:, : total + tail], want, "propagation over the channel state", rtol=1e-8, scale=scale, atol=0)
    try:
        s.propagate(DenseSignal.FromNDArray(np.ones((N + 1, 4), complex), bw, fc))
        bad = True
    except ValueError:
        bad = False
    r.check(not bad, "a wrong number of streams is refused")


@check.facet("realizations", case_, quick=300, thorough=9000, rule="random channel")
def realizations(c, r):
    a, b, fc, bw = setup(c)
    m = c["m"]
    if not usable(m, a, b) or not usable(m, b, a):
        return
    r.cls(m["kind"])
    r.nontrivial(m["kind"] not in ("ideal", "spatial", "fixed"))
    N, M = a.num_transmit_antennas, b.num_receive_antennas
    x = cmat(c["seed"], N, 12)
    sig = DenseSignal.FromNDArray(x, bw, fc)
    nd = lambda y: np.asarray(y.to_dense()).view(np.ndarray)
    c1, c2 = channel(m, bw), channel(m, bw)
    outs = []
    for i in range(3):
        r1, r2 = c1.realize(), c2.realize()
        r.check(c1.realization is r1, "last realization is remembered")
        y1, y2 = (nd(q.sample(a, b, c["t"], fc, bw).propagate(sig)) for q in (r1, r2))
        r.equal(y1, y2, f"realization {i} of equal seeds")
        r.equal(nd(r1.sample(a, b, c["t"], fc, bw).propagate(sig)), y1, "a realization samples repeatably")
        r.equal(nd(r1.sample(a.state(c["t"]), b.state(c["t"]), c["t"], fc, bw).propagate(sig)), y1, "sampling by device states")
        outs.append(y1)
    if m["kind"] in FAD and m["n"] > 0 and any(g > 0 for g in np.atleast_1d(c1.realize().sample(a, b).nlos_gains)):
        r.check(not np.allclose(outs[0], outs[1]) or not np.any(outs[0]), "realizations are independent")
    # defaults: carrier frequency and sampling rate of the transmitter
    s = r1.sample(a, b)
    r.equal((s.carrier_frequency, s.bandwidth), (a.carrier_frequency, a.sampling_rate), "default carrier and bandwidth")
    # gain scales the power
    c3, c4 = channel(m, bw, gain=4 * m["gain"]), channel(m, bw)
    s3, s4 = c3.realize().sample(a, b, 0.0, fc, bw), c4.realize().sample(a, b, 0.0, fc, bw)
    r.close(nd(s3.propagate(sig)), 2 * nd(s4.propagate(sig)), "gain is a power factor", rtol=1e-9)
    r.close(s3.expected_energy_scale, 4 * s4.expected_energy_scale, "expected energy scales with gain", rtol=1e-9)
    if m["kind"] in ("spatial", "random", "fixed"):
        want = m["gain"] * ((1 / (4 * PI * fc * s4.delay)) ** 2 if m["loss"] and s4.delay > 0 else 1.0)
        r.close(s4.expected_energy_scale, want, "expected energy of delay channels", rtol=1e-9, atol=0)
    elif m["kind"] == "ideal":
        r.close(s4.expected_energy_scale, m["gain"], "expected energy of ideal channels", rtol=1e-9)
    else:
        r.close(s4.expected_energy_scale, m["gain"] * np.sum(c4.power_profile), "expected energy of fading channels", rtol=1e-9)
    z = channel(m, bw, gain=0.0).realize().sample(a, b, 0.0, fc, bw).propagate(sig)
    r.check(z.num_streams == M and not np.any(nd(z)), "zero gain channels deliver nothing")
    # one-step propagation
    c5, c6 = channel(m, bw), channel(m, bw)
    y = c5.propagate(sig, a, b, c["t"])
    r.equal(nd(y), nd(c6.realize().sample(a, b, c["t"], fc, bw).propagate(sig)), "propagate equals realize, sample, propagate")
    # hooks
    seen = []
    hooks = [
        c5.add_sample_hook(lambda q: seen.append(("any", q))), c5.add_sample_hook(lambda q: seen.append(("a>", q)), transmitter=a),
        c5.add_sample_hook(lambda q: seen.append((">b", q)), receiver=b), c5.add_sample_hook(lambda q: seen.append(("b>a", q)), transmitter=b, receiver=a),
    ]
    r.equal(c5.sample_hooks, set(hooks), "registered hooks")
    q = c5.realize()
    s = q.sample(a, b, 0.0, fc, bw)
    r.equal((sorted(n for n, _ in seen), all(v is s for _, v in seen)), ([">b", "a>", "any"], True), "hooks of the forward link")
    seen.clear()
    t = q.reciprocal_sample(s, b, a, 0.0, fc, bw)
    r.equal((sorted(n for n, _ in seen), all(v is t for _, v in seen)), (["any", "b>a"], True), "hooks of the reciprocal link")
    for h in hooks:
        c5.remove_sample_hook(h)
    seen.clear()
    c5.realize().sample(a, b)
    r.equal(seen, [], "removed hooks stay silent")


@check.facet("reciprocity", R(m=model, a=dev, b=dev, na=st.integers(1, 4), nb=st.integers(1, 4), fc=logfloats(1e8, 1e11), bw=logfloats(1e4, 1e9), seed=seeds), quick=250, thorough=8000, rule="several antennas at either device")
def reciprocity(c, r):
    fc, bw, m = c["fc"], c["bw"], c["m"]
    a, b = device(c["a"], fc, bw, c["na"]), device(c["b"], fc, bw, c["nb"])
    if not usable(m, a, b) or not usable(m, b, a):
        return
    r.cls(m["kind"])
    r.nontrivial(c["na"] > 1 and c["nb"] > 1)
    q = channel(m, bw).realize()
    s = q.sample(a, b, 0.0, fc, bw)
    H = np.asarray(s.state(6, 64).dense_state())
    ts = [q.reciprocal_sample(s, b, a, 0.0, fc, bw), q.reciprocal_sample(s, b.state(0.0), a.state(0.0), fc, bw),
          q.reciprocal_sample(s, b, a, carrier_frequency=fc, bandwidth=bw), q.reciprocal_sample(s, b.state(0.0), a.state(0.0), carrier_frequency=fc, bandwidth=bw)]
    x = cmat(c["seed"], c["nb"], 10)
    for t in ts:
        G = np.asarray(t.state(6, 64).dense_state())
        r.close(G, H.transpose(1, 0, 2, 3), "reciprocal channel state", rtol=1e-9, atol=0)
        y = np.asarray(t.propagate(DenseSignal.FromNDArray(x, bw, fc)).to_dense()).view(np.ndarray)
        z = np.asarray(t.state(10, 4096).propagate(DenseSignal.FromNDArray(x, bw, fc))).view(np.ndarray)
        L = max(y.shape[1], z.shape[1])
        p = lambda u: np.concatenate([u, np.zeros((u.shape[0], L - u.shape[1]))], axis=1)
        r.close(p(y), p(z), "reciprocal propagation", rtol=1e-9, atol=0)
        r.equal((t.num_transmit_antennas, t.num_receive_antennas), (c["nb"], c["na"]), "antennas of the reciprocal link")


# ------------------------------------------------------------------------------------------------
# 3GPP TR 38.901 table 7.7.2, 3GPP TR 25.943 tables 5.2 to 5.4
TAB = {
    "A": (
        [0, .3819, .4025, .5868, .4610, .5375, .6708, .5750, .7618, 1.5375, 1.8978, 2.2242, 2.1718, 2.4942, 2.5119, 3.0582, 4.0810, 4.4579, 4.5695, 4.7966, 5.0066, 5.3043, 9.6586],
        [-13.4, 0, -2.2, -4, -6, -8.2, -9.9, -10.5, -7.5, -15.9, -6.6, -16.7, -12.4, -15.2, -10.8, -11.3, -12.7, -16.2, -18.3, -18.9, -16.6, -19.9, -29.7], None),
    "B": (
        [0, .1072, .2155, .2095, .2870, .2986, .3752, .5055, .3681, .3697, .5700, .5283, 1.1021, 1.2756, 1.5474, 1.7842, 2.0169, 2.8294, 3.0219, 3.6187, 4.1067, 4.2790, 4.7834],
        [0, -2.2, -4, -3.2, -9.8, -1.2, -3.4, -5.2, -7.6, -3, -8.9, -9, -4.8, -5.7, -7.5, -1.9, -7.6, -12.2, -9.8, -11.4, -14.9, -9.2, -11.3], None),
    "C": (
        [0, .2099, .2219, .2329, .2176, .6366, .6448, .6560, .6584, .7935, .8213, .9336, 1.2285, 1.3083, 2.1704, 2.7105, 4.2589, 4.6003, 5.4902, 5.6077, 6.3065, 6.6374, 7.0427, 8.6523],
        [-4.4, -1.2, -3.5, -5.2, -2.5, 0, -2.2, -3.9, -7.4, -7.1, -10.7, -11.1, -5.1, -6.8, -8.7, -13.2, -13.9, -13.9, -15.8, -17.1, -16, -15.7, -21.6, -22.8], None),
    "D": (
        [0, .035, .612, 1.363, 1.405, 1.804, 2.596, 1.775, 4.042, 7.937, 9.424, 9.708, 12.525],
        [0, -18.8, -21, -22.8, -17.9, -20.1, -21.9, -22.9, -27.8, -23.6, -24.8, -30.0, -27.7], 13.3),
    "E": (
        [0, .5133, .5440, .5630, .5440, .7112, 1.9092, 1.9293, 1.9589, 2.6426, 3.7136, 5.4524, 12.0034, 20.6519],
        [0, -15.8, -18.1, -19.8, -22.9, -22.4, -18.6, -20.8, -22.6, -22.3, -25.6, -20.2, -29.8, -29.2], 22.0),
    "URBAN": (
        [0, .217, .512, .514, .517, .674, .882, 1.230, 1.287, 1.311, 1.349, 1.533, 1.535, 1.622, 1.818, 1.836, 1.884, 1.943, 2.048, 2.140],
        [-5.7, -7.6, -10.1, -10.2, -10.2, -11.5, -13.4, -16.3, -16.9, -17.1, -17.4, -19.0, -19.0, -19.8, -21.5, -21.6, -22.1, -22.6, -23.5, -24.3], None),
    "RURAL": (
        [0, .042, .101, .129, .149, .245, .312, .410, .469, .528],
        [-5.2, -6.4, -8.4, -9.3, -10.0, -13.1, -15.3, -18.5, -20.4, -22.4], None),
    "HILLY": (
        [0, .356, .441, .528, .546, .609, .625, .842, .916, .941, 15.0, 16.172, 16.492, 16.876, 16.882, 16.978, 17.615, 17.827, 17.849, 18.016],
        [-3.6, -8.9, -10.2, -11.5, -11.8, -12.7, -13.0, -16.2, -17.3, -17.7, -17.6, -22.7, -24.1, -25.8, -25.8, -26.2, -29.0, -29.9, -30.0, -30.7], None),
}


@check.facet("profiles", R(name=st.sampled_from(sorted(TAB) + ["exp"]), rms=logfloats(1e-9, 1e-5), ratio=logfloats(0.3, 20), fd=floats(0, 1e3), gain=logfloats(0.1, 10), seed=seeds, n=st.integers(1, 20)),
             quick=60, thorough=1500, rule="all", explicit=[dict(name=n, rms=1e-7, ratio=1.0, fd=10.0, gain=1.0, seed=1, n=8) for n in sorted(TAB)])
def profiles(c, r):
    """predefined power delay profiles"""
    r.nontrivial(True)
    r.cls(c["name"])
    kw = dict(doppler_frequency=c["fd"], gain=c["gain"], seed=c["seed"], num_sinusoids=c["n"])
    if c["name"] == "exp":
        ch = Exponential(c["rms"], c["rms"] * c["ratio"], **kw)
        p, d = np.asarray(ch.power_profile), np.asarray(ch.delays)
        r.close(d, np.arange(len(d)) * c["rms"], "equidistant taps", rtol=1e-9, atol=0)
        q = p[1] / p[0] if len(p) > 1 else 0.0
        r.close(p, p[0] * q ** np.arange(len(p)), "exponential decay", rtol=1e-9)
        # the untruncated geometric profile has the requested root mean square delay spread
        r.close(np.sqrt(q) / (1 - q) if len(p) > 1 else c["ratio"], c["ratio"], "root mean square delay", rtol=1e-6)
        r.check(p[-1] * q <= 1.1e-5 * p[0] / max(q, 1e-5) and (len(p) == 1 or p[-1] >= 0.9e-5 * p[0]), "truncation of the profile", (p[-1] / p[0], q))
        return
    t, pw, K = TAB[c["name"]]
    t = np.array(t)
    if c["name"] in TDLType.__members__:
        ch = TDL(TDLType[c["name"]], c["rms"], **kw)
        t = t * c["rms"]
        r.equal(ch.rms_delay, c["rms"], "root mean square delay")
    else:
        ch = Cost259(Cost259Type[c["name"]], **kw)
        t = t * 1e-6
    P = 10 ** (np.array(pw) / 10)
    o = np.argsort(t, kind="stable")
    order = lambda d, p: sorted(zip(np.round(np.asarray(d) / (t.max() or 1), 7), np.round(np.asarray(p), 9)))
    r.close(np.array(order(ch.delays, ch.power_profile)), np.array(order(t, P / P.sum())), "delays and powers", rtol=1e-6)
    if K is not None:
        i = np.argmin(ch.delays)
        want = np.zeros(len(t))
        want[i] = 10 ** (K / 10)
        r.close(np.asarray(ch.rice_factors), want, "rice factors", rtol=1e-9)
        r.close(ch.los_doppler_frequency, 0.7 * c["fd"], "doppler of the line of sight", rtol=1e-9)
    elif c["name"] != "HILLY":
        r.check(not np.any(ch.rice_factors), "rayleigh taps")
        r.equal(ch.los_doppler_frequency, c["fd"], "doppler of the line of sight")
    a = b = SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6)
    s = ch.realize().sample(a, b)
    r.close(s.expected_energy_scale, c["gain"], "profiles are normalized", rtol=1e-9)


@check.facet("statistics", R(taps=taps, n=st.integers(1, 9), seed=seeds, gain=logfloats(0.1, 10), angle=st.one_of(st.none(), floats(-PI, PI)), lo=floats(0, 10), span=floats(0.1, 10), corr=st.sampled_from(sorted(STD)), na=st.sampled_from([1, 2, 4]), nb=st.sampled_from([1, 2, 4])), quick=16, thorough=200, rule="all")
def statistics(c, r):
    """distributions over 400 realizations; thresholds are exceeded with probability below 1e-9 by a correct implementation"""
    r.nontrivial(True)
    fc = bw = 1e6
    a = SimulatedDevice(carrier_frequency=1e9, bandwidth=bw, antennas=SimulatedCustomArray([SimulatedIdealAntenna() for _ in range(c["na"])]))
    b = SimulatedDevice(carrier_frequency=1e9, bandwidth=bw, antennas=SimulatedCustomArray([SimulatedIdealAntenna() for _ in range(c["nb"])]))
    n = 400
    ks = lambda u: max(np.max(np.abs(np.sort(u) - np.arange(1, len(u) + 1) / len(u))), 0)
    lim = lambda k: np.sqrt(11 / k)  # Dvoretzky-Kiefer-Wolfowitz: 2 exp(-22)
    d = RandomDelayChannel((c["lo"] / bw, (c["lo"] + c["span"]) / bw), seed=c["seed"])
    u = np.array([d.realize().sample(a, b).delay * bw for _ in range(n)])
    r.check(np.all(u >= c["lo"] - 1e-9) and np.all(u <= c["lo"] + c["span"] + 1e-9), "random delays within their limits", (u.min(), u.max()))
    r.check(ks((u - c["lo"]) / c["span"]) < lim(n), "random delays are uniform", ks((u - c["lo"]) / c["span"]))
    t = c["taps"]
    K = np.array([np.inf if x[2] < 0 else x[2] for x in t])
    kw = dict(num_sinusoids=c["n"], gain=c["gain"], los_angle=c["angle"])
    args = (np.array([x[0] / bw for x in t]), np.array([x[1] for x in t]), K)
    ch = MultipathFadingChannel(*args, seed=c["seed"], **kw)
    plain = [ch.realize().sample(a, b) for _ in range(n)]
    o = np.argsort(args[0], kind="stable")
    s = plain[0]
    los = np.sqrt(np.where(np.isinf(K), 1.0, K / (1 + np.where(np.isinf(K), 0, K))))
    nlos = np.sqrt(np.where(np.isinf(K), 0.0, 1 / (1 + np.where(np.isinf(K), 0, K)) / c["n"]))
    if len(set(args[0])) == len(t):
        r.close(np.asarray(s.los_gains), los[o], "line of sight gains", rtol=1e-9)
        r.close(np.asarray(s.nlos_gains), nlos[o], "gains of diffuse components", rtol=1e-9)
        r.close(np.asarray(s.power_profile), args[1][o], "power profile", rtol=1e-9)
    r.close(np.asarray(s.los_gains) ** 2 + c["n"] * np.asarray(s.nlos_gains) ** 2, np.ones(len(t)), "unit power of each path", rtol=1e-9)
    for nm, get, lo, hi in (
        ("phases of the line of sight", lambda q: q.los_phases, -PI, PI), ("phases of diffuse components", lambda q: q.nlos_phases, -PI, PI),
        ("angles of diffuse components", lambda q: q.nlos_angles, -PI, PI), ("line of sight angles", lambda q: q.los_angles, 0, 2 * PI),
    ):
        v = np.array([np.asarray(get(q)).ravel() for q in plain])
        if nm == "line of sight angles" and c["angle"] is not None:
            r.close(v, np.full(v.shape, c["angle"]), "fixed line of sight angle", rtol=1e-12)
            continue
        if nm == "line of sight angles":
            v = np.mod(v, 2 * PI)
        r.check(v.min() >= lo - 1e-9 and v.max() <= hi + 1e-9, nm + " within their range", (v.min(), v.max()))
        for j in range(v.shape[1]):
            z = ks((v[:, j] - lo) / (hi - lo))
            r.check(z < lim(n), nm + " are uniform", z)
        if v.shape[1] > 1:
            w = np.exp(1j * v)
            z = np.abs(np.mean(w[:, 0] * w[:, 1].conj()))
            r.check(z < 6 / np.sqrt(n), nm + " are independent", z)
    r.close(np.abs(np.array([np.asarray(q.spatial_response) for q in plain])), np.ones((n, c["nb"], c["na"])), "uncorrelated antennas have unit power", rtol=1e-9)
    # correlation matrices multiply the uncorrelated response of the same seed
    f, g = STD[c["corr"]]
    co = MultipathFadingChannel(*args, seed=c["seed"], antenna_correlation=StandardAntennaCorrelation(CorrelationType[c["corr"]]), **kw)
    S = np.asarray(co.realize().sample(a, b).spatial_response)
    r.close(S, standard(g, c["nb"]) @ np.asarray(s.spatial_response) @ standard(f, c["na"]), "3GPP antenna correlation", rtol=1e-9)
