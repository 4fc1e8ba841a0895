"""P13 beamforming."""
import numpy as np
from hypothesis import strategies as st
from scipy.constants import speed_of_light

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, logfloats

from hermespy.beamforming import (
    BeamformingReceiver, BeamformingTransmitter, CaponBeamformer, ConventionalBeamformer, CoordinateFocus, NullSteeringBeamformer, SphericalFocus,
)
from hermespy.channel import SpatialDelayChannel
from hermespy.core import AntennaMode, Direction, Signal, SignalReceiver, SignalTransmitter, Transformation
from hermespy.simulation import DeviceFocus, LinearTrajectory, SidelobeEvaluator, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray, StaticTrajectory

check = Check("P13", "Beamformers focus the directions of interest and suppress unwanted ones")

PI = np.pi
angle = floats(-PI, PI)
point = st.fixed_dictionaries(dict(az=angle, ze=floats(0.05, PI - 0.05)))
pose = R(rpy=st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(angle, min_size=3, max_size=3)), pos=st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(floats(-50, 50), min_size=3, max_size=3)))
layout = R(
    kind=st.sampled_from(["uniform", "custom"]), shape=st.tuples(st.integers(1, 4), st.integers(1, 4), st.integers(1, 2)), spacing=floats(0.2, 0.8),
    modes=st.lists(st.sampled_from(["TX", "RX", "DUPLEX", "DUPLEX"]), min_size=2, max_size=9), seed=seeds,
)


def raw(s):
    return np.array(np.asarray(s.to_dense()).view(np.ndarray))


def rotation(rpy):
    r, p, y = rpy
    cx, sx, cy, sy, cz, sz = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    return np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]]) @ np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]) @ np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])


def vector(p):
    return np.array([np.cos(p["az"]) * np.sin(p["ze"]), np.sin(p["az"]) * np.sin(p["ze"]), np.cos(p["ze"])])


class Array:
    """A posed device and the positions of its elements in the local frame."""

    def __init__(self, lay, pos, fc, **kwargs):
        wl = speed_of_light / fc
        self.fc, self.rot, self.pos = fc, rotation(pos["rpy"]), np.array(pos["pos"])
        if lay["kind"] == "uniform":
            x, y, z = lay["shape"]
            d = lay["spacing"] * wl
            self.q = np.array([[i * d, j * d, k * d] for k in range(z) for j in range(y) for i in range(x)]) - 0.0
            arr = SimulatedUniformArray(SimulatedIdealAntenna, d, (x, y, z))
            modes = [AntennaMode.DUPLEX] * len(self.q)
            # element positions as documented by the array itself are subject of P05
            self.q = np.array([np.asarray(a.position).view(np.ndarray) for a in arr.antennas])
        else:
            modes = [AntennaMode[m] for m in lay["modes"]]
            self.q = np.random.default_rng(lay["seed"]).normal(scale=0.7 * wl, size=(len(modes), 3))
            arr = SimulatedCustomArray([SimulatedIdealAntenna(mode=m, pose=Transformation.From_Translation(q)) for m, q in zip(modes, self.q)])
        self.tx = [i for i, m in enumerate(modes) if m in (AntennaMode.TX, AntennaMode.DUPLEX)]
        self.rx = [i for i, m in enumerate(modes) if m in (AntennaMode.RX, AntennaMode.DUPLEX)]
        self.device = SimulatedDevice(carrier_frequency=fc, bandwidth=1e6, oversampling_factor=1, antennas=arr, pose=Transformation.From_RPY(np.array(pos["rpy"]), np.array(pos["pos"])), **kwargs)

    def response(self, idx, p):
        """Phases of a plane wave from / to the local direction at the elements."""
        d = vector(p) if isinstance(p, dict) else p
        return np.exp(2j * PI * self.fc / speed_of_light * (self.q[idx] @ d))


def foci(points, style, arr):
    """The same local directions expressed by different focus objects."""
    out = []
    for i, p in enumerate(points):
        d = vector(p)
        kind = style[i % len(style)]
        if kind == "spherical":
            out.append(SphericalFocus(p["az"], p["ze"]))
        elif kind == "array":
            out.append(SphericalFocus(np.array([p["az"], p["ze"]])))
        elif kind == "local":
            out.append(CoordinateFocus(3.0 * d, "local"))
        elif kind == "direction":
            out.append(CoordinateFocus(Direction.From_Cartesian(arr.rot @ d), "global"))
        elif kind == "global":
            out.append(CoordinateFocus(arr.pos + arr.rot @ (7.0 * d), "global"))
        else:
            out.append(DeviceFocus(SimulatedDevice(pose=Transformation.From_Translation(arr.pos + arr.rot @ (11.0 * d)))))
    return out


styles = st.lists(st.sampled_from(["spherical", "array", "local", "direction", "global", "device"]), min_size=1, max_size=3)


@check.facet("focus", R(pose=pose, p=point, kind=styles, velocity=st.lists(floats(-5, 5), min_size=3, max_size=3), t=floats(0.0, 3.0), seed=seeds), quick=300, thorough=8000,
             rule="posed devices; non-trivial: rotated")
def focus(case, r):
    """Focus points are seen from the focusing device's point of view."""
    arr = Array(dict(kind="custom", modes=["DUPLEX"] * 3, seed=case["seed"]), case["pose"], 1e9)
    d = vector(case["p"])
    state = arr.device.state(case["t"])
    for kind in case["kind"]:
        (f,) = foci([case["p"]], [kind], arr)
        for g in (f, f.copy()):
            az, ze = np.asarray(g.spherical_angles(state), float)
            r.close(vector(dict(az=az, ze=ze)), d, f"direction focused by {kind}", atol=1e-6)
    # moving devices are followed over time
    v = np.array(case["velocity"])
    start = arr.pos + arr.rot @ (20.0 * d)
    target = SimulatedDevice(pose=LinearTrajectory(Transformation.From_Translation(start), Transformation.From_Translation(start + 4 * v), 4.0))
    f = DeviceFocus(target)
    r.check(f.focused_device is target and f.copy().focused_device is target, "focused device")
    w = arr.rot.T @ (start + case["t"] * v - arr.pos)
    az, ze = f.spherical_angles(state)
    r.close(vector(dict(az=az, ze=ze)), w / np.linalg.norm(w), "direction of moving device", atol=1e-6)
    r.nontrivial(any(case["pose"]["rpy"]))
    r.cls("rotated", any(case["pose"]["rpy"]))


def project(points, target):
    """Component of `target` orthogonal to all columns."""
    u, s, _ = np.linalg.svd(points, full_matrices=False)
    u = u[:, s > 1e-9 * s[0]]
    return target - u @ (u.conj().T @ target)


base = dict(layout=layout, pose=pose, fc=logfloats(1e8, 3e10), style=styles, points=st.lists(point, min_size=3, max_size=3), sn=st.integers(1, 20), explicit=st.booleans(), sparse=st.booleans(), seed=seeds)


def stream(case, n=1):
    """A signal of one or two blocks."""
    x = cmat(case["seed"] + 1, n, case["sn"])
    if case["sparse"]:
        return Signal.Create([x, 2 * x[:, : (case["sn"] + 1) // 2]], 1e6, case["fc"], noise_power=0.0, delay=1e-3, offsets=[3, case["sn"] + 9]), [x, 2 * x[:, : (case["sn"] + 1) // 2]]
    return Signal.Create(x, 1e6, case["fc"], noise_power=0.0, delay=1e-3), [x]


def blocks(s):
    return [np.array(b.view(np.ndarray)) for b in s.blocks]


@check.facet("transmit", R(null=st.booleans(), **base), quick=400, thorough=10000, rule="arrays of several transmitting elements; non-trivial: two or more elements in transmission and rotated or with unequal modes")
def transmit(case, r):
    arr = Array(case["layout"], case["pose"], case["fc"])
    N = len(arr.tx)
    if N < 1:
        return
    bf = NullSteeringBeamformer() if case["null"] else ConventionalBeamformer()
    points = case["points"][: bf.num_transmit_focus_points]
    r.equal(bf.num_transmit_focus_points, 3 if case["null"] else 1, "number of focus points")
    r.equal(bf.num_transmit_input_streams(N), 1, "number of input streams")
    fs = foci(points, case["style"], arr)
    state = arr.device.state().transmit_state(None)
    sig, xs = stream(case)
    if case["explicit"]:
        out = bf.encode_streams(sig, N, state, fs if len(fs) > 1 else fs[0])
    else:
        bf.transmit_focus = fs if len(fs) > 1 else fs[0]
        r.equal(len(bf.transmit_focus), len(fs), "stored focus points")
        out = bf.encode_streams(sig, N, state)
    for b, x in zip(blocks(sig), xs):
        r.check(np.array_equal(b, x), "encoding altered the encoded streams")
    r.equal((out.num_streams, out.sampling_rate, out.carrier_frequency, out.delay), (N, 1e6, case["fc"], 1e-3), "parameters of encoded signal")
    r.equal([int(o) for o in out.block_offsets], [int(o) for o in sig.block_offsets], "block offsets of encoded signal")
    a = [arr.response(arr.tx, p) for p in points]
    outs = blocks(out)
    r.equal(len(outs), len(xs), "number of encoded blocks")
    if not case["null"]:
        for b, x in zip(outs, xs):
            r.close(b, np.outer(a[0].conj(), x), "conventional weights", atol=1e-7 * np.sqrt(N) * np.max(abs(x)))
            # every element radiates in phase towards the focused direction
            r.close(a[0] @ b, N * x[0], "field in focused direction", atol=1e-6 * N * np.max(abs(x)))
    else:
        A = np.array(a[1:]).T
        opt = project(A.conj(), a[0].conj())
        gain = np.linalg.norm(opt)
        if gain < 1e-3:
            return
        for b, x in zip(outs, xs):
            m = np.max(abs(x))
            r.close(np.linalg.norm(b, axis=0), abs(x[0]), "power of null steering beamformers", atol=1e-6 * m)
            for k in (1, 2):
                r.close(a[k] @ b, 0 * x[0], f"suppressed direction {k}", atol=1e-6 * m * N)
            r.close(a[0] @ b, gain * x[0], "field in focused direction of null steering beamformers", atol=1e-5 * m * N)
    # invalid configurations are rejected
    for f in (lambda: bf.encode_streams(sig, N, state, fs + fs[:1]), lambda: setattr(bf, "transmit_focus", fs + fs[:1])):
        try:
            f()
        except ValueError:
            pass
        else:
            r.fail("accepted a wrong number of focus points", "count")
    try:
        bf.encode_streams(stream(case, 2)[0], N, state)
    except ValueError:
        pass
    else:
        r.fail("accepted a wrong number of streams", "streams")
    r.cls("null steering", case["null"])
    r.cls("separate elements", len(arr.tx) != len(arr.rx))
    r.nontrivial(N > 1 and (any(case["pose"]["rpy"]) or len(arr.tx) < len(arr.q)))


@check.facet("receive", R(kind=st.sampled_from(["conventional", "capon", "null"]), probes=st.lists(st.lists(point, min_size=3, max_size=3), min_size=1, max_size=3), loading=st.sampled_from([0.0, 1e-3, 0.1, 2.0]), interferers=st.integers(0, 3), probe_style=st.integers(0, 2), **base),
             quick=500, thorough=12000, rule="sums of plane waves; non-trivial: two or more receiving elements, rotated or unequal modes")
def receive(case, r):
    arr = Array(case["layout"], case["pose"], case["fc"])
    N = len(arr.rx)
    if N < 1:
        return
    kind = case["kind"]
    bf = dict(conventional=ConventionalBeamformer, null=NullSteeringBeamformer, capon=lambda: CaponBeamformer(case["loading"]))[kind]()
    F = bf.num_receive_focus_points
    r.equal((F, bf.num_receive_output_streams(N)), (3 if kind == "null" else 1, 1), "number of focus points and outputs")
    points = case["points"][:F]
    state = arr.device.state().receive_state(None)
    a = [arr.response(arr.rx, p) for p in points]
    sig, xs = stream(case)
    spatial = []
    for i, x in enumerate(xs):
        y = np.outer(a[0], x)
        for k in range(case["interferers"]):
            g = np.random.default_rng(case["seed"] + 7 * k)
            y = y + np.outer(arr.response(arr.rx, dict(az=g.uniform(-PI, PI), ze=g.uniform(0, PI))), cmat(case["seed"] + 50 + k + 10 * i, 1, x.shape[1]))
        # a little noise keeps covariances regular
        spatial.append(y + 0.2 * cmat(case["seed"] + 99 + i, N, x.shape[1]))

    def weights(resp, y):
        if kind == "conventional":
            return resp[0] / N
        if kind == "null":
            w = project(np.array(resp[1:]).T, resp[0])
            n = np.linalg.norm(w)
            return None if n < 1e-3 else w / n
        Rm = y @ y.conj().T + case["loading"] * np.eye(N)
        if np.linalg.cond(Rm) > 1e7:
            return None
        v = np.linalg.solve(Rm, resp[0])
        return v / (resp[0].conj() @ v)

    if kind == "capon" and any(weights(a, y) is None for y in spatial):
        return
    s = Signal.Create([y.copy() for y in spatial], 1e6, case["fc"], noise_power=0.0, delay=1e-3, offsets=[int(o) for o in sig.block_offsets]) if case["sparse"] else Signal.Create(spatial[0].copy(), 1e6, case["fc"], noise_power=0.0, delay=1e-3)
    fs = foci(points, case["style"], arr)
    if case["explicit"]:
        out = bf.decode_streams(s, 1, state, fs if F > 1 else fs[0])
    else:
        bf.receive_focus = fs if F > 1 else fs[0]
        r.equal(len(bf.receive_focus), F, "stored focus points")
        out = bf.decode_streams(s, 1, state)
    for b, y in zip(blocks(s), spatial):
        r.check(np.array_equal(b, y), "decoding altered the decoded streams")
    r.equal((out.num_streams, out.sampling_rate, out.carrier_frequency, out.delay), (1, 1e6, case["fc"], 1e-3), "parameters of decoded signal")
    r.equal([int(o) for o in out.block_offsets], [int(o) for o in s.block_offsets], "block offsets of decoded signal")
    outs = blocks(out)
    r.equal(len(outs), len(spatial), "number of decoded blocks")
    for b, y, x in zip(outs, spatial, xs):
        w = weights(a, y)
        if w is None:
            continue
        scale = np.max(abs(y)) * np.sqrt(N) * max(1.0, np.linalg.norm(w) * np.sqrt(N))
        r.close(b[0], w.conj() @ y, f"{kind} beamforming", atol=1e-5 * scale)
    # probing evaluates several focus points at once
    dictionary = np.array([[[p["az"], p["ze"]] for p in ps[:F]] for ps in case["probes"]])
    y = spatial[0]
    resp = [[arr.response(arr.rx, p) for p in ps[:F]] for ps in case["probes"]]
    if case["probe_style"] == 0:
        got = bf.probe(y.copy(), state, dictionary)
    elif case["probe_style"] == 1 or len(dictionary) > 1:
        bf.probe_focus_points = dictionary
        got = bf.probe(y.copy(), state)
    else:
        bf.probe_focus_points = dictionary[0]
        got = bf.probe(y.copy(), state)
    r.equal(got.shape, (len(dictionary), 1, y.shape[1]), "shape of probed samples")
    for g, rs in zip(got, resp):
        w = weights(rs, y)
        if w is not None:
            scale = np.max(abs(y)) * np.sqrt(N) * max(1.0, np.linalg.norm(w) * np.sqrt(N))
            r.close(g[0], w.conj() @ y, f"{kind} probing", atol=1e-5 * scale)
    for f in (lambda: bf.decode_streams(s, 1, state, fs + fs[:1]), lambda: setattr(bf, "receive_focus", fs + fs[:1]), lambda: setattr(bf, "probe_focus_points", np.zeros((2, F + 1, 2)))):
        try:
            f()
        except ValueError:
            pass
        else:
            r.fail("accepted a wrong number of focus points", "count")
    r.cls(kind, True)
    r.nontrivial(N > 1 and (any(case["pose"]["rpy"]) or len(arr.rx) < len(arr.q)))


@check.facet("link", R(layout=layout, a=pose, b=pose, fc=logfloats(1e8, 5e9), mode=st.sampled_from(["operator", "coding"]), direction=st.sampled_from(["tx", "rx"]), p=point, dist=floats(3e4, 1e5), sn=st.integers(2, 20), seed=seeds), quick=200, thorough=4000,
             rule="devices linked by line of sight; non-trivial: two or more elements and rotated")
def link(case, r):
    """Beamforming operators and codings steer the power actually radiated and received over channels."""
    arr = Array(case["layout"], case["a"], case["fc"], seed=1)
    idx = arr.tx if case["direction"] == "tx" else arr.rx
    N = len(idx)
    if N < 1:
        return
    d = vector(case["p"])
    other = SimulatedDevice(carrier_frequency=case["fc"], bandwidth=1e6, oversampling_factor=1, antennas=SimulatedCustomArray([SimulatedIdealAntenna()]), seed=2,
                            pose=Transformation.From_RPY(np.zeros(3), arr.pos + case["dist"] * speed_of_light / case["fc"] * (arr.rot @ d)))
    channel = SpatialDelayChannel(model_propagation_loss=False, seed=3)
    x = cmat(case["seed"], 1, case["sn"])
    # Fields are polarized; compare with the same link of a single element
    powers = []
    bf = ConventionalBeamformer()
    f = DeviceFocus(other)
    sig = Signal.Create(x, 1e6, 0.0)
    if case["direction"] == "tx":
        bf.transmit_focus = f
        if case["mode"] == "operator":
            arr.device.add_dsp(BeamformingTransmitter(sig, bf))
        else:
            arr.device.transmit_coding[0] = bf
            arr.device.add_dsp(SignalTransmitter(sig))
        out = arr.device.transmit()
        got = raw(out.mixed_signal)
        r.close(got, np.outer(arr.response(idx, d).conj(), x), "beamformed transmission", atol=1e-6 * N * np.max(abs(x)))
        p = channel.propagate(out, arr.device, other)
        y = raw(p)
        ref = SimulatedDevice(carrier_frequency=case["fc"], bandwidth=1e6, oversampling_factor=1, antennas=SimulatedCustomArray([SimulatedIdealAntenna()]), pose=Transformation.From_RPY(np.array(case["a"]["rpy"]), arr.pos))
        ref.add_dsp(SignalTransmitter(sig))
        yr = raw(channel.propagate(ref.transmit(), ref, other))
        r.close(np.linalg.norm(y), N * np.linalg.norm(yr), "power received by the focused device", rtol=1e-3, atol=1e-9)
    else:
        bf.receive_focus = f
        if case["mode"] == "operator":
            op = BeamformingReceiver(bf, 1500)
        else:
            arr.device.receive_coding[0] = bf
            op = SignalReceiver(1500)
        arr.device.add_dsp(op)
        other.add_dsp(SignalTransmitter(sig))
        imp = channel.propagate(other.transmit(), other, arr.device)
        rec = arr.device.receive(imp)
        y = raw(rec.operator_receptions[0].signal)
        ref = SimulatedDevice(carrier_frequency=case["fc"], bandwidth=1e6, oversampling_factor=1, antennas=SimulatedCustomArray([SimulatedIdealAntenna()]), pose=Transformation.From_RPY(np.array(case["a"]["rpy"]), arr.pos))
        op2 = SignalReceiver(1500)
        ref.add_dsp(op2)
        yr = raw(ref.receive(channel.propagate(other.transmit(), other, ref)).operator_receptions[0].signal)
        r.equal(y.shape[0], 1, "number of beamformed streams")
        r.close(np.linalg.norm(y), np.linalg.norm(yr), "power received from the focused device", rtol=1e-3, atol=1e-9)
    r.cls(case["direction"] + " " + case["mode"], True)
    r.nontrivial(N > 1 and any(case["a"]["rpy"]))


@check.facet("sidelobe", R(layout=layout, pose=pose, fc=logfloats(1e8, 3e10), p=point, codebook=st.lists(point, min_size=1, max_size=5), rx=st.booleans(), style=styles, sn=st.integers(1, 10), mix=st.booleans(), seed=seeds), quick=150, thorough=3000,
             rule="codebooks of plane waves; non-trivial: two or more elements")
def sidelobe(case, r):
    arr = Array(case["layout"], case["pose"], case["fc"], seed=1)
    idx = arr.rx if case["rx"] else arr.tx
    N = len(idx)
    if N < 1:
        return
    (f,) = foci([case["p"]], case["style"], arr)
    book = np.array([arr.response(idx, p) for p in case["codebook"]])
    ev = SidelobeEvaluator(arr.device, AntennaMode.RX if case["rx"] else AntennaMode.TX, f, book)
    a = arr.response(idx, case["p"])
    x = cmat(case["seed"], 1, case["sn"])
    steer = a if case["rx"] else a.conj()
    y = np.outer(steer, x) + (cmat(case["seed"] + 1, N, case["sn"]) if case["mix"] else 0.0)
    if case["rx"]:
        arr.device.add_dsp(SignalReceiver(case["sn"]))
        arr.device.receive(Signal.Create(y, 1e6, case["fc"]))
        w = np.concatenate([[a], book]).conj()
    else:
        arr.device.add_dsp(SignalTransmitter(Signal.Create(y, 1e6, 0.0)))
        arr.device.transmit()
        w = np.concatenate([[a], book])
    e = np.linalg.norm(w @ y, axis=1) ** 2
    if e[1:].sum() < 1e-3 * e[0]:
        return
    got = ev.evaluate().artifact().to_scalar()
    r.close(got, e[0] / e[1:].sum(), "sidelobe level", rtol=1e-4)
    r.cls("reception", case["rx"])
    r.nontrivial(N > 1)


if __name__ == "__main__":
    check.main()
