"""P18 joint communication and sensing."""
import numpy as np
from hypothesis import strategies as st
from scipy.constants import speed_of_light

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.beamforming import ConventionalBeamformer
from hermespy.channel import FixedCrossSection, MultiTargetRadarChannel, VirtualRadarTarget
from hermespy.core import AntennaMode, Signal, Transformation
from hermespy.jcas import MatchedFilterJcas, OFDMRadar
from hermespy.modem import (
    Alamouti, ElementType, GridElement, GridResource, OFDMWaveform, PrefixType, ReceivingModem, RootRaisedCosineWaveform, SymbolSection,
)
from hermespy.radar import MaxDetector
from hermespy.simulation import SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, StaticTrajectory

check = Check("P18", "Joint operators sense targets with and decode bits from the same frame")

C, PI = speed_of_light, np.pi


def raw(s):
    return np.array(np.asarray(s.to_dense()).view(np.ndarray))


def vector(az, ze):
    return np.array([np.cos(az) * np.sin(ze), np.sin(az) * np.sin(ze), np.cos(ze)])


def twin(r, device, op, signal, rec, what):
    """Decoding is no different from a modem receiving the same frame."""
    modem = ReceivingModem(waveform=op.waveform, seed=1)
    modem.receive_signal_coding = op.receive_signal_coding
    modem.receive_symbol_coding = op.receive_symbol_coding
    modem.encoder_manager = op.encoder_manager
    device.receivers.add(modem)
    ref = modem.receive(signal, device.state(), notify=False)
    r.equal(np.asarray(rec.bits), np.asarray(ref.bits), f"{what}: decoded bits")
    r.close(rec.equalized_symbols.raw, ref.equalized_symbols.raw, f"{what}: equalized symbols")


matched = R(
    seed=seeds, B=logfloats(1e6, 1e9), osf=st.integers(1, 4), fc=logfloats(1e9, 8e10), order=st.sampled_from([2, 4, 16]), symbols=st.integers(20, 80), roll=floats(0.1, 1.0),
    mode=st.sampled_from(["single", "single", "beam", "alamouti"]), ants=st.integers(2, 4), rxonly=st.integers(0, 2),
    target=st.tuples(floats(-3.1, 3.1), floats(0.05, 3.0)), probes=st.lists(st.tuples(floats(-3.1, 3.1), floats(0.05, 3.0)), min_size=1, max_size=4),
    delay=st.integers(0, 40), span=st.integers(1, 60), vel=floats(-1, 1), vmax=st.sampled_from([0.0, 0.3, 1.0, 2.0]), vsteps=st.integers(1, 9), frac=floats(0.05, 0.95),
    min=floats(0.0, 0.9), amp=logfloats(1e-3, 1e3), extra=st.integers(0, 120), noise=st.sampled_from([0.0, 0.0, 0.1]),
)


@check.facet("matched", matched, quick=90, thorough=5000, rule="echoes of a moving target or several probed directions", shards=2)
def matched_filter(c, r):
    fs = c["B"] * c["osf"]
    res = C / (2 * fs)
    g = np.random.default_rng(c["seed"])
    # an integer number of bins is ambiguous to rounding, hence the fraction
    max_range = (c["span"] + c["frac"]) * res
    wave = RootRaisedCosineWaveform(num_preamble_symbols=0, num_postamble_symbols=0, num_data_symbols=2 * c["symbols"], roll_off=c["roll"], modulation_order=c["order"])
    frame = wave.frame_duration(c["B"])
    # the scale of resolvable velocities: a full turn of phase over the frame
    v0 = C / c["fc"] / (2 * frame)
    vmax, vres = c["vmax"] * v0 * c["vsteps"], max(2 * c["vmax"] * v0, 1e-3 * v0) * 0.999
    op = MatchedFilterJcas(max_range, waveform=wave, max_velocity=vmax, velocity_resolution=vres, min_range=c["min"] * (c["span"] - 1) * res, detector=MaxDetector(), seed=c["seed"])
    wl = C / c["fc"]
    n = {"single": 1, "beam": c["ants"], "alamouti": 2}[c["mode"]]
    q = g.normal(scale=0.6 * wl, size=(n + (c["rxonly"] if n > 1 else 0), 3))
    arr = SimulatedCustomArray([SimulatedIdealAntenna(mode=AntennaMode.DUPLEX if i < n else AntennaMode.RX, pose=Transformation.From_Translation(p)) for i, p in enumerate(q)])
    device = SimulatedDevice(carrier_frequency=c["fc"], bandwidth=c["B"], oversampling_factor=c["osf"], antennas=arr, seed=c["seed"])
    device.add_dsp(op)
    probes = [tuple(c["target"])] + [tuple(p) for p in c["probes"]]
    if n > 1 or c["noise"] > 0:
        bf = ConventionalBeamformer()
        bf.probe_focus_points = np.array(probes)[:, None, :]
        op.receive_beamformer = bf
    else:
        probes = [(0.0, 0.0)]
    if c["mode"] == "beam":
        op.transmit_signal_coding[0] = ConventionalBeamformer()
        op.receive_signal_coding[0] = ConventionalBeamformer()
    elif c["mode"] == "alamouti":
        op.transmit_symbol_coding[0] = Alamouti()
        op.receive_signal_coding[0] = ConventionalBeamformer()
    state = device.state()
    tx = op.transmit(state)
    x = raw(tx.signal)
    r.equal(x.shape[0], n, "streams of the transmission")
    phases = lambda p: np.exp(2j * PI / wl * q @ vector(*p))
    # the echo of a far target, received by all antennas
    delay = min(c["delay"], c["span"])
    vel = c["vel"] * max(vmax, 0.0)
    d = vector(*c["target"])
    a = np.exp(2j * PI / wl * q @ d)
    s = a[:n] @ x if n > 1 else x[0]
    length = max(delay + x.shape[1], 1)
    y = np.zeros(length, complex)
    y[delay : delay + x.shape[1]] = s
    y *= np.exp(2j * PI * (2 * vel / wl) * np.arange(length) / fs) * c["amp"]
    y = (a[:, None] if n > 1 else np.ones((1, 1))) * y[None, :]
    y = np.concatenate([y, np.zeros((y.shape[0], c["extra"]))], axis=1)
    if c["noise"] > 0:
        y = y + c["amp"] * c["noise"] * (g.normal(size=y.shape) + 1j * g.normal(size=y.shape))
    sig = Signal.Create(y, fs, carrier_frequency=c["fc"])
    rec = op.receive(sig, state)
    cube = rec.cube
    r.nontrivial((abs(vel) > v0 and delay > 0) or len(probes) > 1 and n > 1)
    r.cls("several streams", n > 1)
    r.cls("dedicated receive antennas", len(q) > n)
    r.cls("single stream probing directions", n == 1 and len(probes) > 1)
    # bins
    r.close(op.range_resolution(fs), res, "range resolution")
    lo = int(np.ceil(op.min_range / res - 1e-9))
    r.close(cube.range_bins, np.arange(lo, c["span"]) * res, "range bins")
    nv = len(cube.doppler_bins)
    if vmax == 0 or 2 * vmax < vres:
        r.close(cube.velocity_bins, [0.0], "single velocity bin", atol=1e-9)
    else:
        r.close(cube.velocity_bins[[0, -1]], [-vmax, vmax], "velocity span", rtol=1e-9)
        steps = np.diff(cube.velocity_bins)
        r.close(steps, np.full(nv - 1, steps[0]), "velocity spacing", rtol=1e-6)
        r.check(vres * (1 - 1e-9) <= steps[0] < 2 * vres + 1e-9, f"velocity spacing {steps[0]} for a resolution of {vres}")
    r.close(cube.angle_bins, np.array(probes), "probed directions")
    # ambiguity function of the transmitted frame towards each direction
    pad = np.concatenate([y, np.zeros((y.shape[0], c["span"] + x.shape[1]))], axis=1)
    want = np.empty(cube.data.shape)
    for i, p in enumerate(probes):
        w = phases(p)
        sp = w[:n] @ x if n > 1 else x[0]
        yp = w.conj() @ pad / len(q) if len(q) > 1 else pad[0]
        for j, v in enumerate(cube.velocity_bins):
            ref = sp * np.exp(2j * PI * (2 * v / wl) * np.arange(x.shape[1]) / fs)
            want[i, j] = [abs(np.vdot(ref, yp[k : k + x.shape[1]])) ** 2 for k in range(lo, c["span"])]
    if want.size and want.max() > 0:
        r.close(cube.data / cube.data.max(), want / want.max(), "sensing by the matched filter", rtol=1e-6)
        r.close(cube.data.max(), want.max() / x.shape[1], "power of the radar cube", rtol=1e-6)
        i = np.unravel_index(np.argmax(want), want.shape)
        point = rec.cloud.points[0]
        if np.sort(want.ravel())[-2:][0] < 0.999 * want.max() or want.size == 1:
            r.close(point.position, cube.range_bins[i[2]] * vector(*probes[i[0]]), "position of the detection", rtol=1e-9, scale=max_range)
        if n == 1 and nv == 1 and vel == 0 and lo <= delay < c["span"] and c["noise"] == 0:
            r.equal(lo + i[2], delay, "delay of the target")
            r.cls("resting target located")
    twin(r, device, op, sig, rec, "matched filter")


@check.facet("before", R(kind=st.sampled_from(["ofdm", "matched"]), seed=seeds), quick=10, thorough=100, rule="always")
def before(c, r):
    op = OFDMRadar(waveform=ofdm(dict(n=16, words=2, ratio=0.25, order=4, refs=0))) if c["kind"] == "ofdm" else MatchedFilterJcas(10.0, waveform=RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=20))
    dev = SimulatedDevice(carrier_frequency=1e9, bandwidth=1e6, oversampling_factor=2)
    dev.add_dsp(op)
    r.nontrivial()
    x = np.random.default_rng(c["seed"]).normal(size=(1, 500)) + 0j
    try:
        op.receive(Signal.Create(x, 2e6, carrier_frequency=1e9), dev.state())
    except RuntimeError:
        return
    r.fail("sensing does not require a preceding transmission")


def ofdm(c):
    els = [GridElement(ElementType.DATA, c["n"])] if c["refs"] == 0 else [GridElement(ElementType.REFERENCE, 1), GridElement(ElementType.DATA, c["refs"])]
    rep = 1 if c["refs"] == 0 else c["n"] // (c["refs"] + 1)
    res = GridResource(rep, PrefixType.CYCLIC, c["ratio"], els)
    return OFDMWaveform([res], [SymbolSection(c["words"], [0])], c["n"], modulation_order=c["order"])


grid = R(
    seed=seeds, B=logfloats(1e6, 1e9), osf=st.integers(1, 4), fc=logfloats(1e9, 8e10), n=st.sampled_from([32, 48, 64, 96, 128]), words=st.one_of(st.integers(1, 9), st.integers(16, 48)), ratio=floats(0.2, 0.6), order=st.sampled_from([2, 4, 16]),
    refs=st.sampled_from([0, 0, 1, 3]), range=floats(0.0, 0.9), vel=floats(-0.95, 0.95), min=st.one_of(st.just(0.0), floats(0.0, 1.0)), amp=logfloats(1e-3, 1e3), chan=st.booleans(), probes=st.integers(0, 3),
)


@check.facet("ofdm", grid, quick=90, thorough=5000, rule="a moving target away from the radar", shards=2)
def ofdm_radar(c, r):
    fs = c["B"] * c["osf"]
    res = C / (2 * c["B"])
    wave = ofdm(c)
    op = OFDMRadar(waveform=wave, detector=MaxDetector(), seed=c["seed"])
    device = SimulatedDevice(carrier_frequency=c["fc"], bandwidth=c["B"], oversampling_factor=c["osf"], seed=c["seed"])
    device.add_dsp(op)
    angles = np.zeros((1, 2))
    if c["probes"]:
        g = np.random.default_rng(c["seed"])
        angles = np.stack([g.uniform(-PI, PI, c["probes"]), g.uniform(0, PI, c["probes"])], axis=1)
        op.receive_beamformer = ConventionalBeamformer()
        op.receive_beamformer.probe_focus_points = angles[:, None, :]
    frame = wave.frame_duration(c["B"])
    word = frame / c["words"]
    vres = C / c["fc"] / (2 * frame)
    # the cyclic prefix bounds the delay of echoes
    prefix = int(c["ratio"] * c["n"])
    k = int(c["range"] * prefix * c["osf"])
    rng = k / fs * C / 2
    vel = c["vel"] * (c["words"] // 2) * vres
    # inter-carrier interference remains small
    lim = 0.12 * c["B"] / c["n"] * C / c["fc"] / 2
    vel = float(np.clip(vel, -lim, lim))
    r.nontrivial(abs(vel) > vres and rng > res)
    r.cls("odd words", c["words"] % 2 == 1)
    op.min_range = c["min"] * rng
    amp = 1.0 if k == 0 and vel == 0 else c["amp"]
    r.close(op.max_range(c["B"]), C * c["n"] / (2 * c["B"]), "maximum range", rtol=1e-9)
    r.close(op.range_resolution(c["B"]), res, "range resolution", rtol=1e-9)
    r.close(op.max_relative_doppler(c["B"]), 1 / (4 * word), "maximum doppler", rtol=1e-9)
    r.close(op.relative_doppler_resolution(c["B"]), 1 / (2 * frame), "doppler resolution", rtol=1e-9)
    state = device.state()
    if c["chan"]:
        ch = MultiTargetRadarChannel(attenuate=False, seed=c["seed"])
        ch.add_target(VirtualRadarTarget(FixedCrossSection(1.0), trajectory=StaticTrajectory(Transformation.From_Translation(np.array([0.0, 0.0, max(rng, 0.01 * res)])), np.array([0.0, 0.0, vel]))))
        out = device.transmit()
        bits = out.operator_transmissions[0].bits
        rec = device.receive(ch.propagate(out, device, device)).operator_receptions[0]
        amp = None
    else:
        tx = op.transmit(state)
        bits = tx.bits
        x = raw(tx.signal)[0]
        y = np.concatenate([np.zeros(k), x, np.zeros(5)])
        y = amp * y * np.exp(2j * PI * (2 * vel * c["fc"] / C) * np.arange(len(y)) / fs)
        sig = Signal.Create(y[None, :], fs, carrier_frequency=c["fc"])
        rec = op.receive(sig, state)
    cube = rec.cube
    lo = int(np.ceil(op.min_range / res - 1e-9))
    r.cls("minimum range excludes bins", lo > 0)
    r.equal(cube.data.shape, (len(angles), c["words"], c["n"] - lo), "shape of the radar cube")
    r.close(cube.angle_bins, angles, "probed directions")
    r.close(cube.range_bins, np.arange(lo, c["n"]) * res, "range bins", rtol=1e-9)
    dop = np.sort(cube.velocity_bins)
    r.check(np.min(np.abs(dop)) <= 1e-9 * vres, "no bin represents resting targets")
    if c["words"] > 1:
        r.close(np.diff(dop), np.full(c["words"] - 1, vres), "spacing of velocity bins", rtol=1e-9)
    r.check(np.max(np.abs(dop)) <= vres * c["words"] / 2 * (1 + 1e-9), "bins beyond the maximum velocity")
    for a in range(1, len(angles)):
        r.close(cube.data[a], cube.data[0], "a single antenna can not tell directions apart")
    if c["refs"] in (0, 1, 3) and c["n"] % (c["refs"] + 1 if c["refs"] else 1) == 0:
        i = np.unravel_index(np.argmax(cube.data), cube.data.shape)
        # rotated phases within a word move the target by up to a word's drift
        r.check(abs(cube.range_bins[i[2]] - max(rng, op.min_range)) <= 1.01 * res, f"target at {rng} m seen at {cube.range_bins[i[2]]} m, resolution {res}")
        r.check(abs(cube.velocity_bins[i[1]] - vel) <= 0.75 * vres, f"target of {vel} m/s seen at {cube.velocity_bins[i[1]]} m/s, resolution {vres}")
        p = rec.cloud.points
        r.equal(len(p), 1, "number of detected points")
        r.close(np.linalg.norm(p[0].position), cube.range_bins[i[2]], "range of the detection", rtol=1e-9, scale=rng + res)
        r.close(p[0].power, cube.data[i], "power of the detection")
        if amp is not None:
            r.check(0.3 * amp <= cube.data.max() / c["words"] <= 1.3 * amp, f"peak {cube.data.max()} of {c['words']} coherent words scaled by {amp}")
    if not c["chan"]:
        twin(r, device, op, sig, rec, "ofdm")
        if k == 0 and vel == 0:
            r.equal(np.asarray(rec.bits), np.asarray(bits), "bits of an undistorted frame")
            r.cls("undistorted")
