"""P23 noise models, noise levels and phase noise."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2, kstest

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.channel import IdealChannel
from hermespy.core import DenseSignal, SparseSignal
from hermespy.modem import (
    ChirpFSKWaveform, ElementType, GridElement, GridResource, OFDMWaveform, RectangularWaveform, RootRaisedCosineWaveform, SymbolSection, TransmittingModem,
)
from hermespy.simulation import SimulatedDevice
from hermespy.simulation.modem import EBN0, ESN0
from hermespy.simulation.rf import AWGN, N0, SNR, OscillatorPhaseNoise, NoPhaseNoise, PowerAmplifier, RFSignal, ThermalNoise

check = Check(
    "P23",
    "Noise is additive, white and Gaussian at exactly the configured level",
    assumptions=["Statistical assertions have error probabilities below 1e-10 each."],
)
ALPHA = 1e-11
BOLTZMANN = 1.380649e-23


def raw(s):
    return np.array(np.asarray(s.to_dense()).view(np.ndarray))


def gaussian(r, z, var, what):
    """z: real samples supposedly independent normal of variance var."""
    z = np.asarray(z, float).ravel() / np.sqrt(var)
    q = float(np.sum(z**2))
    lo, hi = chi2.ppf([ALPHA / 2, 1 - ALPHA / 2], z.size)
    r.check(lo <= q <= hi, f"{what}: sample variance {q / z.size:.4f} of the expected, bounds {lo / z.size:.4f}..{hi / z.size:.4f}")
    r.check(abs(z.sum()) <= 7.0 * np.sqrt(z.size), f"{what}: mean {z.mean()} of unit variance samples")
    if z.size >= 200:
        p = kstest(z, "norm").pvalue
        r.check(p > ALPHA, f"{what}: not normally distributed (Kolmogorov p {p:.2e})")


def uncorrelated(r, a, b, what):
    a, b = np.ravel(a), np.ravel(b)
    n = a.size
    if n < 100:
        return
    # products of independent unit variance samples, bounded at more than seven deviations plus the heavy tail
    c = np.vdot(a, b) / np.sqrt(np.vdot(a, a).real * np.vdot(b, b).real)
    r.check(abs(c) <= 8.0 / np.sqrt(n), f"{what}: correlation {abs(c):.4f} of {n} samples")


# --- additive white gaussian noise ---------------------------------------------------
@check.facet(
    "awgn",
    R(kind=st.sampled_from(["dense", "sparse", "rf"]), seed=seeds, sig=seeds, streams=st.integers(1, 3), n=st.one_of(st.integers(0, 40), st.integers(400, 2500)), power=st.one_of(st.just(0.0), logfloats(1e-18, 1e6)), scale=st.sampled_from([0.0, 1.0, 1e-3]),
      fs=logfloats(1, 1e9), fc=st.sampled_from([0.0, 1e9]), delay=st.sampled_from([0.0, 2e-6]), before=st.integers(0, 2)),
    quick=600, thorough=20000,
    rule="a non-empty signal and a positive power",
)
def awgn(c, r):
    g = np.random.default_rng(c["sig"])
    m = c["scale"] * np.sqrt(max(c["power"], 1e-20)) * (g.normal(size=(c["streams"], c["n"])) + 1j * g.normal(size=(c["streams"], c["n"])))
    if c["kind"] == "sparse":
        # two bursts surrounded by silence
        e = c["n"] // 4
        m[:, : e // 2] = 0
        m[:, e : 2 * e] = 0
        if c["n"] == 0:
            return
        s = SparseSignal(m.copy(), c["fs"], c["fc"], 0.0, c["delay"])
        m = raw(s)
    elif c["kind"] == "rf":
        s = RFSignal.FromNDArray(m.copy(), c["fs"], np.full(c["streams"], c["fc"]) + np.arange(c["streams"]), delay=c["delay"])
    else:
        s = DenseSignal.FromNDArray(m.copy(), c["fs"], c["fc"], 0.0, c["delay"])
    model = AWGN(seed=c["seed"])
    for _ in range(c["before"]):
        model.realize(1.0)
    real = model.realize(c["power"])
    r.equal(real.power, c["power"], "realized power")
    y1, y2 = real.add_to(s), real.add_to(s)
    other = model.realize(c["power"]).add_to(s)
    r.close(raw(s), m, "signal after noise has been added to a copy", rtol=0)
    r.close(raw(y1), raw(y2), "the same realization added twice", rtol=0)
    for a in ("sampling_rate", "delay", "num_streams", "num_samples") + (("carrier_frequency",) if c["kind"] != "rf" else ()):
        r.equal(getattr(y1, a), getattr(s, a), f"noisy {a}")
    if c["kind"] == "rf":
        r.equal(list(y1.carrier_frequencies), list(s.carrier_frequencies), "noisy carrier frequencies")
    again = AWGN(seed=c["seed"])
    for _ in range(c["before"]):
        again.realize(1.0)
    r.close(raw(again.add_noise(s, c["power"])), raw(y1), "equally seeded model", rtol=0)
    if c["power"] == 0.0:
        r.close(raw(y1), m, "zero power", rtol=0)
        return
    r.equal(y1.noise_power, c["power"], "reported noise power")
    if c["kind"] == "rf":
        r.equal(list(y1.noise_powers), [c["power"]] * c["streams"], "reported noise powers")
    if m.size == 0:
        return
    r.nontrivial()
    w, o = raw(y1) - m, raw(other) - m
    scale = np.sqrt(c["power"])
    r.check(not np.array_equal(w, o), "two realizations are equal")
    if c["scale"] == 0.0 or scale > 1e-7:
        r.cls("statistics", m.size > 400)
        gaussian(r, w.real, c["power"] / 2, "real part")
        gaussian(r, w.imag, c["power"] / 2, "imaginary part")
        for i in range(c["streams"]):
            gaussian(r, w[i].real, c["power"] / 2, f"real part of stream {i}")
            uncorrelated(r, w[i].real, w[i].imag, "real and imaginary part")
            for lag in (1, 2, 7):
                if c["n"] > lag + 100:
                    uncorrelated(r, w[i, lag:], w[i, :-lag], f"stream {i} and its copy shifted by {lag} samples")
            for j in range(i):
                uncorrelated(r, w[i], w[j], f"streams {i} and {j}")
        uncorrelated(r, w, o, "independent realizations")
        if m.any():
            uncorrelated(r, w, m, "noise and signal")


# --- levels --------------------------------------------------------------------------
@check.facet(
    "levels",
    R(bw=logfloats(1, 1e10), v=logfloats(1e-21, 1e6), how=st.sampled_from(["init", "set", "shift"]), power=logfloats(1e-6, 1e3), gains=st.lists(logfloats(1e-9, 1e3), max_size=2), bad=floats(-5, -0.001)),
    quick=400, thorough=12000,
    rule="a level differing from its initial value or scaled by a channel",
)
def levels(c, r):
    dev = SimulatedDevice(bandwidth=1e6, carrier_frequency=1e9, power=c["power"])
    rx = SimulatedDevice(bandwidth=1e6, carrier_frequency=1e9)
    channel = IdealChannel(gain=1.0)
    for make, want in (
        (lambda v: N0(v), c["v"] * c["bw"]),
        (lambda v: ThermalNoise(v), 4 * 50 * BOLTZMANN * c["v"] * c["bw"]),
        (lambda v: SNR(v, dev), c["power"] / c["v"]),
        (lambda v: SNR(v, dev, channel), c["power"] / c["v"]),
    ):
        lvl = make(c["v"] if c["how"] == "init" else 3.0)
        if c["how"] == "set":
            lvl.level = c["v"]
        elif c["how"] == "shift":
            lvl << c["v"]
        r.equal(lvl.level, c["v"], f"{type(lvl).__name__} level")
        r.close(np.asarray(lvl.get_power(c["bw"])), np.asarray(want), f"{type(lvl).__name__} power", rtol=1e-9)
        for bad in (c["bad"], 0.0) if isinstance(lvl, SNR) else (c["bad"],):
            try:
                lvl.level = bad
                r.fail(f"{type(lvl).__name__} accepted the level {bad}")
            except ValueError:
                pass
        r.equal(lvl.level, c["v"], f"{type(lvl).__name__} level after refusing another one")
    for gain in c["gains"]:
        # the last level follows the expected energy scale of the channel's samples
        channel.gain = gain
        channel.realize().sample(dev, rx)
        r.close(np.asarray(lvl.get_power(c["bw"])), np.asarray(c["power"] / c["v"] * gain), "noise power relative to the power received over the channel", rtol=1e-9)
    dev.power = 2 * c["power"]
    r.close(np.asarray(SNR(c["v"], dev).get_power(c["bw"])), np.asarray(2 * c["power"] / c["v"]), "noise power follows its reference", rtol=1e-9)
    r.nontrivial(c["how"] != "init" or bool(c["gains"]))


WAVEFORMS = st.one_of(
    R(k=st.just("rect"), order=st.sampled_from([2, 4, 16, 64]), n=st.integers(20, 60)),
    R(k=st.just("rrc"), order=st.sampled_from([2, 4, 16, 64]), n=st.integers(20, 60), roll=floats(0.2, 1.0)),
    R(k=st.just("fsk"), order=st.sampled_from([2, 4, 16]), n=st.integers(2, 12), chirp=st.integers(40, 90)),
    R(k=st.just("ofdm"), order=st.sampled_from([2, 4, 16]), n=st.integers(1, 5), sub=st.integers(8, 40)),
)


def waveform(p, bw):
    if p["k"] == "rect":
        return RectangularWaveform(num_preamble_symbols=0, num_data_symbols=p["n"], modulation_order=p["order"])
    if p["k"] == "rrc":
        return RootRaisedCosineWaveform(num_preamble_symbols=0, num_data_symbols=p["n"], modulation_order=p["order"], roll_off=p["roll"], filter_length=40)
    if p["k"] == "fsk":
        return ChirpFSKWaveform(chirp_duration=p["chirp"] / bw, freq_difference=bw / p["order"], num_pilot_chirps=0, num_data_chirps=p["n"], guard_interval=0.0, modulation_order=p["order"])
    res = [GridResource(p["sub"], prefix_ratio=0.0, elements=[GridElement(ElementType.DATA, 1)])]
    return OFDMWaveform(res, [SymbolSection(p["n"], [0])], p["sub"], modulation_order=p["order"], dc_suppression=False)


@check.facet(
    "communication_levels",
    R(w=WAVEFORMS, bw=logfloats(1e3, 1e9), v=logfloats(1e-3, 1e5), how=st.sampled_from(["init", "set", "shift"]), modem=st.booleans(), seed=seeds),
    quick=400, thorough=12000,
    rule="more than one bit per symbol",
)
def communication_levels(c, r):
    """E_b/N_0 and E_s/N_0 refer to the energies which are actually transmitted."""
    w = waveform(c["w"], c["bw"])
    ref = w
    if c["modem"]:
        ref = TransmittingModem()
        ref.waveform = w
    g = np.random.default_rng(c["seed"])
    num_bits = w.bits_per_frame(w.num_data_symbols)
    num_symbols = w.num_data_symbols
    energy = []
    for _ in range(6):
        frame = w.place(w.map(g.integers(0, 2, num_bits)))
        # root raised cosines are undersampled at their symbol rate
        os = 8 if c["w"]["k"] == "rrc" else 1
        energy.append(float(np.sum(np.abs(w.modulate(frame, c["bw"], os)) ** 2)) / os)
    energy = np.mean(energy)
    es = energy / num_symbols
    eb = energy / num_bits
    order = c["w"]["order"]
    # random symbols of multi-level constellations deviate from their expectation
    tol = 0.02 if order <= 4 or c["w"]["k"] == "fsk" else 8.0 * 0.65 / np.sqrt(6 * num_symbols) + 0.02
    if c["w"]["k"] == "rrc":
        tol += 0.02 + 3.0 / c["w"]["n"]
    for cls, want in ((EBN0, eb), (ESN0, es)):
        lvl = cls(ref, c["v"]) if c["how"] == "init" else cls(ref)
        if c["how"] == "set":
            lvl.level = c["v"]
        elif c["how"] == "shift":
            lvl << c["v"]
        got = lvl.get_power(c["bw"])
        if tol < 0.9:
            r.check(abs(got * c["v"] / want - 1) <= tol, f"{cls.__name__} noise power {got} of {c['w']['k']}: energy {got * c['v']}, transmitted {want} per {'bit' if cls is EBN0 else 'symbol'}")
        for bad in (0.0, -1.0):
            try:
                lvl.level = bad
                r.fail(f"{cls.__name__} accepted level {bad}")
            except ValueError:
                pass
    r.close(np.asarray(ESN0(ref, c["v"]).get_power(c["bw"]) / EBN0(ref, c["v"]).get_power(c["bw"])), np.asarray(np.log2(order)), "ratio of symbol and bit energies", rtol=1e-9)
    r.nontrivial(order > 2)


# --- noise of radio-frequency blocks ---------------------------------------------------
@check.facet(
    "blocks",
    R(seed=seeds, n0=st.one_of(st.none(), logfloats(1e-12, 1e2)), thermal=st.booleans(), bw=logfloats(1e3, 1e8), n=st.integers(200, 1500), gain=floats(0.0, 4.0), sig=seeds),
    quick=200, thorough=6000,
    rule="a block with a noise level",
)
def blocks(c, r):
    level = None if c["n0"] is None else (ThermalNoise(c["n0"] * 1e20) if c["thermal"] else N0(c["n0"]))
    amp = PowerAmplifier(gain=c["gain"], noise_level=level, noise_model=AWGN(seed=c["seed"]))
    power = 0.0 if level is None else (4 * 50 * BOLTZMANN * c["n0"] * 1e20 if c["thermal"] else c["n0"]) * c["bw"]
    g = np.random.default_rng(c["sig"])
    x = (g.normal(size=(1, c["n"])) + 1j * g.normal(size=(1, c["n"]))) * max(power, 1e-9) ** 0.5
    real = amp.realize(c["bw"], 1, 1e9)
    y = amp.propagate(real, RFSignal.FromNDArray(x.copy(), c["bw"], np.array([1e9])))
    w = raw(y) - c["gain"] * x
    if power == 0.0:
        r.close(raw(y), c["gain"] * x, "noiseless block", rtol=1e-12)
        return
    r.nontrivial()
    gaussian(r, np.concatenate([w.real, w.imag], axis=1), power / 2, "noise added by a block")
    r.close(np.asarray(y.noise_powers), np.asarray([power]), "noise power reported by a block", rtol=1e-9)


# --- phase noise -----------------------------------------------------------------------
@check.facet(
    "phase_noise",
    R(seed=seeds, sig=seeds, fs=logfloats(1e3, 1e9), n=st.integers(1, 200), streams=st.integers(1, 3), w=st.tuples(st.sampled_from([0.0, 0.3, 1.0]), st.sampled_from([0.0, 0.3, 1.0]), st.sampled_from([0.0, 0.3, 1.0])), std=floats(0.02, 0.45), fc=st.sampled_from([0.0, 1e9])),
    quick=400, thorough=12000,
    rule="several noise components over many samples",
)
def phase_noise(c, r):
    """Phases follow the process with the spectrum K0 + K2/f^2 + K3/f^3."""
    n, T = c["n"], 1 / c["fs"]
    h = np.ones(n)
    for k in range(1, n):
        h[k] = h[k - 1] * (k + 0.5) / k
    A2 = np.tril(np.ones((n, n)))
    A3 = np.zeros((n, n))
    for k in range(n):
        A3[k:, k] = h[: n - k]
    # Scale the components such that the largest standard deviation stays well within half a turn
    budget = np.array(c["w"], float)
    budget = budget / max(budget.sum(), 1e-9)
    var = budget * c["std"] ** 2
    K0 = var[0] * T
    K2 = var[1] / n / (4 * np.pi**2 * T)
    K3 = var[2] / np.sum(h**2) / (8 * np.pi**3 * T**2)
    cov = var[0] * np.eye(n) + var[1] / n * A2 @ A2.T + var[2] / np.sum(h**2) * A3 @ A3.T
    model = OscillatorPhaseNoise(K0, K2, K3, seed=c["seed"])
    g = np.random.default_rng(c["sig"])
    x = np.exp(1j * g.uniform(0, 2 * np.pi, (c["streams"], n))) * g.uniform(0.5, 2.0, (c["streams"], n))
    s = RFSignal.FromNDArray(x.copy(), c["fs"], np.full(c["streams"], c["fc"]))
    real = model.realize(c["fs"], 1)
    y = real.add_noise(s)
    r.close(raw(s), x, "signal after phase noise has been added to a copy", rtol=0)
    r.close(raw(real.add_noise(s)), raw(y), "the same realization applied twice", rtol=0)
    r.close(np.abs(raw(y)), np.abs(x), "envelope under phase noise", rtol=1e-9)
    for a in ("sampling_rate", "carrier_frequency", "delay", "num_streams", "num_samples"):
        r.equal(getattr(y, a), getattr(s, a), f"{a} under phase noise")
    r.equal(list(y.carrier_frequencies), list(s.carrier_frequencies), "carrier frequencies under phase noise")
    twin = OscillatorPhaseNoise(K0, K2, K3, seed=c["seed"]).realize(c["fs"], 1).add_noise(s)
    r.close(raw(twin), raw(y), "equally seeded phase noise", rtol=0)
    r.close(raw(NoPhaseNoise().realize(c["fs"], 1).add_noise(s)), x, "ideal oscillator", rtol=0)
    phase = np.angle(raw(y) / x)
    if not budget.any():
        r.close(raw(y), x, "phase noise of zero levels", rtol=0)
        return
    z = np.linalg.solve(np.linalg.cholesky(cov), phase.T).T
    gaussian(r, z, 1.0, "whitened phases")
    nxt = np.angle(raw(model.realize(c["fs"], 1).add_noise(s)) / x)
    z2 = np.linalg.solve(np.linalg.cholesky(cov), nxt.T).T
    r.check(not np.allclose(z, z2), "two realizations are equal")
    uncorrelated(r, z, z2, "independent realizations of phase noise")
    for i in range(1, c["streams"]):
        uncorrelated(r, z[i], z[0], "phases of streams")
    r.nontrivial(np.count_nonzero(budget) > 1 and n > 50)


@check.facet(
    "phase_spectrum",
    R(k0=logfloats(1e-15, 1e-9), k2=logfloats(1e-3, 1e2), k3=logfloats(1e2, 1e6), lo=floats(2, 4), span=floats(1.5, 5), n=st.integers(5, 20)),
    quick=100, thorough=4000,
    rule="every case",
)
def phase_spectrum(c, r):
    """Levels are recovered from a measured spectrum."""
    f = np.logspace(c["lo"], c["lo"] + c["span"], c["n"])
    psd = c["k0"] + c["k2"] / f**2 + c["k3"] / f**3
    p = OscillatorPhaseNoise.FromPSD(f, psd)
    fit = p.K0 + p.K2 / f**2 + p.K3 / f**3
    r.close(fit, psd, "spectrum of the fitted oscillator", rtol=0, atol=1e-3 * psd.max())
    for k in (p.K0, p.K2, p.K3):
        r.check(k >= 0, "negative phase noise level")
    r.nontrivial()
