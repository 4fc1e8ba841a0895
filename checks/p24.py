"""P24 mutual coupling and transmit-receive isolation."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import chi2

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, logfloats

from hermespy.channel import IdealChannel
from hermespy.core import AntennaMode, DenseSignal, FloatingError, SignalReceiver, SignalTransmitter, SparseSignal, Transformation
from hermespy.simulation import (
    ImpedanceCoupling, PerfectCoupling, PerfectIsolation, SampleOffsetTrigger, SelectiveLeakage, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, SimulationScenario, SpecificIsolation,
)

check = Check("P24", "Coupling and isolation apply exactly the configured matrices", assumptions=["The statistical assertion on random leakage has an error probability below 1e-10."])


def raw(s):
    return np.array(np.asarray(s.to_dense()).view(np.ndarray))


def refused(r, f, what, *errors):
    try:
        f()
    except (errors or (ValueError, RuntimeError)):
        return
    r.fail(f"{what} accepted")


def array(modes):
    return SimulatedCustomArray([SimulatedIdealAntenna(mode=AntennaMode[m], pose=Transformation.From_Translation(np.array([0.1 * i, 0, 0]))) for i, m in enumerate(modes)])


def counts(modes):
    return sum(m != "RX" for m in modes), sum(m != "TX" for m in modes)


def make_signal(case, x):
    if case["sparse"] and np.any(x):
        return SparseSignal(x.copy(), case["fs"], case["fc"], case["noise"], case["delay"])
    return DenseSignal.FromNDArray(x, case["fs"], case["fc"], case["noise"], case["delay"])


def attributes(r, got, s, what):
    r.equal(got.sampling_rate, s.sampling_rate, f"{what}: sampling rate")
    r.equal(got.carrier_frequency, s.carrier_frequency, f"{what}: carrier frequency")
    r.equal(got.delay, s.delay, f"{what}: delay")


def line(r, got, want, what):
    """Compare samples, trailing zeros are not represented by sparse signals."""
    n = max(got.shape[1], want.shape[1])
    pad = lambda x: np.concatenate([x, np.zeros((x.shape[0], n - x.shape[1]))], axis=1)
    r.equal(got.shape[0], want.shape[0], f"{what}: streams")
    r.close(pad(got), pad(want), what, rtol=1e-8, atol=1e-12)


def hermitian(seed, n, lowest, real):
    a = cmat(seed, n, n)
    if real:
        a = a.real
    return a @ a.conj().T / n + lowest * np.eye(n)


def power_of(m, p):
    w, v = np.linalg.eigh(m)
    return (v * np.maximum(w, 0.0) ** p) @ v.conj().T


signals = dict(seed=seeds, n=st.one_of(st.integers(0, 4), st.integers(5, 40)), zeros=st.sampled_from([0.0, 0.0, 0.6]), sparse=st.booleans(), fs=st.sampled_from([1e6, 3e7]), fc=st.sampled_from([0.0, 1e9]), noise=st.sampled_from([0.0, 0.2]), delay=st.sampled_from([0.0, 3e-6]))
modes = st.lists(st.sampled_from(["DUPLEX", "DUPLEX", "TX", "RX"]), min_size=1, max_size=4)


# --- mutual coupling -------------------------------------------------------------------
@check.facet(
    "coupling",
    R(**signals, modes=modes, given=st.tuples(*[st.booleans()] * 5), real=st.booleans(), perfect=st.sampled_from([False, False, False, True]), diagonal=st.booleans(), later=st.booleans()),
    quick=700, thorough=25000,
    rule="a non-zero signal and at least one configured matrix of more than one antenna",
)
def coupling(case, r):
    T, Q = counts(case["modes"])
    dev = SimulatedDevice(antennas=array(case["modes"]), carrier_frequency=1e9)
    state = dev.state()
    s = case["seed"]
    g = case["given"]

    def matrix(i, n, lowest, real):
        m = hermitian(s + i, n, lowest, real)
        return np.diag(np.diag(m)) if case["diagonal"] else m

    ct = matrix(0, T, 0.05, case["real"]) if g[0] else None
    cr = matrix(1, Q, 0.05, case["real"]) if g[1] else None
    # Impedances are symmetric with positive definite resistance
    reactance = lambda i, n: 0.0 if case["real"] else 1j * (lambda a: a + a.T)(cmat(s + i, n, n).real)
    zt = matrix(2, T, 0.5, True) + reactance(12, T) if g[2] else None
    zr = matrix(3, Q, 0.5, True) + reactance(13, Q) if g[3] else None
    zm = matrix(4, Q, 0.5, True) + reactance(14, Q) if g[4] else None
    if case["perfect"]:
        model = PerfectCoupling()
        A, B = np.eye(T), np.eye(Q)
    else:
        names = ("transmit_correlation", "receive_correlation", "transmit_impedance", "receive_impedance", "matching_impedance")
        values = dict(zip(names, (ct, cr, zt, zr, zm)))
        if case["later"]:
            model = ImpedanceCoupling(*[np.eye(7)] * 5)
            for k, v in values.items():
                setattr(model, k, v)
        else:
            model = ImpedanceCoupling(**values)
        for k, v in values.items():
            got = getattr(model, k)
            r.check(got is None if v is None else bool(np.array_equal(got, v)), f"{k} differs from its setting")
            refused(r, lambda: setattr(model, k, np.zeros((2, 3))), f"rectangular {k}", ValueError)
            refused(r, lambda: setattr(model, k, np.zeros(3)), f"one-dimensional {k}", ValueError)
        eye = lambda m, n: np.eye(n) if m is None else m
        _zr, _zm = eye(zr, Q), eye(zm, Q)
        A = power_of(eye(zt, T).real, -0.5) @ power_of(eye(ct, T), 0.5) if T else np.eye(0)
        B = 2 * _zr[0, 0].real * power_of(_zm.real, 0.5) @ np.linalg.inv(_zm + _zr) @ power_of(eye(cr, Q), 0.5) if Q else np.eye(0)
    dev.coupling = model
    r.check(dev.coupling is model, "coupling of a device")
    for n, M, f, what in ((T, A, model.transmit, "transmission"), (Q, B, model.receive, "reception")):
        refused(r, lambda: f(DenseSignal.FromNDArray(np.ones((n + 1, 3), complex), 1e6), state), f"{what} of too many streams", ValueError)
        if n < 1:
            continue
        x = cmat(s + 20, n, case["n"], zeros=case["zeros"])
        sig = make_signal(case, x)
        got = f(sig, state)
        attributes(r, got, sig, f"coupled {what}")
        r.equal(got.noise_power, sig.noise_power, "noise power")
        line(r, raw(got), M @ x, f"coupled {what}")
        line(r, raw(sig), x, f"signal passed to the {what}")
        r.nontrivial(bool(np.any(x)) and n > 1 and any(g) and not case["perfect"])
    r.cls("sparse", case["sparse"])


# --- isolation -------------------------------------------------------------------------
def response(case, T, Q):
    """Isolation model and its impulse response."""
    s = case["seed"]
    kind = case["kind"]
    if kind == "perfect":
        return PerfectIsolation(), np.zeros((Q, T, 1))
    if kind == "specific":
        iso = 10 ** (np.random.default_rng(s + 1).uniform(-2, 10, (Q, T)))
        if case["whole"]:
            iso = np.maximum(1, np.floor(iso)).astype(int)
        return SpecificIsolation(iso), np.asarray(iso, float)[:, :, None] ** -0.5
    h = cmat(s + 2, Q, T * case["taps"]).reshape(Q, T, case["taps"])
    return SelectiveLeakage(h.copy()), h


def convolved(h, x):
    Q, T, L = h.shape
    y = np.zeros((Q, x.shape[1] + L - 1 if x.shape[1] else 0), complex)
    for q in range(Q):
        for t in range(T):
            if x.shape[1]:
                y[q] += np.convolve(h[q, t], x[t])
    return y


isolations = dict(kind=st.sampled_from(["perfect", "specific", "specific", "selective", "selective"]), whole=st.booleans(), taps=st.integers(1, 6))


@check.facet(
    "isolation",
    R(**signals, **isolations, modes=modes, replaced=st.booleans()),
    quick=700, thorough=25000,
    rule="a non-zero signal leaks",
)
def isolation(case, r):
    T, Q = counts(case["modes"])
    if not T or not Q:
        return
    dev = SimulatedDevice(antennas=array(case["modes"]))
    r.check(isinstance(dev.isolation, PerfectIsolation), "default isolation")
    model, h = response(case, T, Q)
    x = cmat(case["seed"] + 3, T, case["n"], zeros=case["zeros"])
    sig = make_signal(case, x)
    refused(r, lambda: model.leak(sig), "leakage of a floating model", FloatingError)
    if case["replaced"] and case["kind"] == "specific":
        wanted = model.isolation
        model.isolation = np.full((Q, T), 7.0)
        model.isolation = wanted
    dev.isolation = model
    r.check(dev.isolation is model and model.device is dev, "isolation of a device")
    got = model.leak(sig)
    r.equal(got.num_streams, Q, "leaking streams")
    r.equal(got.sampling_rate, sig.sampling_rate, "sampling rate of leakage")
    r.equal(got.carrier_frequency, sig.carrier_frequency, "carrier frequency of leakage")
    if case["kind"] != "perfect" and case["n"]:
        r.equal(got.delay, sig.delay, "delay of leakage")
        r.equal(got.noise_power, sig.noise_power, "noise power of leakage")
    line(r, raw(got), convolved(h, x), f"{case['kind']} leakage")
    line(r, raw(sig), x, "leaked signal after computing the leakage")
    refused(r, lambda: model.leak(DenseSignal.FromNDArray(np.ones((T + 1, 2), complex), 1e6)), "leakage of too many streams", ValueError)
    refused(r, lambda: model.leak(None), "missing signal", ValueError)
    if case["kind"] == "specific":
        r.close(model.isolation, h[:, :, 0] ** -2, "specified isolation", rtol=1e-9)
        refused(r, lambda: setattr(model, "isolation", np.ones(3)), "one-dimensional isolation", ValueError)
        for shape in ((Q + 1, T), (Q, T + 1)):
            model.isolation = np.ones(shape)
            refused(r, lambda: model.leak(sig), f"isolation {shape} of {Q} receiving and {T} transmitting antennas", RuntimeError)
        if dev.num_antennas == 1:
            model.isolation = 4.0
            line(r, raw(model.leak(sig)), 0.5 * x, "leakage of scalar isolation")
            model << 16.0
            line(r, raw(model.leak(sig)), 0.25 * x, "leakage of scalar isolation")
        else:
            refused(r, lambda: setattr(model, "isolation", 4.0), "scalar isolation of several antennas", ValueError)
        model.isolation = None
        r.check(model.isolation is None, "removed isolation")
        refused(r, lambda: model.leak(sig), "leakage with removed isolation", RuntimeError)
    if case["kind"] == "selective":
        r.close(model.leakage_response, h, "leakage response", rtol=0)
        refused(r, lambda: SelectiveLeakage(h[0]), "two-dimensional response", ValueError)
    r.cls("sparse", case["sparse"])
    r.nontrivial(bool(np.any(x)) and case["kind"] != "perfect")


# --- devices in a scenario ---------------------------------------------------------------
@check.facet(
    "duplex",
    R(seed=seeds, **isolations, modes=modes, ns=st.lists(st.integers(1, 25), min_size=1, max_size=2), power=st.sampled_from([1.0, 9.0, 1e-3]), separate=st.booleans(), delay=st.sampled_from([0, 5]), coupled=st.booleans()),
    quick=250, thorough=8000,
    rule="a device receives its own leakage",
)
def duplex(case, r):
    """A device without any channel receives exactly its own leakage, unaffected by coupling, scaled by its transmit power."""
    T, Q = counts(case["modes"])
    if not T or not Q:
        return
    fs = 1e7
    scenario = SimulationScenario(default_channel=IdealChannel(0.0), seed=case["seed"])
    dev = scenario.new_device(antennas=array(case["modes"]), bandwidth=fs, oversampling_factor=1, carrier_frequency=1e9, power=case["power"], operator_separation=case["separate"], trigger_model=SampleOffsetTrigger(case["delay"]))
    model, h = response(case, T, Q)
    dev.isolation = model
    if case["coupled"]:
        dev.coupling = ImpedanceCoupling(transmit_impedance=hermitian(case["seed"], T, 0.5, True), receive_correlation=hermitian(case["seed"], Q, 0.5, True))
    total = np.zeros((T, max(case["ns"])), complex)
    for i, n in enumerate(case["ns"]):
        x = cmat(case["seed"] + i, T, n)
        total[:, :n] += x
        dev.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(x, fs)))
    dev.receivers.add(SignalReceiver(10))
    drop = scenario.drop()
    want = np.sqrt(case["power"]) * convolved(h, total)
    line(r, raw(drop.device_receptions[0].operator_inputs[0]), want, "leakage received by the transmitting device")
    leaked = sum(np.concatenate([raw(x), np.zeros((Q, want.shape[1] - x.num_samples))], axis=1) for x in drop.device_transmissions[0].leaking_signals)
    line(r, np.asarray(leaked).reshape(Q, -1), want, "leaking signals")
    if case["kind"] == "specific" and T == 1 and Q == 1 and not case["coupled"]:
        sent = raw(drop.device_transmissions[0].mixed_signal)
        r.close(np.sum(np.abs(sent) ** 2) / np.sum(np.abs(want) ** 2), float(model.isolation[0, 0]), "ratio of transmitted and leaking power", rtol=1e-9)
    r.nontrivial(case["kind"] != "perfect")


# --- random leakage ----------------------------------------------------------------------
@check.facet("random", R(variance=logfloats(1e-3, 1e3), num=st.integers(1, 300), modes=modes, sigma=st.integers(0, 2**31)), quick=80, thorough=2000, rule="more than one tap")
def random(case, r):
    T, Q = counts(case["modes"])
    if not T or not Q:
        return
    dev = SimulatedDevice(antennas=array(case["modes"]))
    np.random.seed(case["sigma"])
    model = SelectiveLeakage.Normal(dev, case["num"], variance=case["variance"])
    h = model.leakage_response
    r.equal(h.shape, (Q, T, case["num"]), "shape of a random leakage response")
    f = np.fft.fft(h, axis=2)
    z = np.concatenate([f.real.ravel(), f.imag.ravel()]) / np.sqrt(case["variance"])
    lo, hi = chi2.ppf([5e-12, 1 - 5e-12], z.size)
    q = float(np.sum(z**2))
    r.check(lo <= q <= hi, f"variance of the frequency response {q / z.size:.3f} of the expected, bounds {lo / z.size:.3f}..{hi / z.size:.3f}")
    r.check(abs(z.sum()) <= 7 * np.sqrt(z.size), f"mean of the frequency response {z.mean()}")
    r.nontrivial(case["num"] > 1)
