"""P22 radio-frequency blocks and chains."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.core import DenseSignal
from hermespy.simulation.rf import (
    ADC, DAC, AutomaticGainControl, Gain, GainControlType, QuantizerType, PowerAmplifier, ClippingPowerAmplifier, RappPowerAmplifier,
    SalehPowerAmplifier, CustomPowerAmplifier, Mixer, MixerType, IdealMixer, Shift, Source, Split, Sum, X4, RampGenerator, HPF, RFChain, RFSignal, RFBlockPortType,
)
from hermespy.simulation.rf.blocks.amps import MemoryPolynomialPowerAmplifier, MemoryCTPolynomialPowerAmplifier

check = Check("P22", "Radio-frequency blocks and chains transform signals as configured")


def sig(seed, m, n, fs, fc, scale=1.0):
    g = np.random.default_rng(seed)
    return RFSignal.FromNDArray(scale * (g.normal(size=(m, n)) + 1j * g.normal(size=(m, n))), fs, np.asarray(fc, float))


def nd(s):
    return np.array(np.asarray(s).view(np.ndarray))


# ---------------------------------------------------------------- reference blocks
def ref_pa(kind, p, x):
    x = x * p["gain"]
    a = np.abs(x)
    if kind == "linear":
        return x
    if kind == "clip":
        return np.where(a > p["sat"], p["sat"] * np.exp(1j * np.angle(x)), x)
    if kind == "rapp":
        return x / (1 + a ** (2 * p["s"])) ** (1 / (2 * p["s"]))
    if kind == "saleh":
        return x * p["aa"] / (1 + p["ab"] * a**2) * np.exp(1j * p["pa"] * a**2 / (1 + p["pb"] * a**2))
    if kind == "custom":
        return x * np.interp(a, p["in"], p["gains"]) * np.exp(1j * np.interp(a, p["in"], p["phases"]))
    g = np.random.default_rng(p["seed"])
    M, K = p["M"], p["K"]
    y = np.zeros_like(x)
    if kind == "memory":
        c = p["c"]
        for n in range(x.shape[1]):
            for m in range(min(M, n + 1)):
                for k in range(K):
                    y[:, n] += c[m, k] * x[:, n - m] * a[:, n - m] ** k
        return y
    c = p["c"]
    for n in range(x.shape[1]):
        for m in range(min(M, n + 1)):
            y[:, n] += c[m, 0] * x[:, n - m]
            for k in range(1, K):
                for l in range(min(M, n + 1)):
                    y[:, n] += c[m, 1 + (k - 1) * M + l] * x[:, n - m] * a[:, n - l] ** k
    return y


PAS = ["linear", "clip", "rapp", "saleh", "custom", "memory", "cross"]
pa_params = R(
    gain=floats(0, 4), sat=floats(0.0, 3), s=floats(0.3, 5), aa=floats(0, 3), ab=floats(0, 3), pa=floats(-3, 3), pb=floats(0, 3), M=st.integers(1, 4), K=st.integers(1, 4), seed=seeds,
)


def pa_fill(p):
    g = np.random.default_rng(p["seed"])
    p = dict(p)
    p["in"] = np.cumsum(g.uniform(0.1, 1, 5)) - 0.1
    p["gains"], p["phases"] = g.uniform(0, 2, 5), g.uniform(-3, 3, 5)
    return p


def make_pa(kind, p):
    if kind == "linear":
        return PowerAmplifier(gain=p["gain"])
    if kind == "clip":
        return ClippingPowerAmplifier(p["sat"], gain=p["gain"])
    if kind == "rapp":
        return RappPowerAmplifier(p["s"], gain=p["gain"])
    if kind == "saleh":
        return SalehPowerAmplifier(p["aa"], p["ab"], p["pa"], p["pb"], gain=p["gain"])
    if kind == "custom":
        return CustomPowerAmplifier(p["in"], p["gains"], p["phases"], gain=p["gain"])
    g = np.random.default_rng(p["seed"] + 1)
    shape = (p["M"], p["K"]) if kind == "memory" else (p["M"], p["M"] * (p["K"] - 1) + 1)
    p["c"] = g.normal(size=shape) + 1j * g.normal(size=shape)
    return (MemoryPolynomialPowerAmplifier if kind == "memory" else MemoryCTPolynomialPowerAmplifier)(p["c"], gain=p["gain"])


def run(block, x, fs, os=1, fc=0.0, filter=True):
    return block.propagate(block.realize(fs / os, os, fc), x, filter)


@check.facet("amplifiers", R(kind=st.sampled_from(PAS), p=pa_params, seed=seeds, n=st.integers(1, 12), scale=logfloats(0.05, 20), fc=logfloats(1, 1e10), os=st.integers(1, 3), delay=floats(0, 2)), quick=600, thorough=12000, rule="a nonlinear model driven beyond small amplitudes")
def amplifiers(c, r):
    p = pa_fill(c["p"])
    b = make_pa(c["kind"], p)
    fs = 1e6 * c["os"]
    x = sig(c["seed"], 1, c["n"], fs, [c["fc"]], c["scale"])
    x.delay = c["delay"]
    keep = nd(x)
    y = run(b, x, fs, c["os"], filter=False)
    r.cls(c["kind"])
    r.nontrivial(c["kind"] != "linear" and c["scale"] > 0.3 and p["gain"] > 0)
    r.close(nd(y), ref_pa(c["kind"], p, keep), "amplified samples", rtol=1e-9)
    r.equal(nd(x), keep, "input unchanged")
    r.equal((y.sampling_rate, list(y.carrier_frequencies), y.delay), (fs, [c["fc"]], c["delay"]), "parameters of the amplified signal")
    if c["kind"] in ("memory", "cross") and p["gain"] > 0:
        # the model estimated from measurements of an amplifier reproduces this amplifier
        L = 60 + 12 * p["c"].size
        g = np.random.default_rng(c["seed"] + 3)
        u = g.normal(size=L) + 1j * g.normal(size=L)
        v = ref_pa(c["kind"], dict(p, gain=1.0), u[None])[0]
        e = type(b).FromMeasurements(u, v, p["M"], p["K"])
        r.equal(e.coeff_matrix.shape, p["c"].shape, "shape of the estimated coefficients")
        r.close(e.coeff_matrix, p["c"], "estimated coefficients", rtol=1e-6, scale=np.max(np.abs(p["c"])))


@check.facet(
    "mixing",
    R(kind=st.sampled_from(["mixer", "ideal", "shift", "sum", "split", "x4", "source", "dac"]), up=st.booleans(), fi=floats(0, 5e9), fl=floats(0, 5e9), chain_fc=floats(0, 5e9), phase=floats(-10, 10), bits=st.integers(0, 5), m=st.integers(1, 4), n=st.integers(1, 12), amp=floats(0, 3), seed=seeds, os=st.integers(1, 3)),
    quick=800, thorough=15000, rule="several samples",
)
def mixing(c, r):
    fs, k, m, n = 1e6 * c["os"], c["kind"], c["m"], c["n"]
    go = lambda b, x: run(b, x, fs, c["os"], c["chain_fc"], False)
    r.cls(k)
    r.nontrivial(n > 1)
    if k == "mixer":
        fi = c["fi"] + (0 if c["up"] else c["fl"])
        x = sig(c["seed"], 2, n, fs, [fi, c["fl"]])
        b = Mixer(MixerType.UP if c["up"] else MixerType.DOWN)
        y = go(b, x)
        want, f = nd(x)[:1] * (nd(x)[1:] if c["up"] else nd(x)[1:].conj()), [fi + c["fl"] if c["up"] else fi - c["fl"]]
    elif k == "ideal":
        x = sig(c["seed"], 1, n, fs, [c["fi"]])
        b = IdealMixer(MixerType.UP if c["up"] else MixerType.DOWN, c["fl"])
        y = go(b, x)
        lo = c["fl"] if c["fl"] > 0 else c["chain_fc"]
        want, f = nd(x), [abs(c["fi"] + lo if c["up"] else c["fi"] - lo)]
    elif k == "shift":
        x = sig(c["seed"], m, n, fs, np.arange(m) * 1e9)
        b = Shift(c["phase"], c["bits"], m)
        y = go(b, x)
        ph = c["phase"]
        if c["bits"]:
            s = 2 * np.pi / 2 ** c["bits"]
            ph = s * np.round(ph / s)
        want, f = nd(x) * np.exp(1j * ph), list(np.arange(m) * 1e9)
    elif k == "sum":
        x = sig(c["seed"], m, n, fs, np.full(m, c["fi"]))
        b = Sum(m)
        y = go(b, x)
        want, f = nd(x).sum(axis=0, keepdims=True), [c["fi"]]
    elif k == "split":
        x = sig(c["seed"], 1, n, fs, [c["fi"]])
        b = Split(m)
        y = go(b, x)
        want, f = np.repeat(nd(x), m, axis=0), [c["fi"]] * m
    elif k == "x4":
        x = sig(c["seed"], 1, n, fs, [c["fi"]])
        b = X4()
        y = go(b, x)
        want, f = nd(x), [4 * c["fi"]]
        r.equal(y.carrier_frequency, 4 * c["fi"], "carrier frequency")
    elif k == "source":
        x = RFSignal.FromNDArray(np.zeros((0, n)), fs)
        b = Source(c["fi"], amplitude=c["amp"])
        y = go(b, x)
        want, f = np.full((1, n), c["amp"], complex), [c["fi"] if c["fi"] > 0 else c["chain_fc"]]
    else:
        x = sig(c["seed"], m, n, fs, np.arange(m) * 1e9)
        b = DAC(num_ports=m)
        y = go(b, x)
        want, f = nd(x), list(np.arange(m) * 1e9)
    r.equal((b.num_input_ports, b.num_output_ports), (x.shape[0], want.shape[0]), "numbers of ports")
    r.close(nd(y), want, "samples", rtol=1e-9)
    r.close(np.asarray(y.carrier_frequencies), np.asarray(f, float), "carrier frequencies", rtol=1e-12, atol=1e-3)
    r.equal(y.sampling_rate, fs, "sampling rate")
    if x.shape[0]:
        bad = RFSignal.FromNDArray(np.zeros((x.shape[0] + 1, n)), fs)
        try:
            go(b, bad)
            r.fail("a signal with too many streams has been propagated", "streams")
        except ValueError:
            pass


@check.facet(
    "quantization",
    R(bits=st.one_of(st.none(), st.integers(1, 12)), tread=st.booleans(), agc=st.sampled_from(["none", "gain", "max", "rms"]), gain=logfloats(0.05, 20), rescale=st.booleans(), seed=seeds, m=st.integers(1, 3), n=st.integers(1, 400), scale=logfloats(0.05, 20), sweep=st.booleans()),
    quick=600, thorough=12000, rule="a finite number of bits",
)
def quantization(c, r):
    g = c["gain"]
    ctl = {"none": None, "gain": Gain(g, c["rescale"]), "max": AutomaticGainControl(GainControlType.MAX_AMPLITUDE, g, c["rescale"]), "rms": AutomaticGainControl(GainControlType.RMS_AMPLITUDE, g, c["rescale"])}[c["agc"]]
    b = ADC(c["bits"], ctl, QuantizerType.MID_TREAD if c["tread"] else QuantizerType.MID_RISER, c["m"])
    x = sig(c["seed"], c["m"], c["n"], 1e6, np.zeros(c["m"]), c["scale"])
    if c["sweep"]:
        t = np.linspace(-1.3, 1.3, c["n"])
        x = RFSignal.FromNDArray(np.tile(c["scale"] * (t + 1j * t[::-1]), (c["m"], 1)), 1e6)
    keep = nd(x)
    y = nd(run(b, x, 1e6))
    r.nontrivial(c["bits"] is not None)
    r.cls(f"{'tread' if c['tread'] else 'riser'} {c['agc']}")
    parts = np.concatenate([keep.real.ravel(), keep.imag.ravel()])
    if c["agc"] == "none":
        f = 1.0
    elif c["agc"] == "gain":
        f = g
    elif c["agc"] == "max":
        f = 1 / (np.abs(parts).max() * g) if np.abs(parts).max() > 0 else 1.0
    else:
        rms = max(np.sqrt(np.mean(keep.real**2)), np.sqrt(np.mean(keep.imag**2)))
        f = 1 / (rms * g) if rms > 0 else 1.0
    out = y * f if c["rescale"] and c["agc"] != "none" else y
    v, w = f * parts, np.concatenate([out.real.ravel(), out.imag.ravel()])
    r.equal(nd(x), keep, "input unchanged")
    if c["bits"] is None:
        r.close(w, v, "no quantization", rtol=1e-9)
        return
    L = 2 ** c["bits"]
    if c["tread"]:
        step = 2 / (L + 1)
        lv = step * np.arange(-L // 2, L // 2)
    else:
        step = 2 / L
        lv = step * (np.arange(-L // 2, L // 2) + 0.5)
    near = np.min(np.abs(w[:, None] - lv[None, :]), axis=1) if w.size * L < 4e6 else np.abs(w - lv[np.clip(np.searchsorted(lv, w), 0, L - 1)])
    if w.size * L < 4e6:
        r.check(np.all(near < 1e-9), "outputs are quantization levels", float(near.max()))
        err = np.min(np.abs(v[:, None] - lv[None, :]), axis=1)
        r.close(np.abs(w - v), err, "every part is mapped to the closest level", rtol=1e-7, atol=1e-7)
    o = np.argsort(v, kind="stable")
    r.check(np.all(np.diff(w[o]) >= -1e-12), "monotone characteristic")
    r.check(len(np.unique(np.round(w / step * 2))) <= L, "number of levels")


@check.facet("ramp", R(num=st.integers(0, 4), bw=logfloats(1e5, 1e8), up=st.booleans(), dur=logfloats(1e-6, 1e-4), guard=floats(0.5, 3), os=floats(1.0, 4.0)), quick=150, thorough=6000, rule="several chirps")
def ramp(c, r):
    fs = c["bw"] * c["os"]
    n = c["dur"] * fs
    if n > 2e4:
        c = dict(c, dur=2e4 / fs)
    slope = c["bw"] / c["dur"] * (1 if c["up"] else -1)
    interval = c["guard"] * c["dur"]
    b = RampGenerator(c["num"], c["bw"], slope, interval)
    y = nd(run(b, RFSignal.FromNDArray(np.zeros((0, 5)), fs), fs))
    G, C = interval * fs, min(interval, c["dur"]) * fs
    r.nontrivial(c["num"] > 1 and C > 4)
    per = int(G)
    r.equal(y.shape, (1, per * c["num"]), "one interval for each chirp")
    if not per * c["num"]:
        return
    y = y.reshape(c["num"], per)
    for k in range(c["num"]):
        r.equal(y[k], y[0], "identical chirps")
    a = np.abs(y[0])
    on = int(np.sum(a > 0.5))
    r.check(abs(on - C) <= 1.000001, f"{on} samples are ramped, {C} expected")
    r.close(a[:on], np.ones(on), "constant modulus", rtol=1e-9)
    r.equal(y[0, on:], np.zeros(per - on, complex), "silence after the ramp")
    if on > 2:
        f = np.diff(np.unwrap(np.angle(y[0, :on]))) * fs / (2 * np.pi)
        t = (np.arange(on - 1) + 0.5) / fs
        want = -np.sign(slope) * c["bw"] / 2 + slope * t
        d = (f - want + fs / 2) % fs - fs / 2
        r.close(d, np.zeros(on - 1), "instantaneous frequency", atol=1e-6 * fs, rtol=0)


@check.facet("filters", R(os=st.integers(2, 8), f=floats(-0.5, 0.5), high=st.booleans(), cut=floats(0.05, 0.3), order=st.integers(1, 5), bw=logfloats(1e3, 1e9), ph=floats(0, 6)), quick=150, thorough=5000, rule="a tone away from the band edges")
def filters(c, r):
    """tones through oversampled blocks and high pass filters, evaluated far from the edges"""
    n = 4000
    fs = c["bw"] * c["os"]
    t = np.arange(n)
    x = RFSignal.FromNDArray(np.exp(1j * (2 * np.pi * c["f"] * t + c["ph"])).reshape(1, -1), fs, np.array([1e9]))
    mid = slice(1500, 2500)
    if not c["high"]:
        y = run(PowerAmplifier(), x, fs, c["os"])
        off = abs(c["f"]) * c["os"]  # in multiples of the bandwidth
        r.equal(nd(y).shape, (1, n), "number of samples")
        r.nontrivial(off < 0.45 or off > 1.3)
        if off <= 0.45:
            r.close(nd(y)[0, mid], nd(x)[0, mid], "tones within the bandwidth pass", rtol=0, atol=5e-3)
        if abs(c["f"]) > 0.3 and off > 1.5:
            r.check(np.max(np.abs(nd(y)[0, mid])) < 2e-2, f"a tone at {off:.2f} bandwidths passes with {np.max(np.abs(nd(y)[0, mid])):.3f}")
        z = run(PowerAmplifier(), x, fs, c["os"], filter=False)
        r.close(nd(z), nd(x), "filter disabled", rtol=1e-12)
    else:
        b = HPF(c["cut"] * fs, c["order"])
        y = nd(run(b, x, fs))
        w = np.tan(np.pi * min(abs(c["f"]), 0.4999)) / np.tan(np.pi * c["cut"])
        gain = 1.0 if abs(c["f"]) > 0.4999 else w ** (2 * c["order"]) / (1 + w ** (2 * c["order"]))
        r.nontrivial(0.01 < abs(c["f"]) < 0.49)
        if 0.02 < abs(c["f"]):
            r.close(y[0, mid], gain * nd(x)[0, mid], "zero-phase high pass response", rtol=0, atol=2e-3)


# ---------------------------------------------------------------- chains
KINDS = ["dac", "adc", "pa", "mixer", "ideal", "shift", "sum", "split", "x4", "source"]
blk = st.tuples(st.sampled_from(KINDS), st.integers(1, 3), seeds)
chain = R(blocks=st.lists(blk, min_size=1, max_size=8), wires=st.lists(st.tuples(st.integers(0, 60), st.booleans()), min_size=24, max_size=24), names=st.booleans(), seed=seeds, n=st.integers(1, 10), late=st.booleans())


def instantiate(kind, m, seed):
    """block, number of inputs, number of outputs, function of the input samples and carriers"""
    g = np.random.default_rng(seed)
    if kind == "dac":
        return DAC(num_ports=m), m, m, lambda x, f: (x, f)
    if kind == "adc":
        return ADC(num_ports=m), m, m, lambda x, f: (x, f)
    if kind == "pa":
        p = dict(gain=float(g.uniform(0.5, 2)), s=1.5)
        return RappPowerAmplifier(1.5, gain=p["gain"]), 1, 1, lambda x, f: (ref_pa("rapp", p, x), f)
    if kind == "mixer":
        return Mixer(MixerType.UP), 2, 1, lambda x, f: (x[:1] * x[1:2], [f[0] + f[1]])
    if kind == "ideal":
        up, lo = bool(g.integers(2)), float(g.uniform(1e8, 1e9))
        return IdealMixer(MixerType.UP if up else MixerType.DOWN, lo), 1, 1, lambda x, f: (x, [abs(f[0] + lo if up else f[0] - lo)])
    if kind == "shift":
        ph = float(g.uniform(-3, 3))
        return Shift(ph, num_ports=m), m, m, lambda x, f: (x * np.exp(1j * ph), f)
    if kind == "sum":
        return Sum(m), m, 1, lambda x, f: (x.sum(axis=0, keepdims=True), [f[0]])
    if kind == "split":
        return Split(m), 1, m, lambda x, f: (np.repeat(x, m, axis=0), [f[0]] * m)
    if kind == "x4":
        return X4(), 1, 1, lambda x, f: (x, [4 * f[0]])
    a, fc = float(g.uniform(0.2, 2)), float(g.uniform(1e8, 1e9))
    return Source(fc, amplitude=a), 0, 1, lambda x, f: (np.full((1, x.shape[1]), a, complex), [fc])


@check.facet("chains", chain, quick=1500, thorough=30000, shards=4, rule="at least two blocks with at least one wire between them")
def chains(c, r):
    ch = RFChain()
    specs = [(k, *instantiate(k, m, s)) for k, m, s in c["blocks"]]
    refs = [ch.add_block(s[1]) for s in specs]
    # wire every input port to an output of an earlier block, or leave it open
    src, todo = {}, []
    w = iter(c["wires"])
    outs = []
    for i, (kind, block, ni, no, fn) in enumerate(specs):
        for p in range(ni):
            sel, use = next(w, (0, False))
            if use and outs and kind != "dac":
                src[i, p] = outs[sel % len(outs)]
                todo.append((i, p))
        if kind != "adc":
            outs += [(i, p) for p in range(no)]
    if c["late"]:
        todo = todo[::-1]
    for i, p in todo:
        j, q = src[i, p]
        a = refs[j].o[q : q + 1]
        if specs[i][0] == "mixer":
            b = refs[i].i if p == 0 else refs[i].lo
        else:
            b = refs[i].i[p : p + 1]
        ch.connect(a, b) if c["names"] else ch.connect(b, a)
    n, fs = c["n"], 1e6
    real = ch.realize(fs, 1, 2e9)
    din = sum(s[2] for s in specs if s[0] == "dac")
    dout = sum(s[2] for s in specs if s[0] == "adc")
    r.equal((ch.num_digital_input_ports, ch.num_digital_output_ports), (din, dout), "numbers of digital ports")
    used = set(src.values())
    r.nontrivial(len(specs) > 1 and len(src) > 0)
    r.cls("parallel wires", len({(i, j) for (i, p), (j, q) in src.items()}) < len(src))
    r.cls("fan out", len(used) < len(src))
    for i, s in enumerate(specs):
        r.equal(refs[i].open_input_ports, [p for p in range(s[2]) if (i, p) not in src], "open input ports")

    def evaluate(inputs):
        out = []
        for i, (kind, block, ni, no, fn) in enumerate(specs):
            x, f = np.zeros((ni, n), complex), [0.0] * ni
            for p in range(ni):
                if (i, p) in src:
                    j, q = src[i, p]
                    x[p], f[p] = out[j][0][q], out[j][1][q]
                elif (i, p) in inputs:
                    x[p], f[p] = inputs[i, p]
            out.append(fn(x, f))
        return out

    def compare(y, want, what):
        r.equal(nd(y).shape, (len(want), n), what + ": shape")
        if want:
            r.close(nd(y), np.stack([a for a, _ in want]), what, rtol=1e-9)
            r.close(np.asarray(y.carrier_frequencies), np.array([f for _, f in want], float), what + ": carrier frequencies", rtol=1e-9, atol=1e-3)

    # transmission
    if din:
        x = sig(c["seed"], din, n, fs, np.zeros(din))
        ports = [(i, p) for i, s in enumerate(specs) if s[0] == "dac" for p in range(s[2])]
        out = evaluate({k: (nd(x)[a], 0.0) for a, k in enumerate(ports)})
        y = ch.transmit(x if c["names"] else DenseSignal.FromNDArray(nd(x), fs), real)
        compare(y, [(out[i][0][p], out[i][1][p]) for i, s in enumerate(specs) if s[0] != "adc" for p in range(s[3]) if (i, p) not in used], "transmitted signal")
    # reception
    ports = [(i, p) for i, s in enumerate(specs) if s[0] != "dac" for p in range(s[2]) if (i, p) not in src]
    if dout and ports:
        x = sig(c["seed"] + 1, len(ports), n, fs, np.arange(1, len(ports) + 1) * 1e8)
        out = evaluate({k: (nd(x)[a], float(x.carrier_frequencies[a])) for a, k in enumerate(ports)})
        y = ch.receive(x, real)
        compare(y, [(out[i][0][p], out[i][1][p]) for i, s in enumerate(specs) if s[0] == "adc" for p in range(s[3])], "received signal")
