"""P10 Single-carrier and chirp-FSK waveforms."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, cmat, bits, rec as R, floats

from hermespy.modem import (
    RootRaisedCosineWaveform, RaisedCosineWaveform, RectangularWaveform, FMCWWaveform, ChirpFSKWaveform,
    SingleCarrierCorrelationSynchronization, SingleCarrierLeastSquaresChannelEstimation,
    SingleCarrierZeroForcingChannelEqualization, SingleCarrierMinimumMeanSquareChannelEqualization,
    CustomPilotSymbolSequence, UniformPilotSymbolSequence, StatedSymbols, Symbols,
)
from hermespy.modem.waveform import Synchronization
from hermespy.modem.waveform_chirp_fsk import ChirpFSKCorrelationSynchronization

check = Check("P10", "Single-carrier and chirp-FSK frames return the bits they carry")

KINDS = ["RRC", "RRC", "RC", "Rect", "FMCW"]
base = dict(
    kind=st.sampled_from(KINDS), order=st.sampled_from([2, 4, 8, 16, 64]), pre=st.integers(0, 12), nd=st.integers(1, 40), post=st.integers(0, 6),
    rate=st.sampled_from([0, 0, 1, 2, 3, 7]), os=st.sampled_from([1, 2, 3, 4, 6, 8]), rolloff=st.sampled_from([0.0, 0.1, 0.22, 0.25, 0.3, 0.5, 0.75, 0.9, 1.0]),
    length=st.integers(2, 20), relbw=st.sampled_from([1.0, 1.0, 1.0, 0.8, 2.0]), chirp=st.integers(2, 40), pilots=st.sampled_from(["default", "uniform", "custom"]),
    seed=seeds, bw=st.sampled_from([1e3, 1e6, 33e6]),
)


def pilot_seq(c):
    if c["pilots"] == "uniform":
        return UniformPilotSymbolSequence(0.6 - 0.8j)
    if c["pilots"] == "custom":
        return CustomPilotSymbolSequence(np.exp(2j * np.pi * np.random.default_rng(c["seed"] + 5).integers(0, 8, 5) / 8))
    return None


def build(c, **kw):
    seq = pilot_seq(c)
    args = dict(num_preamble_symbols=c["pre"], num_data_symbols=c["nd"], num_postamble_symbols=c["post"], pilot_rate=c["rate"], modulation_order=c["order"], **kw)
    if seq is not None:
        args["pilot_symbol_sequence"] = seq
    if c["kind"] == "RRC":
        return RootRaisedCosineWaveform(relative_bandwidth=c["relbw"], roll_off=c["rolloff"], filter_length=c["length"], **args)
    if c["kind"] == "RC":
        return RaisedCosineWaveform(relative_bandwidth=c["relbw"], roll_off=c["rolloff"], filter_length=c["length"], **args)
    if c["kind"] == "Rect":
        return RectangularWaveform(**args)
    return FMCWWaveform(num_samples_per_chirp=c["chirp"], **args)


def rrc(t, b):
    """Textbook root-raised cosine, limits by Richardson-free central differences."""
    t = np.asarray(t, float)

    def raw(x):
        return (np.sin(np.pi * x * (1 - b)) + 4 * b * x * np.cos(np.pi * x * (1 + b))) / (np.pi * x * (1 - (4 * b * x) ** 2))

    bad = np.abs(t) < 1e-6
    if b > 0:
        bad |= np.abs(np.abs(t) - 1 / (4 * b)) < 1e-6
    out = np.empty_like(t)
    out[~bad] = raw(t[~bad])
    e = 1e-3
    x = t[bad]
    out[bad] = (4 * (raw(x + e) + raw(x - e)) - (raw(x + 2 * e) + raw(x - 2 * e))) / 6
    return out


def rc(t, b):
    t = np.asarray(t, float)

    def raw(x):
        return np.sinc(x) * np.cos(np.pi * b * x) / (1 - (2 * b * x) ** 2)

    bad = np.zeros(t.shape, bool)
    if b > 0:
        bad |= np.abs(np.abs(t) - 1 / (2 * b)) < 1e-6
    out = np.empty_like(t)
    out[~bad] = raw(t[~bad])
    e = 1e-3
    x = t[bad]
    out[bad] = (4 * (raw(x + e) + raw(x - e)) - (raw(x + 2 * e) + raw(x - 2 * e))) / 6
    return out


def pulse(c):
    """Reference pulse, its symbol spacing in samples, the matched filter and its delay."""
    os_ = c["os"]
    if c["kind"] in ("RRC", "RC"):
        t = (np.arange(c["length"] * os_) / os_ - c["length"] // 2) * c["relbw"]
        p = (rrc if c["kind"] == "RRC" else rc)(t, c["rolloff"])
        return p.astype(complex), os_, p / os_, 2 * (c["length"] // 2) * os_
    if c["kind"] == "Rect":
        p = np.ones(os_, complex)
        return p, os_, p / os_, os_ - 1
    n = c["chirp"] * os_
    k = np.arange(n)
    # linear sweep across the band [-bw/2, bw/2]
    f = -0.5 / os_ + k / (n * os_)
    p = np.exp(2j * np.pi * (-0.5 / os_ * k + 0.5 * k**2 / (n * os_)))
    return p, n, np.conj(p[::-1]) / n, n - 1


def layout(c):
    """p: pilot (pre/mid/postamble), d: data."""
    nm = max(0, c["nd"] // c["rate"] - 1) if c["rate"] else 0
    out = ["p"] * c["pre"]
    left = nm
    for i in range(c["nd"]):
        out.append("d")
        if left and (i + 1) % c["rate"] == 0:
            out.append("p")
            left -= 1
    return out + ["p"] * c["post"], c["pre"] + nm + c["post"]


def stated(raw):
    raw = np.asarray(raw)
    return StatedSymbols(raw, np.ones((raw.shape[0], 1, raw.shape[1], raw.shape[2]), complex))


@check.facet("single_carrier", R(**base), quick=1200, thorough=40000, shards=2, rule="several data symbols next to pilots, preamble or postamble, oversampled")
def single_carrier(c, r):
    w = build(c)
    os_, bw, nd = c["os"], c["bw"], c["nd"]
    bps = int(np.log2(c["order"]))
    lay, num_pilots = layout(c)
    n = len(lay)
    p, spacing, q, delay = pulse(c)
    r.cls(c["kind"])
    r.nontrivial(nd > 2 and num_pilots > 0 and os_ > 1)
    r.equal(w.num_data_symbols, nd, "number of data symbols")
    r.equal(w.bits_per_frame(), nd * bps, "bits per frame")
    num = (n - 1) * spacing + p.size
    r.equal(w.samples_per_frame(bw, os_), num, "announced samples per frame")
    r.close(np.asarray(w.frame_duration(bw)), np.asarray(n * spacing / os_ / bw), "frame duration", rtol=1e-9)
    data = bits(c["seed"], nd * bps)
    mapped = w.map(data)
    flat = mapped.raw.flatten()
    r.equal(flat.size, nd, "mapped symbols")
    r.equal(np.asarray(w.unmap(mapped)).astype(int), data.astype(int), "unmapping inverts mapping")
    placed = w.place(mapped)
    pil = np.asarray(w.pilot_symbols(num_pilots)) if num_pilots else np.empty(0)
    if c["pilots"] != "default":
        seq = pilot_seq(c).sequence
        r.close(pil, np.array([seq[k % len(seq)] for k in range(num_pilots)], complex).reshape(-1), "configured pilot symbols repeat", rtol=1e-12)
    expected = np.empty(n, complex)
    expected[[k for k in range(n) if lay[k] == "d"]] = flat
    expected[[k for k in range(n) if lay[k] == "p"]] = pil
    r.close(placed.raw.reshape(-1), expected, "placed frame: preamble, data with pilots, postamble", rtol=1e-12)
    r.close(w.pick(stated(placed.raw)).raw.reshape(-1), flat, "picking inverts placing", rtol=1e-12)
    x = np.asarray(w.modulate(placed, bw, os_))
    r.equal(x.shape, (num,), "modulated samples")
    ref = np.zeros(num, complex)
    for k, s in enumerate(expected):
        ref[k * spacing : k * spacing + p.size] += s * p
    r.close(x, ref, "modulated frame is the superposition of shifted pulses", rtol=1e-5)
    y = np.asarray(w.demodulate(x, bw, os_).raw).reshape(-1)
    filtered = np.convolve(ref, q)
    r.close(y, filtered[delay : delay + n * spacing : spacing][:n], "demodulation samples the matched filter output at the symbols", rtol=1e-5)
    clean = c["kind"] in ("Rect", "FMCW") or c["kind"] == "RRC" and c["relbw"] == 1.0 and c["rolloff"] >= 0.22 and c["length"] >= 12 and c["os"] > 1 and c["order"] <= 16
    if c["kind"] == "Rect":
        r.close(y, expected, "matched filtering returns the frame's symbols", rtol=1e-9)
    if clean and not (c["kind"] == "FMCW" and (c["order"] > 16)):
        r.cls("bits through the air")
        out = np.asarray(w.unmap(w.pick(stated(y[None, :, None])))).astype(int)
        r.equal(out, data.astype(int), "bits after modulation and demodulation")
    # linear in the symbols
    a, b = cmat(c["seed"], 1, n)[0], cmat(c["seed"] + 1, 1, n)[0]
    m = lambda s: np.asarray(w.modulate(Symbols(s[None, :, None]), bw, os_))
    r.close(m(a) + 1j * m(b), m(a + 1j * b), "modulation is linear in the symbols", rtol=1e-9)
    # pilot signal
    ps = w.pilot_signal(bw, os_)
    r.close(np.asarray(ps.sampling_rate), np.asarray(bw * os_), "pilot sampling rate", rtol=1e-12)
    if c["pre"] == 0:
        r.equal(ps.num_samples, 0, "no preamble, no pilot signal")
    else:
        pr = np.zeros((c["pre"] - 1) * spacing + p.size, complex)
        for k in range(c["pre"]):
            pr[k * spacing : k * spacing + p.size] += expected[k] * p
        r.close(np.asarray(ps.view(np.ndarray)).reshape(-1), pr, "pilot signal is the modulated preamble", rtol=1e-5)


# --- chirp FSK ----------------------------------------------------------------------
fsk = R(
    order=st.sampled_from([2, 4, 8, 16, 32]), pilots=st.integers(0, 20), nd=st.integers(1, 40), tb=st.integers(4, 16), frac=st.sampled_from([0.0, 0.25, 0.5]), os=st.sampled_from([1, 2, 4]),
    guard=st.integers(0, 30), diff=st.sampled_from([0.0, 0.0, 0.5, 1.0]), bw=st.sampled_from([1e6, 50e6, 1e9]), seed=seeds,
)


def fsk_build(c):
    tb = c["tb"] * c["order"] + c["frac"]  # time-bandwidth product
    return ChirpFSKWaveform(chirp_duration=tb / c["bw"], freq_difference=c["diff"] * c["bw"] / c["order"], num_pilot_chirps=c["pilots"], num_data_chirps=c["nd"], guard_interval=c["guard"] / c["bw"], modulation_order=c["order"]), tb


@check.facet("chirp_fsk", fsk, quick=500, thorough=15000, shards=2, rule="more than one data chirp and pilots or a guard interval")
def chirp_fsk(c, r):
    w, tb = fsk_build(c)
    bw, os_, M, nd = c["bw"], c["os"], c["order"], c["nd"]
    bps = int(np.log2(M))
    r.nontrivial(nd > 1 and (c["pilots"] > 0 or c["guard"] > 0))
    r.cls("guard", c["guard"] > 0)
    L = w.samples_in_chirp(bw, os_)
    r.check(abs(L - tb * os_) <= 1 + 1e-6 and L >= tb * os_ - 1e-6, f"samples per chirp {L} cover the chirp duration")
    num = L * (nd + c["pilots"]) + c["guard"] * os_
    r.equal(w.samples_per_frame(bw, os_), num, "announced samples per frame")
    r.close(np.asarray(w.frame_duration(bw)), np.asarray((tb * (nd + c["pilots"]) + c["guard"]) / bw), "frame duration", rtol=1e-9)
    r.equal(w.bits_per_frame(), nd * bps, "bits per frame")
    data = bits(c["seed"], nd * bps)
    mapped = w.map(data)
    values = [int("".join(str(int(b)) for b in data[k * bps : (k + 1) * bps]), 2) for k in range(nd)]
    r.equal(np.real(mapped.raw).reshape(-1).astype(int), np.array(values), "bits select the chirp, most significant bit first")
    r.equal(np.asarray(w.unmap(mapped)).astype(int), data.astype(int), "unmapping inverts mapping")
    x = np.asarray(w.modulate(w.place(mapped), bw, os_))
    r.equal(x.shape, (num,), "modulated samples")
    r.check(np.all(np.isfinite(x)), "finite samples")
    body = L * (nd + c["pilots"])
    r.close(np.abs(x[:body]), np.ones(body), "chirps have unit power", rtol=1e-9)
    r.check(not np.any(x[body:]), "the guard interval is silent")
    # chirp reference: integrated linear sweep starting at -B/2 + k*df, wrapping at B/2
    df = c["diff"] * bw / M if c["diff"] else bw / M
    t = np.arange(L) / (bw * os_)
    slope = bw / (tb / bw)

    def proto(k):
        f = -0.5 * bw + k * df + slope * t
        f = np.where(f > 0.5 * bw * (1 + 1e-9), f - bw, f)
        ph = np.concatenate([[0.0], np.cumsum(0.5 * (f[1:] + f[:-1]))]) / (bw * os_)
        return np.exp(2j * np.pi * ph), f

    chirps = x[:body].reshape(-1, L)
    symbols = [k % M for k in range(c["pilots"])] + values
    for k, s in enumerate(symbols):
        ref, f = proto(s)
        if np.min(np.abs(-0.5 * bw + s * df + slope * t - 0.5 * bw)) < 1e-6 * bw:
            continue  # sweep hits the band edge on a sample: either branch is right
        r.close(chirps[k], ref, f"chirp {k} encoding symbol {s}", rtol=1e-6)
    pilot = np.asarray(w.pilot_signal(bw, os_).view(np.ndarray)).reshape(-1)
    r.close(pilot, x[: L * c["pilots"]], "frame starts with the pilot chirps", rtol=1e-12)
    y = w.demodulate(x, bw, os_)
    r.equal(np.real(y.raw).reshape(-1).astype(int), np.array(values), "demodulated chirps")
    r.equal(np.asarray(w.unmap(w.pick(y))).astype(int), data.astype(int), "bits after modulation and demodulation")
    # robust to an unknown gain and phase and to weak noise
    g = np.random.default_rng(c["seed"])
    z = 3.7 * np.exp(2j * np.pi * g.uniform()) * (x + 0.02 * (g.standard_normal(num) + 1j * g.standard_normal(num)))
    r.equal(np.asarray(w.unmap(w.pick(w.demodulate(z, bw, os_)))).astype(int), data.astype(int), "bits after an unknown gain, phase and weak noise")


# --- estimation and equalisation ------------------------------------------------------
@check.facet(
    "estimation",
    R(pre=st.integers(0, 6), nd=st.integers(1, 40), post=st.integers(0, 4), rate=st.sampled_from([0, 1, 2, 5]), a=floats(-0.8, 0.8), g=floats(0.1, 5.0), p=floats(0, 6.28), order=st.sampled_from([2, 4, 16, 64]), eq=st.sampled_from(["zf", "mmse"]), seed=seeds, streams=st.integers(1, 3)),
    quick=500, thorough=10000, rule="a varying response known from several references",
)
def estimation(c, r):
    lay, num_pilots = layout(c)
    if num_pilots == 0:
        return
    w = RectangularWaveform(num_preamble_symbols=c["pre"], num_data_symbols=c["nd"], num_postamble_symbols=c["post"], pilot_rate=c["rate"], modulation_order=c["order"])
    w.channel_estimation = SingleCarrierLeastSquaresChannelEstimation()
    r.check(w.channel_estimation.waveform is w, "the estimator belongs to its waveform")
    w.channel_equalization = SingleCarrierZeroForcingChannelEqualization() if c["eq"] == "zf" else SingleCarrierMinimumMeanSquareChannelEqualization()
    data = bits(c["seed"], w.bits_per_frame())
    placed = w.place(w.map(data))
    k = np.arange(len(lay))
    refs = [i for i in k if lay[i] == "p"]
    # affine between first and last reference, constant beyond
    kk = np.clip(k, refs[0], refs[-1])
    h = c["g"] * np.exp(1j * c["p"]) * (1 + c["a"] * kk / len(lay))
    h = np.array([h * np.exp(1j * s) * (1 + s) for s in range(c["streams"])])
    r.nontrivial(len(refs) > 1 and c["a"] != 0)
    rx = placed.raw * h[:, :, None]
    ss = w.estimate_channel(Symbols(rx), 1e6, 1)
    r.close(np.asarray(ss.dense_states())[:, 0, :, 0], h, "interpolated channel estimate", rtol=1e-8)
    r.close(ss.raw, rx, "estimation leaves the symbols untouched", rtol=1e-12)
    eqd = w.equalize_symbols(ss)
    if c["streams"] == 1:
        r.close(eqd.raw, placed.raw, "equalised symbols", rtol=1e-8)
        r.equal(np.asarray(w.unmap(w.pick(stated(eqd.raw)))).astype(int), data.astype(int), "bits after equalisation")
    else:
        # single transmitted stream seen by several antennas
        r.close(eqd.raw, placed.raw, "equalised symbols over several receive streams", rtol=1e-8)


@check.facet(
    "mimo_equalization",
    R(rx=st.integers(2, 4), tx=st.integers(1, 4), blocks=st.integers(1, 6), sym=st.integers(1, 4), eq=st.sampled_from(["zf", "mmse", "base"]), seed=seeds),
    quick=300, thorough=5000, rule="at least two transmit streams",
)
def mimo_equalization(c, r):
    """Zero-forcing inverts every well-conditioned per-symbol channel matrix."""
    tx = min(c["tx"], c["rx"])
    g = np.random.default_rng(c["seed"])
    H = cmat(c["seed"], c["rx"] * tx, c["blocks"] * c["sym"]).reshape(c["rx"], tx, c["blocks"], c["sym"])
    for b, s in np.ndindex(c["blocks"], c["sym"]):
        u, sv, v = np.linalg.svd(H[:, :, b, s], full_matrices=False)
        H[:, :, b, s] = u @ np.diag(g.uniform(0.5, 2.0, tx)) @ v
    x = cmat(c["seed"] + 3, tx, c["blocks"] * c["sym"]).reshape(tx, c["blocks"], c["sym"])
    y = np.einsum("rtbs,tbs->rbs", H, x)
    w = RectangularWaveform(num_preamble_symbols=1)
    if c["eq"] == "zf":
        w.channel_equalization = SingleCarrierZeroForcingChannelEqualization()
    elif c["eq"] == "mmse":
        w.channel_equalization = SingleCarrierMinimumMeanSquareChannelEqualization()
    out = w.equalize_symbols(StatedSymbols(y, H))
    r.nontrivial(tx > 1 and c["eq"] != "base")
    r.close(np.asarray(out.raw), y if c["eq"] == "base" else x, "equalised MIMO symbols", rtol=1e-8)


# --- synchronisation --------------------------------------------------------------------
@check.facet(
    "synchronization",
    R(kind=st.sampled_from(["RRC", "RC", "Rect", "FMCW", "FSK"]), os=st.sampled_from([1, 2, 4]), lead=st.integers(0, 80), gaps=st.lists(st.integers(0, 60), min_size=0, max_size=2), tail=st.integers(0, 80), amps=st.lists(st.sampled_from([1.0, 0.9, 0.7, 0.5, 0.3]), min_size=3, max_size=3), thr=st.sampled_from([0.4, 0.6, 0.8]), phase=floats(0, 6.28), streams=st.integers(1, 2), seed=seeds, nd=st.integers(1, 20)),
    quick=600, thorough=10000, shards=2, rule="several frames of differing amplitude after silence",
)
def synchronization(c, r):
    bw, os_ = 1e6, c["os"]
    g = np.random.default_rng(c["seed"])
    if c["kind"] == "FSK":
        w = ChirpFSKWaveform(chirp_duration=64 / bw, num_pilot_chirps=11, num_data_chirps=c["nd"], modulation_order=8)
        w.synchronization = ChirpFSKCorrelationSynchronization(threshold=c["thr"])
    else:
        cc = dict(kind=c["kind"], order=4, pre=31, nd=c["nd"], post=0, rate=0, os=os_, rolloff=0.3, length=8, relbw=1.0, chirp=16, pilots="x", seed=c["seed"])
        w = build(cc)
        w.pilot_symbol_sequence = CustomPilotSymbolSequence(np.exp(0.5j * np.pi * g.integers(0, 4, 31)))
        w.synchronization = SingleCarrierCorrelationSynchronization(threshold=c["thr"])
    r.check(w.synchronization.waveform is w, "the synchronisation belongs to its waveform")
    # silence after every frame keeps guard ratio and peak separation unambiguous
    F = w.samples_per_frame(bw, os_)
    y = np.zeros(c["lead"], complex)
    amps = [1.0] + c["amps"][: len(c["gaps"])]
    g.shuffle(amps)
    starts = []
    for k, a in enumerate(amps):
        if k:
            y = np.concatenate([y, np.zeros(c["gaps"][k - 1], complex)])
        starts.append(y.size)
        y = np.concatenate([y, a * np.exp(1j * c["phase"]) * np.asarray(w.modulate(w.place(w.map(bits(c["seed"] + k, w.bits_per_frame()))), bw, os_))])
    y = np.concatenate([y, np.zeros(c["tail"] + 1, complex)])
    pilot = np.asarray(w.pilot_signal(bw, os_).view(np.ndarray)).reshape(-1)
    # cases are meaningful when the preamble's correlation is unambiguous: judged by direct correlation
    corr = np.abs(np.correlate(y, pilot, "full"))
    corr /= corr.max()
    peaks = [s + pilot.size - 1 for s in starts]
    mask = np.ones(corr.size, bool)
    for p in peaks:
        mask[max(0, p - 2 * os_) : p + 2 * os_ + 1] = False
        for q in range(max(0, p - 3 * os_), min(corr.size, p + 3 * os_ + 1)):
            if q != p and corr[q] >= corr[p]:
                return
    if np.any(corr[mask] > 0.95 * c["thr"]) or any(abs(corr[p] - c["thr"]) < 0.02 for p in peaks):
        r.cls("ambiguous preamble")
        return
    expected = [s for s, p in zip(starts, peaks) if corr[p] > c["thr"]]
    r.nontrivial(len(starts) > 1 and len(set(amps)) > 1 and c["lead"] > 0)
    r.cls("weak frame below the threshold", len(expected) < len(starts))
    r.cls(c["kind"])
    got = [int(i) for i in w.synchronization.synchronize(np.repeat(y[None], c["streams"], axis=0), bw, os_)]
    r.equal(got, expected, f"frames starting at {starts} with amplitudes {amps}")


@check.facet(
    "default_synchronization",
    R(pre=st.integers(0, 4), nd=st.integers(1, 10), os=st.sampled_from([1, 2]), frames=st.integers(0, 5), extra=st.integers(0, 10), streams=st.integers(1, 2)),
    quick=150, thorough=2000, rule="more than one frame",
)
def default_synchronization(c, r):
    w = RectangularWaveform(num_preamble_symbols=c["pre"], num_data_symbols=c["nd"])
    F = w.samples_per_frame(1e6, c["os"])
    extra = c["extra"] % F
    idx = list(w.synchronization.synchronize(np.zeros((c["streams"], c["frames"] * F + extra), complex), 1e6, c["os"]))
    r.nontrivial(c["frames"] > 1)
    r.equal(idx, [k * F for k in range(c["frames"])], "back to back frames from the first sample")
