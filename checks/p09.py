"""P09 Multi-carrier waveforms: frames carry exactly the symbols placed on their grid."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, cmat, bits, rec as R, floats

from hermespy.core import Signal
from hermespy.modem import (
    OFDMWaveform, OCDMWaveform, OTFSWaveform, GridResource, GridElement, ElementType, PrefixType,
    SymbolSection, GuardSection, PilotSection, SchmidlCoxPilotSection, SchmidlCoxSynchronization,
    OFDMCorrelationSynchronization, OrthogonalLeastSquaresChannelEstimation,
    OrthogonalZeroForcingChannelEqualization, StatedSymbols, Symbols, CustomPilotSymbolSequence,
)
from hermespy.modem.waveforms.ieee_5gnr import NRSlot, NRSubframe, nr_bandwidth

check = Check("P09", "Multi-carrier frames return the symbols placed on their resource grid")

KINDS = ["OFDM", "OFDM", "OCDM", "OTFS"]
TYPES = {"D": ElementType.DATA, "R": ElementType.REFERENCE, "N": ElementType.NULL}

element = R(t=st.sampled_from(["D", "D", "R", "N"]), n=st.integers(1, 6))
resource = R(rep=st.integers(1, 3), els=st.lists(element, min_size=1, max_size=3), prefix=st.sampled_from(["CYCLIC", "CYCLIC", "ZEROPAD", "NONE"]), ratio=st.sampled_from([0.0, 0.0, 0.07, 0.1, 0.25, 0.5]))
section = st.one_of(
    R(k=st.just("sym"), rep=st.integers(1, 3), pattern=st.lists(st.integers(0, 2), min_size=1, max_size=3)),
    R(k=st.just("guard"), dur=st.integers(0, 20), rep=st.integers(1, 2)),
)
frame = R(
    kind=st.sampled_from(KINDS), order=st.sampled_from([2, 4, 16, 64, 256]), extra=st.integers(0, 9), dc=st.booleans(),
    resources=st.lists(resource, min_size=1, max_size=3), sections=st.lists(section, min_size=1, max_size=4),
    os=st.sampled_from([1, 1, 2, 3, 4]), bw=st.sampled_from([1e3, 1e6, 12.5e6]), pilot=st.booleans(), seed=seeds,
)


def build(c, **kw):
    resources = [
        GridResource(q["rep"], PrefixType[q["prefix"]], q["ratio"], [GridElement(TYPES[e["t"]], e["n"]) for e in q["els"]])
        for q in c["resources"]
    ]
    width = max(q["rep"] * sum(e["n"] for e in q["els"]) for q in c["resources"])
    n = width + c["extra"]
    sections = []
    for s in c["sections"]:
        if s["k"] == "sym":
            sections.append(SymbolSection(s["rep"], [p % len(resources) for p in s["pattern"]]))
        else:
            # (k+.5) samples: immune to rounding of the duration
            sections.append(GuardSection((s["dur"] + 0.25) / c["bw"], s["rep"]))
    if not any(s["k"] == "sym" for s in c["sections"]):
        sections.append(SymbolSection(1, [0]))
    pilot = PilotSection() if c["pilot"] else None
    args = dict(pilot_section=pilot, modulation_order=c["order"], **kw)
    if c["kind"] == "OFDM":
        w = OFDMWaveform(resources, sections, n, dc_suppression=c["dc"], **args)
    elif c["kind"] == "OTFS":
        w = OTFSWaveform(resources, sections, n, dc_suppression=c["dc"], **args)
    else:
        w = OCDMWaveform(n, resources, sections, **args)
    return w, n


def rows(c, w):
    """The grid specification, row by row: element types of each word."""
    out = []
    secs = c["sections"] if any(s["k"] == "sym" for s in c["sections"]) else c["sections"] + [dict(k="sym", rep=1, pattern=[0])]
    for s in secs:
        if s["k"] != "sym":
            continue
        for _ in range(s["rep"]):
            for p in s["pattern"]:
                q = c["resources"][p % len(c["resources"])]
                row = []
                for _ in range(q["rep"]):
                    for e in q["els"]:
                        row += [e["t"]] * e["n"]
                out.append((row, q))
    return out, secs


def stated(sym):
    raw = sym.raw
    return StatedSymbols(raw, np.ones((raw.shape[0], 1, raw.shape[1], raw.shape[2]), complex))


@check.facet("roundtrip", frame, quick=1200, thorough=60000, shards=2, rule="at least 8 data symbols in at least two words")
def roundtrip(c, r):
    w, n = build(c)
    spec, secs = rows(c, w)
    os_, bw = c["os"], c["bw"]
    nd = sum(row.count("D") for row, _ in spec)
    nr = sum(row.count("R") for row, _ in spec)
    bps = int(np.log2(c["order"]))
    r.nontrivial(nd >= 8 and len(spec) >= 2)
    r.cls(c["kind"])
    r.cls("oversampled", os_ > 1)
    r.cls("guard", any(s["k"] == "guard" for s in secs))
    r.cls("no-prefix-with-ratio", any(q["prefix"] == "NONE" and q["ratio"] > 0 for _, q in spec))
    r.equal(w.num_data_symbols, nd, "number of data symbols")
    r.equal(w.references_per_frame, nr, "number of reference symbols")
    r.equal(w.words_per_frame, len(spec), "number of words")
    r.equal(w.symbols_per_frame, nd + nr, "number of occupied symbols")
    r.equal(w.bits_per_symbol, bps, "bits per symbol")
    r.equal(w.bits_per_frame(), nd * bps, "bits per frame")
    # announced and actual length
    num = n * os_ if c["pilot"] else 0
    for s in secs:
        if s["k"] == "guard":
            num += int(s["rep"] * ((s["dur"] + 0.25) / bw) * bw * os_)
        else:
            for p in s["pattern"]:
                q = c["resources"][p % len(c["resources"])]
                num += s["rep"] * (n * os_ + (0 if q["prefix"] == "NONE" else int(n * os_ * q["ratio"])))
    announced = w.samples_per_frame(bw, os_)
    r.equal(announced, num, "announced samples per frame match prefixes, words, guards and pilot")
    r.close(np.asarray(w.frame_duration(bw)), np.asarray(w.samples_per_frame(bw, 1) / bw), "frame duration", rtol=1e-9)

    data = bits(c["seed"], nd * bps)
    mapped = w.map(data)
    if nd == 0:
        return
    r.equal(mapped.raw.size, nd, "mapped symbols")
    r.equal(np.asarray(w.unmap(mapped)).astype(int), data.astype(int), "bits after mapping and unmapping")
    placed = w.place(mapped)
    grid = placed.raw
    r.equal(grid.shape, (1, len(spec), n), "resource grid shape")
    # exact grid content
    expected = np.zeros((len(spec), n), complex)
    ref = np.asarray(w.pilot_symbols(nr)) if nr else np.empty(0)
    di = ri = 0
    flat = mapped.raw.flatten()
    for wi, (row, _) in enumerate(spec):
        for k, t in enumerate(row):
            if t == "D":
                expected[wi, k] = flat[di]
                di += 1
            elif t == "R":
                expected[wi, k] = ref[ri]
                ri += 1
    r.close(grid[0], expected, "symbols on the resource grid", rtol=1e-12)
    picked = w.pick(stated(placed))
    r.close(picked.raw.flatten(), flat, "picking inverts placing", rtol=1e-12)
    r.equal(picked.states.shape if hasattr(picked.states, "shape") else None, (1, 1, nd, 1), "picked states shape")

    frame_samples = w.modulate(placed, bw, os_)
    r.equal(frame_samples.shape, (announced,), "modulated samples")
    r.check(np.all(np.isfinite(frame_samples)), "modulated samples are finite")
    again = w.modulate(placed, bw, os_)
    r.equal(frame_samples, again, "modulation is deterministic")
    received = w.demodulate(frame_samples.copy(), bw, os_)
    r.equal(received.raw.shape, (1, len(spec), n), "demodulated grid shape")
    r.close(received.raw[0], expected, "demodulated resource grid", rtol=1e-9)
    out = np.asarray(w.unmap(w.pick(stated(received)))).astype(int)
    r.equal(out, data.astype(int), "bits after a transparent channel")

    # energy: each word carries os * sum |X|^2; prefixes repeat or silence
    i = n * os_ if c["pilot"] else 0
    wi = 0
    for s in secs:
        if s["k"] == "guard":
            k = int(s["rep"] * ((s["dur"] + 0.25) / bw) * bw * os_)
            r.check(not np.any(frame_samples[i : i + k]), "guard interval is silent")
            i += k
            continue
        for _ in range(s["rep"] * len(s["pattern"])):
            q = spec[wi][1]
            k = 0 if q["prefix"] == "NONE" else int(n * os_ * q["ratio"])
            word = frame_samples[i + k : i + k + n * os_]
            pre = frame_samples[i : i + k]
            if q["prefix"] == "CYCLIC":
                r.close(pre, word[word.size - k :], "cyclic prefix repeats the end of its word", rtol=1e-12)
            else:
                r.check(not np.any(pre), "zero-padded prefix is silent")
            if c["kind"] == "OFDM" or c["kind"] == "OCDM" and os_ == 1:
                r.close(np.asarray(np.sum(np.abs(word) ** 2)), np.asarray(w.symbol_energy(bw, os_) * np.sum(np.abs(expected[wi]) ** 2)), "word energy", rtol=1e-9)
            i += k + n * os_
            wi += 1
    if c["pilot"]:
        p = w.pilot_signal(bw, os_)
        r.equal(p.num_samples, n * os_, "pilot samples")
        r.equal(p.sampling_rate, bw * os_, "pilot sampling rate")
        r.close(frame_samples[: n * os_], np.asarray(p.view(np.ndarray))[0], "frame starts with the pilot signal", rtol=1e-12)
    # superposition
    a = cmat(c["seed"], len(spec), n)
    b = cmat(c["seed"] + 1, len(spec), n)

    def mod(g):
        y = w.modulate(Symbols(g[None]), bw, os_)
        if c["pilot"]:
            y = y[n * os_ :]
        return y

    r.close(mod(a) + 1j * mod(b), mod(a + 1j * b), "modulation is linear in the grid", rtol=1e-9)
    r.close(w.demodulate(np.concatenate([np.zeros(n * os_ if c["pilot"] else 0), mod(a)]), bw, os_).raw[0], a, "demodulation inverts modulation for arbitrary grids", rtol=1e-9)


# --- multipath --------------------------------------------------------------------
@check.facet(
    "multipath",
    R(n=st.integers(8, 40), words=st.integers(1, 4), os=st.sampled_from([1, 2, 4]), ratio=st.sampled_from([0.15, 0.25, 0.5]), taps=st.integers(1, 6), dc=st.booleans(), seed=seeds, order=st.sampled_from([2, 4, 16]), kind=st.sampled_from(["OFDM", "OFDM"]), lead=st.integers(1, 2)),
    quick=500, thorough=15000,
    rule="more than one tap, all inside the cyclic prefix",
)
def multipath(c, r):
    """A channel shorter than the cyclic prefix only scales each subcarrier; least-squares
    estimation from references followed by zero-forcing restores every bit."""
    n, os_, bw = c["n"], c["os"], 1e6
    prefix = int(n * os_ * c["ratio"])
    taps = max(1, min(c["taps"], prefix))
    g = np.random.default_rng(c["seed"])
    h = (g.standard_normal(taps) + 1j * g.standard_normal(taps)) * 0.6 ** np.arange(taps)
    h[0] += 3.0
    r.nontrivial(taps > 1)
    res = [
        GridResource(1, PrefixType.CYCLIC, c["ratio"], [GridElement(ElementType.REFERENCE, n)]),
        GridResource(1, PrefixType.CYCLIC, c["ratio"], [GridElement(ElementType.DATA, n)]),
    ]
    w = OFDMWaveform(res, [SymbolSection(c["lead"], [0]), SymbolSection(1, [1] * c["words"])], n, dc_suppression=c["dc"], modulation_order=c["order"])
    est = OrthogonalLeastSquaresChannelEstimation()
    eq = OrthogonalZeroForcingChannelEqualization()
    w.channel_estimation = est
    w.channel_equalization = eq
    data = bits(c["seed"], w.bits_per_frame())
    placed = w.place(w.map(data))
    x = w.modulate(placed, bw, os_)
    y = np.convolve(x, h)[: x.size]
    grid = w.demodulate(y, bw, os_).raw[0]
    ratio = grid / placed.raw[0]
    # same response on each word
    for k in range(1, ratio.shape[0]):
        r.close(ratio[k], ratio[0], "response of a subcarrier is the same for every word", rtol=1e-7)
    # frequency response: subcarrier frequencies cover the band around DC
    full = np.fft.fftshift(np.fft.fft(h, n * os_))
    for v in ratio[0]:
        d = np.min(np.abs(full - v))
        r.check(d < 1e-7 * np.max(np.abs(full)), f"subcarrier gain {v} is not a sample of the channel's frequency response")
    ss = w.estimate_channel(Symbols(grid[None]), bw, os_)
    r.close(np.asarray(ss.dense_states())[0, 0], ratio, "estimated channel", rtol=1e-6)
    eqd = w.equalize_symbols(ss)
    r.close(eqd.raw[0], placed.raw[0], "equalised grid", rtol=1e-6)
    out = np.asarray(w.unmap(w.pick(stated(eqd)))).astype(int)
    r.equal(out, data.astype(int), "bits after estimation and equalisation")


@check.facet(
    "estimation",
    R(n=st.integers(6, 24), words=st.integers(2, 6), spacing=st.integers(1, 4), tspacing=st.integers(1, 3), a=floats(-0.02, 0.02), b=floats(-0.05, 0.05), g=floats(0.2, 2.0), p=floats(0, 6.28), order=st.sampled_from([4, 16]), seed=seeds),
    quick=300, thorough=5000,
    rule="references are sparse and the response varies over the grid",
)
def estimation(c, r):
    """Least squares estimation is exact for responses which are affine over the grid."""
    n = c["n"]
    els = []
    k = 0
    while k < n:
        els.append(GridElement(ElementType.REFERENCE, 1))
        k += 1
        m = min(c["spacing"], n - k - 1) if n - k > 1 else 0
        if m > 0:
            els.append(GridElement(ElementType.DATA, m))
            k += m
    res = [GridResource(1, PrefixType.CYCLIC, 0.0, els), GridResource(1, PrefixType.CYCLIC, 0.0, [GridElement(ElementType.DATA, n)])]
    pattern = []
    while len(pattern) < c["words"]:
        pattern += [0] + [1] * (c["tspacing"] - 1)
    pattern.append(0)  # closed by references: no extrapolation
    w = OFDMWaveform(res, [SymbolSection(1, pattern)], n, modulation_order=c["order"])
    w.channel_estimation = OrthogonalLeastSquaresChannelEstimation()
    data = bits(c["seed"], w.bits_per_frame())
    placed = w.place(w.map(data)) if data.size else None
    if placed is None:
        return
    H = c["g"] * np.exp(1j * c["p"]) * (1 + c["a"] * np.arange(len(pattern))[:, None] + c["b"] * np.arange(n)[None, :])
    r.nontrivial(c["spacing"] > 1 and (c["a"] != 0 or c["b"] != 0))
    ss = w.estimate_channel(Symbols((placed.raw[0] * H)[None]), 1e6, 1)
    r.close(np.asarray(ss.dense_states())[0, 0], H, "affine channel response between reference symbols", rtol=1e-6)


@check.facet(
    "sample_offset",
    R(n=st.integers(4, 32), os=st.sampled_from([1, 2, 4]), ratio=st.sampled_from([0.25, 0.5]), offs=st.lists(st.integers(0, 16), min_size=1, max_size=4), reps=st.integers(1, 3), dc=st.booleans(), order=st.sampled_from([4, 16]), seed=seeds),
    quick=250, thorough=6000,
    rule="several sections with differing non-zero offsets",
)
def sample_offset(c, r):
    """Sampling a section early, inside its cyclic prefix, does not change its symbols."""
    n, os_, bw = c["n"], c["os"], 1e6
    prefix = int(n * os_ * c["ratio"])
    offs = [o % (prefix + 1) for o in c["offs"]]
    r.nontrivial(len(set(offs)) > 1)
    res = [GridResource(1, PrefixType.CYCLIC, c["ratio"], [GridElement(ElementType.DATA, n)])]
    w = OFDMWaveform(res, [SymbolSection(c["reps"], [0], o) for o in offs], n, dc_suppression=c["dc"], modulation_order=c["order"])
    data = bits(c["seed"], w.bits_per_frame())
    placed = w.place(w.map(data))
    got = w.demodulate(w.modulate(placed, bw, os_), bw, os_)
    r.close(got.raw, placed.raw, "grid sampled early inside the cyclic prefix", rtol=1e-9)


@check.facet(
    "sparse_references",
    R(n=st.integers(3, 20), words=st.integers(1, 5), at=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 19)), min_size=1, max_size=12), g=floats(0.2, 2.0), p=floats(0, 6.28), order=st.sampled_from([4, 16]), seed=seeds),
    quick=250, thorough=6000,
    rule="fewer references than grid elements, some on a single line",
)
def sparse_references(c, r):
    """A flat channel is recovered exactly from any non-empty set of references."""
    n = c["n"]
    marks = {(a % c["words"], b % n) for a, b in c["at"]}
    res = []
    for k in range(c["words"]):
        res.append(GridResource(1, PrefixType.CYCLIC, 0.0, [GridElement(ElementType.REFERENCE if (k, q) in marks else ElementType.DATA, 1) for q in range(n)]))
    w = OFDMWaveform(res, [SymbolSection(1, list(range(c["words"])))], n, modulation_order=c["order"])
    w.channel_estimation = OrthogonalLeastSquaresChannelEstimation()
    data = bits(c["seed"], w.bits_per_frame())
    r.nontrivial(0 < len(marks) < n * c["words"])
    r.cls("one word", len({a for a, _ in marks}) == 1)
    r.cls("one subcarrier", len({b for _, b in marks}) == 1)
    if data.size == 0:
        return
    placed = w.place(w.map(data))
    h = c["g"] * np.exp(1j * c["p"])
    ss = w.estimate_channel(Symbols(h * placed.raw), 1e6, 1)
    r.close(np.asarray(ss.dense_states())[0, 0], np.full((c["words"], n), h), "flat channel from sparse references", rtol=1e-6)


# --- synchronisation --------------------------------------------------------------
@check.facet(
    "synchronization",
    R(method=st.sampled_from(["corr", "sc"]), n=st.integers(16, 40), os=st.sampled_from([1, 2]), words=st.integers(2, 5), lead=st.integers(0, 60), tail=st.integers(1, 80), gain=floats(0.1, 10.0), phase=floats(0, 6.28), order=st.sampled_from([4, 16]), seed=seeds, dc=st.booleans(), streams=st.integers(1, 2)),
    quick=400, thorough=10000,
    rule="the frame starts after silence",
)
def synchronization(c, r):
    n = 2 * c["n"]
    os_, bw = c["os"], 1e6
    res = [GridResource(1, PrefixType.CYCLIC, 0.1, [GridElement(ElementType.DATA, n)])]
    sc = c["method"] == "sc"
    w = OFDMWaveform(res, [SymbolSection(1, [0] * c["words"])], n, dc_suppression=c["dc"], modulation_order=c["order"], pilot_section=SchmidlCoxPilotSection() if sc else PilotSection())
    w.synchronization = SchmidlCoxSynchronization() if sc else OFDMCorrelationSynchronization()
    r.check(w.synchronization.waveform is w, "the synchronisation belongs to its waveform")
    data = bits(c["seed"], w.bits_per_frame())
    x = w.modulate(w.place(w.map(data)), bw, os_)
    y = np.concatenate([np.zeros(c["lead"]), x, np.zeros(c["tail"])])[None, :] * (c["gain"] * np.exp(1j * c["phase"]))
    y = np.repeat(y, c["streams"], axis=0)
    idx = [int(i) for i in w.synchronization.synchronize(y, bw, os_)]
    r.nontrivial(c["lead"] > 0)
    r.cls(c["method"])
    if sc:
        # both halves of the pilot coincide up to their sign: the metric's nominal peak
        pil = np.asarray(w.pilot_signal(bw, os_).view(np.ndarray))[0]
        half = pil.size // 2
        coherence = np.vdot(pil[:half], pil[half:]) / np.vdot(pil[:half], pil[:half]).real
        if not c["dc"] or w.num_subcarriers % 4 == 0:
            r.close(np.asarray(abs(coherence)), np.asarray(1.0), "halves of the Schmidl-Cox pilot coincide", rtol=1e-9)
        L = w.num_subcarriers * os_ // 2
        metric = np.array([np.sum(np.abs(np.sum(y[:, d : d + L].conj() * y[:, d + L : d + 2 * L], axis=1))) for d in range(1 + y.shape[1] - 2 * L)])
        best = int(np.argmax(metric))
        r.check(any(abs(metric[i] - metric[best]) <= 1e-9 * metric[best] for i in idx), f"Schmidl-Cox finds the maximum of its timing metric at {best}, found {idx}")
        r.check(all(metric[i] >= 0.7 * metric[best] for i in idx), f"every Schmidl-Cox detection {idx} is a strong repetition")
        d = np.diff(idx)
        r.check(np.all(d >= 0.85 * x.size), f"detections {idx} are at least a frame apart")
    else:
        r.equal(idx, [c["lead"]], "correlation finds the single frame")


# --- 5G NR ------------------------------------------------------------------------
@check.facet(
    "nr",
    R(kind=st.sampled_from(["slot", "subframe"]), mu=st.integers(0, 2), rb=st.integers(24, 30), os=st.sampled_from([1, 2]), seed=seeds),
    quick=40, thorough=400,
    rule="every case transports a full slot or subframe",
)
def nr(c, r):
    w = NRSlot(c["rb"]) if c["kind"] == "slot" else NRSubframe(c["mu"], c["rb"])
    bw = nr_bandwidth(c["mu"], c["rb"])
    r.equal(bw, 15e3 * 2 ** c["mu"] * 12 * c["rb"], "bandwidth of the numerology")
    slots = 1 if c["kind"] == "slot" else 2 ** c["mu"]
    r.equal(w.words_per_frame, 14 * slots, "symbols per slot times slots")
    r.equal(w.num_subcarriers, 12 * c["rb"], "subcarriers")
    data = bits(c["seed"], w.bits_per_frame())
    x = w.modulate(w.place(w.map(data)), bw, c["os"])
    r.equal(x.size, w.samples_per_frame(bw, c["os"]), "samples per frame")
    out = np.asarray(w.unmap(w.pick(stated(w.demodulate(x, bw, c["os"]))))).astype(int)
    r.nontrivial()
    r.equal(out, data.astype(int), "bits after a transparent channel")
