"""P01 Signal model: dense/sparse signals behave as (offset, samples) arrays."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, logfloats

from hermespy.core import DenseSignal, Signal, SparseSignal
from hermespy.core.signal_model import SignalBlock

check = Check(
    "P01",
    "Signal models behave like the sample matrices they stand for",
    assumptions=[
        "Sparse models may drop trailing all-zero samples: they are compared up to zero padding.",
        "Delays are integer multiples of the sampling period (only NEAREST interpolation exists).",
    ],
)

RATES = [1.0, 2.0, 1e3, 1e6, 3.84e6, 122.88e6]


def build(kind, m, fs, fc=0.0, noise=0.0, delay=0.0):
    if kind == "dense":
        return DenseSignal.FromNDArray(m.copy(), fs, fc, noise, delay)
    return SparseSignal(m.copy(), fs, fc, noise, delay)


def dense(sig):
    return np.array(sig.to_dense().view(np.ndarray))


def padded_equal(r, actual, expected, what, rtol=1e-12, key=None):
    """Equality up to trailing zero columns (and missing everything if all zero)."""
    a, e = np.asarray(actual), np.asarray(expected)
    if a.size == 0 and not np.any(e):
        return
    r.check(a.ndim == 2 and a.shape[0] == e.shape[0], f"{what}: stream count {a.shape} vs {e.shape}", key)
    n = max(a.shape[1], e.shape[1])
    ap = np.zeros((e.shape[0], n), complex)
    ep = np.zeros((e.shape[0], n), complex)
    ap[:, : a.shape[1]] = a
    ep[:, : e.shape[1]] = e
    r.close(ap, ep, what, rtol=rtol)


def compare(r, sig, model, kind, what, rtol=1e-12):
    if kind == "dense":
        r.equal(tuple(sig.shape), model.shape, f"{what}: shape")
        r.close(dense(sig), model, what, rtol=rtol)
    else:
        padded_equal(r, dense(sig), model, what, rtol)
        ends = 0
        for b in sig.blocks:
            r.check(b.offset >= ends, f"{what}: sparse blocks overlap or are unordered")
            ends = b.offset + b.num_samples
        r.equal(list(sig.block_offsets), [b.offset for b in sig.blocks], f"{what}: block offsets")


# --- construction -----------------------------------------------------------------
@check.facet(
    "construct",
    R(seed=seeds, streams=st.integers(1, 4), samples=st.integers(0, 60), zeros=st.sampled_from([0.0, 0.3, 0.7, 1.0]),
      cancel=st.lists(st.integers(0, 59), max_size=4), fs=st.sampled_from(RATES), fc=st.sampled_from([0.0, 1e9]),
      noise=st.sampled_from([0.0, 0.5]), delay=st.sampled_from([0.0, 2.0])),
    quick=600, thorough=20000,
    rule="at least two zero/non-zero regions or a column whose streams cancel",
)
def construct(c, r):
    m = cmat(c["seed"], c["streams"], c["samples"], c["zeros"])
    for i in c["cancel"]:
        if i < c["samples"] and c["streams"] > 1:
            m[:, i] = 0
            m[0, i], m[1, i] = 1.5 - 0.5j, -1.5 + 0.5j
    nz = np.any(m != 0, axis=0)
    regions = int(np.count_nonzero(np.diff(np.concatenate([[0], nz.astype(int)])) == 1))
    r.nontrivial(regions > 1 or (c["cancel"] and c["streams"] > 1))
    r.cls("several-regions", regions > 1)
    for kind in ("dense", "sparse"):
        s = build(kind, m, c["fs"], c["fc"], c["noise"], c["delay"])
        compare(r, s, m, kind, f"{kind} construction")
        for a, v in (("sampling_rate", "fs"), ("carrier_frequency", "fc"), ("noise_power", "noise"), ("delay", "delay")):
            r.equal(getattr(s, a), c[v], f"{kind} {a}")
        d = s.to_dense()
        for a, v in (("sampling_rate", "fs"), ("carrier_frequency", "fc"), ("noise_power", "noise"), ("delay", "delay")):
            r.equal(getattr(d, a), c[v], f"{kind} to_dense {a}")
        if kind == "sparse":
            r.equal(s.num_blocks, regions if c["samples"] and m.any() else s.num_blocks, "number of non-zero regions")
        cp = s.copy()
        compare(r, cp, m, kind, f"{kind} copy")
        if s.num_samples > 0 and s.num_streams > 0 and s.num_blocks:
            cp.blocks[0].view(np.ndarray)[0, 0] += 5.0
            compare(r, s, m, kind, f"{kind} original after writing to its copy")
        z = complex(0.5, -2.0)
        compare(r, s * z, m * z, kind, f"{kind} scalar product")
        for a, v in (("sampling_rate", "fs"), ("carrier_frequency", "fc"), ("delay", "delay")):
            r.equal(getattr(s * z, a), c[v], f"{kind} scaled {a}")
            r.equal(getattr(cp, a), c[v], f"{kind} copied {a}")
        r.close(np.asarray(s.timestamps), np.arange(s.num_samples) / c["fs"], f"{kind} timestamps", rtol=1e-12)
        r.close(np.asarray(s.duration), np.asarray(s.num_samples / c["fs"]), f"{kind} duration", rtol=1e-12)
        if s.num_samples:
            f = np.asarray(s.frequencies)
            r.close(f, np.fft.fftfreq(s.num_samples, 1 / c["fs"]), f"{kind} frequency bins", rtol=1e-12)
        if s.num_samples and s.num_streams and m.any():
            r.close(np.asarray(s.energy), np.sum(np.abs(m) ** 2, axis=1), f"{kind} per-stream energy", rtol=1e-9)
            nzc = m.shape[1] if kind == "dense" else int(nz.sum())
            r.close(np.asarray(s.power), np.sum(np.abs(m) ** 2, axis=1) / nzc, f"{kind} per-stream power over the modelled samples", rtol=1e-9)


# --- construction from blocks -------------------------------------------------------
@check.facet(
    "blocks",
    R(parts=st.lists(R(gap=st.integers(0, 7), n=st.integers(1, 12), seed=seeds, real=st.booleans()), min_size=1, max_size=4), streams=st.integers(1, 3), how=st.sampled_from(["blocks", "arrays", "offsets", "create-blocks", "create-arrays"]), fs=st.sampled_from(RATES), fc=st.sampled_from([0.0, 1e9])),
    quick=400, thorough=12000,
    rule="several blocks with gaps between them",
)
def from_blocks(c, r):
    """Signals assembled from blocks at offsets, or from arrays following each other."""
    mats, offsets, t = [], [], 0
    sequential = c["how"] in ("arrays", "create-arrays")
    for p in c["parts"]:
        t += 0 if sequential else p["gap"]
        m = cmat(p["seed"], c["streams"], p["n"], 0.0)
        mats.append(m.real.copy() if p["real"] and c["how"] not in ("blocks", "create-blocks") else m)
        offsets.append(t)
        t += p["n"]
    want = np.zeros((c["streams"], t), complex)
    for m, o in zip(mats, offsets):
        want[:, o : o + m.shape[1]] = m
    blocks = [SignalBlock(m.shape[0], m.shape[1], o, np.ascontiguousarray(m, complex).tobytes()) for m, o in zip(mats, offsets)] if "blocks" in c["how"] else None
    if c["how"] == "blocks":
        s = SparseSignal(blocks, c["fs"], c["fc"])
    elif c["how"] == "arrays":
        s = SparseSignal(mats, c["fs"], c["fc"])
    elif c["how"] == "create-blocks":
        s = Signal.Create(blocks, c["fs"], c["fc"])
    elif c["how"] == "create-arrays":
        s = Signal.Create(mats, c["fs"], c["fc"])
    else:
        s = Signal.Create(mats, c["fs"], c["fc"], offsets=offsets)
    lead = int(round(s.delay * c["fs"]))
    got = dense(s)
    padded_equal(r, np.concatenate([np.zeros((got.shape[0], lead), complex), got], axis=1), want, f"signal from {c['how']}")
    r.equal(s.carrier_frequency, c["fc"], "carrier frequency")
    r.equal(s.num_streams, c["streams"], "number of streams")
    r.nontrivial(len(mats) > 1 and t > sum(m.shape[1] for m in mats))


# --- histories --------------------------------------------------------------------
mat = R(seed=seeds, samples=st.integers(0, 24), zeros=st.sampled_from([0.0, 0.0, 0.4, 0.8]))
matnz = R(seed=seeds, samples=st.integers(1, 24), zeros=st.sampled_from([0.0, 0.0, 0.4, 0.8]))
OPS = st.one_of(
    R(op=st.just("append_samples"), m=matnz, ndarray=st.booleans()),
    R(op=st.just("append_streams"), seed=seeds, streams=st.integers(1, 2), zeros=st.sampled_from([0.0, 0.5]), ndarray=st.booleans()),
    R(op=st.just("scale"), re=st.integers(-3, 3), im=st.integers(-3, 3)),
    R(op=st.just("slice"), a=st.integers(0, 20), n=st.integers(1, 30), step=st.sampled_from([1, 1, 2, 3, 4])),
    R(op=st.just("streams"), a=st.integers(0, 3), n=st.integers(1, 4)),
    R(op=st.just("superimpose"), m=matnz, kind=st.sampled_from(["dense", "sparse"]), delay=st.integers(0, 8)),
    R(op=st.just("copy")),
    R(op=st.just("resample_same")),
)


@check.facet(
    "history",
    R(kind=st.sampled_from(["dense", "sparse"]), seed=seeds, streams=st.integers(1, 3), samples=st.integers(1, 30),
      zeros=st.sampled_from([0.0, 0.3, 0.7]), fs=st.sampled_from(RATES), delay=st.integers(0, 5), ops=st.lists(OPS, min_size=1, max_size=6)),
    quick=1500, thorough=60000, shards=2,
    rule="at least two operations that change the samples",
)
def history(c, r):
    """Operation sequences against a numpy matrix."""
    fs, kind = c["fs"], c["kind"]
    model = cmat(c["seed"], c["streams"], c["samples"], c["zeros"])
    sig = build(kind, model, fs, 1e9, 0.0, c["delay"] / fs)
    changed = 0
    for i, o in enumerate(c["ops"]):
        if model.size == 0 or (kind == "sparse" and not model.any()):
            return  # a sparse model without non-zero samples has no shape
        if kind == "sparse" and sig.num_samples < model.shape[1]:
            # trailing zeros are not represented: the represented length counts
            model = model[:, : sig.num_samples]
        before = model.copy()
        keep = sig
        what = f"{kind} step {i} {o['op']}"
        r.cls(o["op"])
        if o["op"] == "append_samples":
            m = cmat(o["m"]["seed"], model.shape[0], o["m"]["samples"], o["m"]["zeros"])
            v = m if o["ndarray"] else build("sparse" if kind == "sparse" else "dense", m, fs)
            if not o["ndarray"] and v.num_blocks == 0:
                continue
            sig = sig.append_samples(v)
            model = np.concatenate([model, m], axis=1)
            changed += 1
        elif o["op"] == "append_streams":
            m = cmat(o["seed"], o["streams"], model.shape[1], o["zeros"])
            if not m.any():
                continue
            v = m if o["ndarray"] else build("dense", m, fs)
            sig = sig.append_streams(v)
            model = np.concatenate([model, m], axis=0)
            changed += 1
        elif o["op"] == "scale":
            z = complex(o["re"], o["im"])
            sig = sig * z
            model = model * z
            changed += 1
        elif o["op"] == "slice":
            if o["a"] >= model.shape[1]:
                continue
            sl = slice(o["a"], min(o["a"] + o["n"], model.shape[1]), o["step"])
            sig = sig[:, sl]
            model = model[:, sl]
            changed += 1
        elif o["op"] == "streams":
            if o["a"] >= model.shape[0]:
                continue
            sl = slice(o["a"], o["a"] + o["n"])
            sig = sig[sl, :]
            model = model[sl, :]
            changed += 1
        elif o["op"] == "superimpose":
            m = cmat(o["m"]["seed"], model.shape[0], o["m"]["samples"], o["m"]["zeros"])
            if not m.any():
                continue
            added = build(o["kind"], m, fs, 1e9, 0.0, o["delay"] / fs)
            added_before = dense(added)
            d0 = int(round(sig.delay * fs))
            shift = o["delay"] - d0
            if shift > 0:
                pos = np.concatenate([np.zeros((m.shape[0], shift)), m], axis=1)
            else:
                pos = m[:, -shift:]
            n = max(pos.shape[1], model.shape[1])
            nm = np.zeros((model.shape[0], n), complex)
            nm[:, : model.shape[1]] += model
            nm[:, : pos.shape[1]] += pos
            delay_before = sig.delay
            sig = sig.superimpose(added)
            r.equal(sig.delay, delay_before, f"{what}: start time of the result")
            r.cls("superimpose-delayed", shift > 0)
            r.cls("superimpose-early", shift < 0)
            padded_equal(r, dense(added), added_before, f"{what}: the added signal is left untouched")
            r.equal(round(added.delay * fs), o["delay"], f"{what}: delay of the added signal")
            # dense superposition may work in place or grow; trailing zeros are free
            padded_equal(r, dense(sig), nm, f"{what} (delay difference {shift} samples)", 1e-10)
            model = nm[:, : sig.num_samples]
            changed += 1
            r.equal(sig.sampling_rate, fs, f"{what}: sampling rate")
            continue
        elif o["op"] == "copy":
            sig = sig.copy()
        elif o["op"] == "resample_same":
            sig = sig.resample(fs)
        if kind == "sparse":
            # a sparse slice may come back dense; both are fine
            if isinstance(sig, DenseSignal):
                padded_equal(r, dense(sig), model, what, 1e-11)
                sig = SparseSignal(dense(sig), sig.sampling_rate, sig.carrier_frequency, sig.noise_power, sig.delay)
            else:
                compare(r, sig, model, kind, what, 1e-11)
        else:
            compare(r, sig, model, kind, what, 1e-11)
        if o["op"] != "superimpose" and keep is not sig:
            padded_equal(r, dense(keep), before, f"{what}: operand must not change", 1e-12)
        r.equal(sig.sampling_rate, fs, f"{what}: sampling rate")
        r.equal(sig.carrier_frequency, 1e9, f"{what}: carrier frequency")
    r.nontrivial(changed >= 2)


# --- item assignment --------------------------------------------------------------
@check.facet(
    "setitem",
    R(kind=st.sampled_from(["dense", "dense", "sparse"]), seed=seeds, streams=st.integers(1, 3), samples=st.integers(2, 30), zeros=st.sampled_from([0.0, 0.0, 0.4]),
      writes=st.lists(R(a=st.integers(0, 29), n=st.integers(1, 12), s=st.integers(0, 2), k=st.integers(1, 3), seed=seeds, zeros=st.sampled_from([0.0, 0.0, 0.5, 1.0]), scalar=st.sampled_from([None, None, 0, 2])), min_size=1, max_size=3)),
    quick=600, thorough=20000,
    rule="a write strictly inside the signal (neither the first nor the last sample)",
)
def setitem(c, r):
    model = cmat(c["seed"], c["streams"], c["samples"], c["zeros"])
    if not model.any():
        return
    if c["kind"] == "sparse":
        # a fully represented signal: last sample non-zero
        model[:, -1] = 1.0
    sig = build(c["kind"], model, 1e6)
    for i, w in enumerate(c["writes"]):
        if c["kind"] == "sparse":
            if sig.num_blocks == 0:
                return
            model = model[:, : sig.num_samples]
        a = w["a"] % model.shape[1]
        b = min(model.shape[1], a + w["n"])
        s0 = w["s"] % c["streams"]
        s1 = min(c["streams"], s0 + w["k"])
        v = cmat(w["seed"], s1 - s0, b - a, w["zeros"])
        if w["scalar"] is not None:
            v = complex(w["scalar"])
        r.cls("scalar", w["scalar"] is not None)
        sig[s0:s1, a:b] = v
        model[s0:s1, a:b] = v
        r.nontrivial(0 < a and b < model.shape[1])
        padded_equal(r, dense(sig), model, f"{c['kind']} write {i} to [{s0}:{s1}, {a}:{b}]", 1e-12)


# --- superposition: streams, carriers, rates ---------------------------------------
@check.facet(
    "superimpose_streams",
    R(kind=st.sampled_from(["dense", "sparse"]), seed=seeds, streams=st.integers(1, 4), n1=st.integers(1, 20), n2=st.integers(1, 30), seed2=seeds, pick=st.sets(st.integers(0, 3), min_size=1, max_size=4)),
    quick=400, thorough=10000,
    rule="a proper subset of streams is selected",
)
def superimpose_streams(c, r):
    pick = sorted(i for i in c["pick"] if i < c["streams"])
    if not pick:
        return
    m = cmat(c["seed"], c["streams"], c["n1"])
    a = cmat(c["seed2"], c["streams"], c["n2"])
    r.nontrivial(len(pick) < c["streams"])
    sig = build("dense", m, 1e6)
    out = sig.superimpose(build(c["kind"], a, 1e6), stream_indices=pick)
    n = max(c["n1"], c["n2"])
    e = np.zeros((c["streams"], n), complex)
    e[:, : c["n1"]] = m
    e[pick, : c["n2"]] += a[pick]
    r.close(dense(out), e, f"superposition restricted to streams {pick}", rtol=1e-12)


@check.facet(
    "superimpose_carrier",
    R(kind=st.sampled_from(["dense", "sparse"]), offset=floats(-1.3, 1.3), tone=floats(-0.5, 0.5), amp=floats(0.1, 3.0), n=st.integers(900, 1400), seed=seeds, streams=st.integers(1, 2)),
    quick=250, thorough=4000,
    rule="carriers differ and bands overlap",
)
def superimpose_carrier(c, r):
    """A tone of an added signal appears at its radio frequency, or not at all."""
    fs, fc = 1e6, 1e9
    t = np.arange(c["n"]) / fs
    tone = c["tone"] * fs
    added_fc = fc + c["offset"] * fs
    a = c["amp"] * np.exp(2j * np.pi * tone * t)[None, :].repeat(c["streams"], 0)
    target = build(c["kind"], np.zeros((c["streams"], c["n"])) + 1e-300, fs, fc)
    out = dense(target.superimpose(build("dense", a, fs, added_fc)))
    if c["offset"] == 0.0:
        r.close(out, a, "superposition of equal carriers", rtol=1e-9)
        return
    mid = slice(300, c["n"] - 300)
    overlap = fs - abs(c["offset"] * fs)
    pos = tone + added_fc - fc  # where the tone lies in the target's baseband
    if overlap <= 0:
        r.cls("disjoint")
        r.check(np.max(np.abs(out)) < 1e-9, "signals without spectral overlap must not interfere")
        return
    r.nontrivial(True)
    # distance of the tone to the edge of the spectral overlap
    centre = -0.5 * (fc - added_fc)
    inside = 0.5 * overlap - min(abs(pos - centre + k * fs) for k in (-1, 0, 1))  # modulo aliases
    guard = 0.35 * overlap + 0.02 * fs
    e = c["amp"] * np.exp(2j * np.pi * pos * t)
    proj = np.mean(out[:, mid] * np.conj(e[mid] / c["amp"]), axis=1)
    if inside > guard:
        r.cls("in-band")
        r.close(np.abs(proj), np.full(c["streams"], c["amp"]), "amplitude of an in-band tone at its radio frequency", rtol=0.1)
        resid = out[:, mid] - proj[:, None] * (e[mid] / c["amp"])[None, :]
        r.check(np.max(np.abs(resid)) < 0.1 * c["amp"], f"in-band tone is shifted by the carrier distance, residual {np.max(np.abs(resid)):.3g}")
    elif inside < -guard:
        r.cls("out-of-band")
        r.check(np.max(np.abs(out[:, mid])) < 0.1 * c["amp"], "tone outside the receive band must be rejected")


# --- resampling -------------------------------------------------------------------
@check.facet(
    "resample",
    R(kind=st.sampled_from(["dense", "sparse"]), n=st.integers(300, 700), streams=st.integers(1, 3), f1=st.sampled_from([1.0, 1e6, 2.5e6]), ratio=st.one_of(st.sampled_from([0.25, 0.5, 2.0, 4.0, 3.0, 0.75, 1.5, 1.0]), floats(0.3, 4.0)),
      tones=st.lists(R(f=floats(-0.28, 0.28), a=floats(0.2, 1.0), p=floats(0, 6.28)), min_size=1, max_size=3), fc=st.sampled_from([0.0, 1e9]), delay=st.sampled_from([0.0, 1.0]), aa=st.booleans()),
    quick=250, thorough=5000,
    rule="rate changes and the content is a band-limited multi-tone",
)
def resample(c, r):
    f1, f2, n = c["f1"], c["f1"] * c["ratio"], c["n"]
    width = min(1.0, c["ratio"])

    def content(t):
        y = np.zeros((c["streams"], t.size), complex)
        for s in range(c["streams"]):
            for k in c["tones"]:
                y[s] += (s + 1) * k["a"] * np.exp(2j * np.pi * k["f"] * width * f1 * t + 1j * (k["p"] + s))
        return y

    sig = build(c["kind"], content(np.arange(n) / f1), f1, c["fc"], 0.0, c["delay"])
    out = sig.resample(f2, aliasing_filter=c["aa"])
    r.nontrivial(f1 != f2)
    r.equal(out.sampling_rate, f2, "sampling rate after resampling")
    r.equal(out.carrier_frequency, c["fc"], "carrier after resampling")
    r.equal(out.delay, c["delay"], "delay after resampling")
    r.equal(out.num_streams, c["streams"], "streams after resampling")
    r.check(abs(out.num_samples - n * c["ratio"]) <= 1.0, f"number of samples {out.num_samples} for {n} x {c['ratio']}")
    o = dense(out)
    if f1 == f2:
        r.close(o, dense(sig), "resampling to the same rate is the identity", rtol=1e-12)
        return
    e = content(np.arange(o.shape[1]) / f2)
    lo, hi = int(0.3 * o.shape[1]), int(0.7 * o.shape[1])
    scale = (c["streams"]) * sum(k["a"] for k in c["tones"])
    r.close(o[:, lo:hi], e[:, lo:hi], "band-limited content at the new sampling instants", rtol=0.08, scale=scale)


@check.facet(
    "resample_bursts",
    R(
        pos=st.lists(st.integers(40, 160), min_size=1, max_size=4), lead=st.integers(0, 60), width=st.lists(floats(3.0, 7.0), min_size=4, max_size=4), streams=st.integers(1, 2),
        ratio=st.one_of(st.sampled_from([2.0, 3.0, 1.5, 1.75, 0.75, 1.3, 0.8]), floats(0.7, 3.0)), kind=st.sampled_from(["dense", "sparse"]), aa=st.booleans(), f1=st.sampled_from([1.0, 1e6]), delay=st.sampled_from([0.0, 0.5]),
    ),
    quick=250, thorough=5000,
    rule="several bursts separated by silence at a changing rate",
)
def resample_bursts(c, r):
    """Bursts surrounded by silence keep their instant and energy, whichever block they are stored in"""
    ends = np.cumsum([c["lead"]] + [2 * p for p in c["pos"]])
    m = np.zeros((c["streams"], int(ends[-1]) + 5), complex)
    centres = []
    for p, e, w in zip(c["pos"], ends[:-1], c["width"]):
        t = np.arange(-32, 33)
        for s in range(c["streams"]):
            m[s, e + p - 32 : e + p + 33] = (1 + s) * np.exp(-((t / w) ** 2))
        centres.append(e + p)
    m[:, -1] = 1e-9
    ratio = c["ratio"]
    sig = build(c["kind"], m, c["f1"], delay=c["delay"])
    out = sig.resample(ratio * c["f1"], aliasing_filter=c["aa"])
    r.nontrivial(len(centres) > 1 and ratio != 1.0)
    r.check(abs(out.num_samples - m.shape[1] * ratio) <= 1.0, f"number of samples {out.num_samples} for {m.shape[1]} x {ratio}")
    r.close(out.delay, c["delay"], "delay")
    o = np.abs(dense(out)) ** 2
    n = np.arange(o.shape[1])
    for k, w in zip(centres, c["width"]):
        win = (n > (k - 38) * ratio) & (n < (k + 38) * ratio)
        for s in range(c["streams"]):
            E = o[s, win].sum()
            r.check(abs(n[win] @ o[s, win] / E - ratio * k) <= 0.5 + 0.1 * ratio, f"burst at sample {k} moved to {n[win] @ o[s, win] / E:.3f} instead of {ratio * k:.3f}")
            want = (1 + s) ** 2 * w * np.sqrt(np.pi / 2) * ratio
            r.check(abs(E / want - 1) < 0.12, f"energy {E:.4g} of a burst, expected {want:.4g}")
    r.check(np.max(o[:, n < (centres[0] - 38) * ratio], initial=0.0) < 1e-3, "silence remains silent")


@check.facet(
    "resample_short",
    R(n=st.integers(0, 60), streams=st.integers(1, 3), ratio=st.one_of(st.sampled_from([0.5, 0.25, 2.0, 1 / 3]), floats(0.2, 4.0)), seed=seeds, kind=st.sampled_from(["dense", "sparse"]), aa=st.booleans()),
    quick=300, thorough=8000,
    rule="fewer than thirty samples",
)
def resample_short(c, r):
    m = cmat(c["seed"], c["streams"], c["n"], 0.3 if c["kind"] == "sparse" else 0.0)
    if c["n"]:
        m[:, -1] = 1.0
    r.nontrivial(0 < c["n"] < 30)
    out = build(c["kind"], m, 1e6).resample(1e6 * c["ratio"], aliasing_filter=c["aa"])
    r.equal(out.sampling_rate, 1e6 * c["ratio"], "sampling rate")
    r.check(abs(out.num_samples - c["n"] * c["ratio"]) <= 1.0, f"duration of {c['n']} samples resampled by {c['ratio']}: {out.num_samples}")
    r.check(np.all(np.isfinite(dense(out))) and np.max(np.abs(dense(out)), initial=0.0) <= 10 * np.max(np.abs(m), initial=0.0), "bounded samples")


@check.facet(
    "superimpose_rates",
    R(kind=st.sampled_from(["dense", "sparse"]), seed=seeds, seed2=seeds, n=st.integers(30, 70), n2=st.integers(60, 90), ratio=st.sampled_from([0.5, 2.0, 1.25, 0.8]), streams=st.integers(1, 2)),
    quick=200, thorough=3000,
    rule="sampling rates differ",
)
def superimpose_rates(c, r):
    fs = 1e6
    m = cmat(c["seed"], c["streams"], c["n"])
    a = cmat(c["seed2"], c["streams"], c["n2"])
    added = DenseSignal.FromNDArray(a, fs * c["ratio"])
    try:
        build(c["kind"], m, fs).superimpose(added, resample=False)
        r.fail("superposition of different sampling rates with resampling forbidden was accepted")
    except RuntimeError:
        pass
    r.nontrivial()
    out = dense(build(c["kind"], m, fs).superimpose(added, aliasing_filter=False))
    ra = dense(added.resample(fs, aliasing_filter=False))
    n = max(m.shape[1], ra.shape[1])
    e = np.zeros((c["streams"], n), complex)
    e[:, : m.shape[1]] += m
    e[:, : ra.shape[1]] += ra
    padded_equal(r, out, e, "superposition of a signal at a different rate equals superposition of its resampled self", 1e-9)


# --- interleaved integers ----------------------------------------------------------
@check.facet(
    "interleaved",
    R(seed=seeds, streams=st.integers(1, 3), samples=st.integers(1, 40), scale=logfloats(1e-3, 1e3), dtype=st.sampled_from(["int16", "int8", "int32"]), zeros=st.sampled_from([0.0, 0.5]), kind=st.sampled_from(["dense", "sparse"])),
    quick=500, thorough=10000,
    rule="non-zero signal",
)
def interleaved(c, r):
    m = cmat(c["seed"], c["streams"], c["samples"], c["zeros"], c["scale"])
    if not m.any():
        return
    if c["kind"] == "sparse":
        m[:, -1] = c["scale"]
    dt = np.dtype(c["dtype"])
    sig = build(c["kind"], m, 1e6, 1e9)
    before = dense(sig)
    x = sig.to_interleaved(dt.type, scale=True)
    r.nontrivial()
    r.equal(x.shape, (c["streams"], 2 * c["samples"]), "interleaved shape")
    r.equal(x.dtype, dt, "interleaved data type")
    r.equal(dense(sig), before, "conversion leaves the signal untouched")
    y = Signal.FromInterleaved(x, scale=True, sampling_rate=2e6, carrier_frequency=3.0)
    r.equal(y.sampling_rate, 2e6, "sampling rate of deinterleaved signal")
    r.equal(y.carrier_frequency, 3.0, "carrier of deinterleaved signal")
    r.close(dense(y), m / np.max(np.abs(m)), "interleaved round trip within one quantisation step", rtol=0.0, atol=1.5 * np.sqrt(2) / np.iinfo(dt).max)
    k = np.round(m / c["scale"] * 20)
    z = DenseSignal.FromNDArray(k, 1e6).to_interleaved(dt.type, scale=False)
    r.equal(dense(Signal.FromInterleaved(z, scale=False, sampling_rate=1.0)), k, "unscaled interleaved round trip of integers")
