"""P08 PSK / QAM / PAM constellations."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, bits, rec as R, floats, logfloats

from hermespy.modem.tools import PskQamMapping

check = Check("P08", "Constellation mapping is invertible, normalised and detects the nearest point")

DEFAULT = [(2, True), (4, True), (8, True), (16, True), (64, True), (256, True), (2, False), (4, False), (8, False), (16, False)]


def make(c, soft=False):
    if c["custom"]:
        g = np.random.default_rng(c["mseed"])
        M = 2 ** c["logm"]
        m = c["scale"] * (g.standard_normal(M) + 1j * g.standard_normal(M))
        return PskQamMapping(M, mapping=m, soft_output=soft), m / np.sqrt(np.mean(np.abs(m) ** 2))
    M, cx = DEFAULT[c["std"]]
    return PskQamMapping(M, soft_output=soft, is_complex=cx), None


base = dict(custom=st.sampled_from([False, False, False, True]), std=st.integers(0, len(DEFAULT) - 1), logm=st.integers(1, 7), mseed=seeds, scale=logfloats(0.01, 100.0))


def words(M):
    b = int(np.log2(M))
    return np.array([[(k >> (b - 1 - i)) & 1 for i in range(b)] for k in range(M)], np.uint8)


@check.facet("constellation", R(**base), quick=200, thorough=2000, rule="at least 4 points", explicit=[dict(custom=False, std=k, logm=1, mseed=0, scale=1.0) for k in range(len(DEFAULT))])
def constellation(c, r):
    m, ref = make(c)
    M = m.modulation_order
    W = words(M)
    pts = np.array([m.get_symbols(w)[0] for w in W])
    r.nontrivial(M >= 4)
    r.equal(m.bits_per_symbol, int(np.log2(M)), "bits per symbol")
    r.close(np.asarray(m.get_mapping()).reshape(-1), pts, "constellation lists the points in the order of their bit words", rtol=1e-12)
    r.close(np.asarray(np.mean(np.abs(pts) ** 2)), np.asarray(1.0), "unit mean energy", rtol=1e-9)
    d = np.abs(pts[:, None] - pts[None, :]) + 10 * np.eye(M)
    r.check(np.min(d) > 1e-9, "points are distinct")
    if ref is not None:
        r.close(pts, ref, "custom constellation, normalised", rtol=1e-9)
        return
    _, cx = DEFAULT[c["std"]]
    r.check(cx or np.max(np.abs(pts.imag)) < 1e-12, "real-valued constellation")
    r.close(np.asarray(np.mean(pts)), np.asarray(0j), "zero mean", rtol=0, atol=1e-9)
    # nearest neighbours differ in exactly one bit
    dmin = np.min(d)
    for i, j in zip(*np.where(d < dmin * (1 + 1e-6))):
        r.equal(int(np.sum(W[i] != W[j])), 1, f"Gray labelling of neighbours {i} and {j}")
    # regular grid
    if cx and M in (4, 16, 64, 256):
        k = int(np.sqrt(M))
        r.equal(len(np.unique(np.round(pts.real, 9))), k, "square QAM")
        r.equal(len(np.unique(np.round(pts.imag, 9))), k, "square QAM")
    if cx and M == 8:
        r.close(np.abs(pts), np.ones(8), "8-PSK lies on the unit circle")


@check.facet(
    "detection",
    R(n=st.integers(1, 40), sigma=st.sampled_from([0.0, 0.05, 0.3, 1.0, 3.0]), nv=logfloats(0.01, 100.0), seed=seeds, **base),
    quick=1500, thorough=60000, shards=2,
    rule="several symbols at a noise level causing detection errors",
)
def detection(c, r):
    m, _ = make(c)
    M, b = m.modulation_order, m.bits_per_symbol
    g = np.random.default_rng(c["seed"])
    data = bits(c["seed"], b * c["n"])
    s = m.get_symbols(data.copy())
    r.equal(s.shape, (c["n"],), "number of symbols")
    pts = np.asarray(m.get_mapping()).reshape(-1)
    W = words(M)
    idx = [int("".join(map(str, w)), 2) for w in data.reshape(-1, b)]
    r.close(s, pts[idx], "each word of bits selects its constellation point", rtol=1e-12)
    r.equal(np.asarray(m.detect_bits(s)).astype(int), data.astype(int), "noise-free detection")
    y = s + c["sigma"] * (g.standard_normal(c["n"]) + 1j * g.standard_normal(c["n"])) / np.sqrt(2)
    real = not c["custom"] and (not DEFAULT[c["std"]][1] or M == 2)
    z = y.real if real else y
    d2 = np.abs(z[:, None] - pts[None, :]) ** 2
    hard = np.asarray(m.detect_bits(y.copy(), float(c["nv"]))).astype(int).reshape(-1, b)
    order = np.sort(np.sqrt(d2), axis=1)
    clear = (order[:, 1] - order[:, 0] > 1e-9) if M > 1 else np.ones(c["n"], bool)
    best = W[np.argmin(d2, axis=1)].astype(int)
    # bit-wise max-log decision coincides with the nearest point
    r.equal(hard[clear], best[clear], "hard decision is the nearest constellation point")
    r.nontrivial(c["n"] > 2 and np.any(best.reshape(-1) != data.astype(int)))
    if c["custom"] or (M == 8 and DEFAULT[c["std"]][1]):
        return
    soft, _ = make(c, soft=True)
    nv = g.uniform(0.1, 10.0, c["n"])
    llr = np.asarray(soft.detect_bits(y.copy(), 1.0)).reshape(-1, b)
    # max-log likelihood ratio, positive for ones, up to the mapping's convention factor
    ref = np.array([np.min(np.where(W[:, i] == 0, d2, np.inf), axis=1) - np.min(np.where(W[:, i] == 1, d2, np.inf), axis=1) for i in range(b)]).T
    r.cls("soft")
    factor = 0.5 if M in (2, 4) and (M == 2 or DEFAULT[c["std"]][1]) else 1.0
    r.close(llr, factor * ref, "soft output is the max-log likelihood ratio", rtol=1e-9)
    scaled = np.asarray(soft.detect_bits(y.copy(), float(c["nv"]))).reshape(-1, b)
    r.close(scaled, llr / c["nv"], "likelihood ratios are inversely proportional to the noise variance", rtol=1e-9)
    per = np.asarray(soft.detect_bits(y.copy(), nv)).reshape(-1, b)
    r.close(per, llr / nv[:, None], "individual noise variances", rtol=1e-9)


@check.facet("validation", R(M=st.integers(-3, 300), cx=st.booleans(), size=st.integers(1, 300), custom=st.booleans()), quick=300, thorough=3000, rule="an unsupported configuration")
def validation(c, r):
    M = c["M"]
    pow2 = M > 0 and M & (M - 1) == 0
    if c["custom"]:
        ok = pow2 and c["size"] == M
    else:
        ok = pow2 and M in ((2, 4, 8, 16, 64, 256) if c["cx"] else (2, 4, 8, 16))
    r.nontrivial(not ok)
    try:
        PskQamMapping(M, mapping=np.exp(1j * np.arange(c["size"])) if c["custom"] else None, is_complex=c["cx"])
        got = True
    except ValueError:
        got = False
    r.equal(got, ok, f"order {M} accepted")
