"""P07 Forward error correction: decoding recovers every encoded block."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, bits, rec as R

from hermespy.fec import (
    EncoderManager, RepetitionEncoder, BlockInterleaver, CyclicRedundancyCheck, Scrambler3GPP, Scrambler80211a,
)

check = Check("P07", "Decoding an encoded bit stream recovers its data bits")

rep = R(k=st.just("rep"), n=st.integers(1, 12), r=st.one_of(st.sampled_from([1, 3, 5, 7]), st.integers(0, 15).map(lambda k: 2 * k + 1)), on=st.sampled_from([True, True, True, False]))
crc = R(k=st.just("crc"), n=st.integers(1, 12), c=st.integers(0, 9), on=st.sampled_from([True, True, True, False]))
inter = R(k=st.just("int"), n=st.integers(1, 6), b=st.integers(1, 6), on=st.sampled_from([True, True, True, False]))
scr = R(k=st.sampled_from(["3gpp", "11a"]), seed=seeds, default=st.booleans(), on=st.sampled_from([True, True, True, False]))
enc = st.one_of(rep, crc, inter, scr)


def make(e):
    if e["k"] == "rep":
        q = RepetitionEncoder(e["n"], e["r"])
    elif e["k"] == "crc":
        q = CyclicRedundancyCheck(e["n"], e["c"])
        q.seed = 3
    elif e["k"] == "int":
        q = BlockInterleaver(e["n"] * e["b"], e["b"])
    else:
        g = np.random.default_rng(e["seed"])
        if e["k"] == "3gpp":
            q = Scrambler3GPP() if e["default"] else Scrambler3GPP(g.integers(0, 2, int(g.integers(4, 32))))
        else:
            q = Scrambler80211a()
            if not e["default"]:
                q.seed = g.integers(0, 2, 7)
    q.enabled = e["on"]
    return q


def sizes(e):
    """(data bits, code bits) of a block, from the configuration alone."""
    if e["k"] == "rep":
        return e["n"], e["n"] * e["r"]
    if e["k"] == "crc":
        return e["n"], e["n"] + e["c"]
    if e["k"] == "int":
        return e["n"] * e["b"], e["n"] * e["b"]
    return 1, 1


def model(e, data):
    """Code block of deterministic block encoders."""
    if e["k"] == "rep":
        return np.concatenate([data] * e["r"])
    if e["k"] == "int":
        return np.array([data[j * e["n"] + i] for i in range(e["n"]) for j in range(e["b"])], dtype=data.dtype)
    return None


@check.facet("encoder", R(e=enc, blocks=st.integers(1, 6), seed=seeds), quick=1500, thorough=40000, rule="several blocks through one enabled encoder with redundancy or reordering")
def encoder(c, r):
    e = c["e"]
    q = make(e)
    k, l = sizes(e)
    r.cls(e["k"])
    r.equal((q.bit_block_size, q.code_block_size), (k, l), "block sizes")
    r.close(np.asarray(q.rate), np.asarray(k / l), "rate")
    r.nontrivial(c["blocks"] > 1 and (l > 1 or c["seed"] % 2))
    rng = np.random.default_rng(c["seed"])
    for b in range(c["blocks"]):
        n = k if l > 1 or e["k"] in ("rep", "crc", "int") else int(rng.integers(1, 60))
        data = rng.integers(0, 2, n)
        code = np.asarray(q.encode(data.copy()))
        r.equal(code.size, n if n != k else l, "code block length")
        r.check(np.all((code == 0) | (code == 1)), "code consists of bits")
        m = model(e, data)
        if m is not None:
            r.equal(code.astype(int), m.astype(int), f"code block {b}")
        if e["k"] == "crc":
            r.equal(code[:k].astype(int), data.astype(int), "checksum bits follow the data")
        rx = code.copy()
        if e["k"] == "rep":
            # fewer than half of each bit's repetitions flipped
            t = (e["r"] - 1) // 2
            v = rx.reshape(e["r"], k)
            for i in range(k):
                v[rng.permutation(e["r"])[: int(rng.integers(0, t + 1))], i] ^= 1
            if t and rng.random() < 0.5:
                # a burst erasing consecutive repetitions
                v = code.copy().reshape(e["r"], k)
                first = int(rng.integers(0, e["r"] - t + 1)) if rng.random() < 0.5 else int(rng.integers(0, 2)) * (e["r"] - t)
                v[first : first + t] ^= 1
            rx = v.reshape(-1)
        if e["k"] == "crc" and e["c"]:
            rx[k:] ^= rng.integers(0, 2, e["c"])
        out = np.asarray(q.decode(rx)).astype(int)
        r.equal(out, data.astype(int), f"decoded block {b}")


def gf2_minimal(seq):
    """Berlekamp-Massey: linear complexity."""
    n = len(seq)
    c = np.zeros(n + 1, int); b = np.zeros(n + 1, int)
    c[0] = b[0] = 1
    L, m = 0, -1
    for i in range(n):
        d = seq[i]
        for j in range(1, L + 1):
            d ^= c[j] & seq[i - j]
        if d:
            t = c.copy()
            c[i - m :] ^= b[: n + 1 - (i - m)]
            if L <= i / 2:
                L, m, b = i + 1 - L, i, t
    return L


@check.facet("scrambler", R(k=st.sampled_from(["3gpp", "11a"]), seed=seeds, cuts=st.lists(st.integers(0, 60), min_size=1, max_size=6), cuts2=st.lists(st.integers(1, 60), min_size=1, max_size=6)), quick=400, thorough=6000, rule="stream cut into different blocks at either end")
def scrambler(c, r):
    """Scrambling is one continuous key stream; 802.11a follows x^7 + x^4 + 1."""
    e = dict(k=c["k"], seed=c["seed"], default=False, on=True)
    total = sum(c["cuts"])
    data = bits(c["seed"], total).astype(int)
    q = make(e)
    code = []
    i = 0
    for n in c["cuts"]:
        code += [int(v) for v in q.encode(data[i : i + n])] if n else []
        i += n
    code = np.array(code, int)
    whole = make(e)
    if total:
        r.equal(np.asarray(whole.encode(data)).astype(int), code, "block boundaries do not change the scrambled stream")
    out, i = [], 0
    for n in c["cuts2"]:
        if i < total:
            out += [int(v) for v in q.decode(code[i : i + n])]
            i += n
    r.equal(np.array(out, int), data[: len(out)], "descrambling in other blocks")
    r.nontrivial(len(c["cuts"]) > 1 and total > 5)
    if c["k"] == "11a":
        key = code ^ data
        g = np.random.default_rng(c["seed"])
        s = list(g.integers(0, 2, 7))
        ref = []
        for _ in range(total):
            bit = (s[3] + s[6]) % 2
            ref.append(bit)
            s = [bit] + s[:-1]
        r.equal(key, np.array(ref, int), "802.11a scrambling sequence")
    else:
        # the key stream does not depend on the data
        z = make(e)
        if total:
            r.equal(np.asarray(z.encode(np.zeros(total, int))).astype(int), code ^ data, "key stream is independent of the data")


@check.facet(
    "chain",
    R(encs=st.lists(enc, min_size=0, max_size=4), n=st.integers(1, 60), code=st.integers(0, 200), frames=st.integers(1, 3), seed=seeds),
    quick=2000, thorough=60000, shards=2,
    rule="at least two enabled encoders of which one adds redundancy",
)
def chain(c, r):
    """Data bits survive any chain of encoders, in any number of blocks, including padding."""

    def manager():
        out = EncoderManager(seed=c["seed"])
        for e in c["encs"]:
            out.add_encoder(make(e))
        return out

    m = manager()
    on = [q for q in m.encoders if q.enabled]
    r.equal(len(m.encoders), len(c["encs"]), "registered encoders")
    r.nontrivial(len(on) > 1 and any(q.code_block_size > q.bit_block_size for q in on))
    sz = [q.bit_block_size for q in m.encoders]
    r.equal(sz, sorted(sz), "encoders run in the order of their block sizes")
    K, L = m.bit_block_size, m.code_block_size
    r.check(K >= 1 and L >= 1, f"positive block sizes ({K}, {L})")
    rate = 1.0
    for e in c["encs"]:
        if e["on"]:
            a, b = sizes(e)
            rate *= a / b
    r.close(np.asarray(m.rate), np.asarray(rate), "rate of the chain", rtol=1e-12)
    if len(on) == 1:
        r.equal((K, L), (on[0].bit_block_size, on[0].code_block_size), "block sizes of a single encoder")
    if not on:
        r.equal((K, L), (1, 1), "block sizes of an empty chain")
    r.cls("misaligned", any(b.bit_block_size % a.code_block_size for a, b in zip(on, on[1:])))
    # a stream of any number of bits
    data = bits(c["seed"], c["n"])
    m2 = manager()
    code = np.asarray(m2.encode(data.copy()))
    if not on:
        r.equal(code.astype(int), data.astype(int), "nothing to encode")
    if c["n"] <= (code.size // L) * K:
        r.equal(np.asarray(m2.decode(code, c["n"])).astype(int), data.astype(int), f"stream of {c['n']} bits")
        r.cls("arbitrary stream")
    for f in range(c["frames"]):
        # frame sized by the number of code bits
        n_code = L + c["code"]
        n = m.required_num_data_bits(n_code)
        r.check(n >= K and n % K == 0, f"{n} data bits for {n_code} code bits")
        data = bits(c["seed"] + 7 + f, n)
        code = np.asarray(m.encode(data.copy(), n_code))
        r.equal(code.size, n_code, "code fills the requested number of bits")
        out = np.asarray(m.decode(code.copy(), n)).astype(int)
        r.equal(out, data.astype(int), f"frame {f} filling {n_code} code bits")
        # scrambled continuously: only continue if both directions processed the same bits
    # requesting the impossible is refused
    try:
        m.encode(bits(1, n), max(1, code.size // 3) if rate < 1 else max(1, n - 1))
        refused = n - 1 < 1 or rate < 1 and code.size // 3 >= n / rate
    except (RuntimeError, ValueError):
        refused = True
    r.check(refused or not on, "encoding more bits than requested is refused")
    m.allow_padding = False
    n_code = L * 2 + 1 + (c["code"] % max(1, L - 1) if L > 1 else 0)
    if L > 1:
        try:
            m.encode(bits(1, m.required_num_data_bits(n_code)), n_code)
            r.fail("padding although it is not allowed")
        except RuntimeError:
            pass
