"""P11 symbol and stream precoding."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from sparse import GCXS, COO

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, logfloats

from hermespy.core import Signal, TransmitSignalCoding, ReceiveSignalCoding, TransmitStreamEncoder, ReceiveStreamDecoder
from hermespy.core.state import TransmitState, ReceiveState, DeviceState
from hermespy.modem import Alamouti, Ganesan, DFT, MaximumRatioCombining, SingleCarrier, StatedSymbols, Symbols
from hermespy.modem.precoding.dft import DFTNorm
from hermespy.modem.precoding.symbol_precoding import TransmitSymbolCoding, ReceiveSymbolCoding, TransmitSymbolEncoder, ReceiveSymbolDecoder
from hermespy.modem.waveform import ZeroForcingChannelEqualization

check = Check("P11", "Precodings are inverted by their decoders over every coherent channel")


def nd(x):
    return np.asarray(x.todense() if hasattr(x, "todense") else x)


def c3(seed, a, b, c, scale=1.0):
    return cmat(seed, a, b * c, scale=scale).reshape(a, b, c)


def c4(seed, a, b, c, d):
    return cmat(seed, a, b * c * d).reshape(a, b, c, d)


def coherent(seed, rx, tx, groups, per, S):
    """Random channel, constant over `per` consecutive blocks."""
    return np.repeat(c4(seed, rx, tx, groups, S), per, axis=2)


def maybe_sparse(states, flag):
    return COO.from_numpy(states) if flag else states


@check.facet(
    "space-time",
    R(code=st.sampled_from(["alamouti", "ganesan"]), groups=st.integers(1, 4), S=st.integers(1, 5), rx=st.integers(1, 4), seed=seeds, sparse=st.booleans(), scale=logfloats(1e-3, 1e3), bad=st.integers(1, 3)),
    quick=500, thorough=20000,
    rule="several groups of blocks and receive antennas",
)
def space_time(c, r):
    code, n_in, n_out, tx = (Alamouti(), 2, 2, 2) if c["code"] == "alamouti" else (Ganesan(), 3, 4, 4)
    r.nontrivial(c["groups"] > 1 and c["rx"] > 1)
    r.cls(c["code"])
    r.equal((code.num_transmit_input_symbols, code.num_transmit_output_symbols, code.num_receive_input_symbols, code.num_receive_output_symbols), (n_in, n_out, n_out, n_in), "code dimensions")
    r.equal(code.encode_rate, Fraction(n_in, n_out), "encoding rate")
    r.equal(code.decode_rate, Fraction(n_in, n_out), "decoding rate")
    B, S, rx = c["groups"] * n_in, c["S"], c["rx"]
    x = c3(c["seed"], 1, B, S, c["scale"])
    sym = StatedSymbols(x.copy(), np.ones((1, 1, B, S), complex))
    enc = code.encode_symbols(sym, tx)
    r.equal(sym.raw, x, "encoding does not alter its input")
    E = enc.raw
    r.equal(E.shape, (tx, c["groups"] * n_out, S), "encoded dimensions")
    r.equal((enc.states.shape[0], enc.states.shape[2], enc.states.shape[3]), E.shape, "states of encoded symbols")
    # Orthogonal design: the streams of each group are orthogonal and of equal energy over the group's blocks
    for g in range(c["groups"]):
        xi = x[0, g * n_in : (g + 1) * n_in]
        for s in range(S):
            C = E[:, g * n_out : (g + 1) * n_out, s]
            en = np.sum(np.abs(xi[:, s]) ** 2)
            r.close(C @ C.conj().T, en * np.eye(tx), "orthogonal design of full diversity", rtol=1e-9, scale=en)
    # Linear (real-valued) in its input
    x2 = c3(c["seed"] + 1, 1, B, S, c["scale"])
    e2 = code.encode_symbols(StatedSymbols(x2, np.ones((1, 1, B, S), complex)), tx).raw
    e3 = code.encode_symbols(StatedSymbols(2.0 * x - 0.5 * x2, np.ones((1, 1, B, S), complex)), tx).raw
    r.close(e3, 2.0 * E - 0.5 * e2, "real-linear encoding", rtol=1e-9)
    # Coherent channel
    H = coherent(c["seed"] + 2, rx, tx, c["groups"], n_out, S)
    y = np.einsum("rtbs,tbs->rbs", H, E)
    rec = StatedSymbols(y.copy(), maybe_sparse(H, c["sparse"]))
    dec = code.decode_symbols(rec, rx)
    cond = np.abs(H) ** 2
    r.equal(dec.raw.shape, (rx, B, S), "decoded dimensions")
    amp = np.sqrt(np.min(np.sum(cond, axis=1)))
    r.close(dec.raw, np.repeat(x, rx, axis=0), "each receive antenna recovers the encoded symbols", rtol=1e-9, scale=c["scale"] * 5 / min(amp, 1.0))
    r.equal(nd(dec.states).shape, (rx, 1, B, S), "decoded states")
    r.close(nd(dec.states), np.ones((rx, 1, B, S)), "decoded symbols are equalized")
    r.equal(rec.raw, y, "decoding does not alter its input")
    # Additive disturbance: matched filter combining has a gain of 1/|h|^2 on white disturbances
    N = c3(c["seed"] + 3, rx, E.shape[1], S, c["scale"])
    dn = code.decode_symbols(StatedSymbols(y + N, maybe_sparse(H, c["sparse"])), rx).raw - dec.raw
    pure = code.decode_symbols(StatedSymbols(N.copy(), maybe_sparse(H, c["sparse"])), rx).raw
    r.close(dn, pure, "additive decoding", rtol=1e-7, scale=c["scale"] * 5 / min(amp, 1.0) ** 2)
    hn = np.sum(cond, axis=1)[:, ::n_out, :]
    for g in range(c["groups"]):
        bound = np.sum(np.abs(N[:, g * n_out : (g + 1) * n_out]) ** 2, axis=1) / hn[:, g, :]
        got = np.sum(np.abs(pure[:, g * n_in : (g + 1) * n_in]) ** 2, axis=1)
        r.check(np.all(got <= bound * (1 + 1e-6)), "disturbances are not amplified beyond the channel gain")
    # Validation
    for what, s_, o in (
        ("several input streams", StatedSymbols(c3(1, 2, B, S), np.ones((2, 1, B, S), complex)), tx),
        ("a wrong number of antennas", sym, tx + c["bad"]),
        ("an incomplete group", StatedSymbols(c3(1, 1, B + 1, S), np.ones((1, 1, B + 1, S), complex)), tx),
    ):
        try:
            code.encode_symbols(s_, o)
        except (ValueError, RuntimeError):
            pass
        else:
            r.fail(f"encoding {what} is refused")
    try:
        code.decode_symbols(StatedSymbols(c3(1, rx, n_out + 1, S), c4(1, rx, tx, n_out + 1, S)), rx)
    except ValueError:
        pass
    else:
        r.fail("decoding an incomplete group is refused")
    r.equal(code.num_transmit_input_streams(tx), 1, "single input stream")
    r.check(code.num_transmit_input_streams(tx + c["bad"]) < 0, "invalid antenna counts")
    r.equal(code.num_receive_output_streams(rx), rx, "output streams")


@check.facet(
    "combining",
    R(rx=st.integers(1, 5), B=st.integers(1, 5), S=st.integers(1, 5), tx=st.integers(1, 3), seed=seeds, sparse=st.booleans(), norm=st.sampled_from(list(range(3))), sigma=logfloats(1e-3, 1.0)),
    quick=500, thorough=20000,
    rule="more than one receive antenna and block",
)
def combining(c, r):
    rx, B, S = c["rx"], c["B"], c["S"]
    r.nontrivial(rx > 1 and B > 1 and S > 1)
    x = c3(c["seed"], 1, B, S)
    h = c4(c["seed"] + 1, rx, 1, B, S)
    n = c["sigma"] * c3(c["seed"] + 2, rx, B, S)
    y = h[:, 0] * x + n
    zf = ZeroForcingChannelEqualization()
    # Maximum ratio combining
    mrc = MaximumRatioCombining()
    d = mrc.decode_symbols(StatedSymbols(y.copy(), maybe_sparse(h, c["sparse"])), 1)
    ref = np.sum(h[:, 0].conj() * y, axis=0, keepdims=True) / np.sum(np.abs(h[:, 0]) ** 2, axis=0, keepdims=True)
    r.close(d.raw, ref, "maximum ratio combining", rtol=1e-9)
    r.close(zf.equalize_channel(d).raw, ref, "combined symbols, equalized", rtol=1e-9)
    r.equal((mrc.num_receive_output_streams(rx), mrc.decode_rate), (1, Fraction(1)), "combining dimensions")
    if c["tx"] > 1:
        try:
            mrc.decode_symbols(StatedSymbols(y, c4(1, rx, c["tx"], B, S)), 1)
        except (RuntimeError, ValueError):
            pass
        else:
            r.fail("combining several transmit streams is refused")
    # Selection combining
    sc = SingleCarrier()
    H = c4(c["seed"] + 3, rx, c["tx"], B, S)
    z = np.einsum("rtbs,bs->rbs", H, x[0]) + n
    d = sc.decode_symbols(StatedSymbols(z.copy(), maybe_sparse(H, c["sparse"])), 1)
    tot = H.sum(axis=1)
    best = np.argmax(np.abs(tot), axis=0)
    b, s = np.meshgrid(range(B), range(S), indexing="ij")
    r.close(d.raw, z[best, b, s][None], "strongest receive stream selected for each symbol", rtol=1e-12)
    r.equal(nd(d.states).shape, (1, c["tx"], B, S), "states of selected symbols")
    r.close(nd(d.states)[0], H[best, :, b, s].transpose(2, 0, 1), "states of the selected streams", rtol=1e-12)
    r.close(zf.equalize_channel(d).raw, z[best, b, s][None] / tot[best, b, s][None], "selected symbols, equalized", rtol=1e-9)
    r.equal((sc.num_receive_output_streams(rx), sc.decode_rate), (1, Fraction(1)), "selection dimensions")
    # Zero forcing of several streams
    if rx >= max(c["tx"], 2):
        X = c3(c["seed"] + 4, c["tx"], B, S)
        e = zf.equalize_channel(StatedSymbols(np.einsum("rtbs,tbs->rbs", H, X), maybe_sparse(H, c["sparse"])))
        sv = np.linalg.svd(H.transpose(2, 3, 0, 1), compute_uv=False).min()
        r.close(e.raw, X, "zero forcing separates the streams", rtol=1e-8, scale=5 / min(1.0, sv) ** 2)
    # Fourier precoding
    norm = [DFTNorm.BACKWARD, DFTNorm.ORTHO, DFTNorm.FORWARD][c["norm"]]
    dft = DFT(norm) if c["norm"] != 1 else DFT()
    q = StatedSymbols(y.copy(), h)
    e = dft.encode_symbols(q, rx)
    k = np.arange(B)
    F = np.exp(-2j * np.pi * np.outer(k, k) / B) * [1.0, B**-0.5, 1.0 / B][c["norm"]]
    r.close(e.raw, np.einsum("kb,rbs->rks", F, y), "Fourier transform over the blocks", rtol=1e-9)
    r.close(dft.decode_symbols(e, rx).raw, y, "Fourier precoding round trip", rtol=1e-9)
    r.equal(q.raw, y, "Fourier precoding does not alter its input")
    r.equal((dft.num_transmit_input_streams(3), dft.num_receive_output_streams(3), dft.encode_rate, dft.decode_rate), (3, 3, Fraction(1), Fraction(1)), "Fourier precoding dimensions")


class Mix(TransmitSymbolEncoder, ReceiveSymbolDecoder):
    """Test precoder: linear map of `n_in` to `n_out` streams, or repetition of blocks."""

    def __init__(self, k, n_in, n_out, rep=1):
        TransmitSymbolEncoder.__init__(self)
        ReceiveSymbolDecoder.__init__(self)
        self.k, self.n_in, self.n_out, self.rep = k, n_in, n_out, rep

    def matrix(self):
        return cmat(1000 + self.k, self.n_out, self.n_in)

    def encode_symbols(self, symbols, num_output_streams):
        assert num_output_streams == self.n_out, f"encoder asked for {num_output_streams} rather than {self.n_out} streams"
        y = np.repeat(np.einsum("oi,ibs->obs", self.matrix(), symbols.raw), self.rep, axis=1)
        return StatedSymbols(y, np.ones((y.shape[0], 1) + y.shape[1:], complex))

    def decode_symbols(self, symbols, num_output_streams):
        assert num_output_streams == self.n_out, f"decoder asked for {num_output_streams} rather than {self.n_out} streams"
        y = np.einsum("oi,ibs->obs", self.matrix(), symbols.raw)[:, :: self.rep]
        return StatedSymbols(y, np.ones((y.shape[0], 1) + y.shape[1:], complex))

    def num_transmit_input_streams(self, num_output_streams):
        return self.n_in if num_output_streams == self.n_out else -1

    def num_receive_output_streams(self, num_input_streams):
        return self.n_out if num_input_streams == self.n_in else -1

    num_transmit_input_symbols = property(lambda self: 1)
    num_transmit_output_symbols = property(lambda self: self.rep)
    num_receive_input_symbols = property(lambda self: self.rep)
    num_receive_output_symbols = property(lambda self: 1)

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        raise NotImplementedError


class StreamMix(TransmitStreamEncoder, ReceiveStreamDecoder):
    def __init__(self, k, n_in, n_out):
        TransmitStreamEncoder.__init__(self)
        ReceiveStreamDecoder.__init__(self)
        self.k, self.n_in, self.n_out = k, n_in, n_out

    def matrix(self):
        return cmat(2000 + self.k, self.n_out, self.n_in)

    def apply(self, streams, n):
        assert n == self.n_out, f"asked for {n} rather than {self.n_out} streams"
        return Signal.Create(self.matrix() @ np.asarray(streams.to_dense()).view(np.ndarray), streams.sampling_rate, streams.carrier_frequency)

    def encode_streams(self, streams, num_output_streams, device):
        return self.apply(streams, num_output_streams)

    def decode_streams(self, streams, num_output_streams, device):
        return self.apply(streams, num_output_streams)

    num_transmit_input_streams = Mix.num_transmit_input_streams
    num_receive_output_streams = Mix.num_receive_output_streams

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        raise NotImplementedError


@check.facet(
    "chain",
    R(dims=st.lists(st.integers(1, 4), min_size=1, max_size=5), reps=st.lists(st.integers(1, 3), min_size=5, max_size=5), B=st.integers(1, 4), S=st.integers(1, 3), seed=seeds, order=st.sampled_from(["append", "front", "replace", "pop"])),
    quick=400, thorough=15000,
    rule="at least two stages with changing stream counts",
)
def chain(c, r):
    """Chains apply their stages in order, with the stream counts of each stage derived from the chain's end."""
    dims, reps = c["dims"], c["reps"]
    K = len(dims) - 1
    r.nontrivial(K >= 2 and len(set(dims)) > 1)
    r.cls(c["order"])

    def build(coding, stages):
        if c["order"] == "front":
            for s in reversed(stages):
                coding[-1] = s
        elif c["order"] == "replace" and stages:
            for s in stages:
                coding[len(coding)] = Mix(99, 1, 1)
            for k, s in enumerate(stages):
                coding[k] = s
        elif c["order"] == "pop" and stages:
            coding[0] = Mix(99, 7, 7)
            for s in stages:
                coding[len(coding)] = s
            coding.pop_precoder(0)
        else:
            for s in stages:
                coding[len(coding)] = s
        r.equal(len(coding), len(stages), "number of stages")
        r.check(all(coding[k] is s and s.precoding is coding for k, s in enumerate(stages)), "stages in order, registered at their chain")
        return coding

    x = c3(c["seed"], dims[0], c["B"] * int(np.prod(reps)), c["S"])
    stages = [Mix(k, dims[k], dims[k + 1], reps[k]) for k in range(K)]
    tc = build(TransmitSymbolCoding(), stages)
    sym = StatedSymbols(x.copy(), np.ones((x.shape[0], 1) + x.shape[1:], complex))
    ref = x
    for s in stages:
        ref = np.repeat(np.einsum("oi,ibs->obs", s.matrix(), ref), s.rep, axis=1)
    r.close(tc.encode_symbols(sym, dims[-1]).raw, ref, "encoding chain", rtol=1e-9)
    r.equal(sym.raw, x, "encoding does not alter its input")
    R_ = int(np.prod(reps[:K]))
    r.equal(tc.encode_rate, Fraction(1, R_), "encoding rate of the chain")
    r.equal(tc.num_encoded_blocks(c["B"]), c["B"] * R_, "number of encoded blocks")
    r.equal(tc.num_transmit_input_streams(dims[-1]), dims[0], "number of input streams")
    rc = build(ReceiveSymbolCoding(), stages)
    ref = x
    for s in stages:
        ref = np.einsum("oi,ibs->obs", s.matrix(), ref)[:, :: s.rep]
    r.close(rc.decode_symbols(sym).raw, ref, "decoding chain", rtol=1e-9)
    r.equal(rc.decode_rate, Fraction(1, R_), "decoding rate of the chain")
    r.equal(rc.num_decoded_blocks(x.shape[1]), ref.shape[1], "number of decoded blocks")
    r.equal(rc.num_receive_output_streams(dims[0]), dims[-1], "number of output streams")
    if K:
        for fn in (lambda: tc.num_transmit_input_streams(dims[-1] + 1), lambda: rc.num_receive_output_streams(dims[0] + 1), lambda: tc.num_transmit_input_streams(0), lambda: rc.num_receive_output_streams(0)):
            try:
                fn()
            except ValueError:
                pass
            else:
                r.fail("impossible stream counts are refused")
    # Signal streams
    T = 7
    base = DeviceState.Basic(4, 4, 1e9, 1e6, 1)
    xs = cmat(c["seed"] + 5, dims[0], T)
    stages = [StreamMix(k, dims[k], dims[k + 1]) for k in range(K)]
    ts = build(TransmitSignalCoding(), stages)
    state = TransmitState(0.0, base.pose, base.velocity, 1e9, 1e6, 1, base.antennas, dims[0], dims[-1])
    ref = xs
    for s in stages:
        ref = s.matrix() @ ref
    sig = Signal.Create(xs.copy(), 1e6, 1e9)
    out = ts.encode_streams(sig, state)
    r.close(np.asarray(out.to_dense()).view(np.ndarray), ref, "stream encoding chain", rtol=1e-9)
    r.close(np.asarray(sig.to_dense()).view(np.ndarray), xs, "stream encoding does not alter its input")
    rs = build(ReceiveSignalCoding(), stages)
    state = ReceiveState(0.0, base.pose, base.velocity, 1e9, 1e6, 1, base.antennas, dims[-1], dims[0])
    out = rs.decode_streams(sig, state)
    r.close(np.asarray(out.to_dense()).view(np.ndarray), ref, "stream decoding chain", rtol=1e-9)
    if K:
        bad = Signal.Create(cmat(c["seed"], dims[0] + 1, T), 1e6, 1e9)
        state = TransmitState(0.0, base.pose, base.velocity, 1e9, 1e6, 1, base.antennas, dims[0], dims[-1])
        try:
            ts.encode_streams(bad, state)
        except ValueError:
            pass
        else:
            r.fail("encoding a mismatching number of streams is refused")


@check.facet(
    "mimo-link",
    R(code=st.sampled_from(["alamouti", "ganesan", "none"]), rx=st.integers(1, 3), groups=st.integers(1, 3), S=st.integers(1, 4), seed=seeds, dft=st.booleans()),
    quick=200, thorough=8000,
    rule="more than one receive antenna",
)
def mimo_link(c, r):
    """Space-time encoding followed by decoding and maximum ratio combining reproduces the symbols."""
    tc, rc = TransmitSymbolCoding(), ReceiveSymbolCoding()
    r.nontrivial(c["rx"] > 1)
    n_in, n_out, tx = {"alamouti": (2, 2, 2), "ganesan": (3, 4, 4), "none": (1, 1, 1)}[c["code"]]
    B = c["groups"] * n_in
    x = c3(c["seed"], 1, B, c["S"])
    if c["dft"]:
        tc[0] = DFT()
    if c["code"] != "none":
        tc[len(tc)] = Alamouti() if c["code"] == "alamouti" else Ganesan()
        rc[0] = Alamouti() if c["code"] == "alamouti" else Ganesan()
    rc[len(rc)] = MaximumRatioCombining()
    if c["dft"]:
        rc[len(rc)] = DFT()
    e = tc.encode_symbols(StatedSymbols(x, np.ones((1, 1, B, c["S"]), complex)), tx)
    H = coherent(c["seed"] + 1, c["rx"], tx, c["groups"], n_out, c["S"])
    y = np.einsum("rtbs,tbs->rbs", H, e.raw)
    d = rc.decode_symbols(StatedSymbols(y, H))
    amp = np.sqrt(np.min(np.sum(np.abs(H) ** 2, axis=1)))
    r.close(ZeroForcingChannelEqualization().equalize_channel(d).raw, x, "symbols over a multi-antenna link", rtol=1e-8, scale=20 / min(1.0, amp) ** 2)
    r.equal(tc.num_transmit_input_streams(tx), 1, "one stream of symbols")
    r.equal(rc.num_receive_output_streams(c["rx"]), 1, "one stream of symbols")
    r.equal(tc.encode_rate * n_out, Fraction(n_in), "rate")
    r.equal(rc.num_decoded_blocks(y.shape[1]), B, "decoded blocks")
