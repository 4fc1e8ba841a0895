"""P15 channel state information."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, rec as R, logfloats

from sparse import GCXS, COO
from hermespy.core import ChannelStateInformation as CSI, ChannelStateFormat as F, ChannelStateDimension as D, DenseSignal

check = Check("P15", "Channel state information transforms like the channel matrix it holds")


def tensor(seed, *shape):
    g = np.random.default_rng(seed)
    x = g.normal(size=shape) + 1j * g.normal(size=shape)
    x[g.random(shape) < 0.3] = 0
    return x


ops = st.lists(
    st.one_of(
        st.tuples(st.just("tofreq"), st.none()),
        st.tuples(st.just("tofreq"), st.integers(0, 4)),
        st.tuples(st.just("toimp"), st.none()),
        st.tuples(st.just("tofreq"), st.one_of(st.none(), st.integers(0, 4))),
        st.tuples(st.just("toimp"), st.none()),
        st.tuples(st.just("recip"), st.none()),
        st.tuples(st.just("slice"), st.tuples(st.integers(0, 3), st.integers(-4, 4), st.booleans(), st.integers(0, 3))),
        st.tuples(st.just("set"), st.tuples(st.integers(0, 2), seeds)),
        st.tuples(st.just("samples"), st.none()),
        st.tuples(st.just("streams"), st.none()),
        st.tuples(st.just("concat"), st.tuples(st.integers(0, 2), seeds)),
        st.tuples(st.just("state"), seeds),
        st.tuples(st.just("sparse"), st.none()),
    ),
    max_size=6,
)
shape = st.tuples(st.integers(1, 3), st.integers(1, 3), st.integers(1, 6), st.integers(1, 5))


def agree(r, c, fmt, m, what):
    r.equal(c.state_format, fmt, what + ": format")
    r.close(np.asarray(c.dense_state()), m, what + ": state", rtol=1e-9)
    M, N, S, L = m.shape
    r.equal((c.num_receive_streams, c.num_transmit_streams, c.num_samples), (M, N, S), what + ": dimensions")
    r.equal(c.num_symbols, S if fmt == F.IMPULSE_RESPONSE else S * L, what + ": number of symbols")
    if fmt == F.IMPULSE_RESPONSE:
        r.equal(c.num_delay_taps, L, what + ": number of delay taps")
    ten = c.linear
    got = np.asarray(ten.todense() if hasattr(ten, "todense") else ten)
    if fmt == F.IMPULSE_RESPONSE:
        want = np.zeros((M, N, S + L - 1, S), complex)
        for s in range(S):
            for l in range(L):
                want[:, :, s + l, s] += m[:, :, s, l]
    else:
        want = np.zeros((M, N, S * L, S * L), complex)
        for s in range(S):
            for l in range(L):
                want[:, :, s * L + l, s * L + l] = m[:, :, s, l]
    r.close(got, want, what + ": linear transformation", rtol=1e-9)


@check.facet("history", R(shape=shape, seed=seeds, freq=st.booleans(), ops=ops), quick=600, thorough=30000, shards=2, rule="at least two operations")
def history(c, r):
    m = tensor(c["seed"], *c["shape"])
    fmt = F.FREQUENCY_SELECTIVITY if c["freq"] else F.IMPULSE_RESPONSE
    z = CSI(fmt, m.copy())
    bins = m.shape[3]
    agree(r, z, fmt, m, "construction")
    r.nontrivial(len(c["ops"]) > 1)
    for op, x in c["ops"]:
        r.cls(op)
        if op == "tofreq":
            n = None if x is None else (z.num_delay_taps if fmt == F.IMPULSE_RESPONSE else m.shape[3]) + x
            z.to_frequency_selectivity() if n is None else z.to_frequency_selectivity(n)
            if fmt == F.IMPULSE_RESPONSE:
                n = bins if n is None else n
                bins = n
                m = np.fft.fft(m, n=n, axis=3)
                fmt = F.FREQUENCY_SELECTIVITY
        elif op == "toimp":
            z.to_impulse_response()
            if fmt == F.FREQUENCY_SELECTIVITY:
                m, fmt = np.fft.ifft(m, axis=3), F.IMPULSE_RESPONSE
                bins = m.shape[3]
        elif op == "recip":
            y = z.reciprocal()
            agree(r, z, fmt, m, "after forming the reciprocal")
            z, m = y, m.transpose(1, 0, 2, 3)
        elif op == "slice":
            ax, i, full, step = x
            n = m.shape[ax]
            if full or ax == 3:
                sel = slice(i if abs(i) < n else None, None, max(1, step) if ax < 3 else None) if ax < 3 else slice(None)
            else:
                sel = i if -n <= i < n else 0
            ix = tuple([slice(None)] * ax + [sel])
            y = z[ix] if ax else z[sel]
            agree(r, z, fmt, m, "after slicing")
            z = y
            # numeric indices keep their dimension
            m = m[tuple([slice(None)] * ax + [[sel] if isinstance(sel, int) else sel])]
        elif op == "set":
            if not isinstance(z.state, np.ndarray):
                continue
            ax, sd = x
            v = tensor(sd, *[1 if k == ax else d for k, d in enumerate(m.shape)])
            i = sd % m.shape[ax]
            ix = tuple([slice(None)] * ax + [slice(i, i + 1)])
            m = m.copy()
            z[ix] = CSI(fmt, v)
            m[ix] = v
        elif op == "samples":
            parts = list(z.samples())
            for i, p in enumerate(parts):
                agree(r, p, fmt, m[:, :, i : i + 1, :], "sample")
            if isinstance(z.state, np.ndarray):
                z = CSI.concatenate(parts, D.SAMPLES)
        elif op == "streams":
            parts = list(z.received_streams())
            for i, p in enumerate(parts):
                agree(r, p, fmt, m[i : i + 1], "received stream")
            if isinstance(z.state, np.ndarray):
                z = CSI.concatenate(parts, D.RECEIVE_STREAMS)
        elif op == "concat":
            if not isinstance(z.state, np.ndarray):
                continue
            ax, sd = x
            v = tensor(sd, *[2 if k == ax else d for k, d in enumerate(m.shape)])
            z = CSI.concatenate([z, CSI(fmt, v)], [D.RECEIVE_STREAMS, D.TRANSMIT_STREAMS, D.SAMPLES][ax])
            m = np.concatenate([m, v], axis=ax)
        elif op == "state":
            v = tensor(x, *m.shape)
            z.state = v.copy()
            m = v
            bins = m.shape[3]
        elif op == "sparse":
            z, bins = CSI(fmt, GCXS.from_numpy(m.copy(), compressed_axes=(0, 1, 2))), m.shape[3]
        agree(r, z, fmt, m, f"after {op}")


@check.facet("conversion", R(shape=shape, seed=seeds, freq=st.booleans(), ops=st.lists(st.one_of(st.none(), st.integers(0, 6)), min_size=1, max_size=4)), quick=200, thorough=8000, rule="an explicit number of bins followed by a default one")
def conversion(c, r):
    """repeated conversions between both formats keep the number of bins asked for last"""
    m = tensor(c["seed"], *c["shape"])
    z = CSI(F.FREQUENCY_SELECTIVITY if c["freq"] else F.IMPULSE_RESPONSE, m.copy())
    L = m.shape[3]
    h = np.fft.ifft(m, axis=3) if c["freq"] else m
    r.nontrivial(any(a and b is None for a, b in zip(c["ops"], c["ops"][1:])))
    for x in c["ops"]:
        z.to_impulse_response()
        agree(r, z, F.IMPULSE_RESPONSE, h, "impulse response")
        L += x or 0
        z.to_frequency_selectivity() if x is None else z.to_frequency_selectivity(L)
        h = np.concatenate([h, np.zeros((*h.shape[:3], L - h.shape[3]))], axis=3)
        agree(r, z, F.FREQUENCY_SELECTIVITY, np.fft.fft(h, axis=3), "frequency response")


@check.facet("propagation", R(shape=shape, seed=seeds, extra=st.integers(0, 4), freq=st.booleans(), fs=logfloats(1, 1e9), sparse=st.booleans()), quick=400, thorough=20000, rule="several taps and antennas")
def propagation(c, r):
    m = tensor(c["seed"], *c["shape"])
    M, N, S, L = m.shape
    r.nontrivial(L > 1 and M * N > 1)
    z = CSI(F.IMPULSE_RESPONSE, GCXS.from_numpy(m, compressed_axes=(0, 1, 2)) if c["sparse"] else m.copy())
    x = tensor(c["seed"] + 1, N, S)
    want = np.zeros((M, S + L - 1), complex)
    for s in range(S):
        for l in range(L):
            want[:, s + l] += m[:, :, s, l] @ x[:, s]
    sig = DenseSignal.FromNDArray(x.copy(), c["fs"], 3e9, noise_power=0.5, delay=2.0)
    lin = z.linear
    lin = np.asarray(lin.todense() if hasattr(lin, "todense") else lin)
    r.close(np.einsum("ijkl,jl->ik", lin, x), want, "linear transformation of the samples", rtol=1e-9)
    if c["freq"]:
        z.to_frequency_selectivity(L + c["extra"])
    y = z.propagate(sig)
    got = np.asarray(y).view(np.ndarray)
    pad = np.zeros((M, got.shape[1]), complex)
    pad[:, : want.shape[1]] = want
    r.close(got, pad, "propagated signal", rtol=1e-9)
    r.equal((y.sampling_rate, y.carrier_frequency, y.noise_power, y.delay), (c["fs"], 3e9, 0.5, 2.0), "parameters of the propagated signal")
    r.equal(np.asarray(sig).view(np.ndarray), x, "input unchanged")
    # frequency domain: circular propagation of every bin for time-invariant channels
    if c["freq"]:
        z.to_impulse_response()
        h = np.asarray(z.dense_state())
        r.close(h[..., :L], m, "impulse response after conversion to frequency and back", rtol=1e-9)
        r.close(h[..., L:], np.zeros(h[..., L:].shape), "zero taps after conversion to frequency and back", rtol=1e-9, atol=1e-9)
        r.equal(z.num_delay_taps, L + c["extra"], "taps after conversion")
    i = CSI.Ideal(S, M, N)
    r.close(np.asarray(i.dense_state()), np.ones((M, N, S, 1)), "ideal state", rtol=1e-12)
