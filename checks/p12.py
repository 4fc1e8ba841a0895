"""P12 Modems: end-to-end links."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, bits as gbits
from checks.p07 import make as make_encoder, enc as encoders, sizes

from hermespy.core import Signal, DenseSignal
from hermespy.core.signal_model import SignalBlock
from hermespy.core.state import DeviceState
from hermespy.fec import EncoderManager
from hermespy.modem import (
    SimplexLink, DuplexModem, TransmittingModem, ReceivingModem, RootRaisedCosineWaveform, RaisedCosineWaveform, RectangularWaveform, FMCWWaveform,
    ChirpFSKWaveform, OFDMWaveform, OCDMWaveform, OTFSWaveform, GridResource, GridElement, ElementType, PrefixType, SymbolSection, GuardSection,
    Alamouti, Ganesan, DFT, MaximumRatioCombining, SingleCarrier, StatedSymbols, StreamBitsSource, RandomBitsSource,
    SingleCarrierCorrelationSynchronization, OFDMCorrelationSynchronization, PilotSection, CustomPilotSymbolSequence,
)
from hermespy.modem.waveform import ZeroForcingChannelEqualization, ChannelEstimation
from hermespy.modem.waveform_chirp_fsk import ChirpFSKCorrelationSynchronization

check = Check("P12", "Modem links return every transmitted payload bit in frame order")

WAVES = ["RRC", "RRC", "Rect", "FMCW", "OFDM", "OCDM", "OTFS", "FSK"]


class Known(ChannelEstimation):
    """Estimation knowing the flat channel of the generated case."""

    H = None

    def estimate_channel(self, symbols, bandwidth, oversampling_factor, delay=0.0):
        H = np.ones((symbols.num_streams, 1)) if self.H is None else self.H
        s = np.broadcast_to(H[:, :, None, None], (symbols.num_streams, H.shape[1], symbols.num_blocks, symbols.num_symbols))
        return StatedSymbols(symbols.raw, s.astype(complex))


def waveform(kind, order, nd, osf=1, sync=False, seed=1):
    pre = 12 if sync else 0
    if kind in ("RRC", "RC"):
        W = RootRaisedCosineWaveform if kind == "RRC" else RaisedCosineWaveform
        # a raised cosine pair is no Nyquist pulse unless matched: use rrc for both transmit and receive of RRC, large filters
        w = W(relative_bandwidth=1.0, roll_off=0.5, filter_length=16, num_preamble_symbols=max(pre, 2), num_data_symbols=nd, modulation_order=order)
    elif kind == "Rect":
        w = RectangularWaveform(num_preamble_symbols=pre, num_data_symbols=nd, modulation_order=order)
    elif kind == "FMCW":
        w = FMCWWaveform(num_samples_per_chirp=8, num_preamble_symbols=pre, num_data_symbols=nd, modulation_order=order)
    elif kind == "FSK":
        w = ChirpFSKWaveform(chirp_duration=16e-6, num_pilot_chirps=4 if sync else 0, num_data_chirps=nd, modulation_order=order, freq_difference=1e5 / 16)
    else:
        words = 2
        res = [GridResource(nd // words, PrefixType.CYCLIC, 0.125, [GridElement(ElementType.DATA, 1), GridElement(ElementType.NULL, 1)])]
        sec = [SymbolSection(words, [0])]
        ps = PilotSection() if sync else None
        if kind == "OFDM":
            w = OFDMWaveform(res, sec, 2 * (nd // words), dc_suppression=False, modulation_order=order, pilot_section=ps)
        elif kind == "OTFS":
            w = OTFSWaveform(res, sec, 2 * (nd // words), dc_suppression=False, modulation_order=order, pilot_section=ps)
        else:
            w = OCDMWaveform(2 * (nd // words), res, sec, modulation_order=order, pilot_section=ps)
    return w


def unitary_like(seed, n):
    """Well conditioned channel."""
    q, _ = np.linalg.qr(cmat(seed, n, n))
    g = np.random.default_rng(seed).uniform(0.3, 3.0, n)
    return q @ np.diag(g)


def dense(s):
    return np.asarray(s.to_dense()).view(np.ndarray)


CODES = ["siso", "alamouti", "ganesan", "spatial", "mrc", "sc", "dft"]


@check.facet(
    "link",
    R(wave=st.sampled_from(WAVES), order=st.sampled_from([2, 4, 16, 64]), groups=st.integers(1, 4), os=st.sampled_from([1, 2, 4]), code=st.sampled_from(CODES), rx=st.integers(1, 3),
      enc=st.lists(encoders, max_size=3), frames=st.integers(1, 3), frac=st.sampled_from([0.0, 0.0, 0.4]), split=st.sampled_from(["simplex", "duplex", "pair"]), seed=seeds, stream=st.booleans(), cf=st.sampled_from([0.0, 1e9]),
      bw=st.sampled_from([1e6])),
    quick=500, thorough=15000, rule="several frames or streams, and forward error correction",
)
def link(c, r):
    kind = c["wave"]
    code = c["code"]
    order = c["order"] if kind != "FSK" else 4
    nd = 24 * c["groups"]
    rng = np.random.default_rng(c["seed"])
    osf = c["os"] if kind not in ("RRC", "RC") else max(c["os"], 2)
    if kind == "FSK":
        code = "siso" if code not in ("siso",) else code  # non-coherent detection
    tx, rx, n_in = {"siso": (1, 1, 1), "alamouti": (2, c["rx"], 1), "ganesan": (4, c["rx"], 1), "spatial": (c["rx"], c["rx"], c["rx"]), "mrc": (1, c["rx"], 1), "sc": (1, c["rx"], 1), "dft": (1, 1, 1)}[code]
    if kind == "RC":
        code, tx, rx, n_in = "siso", 1, 1, 1
    r.cls(f"{kind}/{code}")
    rate = 0.75 if code == "ganesan" else 1.0
    H = None
    if code in ("alamouti", "ganesan", "mrc", "sc"):
        H = cmat(c["seed"], rx, tx) * 0.7
        H[np.abs(H) < 0.2] = 0.2
        if code == "sc" and np.max(np.abs(H.sum(axis=1))) < 0.2:
            H[0] += 0.5
    elif code == "spatial":
        H = unitary_like(c["seed"], rx)
    elif code == "dft" or kind == "FSK":
        H = None
    else:
        H = np.array([[rng.uniform(0.2, 3.0) * np.exp(2j * np.pi * rng.random())]])
    if kind == "FSK":
        H = np.array([[rng.uniform(0.2, 3.0) * np.exp(2j * np.pi * rng.random())]])

    def new_wave():
        w = waveform(kind, order, nd)
        if kind != "FSK":
            ce = Known()
            ce.H = H
            w.channel_estimation = ce
            w.channel_equalization = ZeroForcingChannelEqualization()
        return w

    def tcode(m):
        if code == "alamouti":
            m.transmit_symbol_coding[0] = Alamouti()
        elif code == "ganesan":
            m.transmit_symbol_coding[0] = Ganesan()
        elif code == "dft":
            m.transmit_symbol_coding[0] = DFT()

    def rcode(m):
        if code in ("alamouti", "ganesan"):
            m.receive_symbol_coding[0] = Alamouti() if code == "alamouti" else Ganesan()
            m.receive_symbol_coding[1] = MaximumRatioCombining()
        elif code == "mrc":
            m.receive_symbol_coding[0] = MaximumRatioCombining()
        elif code == "sc":
            m.receive_symbol_coding[0] = SingleCarrier()
        elif code == "dft":
            m.receive_symbol_coding[0] = DFT()

    def coding():
        man = EncoderManager()
        for e in c["enc"]:
            man.add_encoder(make_encoder(e))
        return man

    source = None
    w = new_wave()
    if c["split"] == "pair":
        t = TransmittingModem(waveform=w, encoding=coding(), seed=c["seed"])
        q = ReceivingModem(waveform=new_wave(), encoding=coding(), seed=c["seed"] + 1)
    else:
        t = q = (SimplexLink if c["split"] == "simplex" else DuplexModem)(waveform=w, encoding=coding(), seed=c["seed"])
    tcode(t)
    rcode(q)
    code_bits = int(nd * rate) * w.bits_per_symbol * n_in
    man = t.encoder_manager
    on = [e for e in c["enc"] if e["on"]]
    if man.code_block_size > code_bits:
        return
    r.nontrivial((c["frames"] > 1 or rx > 1) and len(on) > 0)
    data_bits = (code_bits // man.code_block_size) * man.bit_block_size
    state = DeviceState.Basic(tx, rx, c["cf"], c["bw"], osf)
    T = w.frame_duration(c["bw"])
    duration = (c["frames"] + c["frac"]) * T if c["frames"] > 1 or c["frac"] else 0.0
    seen, got = [], []
    t.add_transmit_callback(seen.append)
    q.add_receive_callback(got.append)
    transmission = t.transmit(state, duration)
    r.check(len(seen) == 1 and seen[0] is transmission, "transmit callbacks are notified")
    F = c["frames"]
    spf = w.samples_per_frame(c["bw"], osf)
    fs = state.sampling_rate
    r.equal(transmission.num_frames, F, "frames fit into the requested duration")
    sig = dense(transmission.signal)
    r.equal(sig.shape, (tx, F * spf), "samples of all frames")
    r.equal(transmission.signal.sampling_rate, fs, "sampling rate")
    frame_bits = []
    for n, f in enumerate(transmission.frames):
        r.equal(f.bits.size, data_bits, "payload bits per frame")
        r.equal(f.encoded_bits.size, code_bits, "code bits per frame")
        r.equal((f.bit_block_size, f.code_block_size), (man.bit_block_size, man.code_block_size), "block sizes")
        r.close(dense(f.signal), sig[:, n * spf : (n + 1) * spf], "frames in order", rtol=1e-12)
        r.close(f.timestamp, n * T, "time stamps of transmitted frames", rtol=1e-9, scale=T)
        r.equal(f.symbols.num_streams, n_in, "symbol streams")
        r.equal(f.encoded_symbols.num_streams, tx, "encoded symbol streams")
        r.check(set(np.unique(f.bits)) <= {0, 1}, "payload bits are binary")
        frame_bits.append(f.bits)
    r.equal(transmission.bits, np.concatenate(frame_bits), "transmitted bits of all frames")
    if F > 1 and data_bits > 64:
        r.check(not np.array_equal(frame_bits[0], frame_bits[1]), "each frame carries new bits")
    y = sig if H is None else H @ sig
    before = y.copy()
    rsig = Signal.Create(y, fs, c["cf"])
    rec = q.receive(rsig, state)
    r.check(len(got) == 1 and got[0] is rec, "receive callbacks are notified")
    r.close(dense(rsig), before, "receiving does not alter the signal", rtol=0)
    r.equal(rec.num_frames, F, "received frames")
    for n, f in enumerate(rec.frames):
        r.equal(f.decoded_bits.astype(int), frame_bits[n].astype(int), f"payload bits are received ({kind}, {code})")
        k = (code_bits // man.code_block_size) * man.code_block_size
        r.equal(f.encoded_bits.size, code_bits, "code bits")
        r.equal(f.encoded_bits.astype(int), transmission.frames[n].encoded_bits.astype(int), "code bits are received")
        r.close(f.timestamp, n * spf / fs, "time stamps of received frames", rtol=1e-9, scale=T)
        r.equal((f.bit_block_size, f.code_block_size), (man.bit_block_size, man.code_block_size), "block sizes of receptions")
        r.close(dense(f.signal), y[:, n * spf : (n + 1) * spf], "received frames in order", rtol=1e-12)
        if kind not in ("FSK",):
            r.close(f.equalized_symbols.raw.reshape(n_in, -1), transmission.frames[n].symbols.raw.reshape(n_in, -1), "equalized symbols equal the transmitted ones", rtol=0, atol=0.08 if kind in ("RRC", "RC") else 1e-6)
    r.equal(rec.bits.astype(int), transmission.bits.astype(int), "bits of all frames")
    r.equal(rec.encoded_bits.size, F * code_bits, "code bits of all frames")
    # Independent second use: new payload, first transmission unaltered
    first = transmission.bits.copy()
    second = t.transmit(state, 0.0)
    r.equal(second.num_frames, 1, "a single frame by default")
    r.equal(transmission.bits, first, "transmissions stay unaltered")
    if data_bits > 64:
        r.check(not np.array_equal(second.bits, first[:data_bits]), "repeated transmissions carry new bits")


@check.facet(
    "stream",
    R(payload=st.integers(1, 5), order=st.sampled_from([2, 4, 16]), frames=st.integers(1, 4), seed=seeds, kind=st.sampled_from(["Rect", "OFDM", "FSK"]), rep=st.sampled_from([1, 3])),
    quick=80, thorough=5000, rule="several frames taken from a stream",
)
def stream(c, r):
    """Bits of a streaming source are transmitted in order."""
    import tempfile, os as _os

    from hermespy.fec import RepetitionEncoder

    nd = 24 * c["payload"]
    order = 4 if c["kind"] == "FSK" else c["order"]
    w = waveform(c["kind"], order, nd)
    per = (nd * w.bits_per_symbol) // c["rep"]
    total = per * (c["frames"] + 1)
    total += (-total) % 8
    data = gbits(c["seed"], total)
    r.nontrivial(c["frames"] > 1)
    with tempfile.TemporaryDirectory() as d:
        path = _os.path.join(d, "bits.bin")
        with open(path, "wb") as f:
            f.write(np.packbits(data).tobytes())
        m = SimplexLink(waveform=w, encoding=[RepetitionEncoder(1, c["rep"])] if c["rep"] > 1 else None, bits_source=StreamBitsSource(path))
        state = DeviceState.Basic(1, 1, 0.0, 1e6, 2)
        t = m.transmit(state, w.frame_duration(1e6) * (c["frames"] + 0.01))
        r.equal(t.num_frames, c["frames"], "frames")
        r.equal(t.bits.astype(int), data[: per * c["frames"]].astype(int), "streamed bits in order")
        rec = m.receive(t.signal, state)
        r.equal(rec.bits.astype(int), t.bits.astype(int), "streamed bits are received")


@check.facet(
    "synchronized",
    R(kind=st.sampled_from(["RRC", "Rect", "FMCW", "OFDM", "FSK"]), order=st.sampled_from([4, 16]), groups=st.integers(1, 3), os=st.sampled_from([2, 4]), lead=st.integers(0, 90), tail=st.integers(0, 60), rx=st.integers(1, 2), seed=seeds, g=floats(0.3, 3.0),
      enc=st.lists(encoders, max_size=2)),
    quick=300, thorough=8000, rule="frame starting after silence",
)
def synchronized(c, r):
    """Receptions starting before the frame: the frame is located and its bits recovered."""
    kind = c["kind"]
    nd = 24 * c["groups"]
    w = waveform(kind, 4 if kind == "FSK" else c["order"], nd, sync=True)
    rng = np.random.default_rng(c["seed"])
    if kind in ("RRC", "Rect", "FMCW"):
        w.pilot_symbol_sequence = CustomPilotSymbolSequence(np.exp(2j * np.pi * rng.integers(0, 8, 12) / 8))
        w.synchronization = SingleCarrierCorrelationSynchronization(threshold=0.9, guard_ratio=0.8)
    elif kind == "OFDM":
        w.synchronization = OFDMCorrelationSynchronization(threshold=0.9, guard_ratio=0.8)
    else:
        w.synchronization = ChirpFSKCorrelationSynchronization(threshold=0.9, guard_ratio=0.8)
    r.cls(kind)
    r.nontrivial(c["lead"] > 0)
    H = np.full((1, 1), c["g"] * np.exp(2j * np.pi * rng.random()))
    if kind != "FSK":
        ce = Known()
        ce.H = H
        w.channel_estimation = ce
        w.channel_equalization = ZeroForcingChannelEqualization()
    m = SimplexLink(waveform=w, seed=c["seed"])
    for e in c["enc"]:
        m.encoder_manager.add_encoder(make_encoder(e))
    if m.encoder_manager.code_block_size > nd * w.bits_per_symbol:
        return
    osf = c["os"]
    state = DeviceState.Basic(1, 1, 0.0, 1e6, osf)
    t = m.transmit(state)
    x = dense(t.signal)
    y = np.concatenate([np.zeros((1, c["lead"])), H @ x, np.zeros((1, c["tail"]))], axis=1)
    # Judge only frames without ambiguous pilot correlation, computed here
    p = np.asarray(w.pilot_signal(1e6, osf).to_dense()).view(np.ndarray).flatten()
    pad = np.concatenate([y[0], np.zeros(len(p))])
    cor = np.abs(np.correlate(pad, p, "valid"))
    nrm = np.sqrt(np.convolve(np.abs(pad) ** 2, np.ones(len(p)), "valid")[: len(cor)] * np.sum(np.abs(p) ** 2))
    far = np.abs(np.arange(len(cor)) - c["lead"]) > 0
    if np.argmax(cor) != c["lead"] or np.max(cor[far]) > 0.85 * cor[c["lead"]]:
        r.cls("ambiguous")
        return
    rec = m.receive(Signal.Create(y, state.sampling_rate, 0.0), state)
    r.equal(rec.num_frames, 1, f"one frame is found ({kind})")
    r.close(rec.frames[0].timestamp, c["lead"] / state.sampling_rate, "time stamp of the located frame", rtol=1e-9, scale=1e-6)
    r.equal(rec.bits.astype(int), t.bits.astype(int), "bits of the located frame")


@check.facet(
    "nothing",
    R(kind=st.sampled_from(["Rect", "OFDM", "FSK"]), n=st.integers(0, 30), seed=seeds, scale=floats(0.05, 0.95)),
    quick=100, thorough=2000, rule="receptions shorter than a frame",
)
def nothing(c, r):
    w = waveform(c["kind"], 4, 24)
    m = SimplexLink(waveform=w)
    state = DeviceState.Basic(1, 1, 0.0, 1e6, 2)
    n = int(w.samples_per_frame(1e6, 2) * c["scale"])
    r.nontrivial(n > 0)
    rec = m.receive(Signal.Create(cmat(c["seed"], 1, n), 2e6, 0.0), state)
    r.equal(rec.num_frames, 0, "no frames in receptions shorter than a frame")
    r.equal((rec.bits.size, rec.encoded_bits.size), (0, 0), "no bits without frames")
    T = w.frame_duration(1e6)
    t = m.transmit(state, T * c["scale"])
    r.equal((t.num_frames, t.bits.size), (0, 0), "no frames in durations shorter than a frame")


@check.facet(
    "bursts",
    R(kind=st.sampled_from(["Rect", "FMCW", "OFDM", "OTFS", "FSK"]), order=st.sampled_from([4, 16]), groups=st.integers(1, 2), os=st.sampled_from([1, 2, 3]), counts=st.lists(st.integers(1, 3), min_size=1, max_size=3),
      gaps=st.lists(st.integers(0, 400), min_size=3, max_size=3), rx=st.integers(1, 2), seed=seeds),
    quick=150, thorough=4000, rule="several separate blocks",
)
def bursts(c, r):
    """Receptions in separate signal blocks: all frames in order, time stamped from the start of the reception."""
    w = waveform(c["kind"], 4 if c["kind"] == "FSK" else c["order"], 24 * c["groups"])
    m = SimplexLink(waveform=w, seed=c["seed"])
    state = DeviceState.Basic(1, 1, 0.0, 1e6, c["os"])
    spf = w.samples_per_frame(1e6, c["os"])
    r.nontrivial(len(c["counts"]) > 1 or c["gaps"][0] > 0)
    r.cls(c["kind"])
    offset, blocks, bits, times = 0, [], [], []
    for n, g in zip(c["counts"], c["gaps"]):
        offset += g
        t = m.transmit(state, n * w.frame_duration(1e6))
        x = dense(t.signal)
        r.equal((t.num_frames, x.shape[1]), (n, n * spf), "frames of a burst")
        blocks.append(SignalBlock(x.shape[0], x.shape[1], offset, x.astype(complex).tobytes()))
        bits.append(t.bits)
        times += [(offset + k * spf) / state.sampling_rate for k in range(n)]
        offset += n * spf
    rec = m.receive(Signal.Create(blocks, state.sampling_rate, 0.0), state)
    r.equal(rec.num_frames, len(times), "number of received frames")
    r.close(np.array([f.timestamp for f in rec.frames]), np.array(times), "time stamps of frames in separate blocks", rtol=1e-9, scale=1e-6)
    r.equal(rec.bits.astype(int), np.concatenate(bits).astype(int), "bits of frames in separate blocks")
