"""P21 signal processing pipeline of simulated devices."""
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R

from hermespy.core import (
    AntennaMode, DenseSignal, DeviceInput, ReceiveStreamDecoder, Signal, SignalReceiver, SignalTransmitter, SparseSignal, Transformation, TransmitStreamEncoder,
)
from hermespy.simulation import (
    ImpedanceCoupling, SelectiveLeakage, SimulatedCustomArray, SimulatedDevice, SimulatedIdealAntenna, SpecificIsolation, TriggerRealization,
)
from hermespy.simulation.rf import N0

check = Check("P21", "Devices superimpose, encode, radiate and receive exactly the configured streams")


def raw(s):
    return np.array(np.asarray(s.to_dense()).view(np.ndarray))


class Encoder(TransmitStreamEncoder):
    """Linear transmit encoder."""

    def __init__(self, matrix):
        TransmitStreamEncoder.__init__(self)
        self.matrix = matrix

    def num_transmit_input_streams(self, num_output_streams):
        assert num_output_streams == self.matrix.shape[0], (num_output_streams, self.matrix.shape)
        return self.matrix.shape[1]

    def encode_streams(self, streams, num_output_streams, device):
        assert (num_output_streams, streams.num_streams) == self.matrix.shape
        return DenseSignal.FromNDArray(self.matrix @ raw(streams), streams.sampling_rate, streams.carrier_frequency, streams.noise_power, streams.delay)

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        raise NotImplementedError


class Decoder(ReceiveStreamDecoder):
    """Linear receive decoder."""

    def __init__(self, matrix):
        ReceiveStreamDecoder.__init__(self)
        self.matrix = matrix

    def num_receive_output_streams(self, num_input_streams):
        assert num_input_streams == self.matrix.shape[1]
        return self.matrix.shape[0]

    def decode_streams(self, streams, num_output_streams, device):
        assert (num_output_streams, streams.num_streams) == self.matrix.shape
        return DenseSignal.FromNDArray(self.matrix @ raw(streams), streams.sampling_rate, streams.carrier_frequency, streams.noise_power, streams.delay)

    def serialize(self, process):
        pass

    @classmethod
    def Deserialize(cls, process):
        raise NotImplementedError


def psd(seed, n):
    a = cmat(seed, n, n).real
    return a @ a.T + 0.5 * np.eye(n)


def root(m, inverse=False):
    w, v = np.linalg.eigh(m)
    return (v * w ** (-0.5 if inverse else 0.5)) @ v.T


class Setup:
    """A device built from a case together with its linear reference model."""

    def __init__(self, case):
        s = case["seed"]
        modes = [AntennaMode[m] for m in case["antennas"]]
        antennas = [SimulatedIdealAntenna(mode=m, pose=Transformation.From_Translation(np.array([0.1 * i, 0, 0])), weight=complex(cmat(s + i, 1, 1)[0, 0]) if case["weights"] else 1.0) for i, m in enumerate(modes)]
        self.tx = [i for i, m in enumerate(modes) if m in (AntennaMode.TX, AntennaMode.DUPLEX)]
        self.rx = [i for i, m in enumerate(modes) if m in (AntennaMode.RX, AntennaMode.DUPLEX)]
        T, Q = len(self.tx), len(self.rx)
        weights = np.array([a.weight for a in antennas])
        self.fs, self.fc = case["bandwidth"], case["fc"]
        # Transmit encoders: applied in the given order, output counts chained to the antennas
        counts = [*case["encoders"], T] if T else [T]
        self.encoders = [cmat(s + 100 + i, o, n) for i, (n, o) in enumerate(zip(counts[:-1], counts[1:]))]
        self.tx_ports = counts[0]
        counts = [Q, *case["decoders"]] if Q else [Q]
        self.decoders = [cmat(s + 200 + i, o, n) for i, (n, o) in enumerate(zip(counts[:-1], counts[1:]))]
        self.rx_ports = counts[-1]
        self.encoding = np.eye(self.tx_ports)
        for m in self.encoders:
            self.encoding = m @ self.encoding
        self.decoding = np.eye(Q)
        for m in self.decoders:
            self.decoding = m @ self.decoding
        kwargs = {}
        self.leak = np.zeros((Q, T, 1))
        if case["isolation"] == "specific" and T and Q:
            iso = 1.0 + 10 * np.random.default_rng(s + 300).random((Q, T))
            self.leak = iso[:, :, None] ** -0.5
            kwargs["isolation"] = SpecificIsolation(iso)
        elif case["isolation"] == "selective" and T and Q:
            self.leak = cmat(s + 301, Q, T * 4).reshape(Q, T, 4)
            kwargs["isolation"] = SelectiveLeakage(self.leak.copy())
        self.tx_coupling, self.rx_coupling = np.eye(T), np.eye(Q)
        if case["coupling"]:
            ct, zt = psd(s + 400, T), psd(s + 401, T)
            cr, zr, zm = psd(s + 402, Q), psd(s + 403, Q), psd(s + 404, Q)
            kwargs["coupling"] = ImpedanceCoupling(ct, cr, zt, zr, zm)
            if T:
                self.tx_coupling = root(zt, True) @ root(ct)
            if Q:
                self.rx_coupling = 2 * zr[0, 0] * root(zm) @ np.linalg.inv(zm + zr) @ root(cr)
        self.tx_coupling = np.diag(weights[self.tx]) @ self.tx_coupling
        self.rx_coupling = np.diag(weights[self.rx]) @ self.rx_coupling
        self.power = case["power"]
        self.device = SimulatedDevice(
            antennas=SimulatedCustomArray(antennas), bandwidth=self.fs, oversampling_factor=1, carrier_frequency=self.fc, power=self.power, operator_separation=case["separate"],
            transmit_encoding=[Encoder(m) for m in self.encoders], receive_decoding=[Decoder(m) for m in self.decoders], seed=s, **kwargs,
        )


setups = dict(
    seed=seeds, antennas=st.lists(st.sampled_from(["DUPLEX", "DUPLEX", "TX", "RX"]), min_size=1, max_size=4), weights=st.booleans(), bandwidth=st.sampled_from([1e6, 2.5e7]), fc=st.sampled_from([0.0, 1e9, 2.4e9]), power=st.sampled_from([1.0, 4.0, 0.01]),
    encoders=st.lists(st.integers(1, 4), max_size=2), decoders=st.lists(st.integers(1, 4), max_size=2), separate=st.booleans(), isolation=st.sampled_from(["perfect", "specific", "selective"]), coupling=st.booleans(),
)


def add_line(line, x, start):
    """Add samples to a timeline, growing it."""
    end = start + x.shape[1]
    if end > line.shape[1]:
        line = np.concatenate([line, np.zeros((line.shape[0], end - line.shape[1]), complex)], axis=1)
    line[:, start:end] += x
    return line


def on_line(signal, fs, streams):
    """Samples of a signal on a timeline starting at zero."""
    start = int(round(signal.delay * fs))
    x = raw(signal)
    line = np.zeros((streams, 0), complex)
    if x.shape[1] == 0:
        return line
    return add_line(line, x, start)


def same_line(r, got, want, what):
    n = max(got.shape[1], want.shape[1])
    pad = lambda x: np.concatenate([x, np.zeros((x.shape[0], n - x.shape[1]), complex)], axis=1)
    r.equal(got.shape[0], want.shape[0], f"{what}: streams")
    r.close(pad(got), pad(want), what, rtol=1e-8, atol=1e-11)


def signal(x, fs, fc, delay, sparse):
    """Signal model of samples x."""
    d = DenseSignal.FromNDArray(x, fs, fc, 0.0, delay)
    if not sparse or not np.any(x):
        return d
    return SparseSignal(d.view(np.ndarray).copy(), fs, fc, 0.0, delay)


def convolved(h, x):
    """Apply MIMO impulse responses."""
    Q, T, L = h.shape
    if x.shape[1] == 0:
        return np.zeros((Q, 0), complex)
    y = np.zeros((Q, x.shape[1] + L - 1), complex)
    for q in range(Q):
        for t in range(T):
            y[q] += np.convolve(h[q, t], x[t])
    return y


ports = st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))


# --- transmission --------------------------------------------------------------------
@check.facet(
    "transmission",
    R(**setups, operators=st.lists(R(ports=ports, n=st.integers(0, 30), delay=st.sampled_from([0, 0, 0, 1, 7]), sparse=st.booleans(), zeros=st.sampled_from([0.0, 0.5])), max_size=3), trigger=st.sampled_from([0, 0, 3, 11]), staged=st.booleans(), repeat=st.booleans()),
    quick=500, thorough=15000,
    rule="more than one operator or selected ports, and samples are transmitted",
)
def transmission(case, r):
    u = Setup(case)
    dev, fs, s = u.device, u.fs, case["seed"]
    T, Q = len(u.tx), len(u.rx)
    r.equal(dev.num_transmit_antennas, T, "transmitting antennas")
    r.equal(dev.num_receive_antennas, Q, "receiving antennas")
    if not T:
        return
    r.equal(dev.num_transmit_dsp_ports, u.tx_ports, "transmit ports")
    emitted, operators = [], []
    delays = []
    for i, o in enumerate(case["operators"]):
        selection = None if o["ports"] is None else [p for p in o["ports"] if p < u.tx_ports]
        if selection is not None and not selection:
            selection = None
        streams = u.tx_ports if selection is None else len(selection)
        x = cmat(s + 500 + i, streams, o["n"], zeros=o["zeros"])
        op = SignalTransmitter(signal(x, fs, 0.0, o["delay"] / fs, o["sparse"]), selected_transmit_ports=selection)
        dev.transmitters.add(op)
        mapped = np.zeros((u.tx_ports, o["n"]), complex)
        mapped[slice(None) if selection is None else selection] = x
        line = add_line(np.zeros((u.tx_ports, 0), complex), mapped, o["delay"])
        if o["n"] == 0:
            line = line[:, :0]
        emitted.append(line)
        delays.append(o["delay"])
        operators.append((op, x))
    outputs, simulated, transmitted = [], [], []
    dev.output_callbacks.add_callback(outputs.append)
    dev.simulated_output_callbacks.add_callback(simulated.append)
    for op, _ in operators:
        op.add_transmit_callback(transmitted.append)
    trigger = TriggerRealization(case["trigger"], fs)
    for _ in range(1 + case["repeat"]):
        outputs.clear(), simulated.clear(), transmitted.clear()
        state = dev.state(0.0)
        if case["staged"]:
            transmissions = dev.transmit_operators(state)
            output = dev.generate_output(transmissions, state, trigger_realization=trigger)
        else:
            output = dev.transmit(state, trigger_realization=trigger)
            transmissions = output.operator_transmissions
        r.equal(len(outputs), 1, "notifications of the device output")
        r.equal(len(simulated), 1, "notifications of the simulated device output")
        r.equal(len(transmitted), len(operators), "notifications of operators")
        r.equal(len(transmissions), len(operators), "operator transmissions")
        for (op, x), t in zip(operators, transmissions):
            # sparse signals do not represent trailing zeros
            same_line(r, raw(t.signal), x, "signal of an operator after its transmission")
            same_line(r, raw(op.signal), x, "signal configured at an operator")
        # Reference
        total = np.zeros((u.tx_ports, 0), complex)
        for line in emitted:
            total = add_line(total, line, 0)
        shift = lambda x: add_line(np.zeros((x.shape[0], 0), complex), x, case["trigger"]) if x.shape[1] else x
        amplitude = np.sqrt(u.power)
        want = shift(amplitude * (u.tx_coupling @ u.encoding @ total))
        mixed = output.mixed_signal
        r.equal(mixed.sampling_rate, fs, "sampling rate of the output")
        r.equal(mixed.carrier_frequency, u.fc, "carrier frequency of the output")
        r.check(output.trigger_realization is trigger, "trigger of the output")
        r.equal(output.num_antennas, T, "antennas of the output")
        same_line(r, on_line(mixed, fs, T), want, "radiated samples")
        groups = emitted if case["separate"] else [total]
        r.equal(len(output.emerging_signals), len(groups), "number of emerging signals")
        r.equal(output.operator_separation, len(groups) > 1, "operator separation of the output")
        for g, e in zip(groups, output.emerging_signals):
            same_line(r, on_line(e, fs, T), shift(amplitude * (u.tx_coupling @ u.encoding @ g)), "emerging samples")
        r.equal(len(output.leaking_signals), len(groups), "number of leaking signals")
        for g, e in zip(groups, output.leaking_signals):
            same_line(r, on_line(e, fs, Q), shift(amplitude * convolved(u.leak, u.encoding @ g)), "leaking samples")
        # Transmissions do not start before their delays
        if total.shape[1]:
            r.check(mixed.delay >= (case["trigger"] - 1e-6) / fs, "output starts before the trigger")
    r.cls("separate", case["separate"] and len(groups) > 1)
    r.cls("encoded", bool(u.encoders))
    r.cls("selected_ports", any(o["ports"] for o in case["operators"]))
    r.nontrivial(bool(np.any(total)) and (len(operators) > 1 or any(o["ports"] for o in case["operators"])))


# --- reception -----------------------------------------------------------------------
impinging = R(n=st.integers(0, 30), delay=st.sampled_from([0, 0, 2, 9, 25]), sparse=st.booleans(), zeros=st.sampled_from([0.0, 0.0, 0.6]))


@check.facet(
    "reception",
    R(**setups, signals=st.lists(impinging, max_size=3), leaking=st.lists(impinging, max_size=2), receivers=st.lists(ports, max_size=3), trigger=st.sampled_from([0, 0, 3, 11]), form=st.sampled_from(["list", "single", "input"]), noise=st.sampled_from([0.0, 0.0, 1e-6, 3.0]),
      staged=st.booleans(), repeat=st.booleans()),
    quick=600, thorough=20000,
    rule="samples reach at least one receiver",
)
def reception(case, r):
    u = Setup(case)
    dev, fs, s = u.device, u.fs, case["seed"]
    Q = len(u.rx)
    if not Q:
        return
    dev.noise_level = N0(case["noise"] / fs)
    r.equal(dev.num_receive_dsp_ports, u.rx_ports, "receive ports")
    selections = []
    for p in case["receivers"]:
        sel = None if p is None else [q for q in p if q < u.rx_ports] or None
        dev.receivers.add(SignalReceiver(10, selected_receive_ports=sel))
        selections.append(sel)
    make = lambda specs, off: [signal(cmat(s + off + i, Q, o["n"], zeros=o["zeros"]), fs, u.fc, o["delay"] / fs, o["sparse"]) for i, o in enumerate(specs)]
    specs = case["signals"]
    if case["form"] == "single":
        specs = specs[:1] or [dict(n=5, delay=0, sparse=False, zeros=0.0)]
    signals, leaking = make(specs, 600), make(case["leaking"], 700)
    before = [raw(x) for x in signals + leaking]
    lines = [on_line(x, fs, Q) for x in signals]
    leaks = [on_line(x, fs, Q) for x in leaking]
    argument = signals if case["form"] == "list" else signals[0] if case["form"] == "single" else DeviceInput(signals)
    inputs, received = [], []
    dev.input_callbacks.add_callback(inputs.append)
    for rec in dev.receivers:
        rec.add_receive_callback(received.append)
    trigger = TriggerRealization(case["trigger"], fs)
    total = np.zeros((Q, 0), complex)
    for x in lines:
        total = add_line(total, u.rx_coupling @ x, 0)
    for x in leaks:
        total = add_line(total, x, 0)
    want = total[:, case["trigger"] :]
    heard = False
    for _ in range(1 + case["repeat"]):
        inputs.clear(), received.clear()
        state = dev.state(0.0)
        if case["staged"]:
            realization = dev.realize_reception(state)
            processed = dev.process_from_realization(argument, realization, trigger, leaking, state)
            again = dev.process_from_realization(argument, realization, trigger, leaking, state)
            for a, b in zip(processed.operator_inputs, again.operator_inputs):
                r.close(raw(b), raw(a), "reception from the same realization", rtol=1e-12)
        else:
            processed = dev.process_input(argument, state, trigger, leaking_signals=leaking)
            r.equal(len(inputs), 1, "notifications of the device input")
        for x, b in zip(signals + leaking, before):
            r.equal(raw(x).shape, b.shape, "shape of an impinging signal after its reception")
            r.close(raw(x), b, "impinging signal after its reception", rtol=0)
        receptions = dev.receive_operators(processed, state)
        r.equal(len(received), len(selections), "notifications of receivers")
        r.equal(len(processed.operator_inputs), len(selections), "operator inputs")
        power = processed.noise_realization.power
        r.close(power, case["noise"], "power of the added noise", rtol=1e-9)
        base = processed.baseband_signal
        n = base.num_samples
        r.check(not np.any(want[:, n:]), f"reception ends after {n} of {want.shape[1]} samples")
        clean = np.zeros((Q, n), complex)
        clean[:, : min(n, want.shape[1])] = want[:, :n]
        same_line(r, raw(base), clean, "baseband samples")
        noisy = raw(processed.noise_realization.add_to(DenseSignal.FromNDArray(clean, fs, 0.0)))
        decoded = u.decoding @ noisy
        for sel, sig, rec in zip(selections, processed.operator_inputs, receptions):
            expected = decoded if sel is None else decoded[sel]
            r.equal(raw(sig).shape, expected.shape, "shape of an operator input")
            r.close(raw(sig), expected, "operator input", rtol=1e-8, atol=1e-11)
            r.close(sig.noise_power, case["noise"], "noise power of an operator input", rtol=1e-9)
            r.equal(sig.sampling_rate, fs, "sampling rate of an operator input")
            r.close(raw(rec.signal), expected, "signal received by an operator", rtol=1e-8, atol=1e-11)
            heard = heard or bool(np.any(expected))
    r.cls("noise", case["noise"] > 0)
    r.cls("cut", any(o["delay"] < case["trigger"] and o["n"] for o in specs))
    r.cls("leak", any(np.any(x) for x in leaks))
    r.cls("decoded", bool(u.decoders))
    r.nontrivial(heard)


# --- loop back -----------------------------------------------------------------------
@check.facet(
    "loop",
    R(**setups, operators=st.lists(st.integers(0, 25), min_size=1, max_size=3), trigger=st.sampled_from([0, 4]), rx_trigger=st.sampled_from([0, 4, 6])),
    quick=250, thorough=8000,
    rule="transmitted samples are received",
)
def loop(case, r):
    """The output of one device, together with its leakage, is received by itself and by a twin."""
    case = dict(case, antennas=["DUPLEX"] * len(case["antennas"]))
    u, v = Setup(case), Setup(case)
    fs, s = u.fs, case["seed"]
    total = np.zeros((u.tx_ports, 0), complex)
    for i, n in enumerate(case["operators"]):
        x = cmat(s + 500 + i, u.tx_ports, n)
        u.device.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(x, fs)))
        total = add_line(total, x, 0)
    for w in (u, v):
        w.device.receivers.add(SignalReceiver(10))
    transmission = u.device.transmit(trigger_realization=TriggerRealization(case["trigger"], fs))
    trigger = TriggerRealization(case["rx_trigger"], fs)
    amplitude = np.sqrt(u.power)
    sent = amplitude * (u.encoding @ total)
    air = add_line(np.zeros((len(u.rx), 0), complex), u.rx_coupling @ u.tx_coupling @ sent, case["trigger"])
    leak = add_line(np.zeros((len(u.rx), 0), complex), convolved(u.leak, sent), case["trigger"])
    both = add_line(air.copy(), leak, 0)
    for w, leaking, want in ((v, None, air), (u, transmission.leaking_signals, both), (v, [], air), (v, None, air)):
        processed = w.device.process_input(transmission, trigger_realization=trigger, leaking_signals=leaking)
        got = raw(processed.operator_inputs[0])
        same_line(r, got, u.decoding @ want[:, case["rx_trigger"] :], "samples received from a device output")
    if not case["separate"] or len(case["operators"]) < 2:
        y = v.device.receive(transmission, trigger_realization=trigger)
        same_line(r, raw(y.operator_receptions[0].signal), u.decoding @ air[:, case["rx_trigger"] :], "samples received directly from a device output")
    r.nontrivial(bool(np.any(total)))
