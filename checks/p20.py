"""P20 Evaluators report exactly what they are documented to measure."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy.constants import speed_of_light as C

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, logfloats

import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt

from hermespy.channel import FixedCrossSection, MultiTargetRadarChannel, SingleTargetRadarChannel, VirtualRadarTarget
from hermespy.core import AntennaMode, GridDimension, Signal, Transformation
from hermespy.core import SignalTransmitter, SignalReceiver
from hermespy.core.evaluators import PAPR, ReceivePowerEvaluator, SignalExtractor, TransmitPowerEvaluator
from hermespy.core import ValueType
from hermespy.core.pymonte import GridDimensionInfo, SamplePoint
from hermespy.modem import (
    BitErrorEvaluator, BlockErrorEvaluator, ConstellationEVM, FrameErrorEvaluator, ReceivingModem, ThroughputEvaluator,
    TransmittingModem, Symbols, RRCWaveform, SingleCarrierLeastSquaresChannelEstimation, SingleCarrierZeroForcingChannelEqualization,
    SimplexLink, CustomPilotSymbolSequence, StatedSymbols,
)
from hermespy.modem.modem import CommunicationReception, CommunicationReceptionFrame, CommunicationTransmission, CommunicationTransmissionFrame
from hermespy.fec import RepetitionEncoder
from hermespy.radar import FMCW, MaxDetector, PointDetection, Radar, RadarPointCloud, RadarReception, ThresholdDetector
from hermespy.radar.evaluators import (
    DetectionProbEvaluator, ReceiverOperatingCharacteristic, RocArtifact, RocEvaluationResult, RootMeanSquareError, RootMeanSquareEvaluation,
)
from hermespy.simulation import (
    N0, SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray, SimulationScenario, SpecificIsolation, StaticTrajectory,
)
from hermespy.simulation.evaluators.interference import SI, SSINR

check = Check("P20", "Evaluators report exactly the documented figure of the latest result")

# --- communication -----------------------------------------------------------------------------------------------------------

frame = R(tx=st.lists(st.integers(0, 1), min_size=0, max_size=24), flips=st.lists(st.integers(0, 30), max_size=4), cut=st.sampled_from([0, 0, 0, 1, 3, -2, -5]), block=st.integers(1, 6), sym=st.integers(0, 6), dur=st.integers(1, 9))
exchange = R(frames=st.lists(frame, min_size=0, max_size=4), drop=st.sampled_from([0, 0, 0, 1, -1]), seed=seeds)


class FakeTx(TransmittingModem):
    next = None

    def _transmit(self, state, duration):
        return self.next


class FakeRx(ReceivingModem):
    next = None

    def _receive(self, signal, state):
        return self.next


def sig(n=4):
    return Signal.Create(np.ones((1, n), complex), 1e6)


def make(c):
    """Hand-built transmission and reception, as well as the bits and symbols they consist of."""
    rng = np.random.default_rng(c["seed"])
    tx, rx, info = [], [], []
    for f in c["frames"]:
        n = (len(f["tx"]) // f["block"]) * f["block"]
        t = np.array(f["tx"][:n], int)
        x = t.copy()
        for i in f["flips"]:
            if i < len(x):
                x[i] ^= 1
        cut = f["cut"] * f["block"]
        x = x[: max(len(x) - cut, 0)] if cut > 0 else np.append(x, rng.integers(0, 2, -cut)).astype(int)
        s, q = cmat(rng, 1, f["sym"]), cmat(rng, 1, max(f["sym"] - f["cut"], 0))
        st_, sq = Symbols(s[:, :, None]), Symbols(q[:, :, None])
        tx.append(CommunicationTransmissionFrame(sig(f["dur"]), t, f["block"], t, f["block"], st_, st_, 0.0))
        rx.append(CommunicationReceptionFrame(sig(f["dur"]), sig(f["dur"]), sq, sq, 0.0, sq, x, f["block"], x, f["block"]))
        info.append((t, x, f["block"], s.ravel(), q.ravel(), f["dur"] / 1e6))
    ti, ri = [k[0] for k in info], [k[1] for k in info]
    nt = len(info) - max(c["drop"], 0)
    nr = len(info) - max(-c["drop"], 0)
    nt, nr = max(nt, 0), max(nr, 0)
    return CommunicationTransmission(sig(), tx[:nt]), CommunicationReception(sig(), rx[:nr]), info, nt, nr


def errors(t, x, fill=True):
    n = min(len(t), len(x))
    return np.append(t[:n] != x[:n], np.full(max(len(t), len(x)) - n, fill))


@check.facet("errors", R(history=st.lists(exchange, min_size=1, max_size=3)), quick=400, thorough=20000, rule="bit errors in one of several frames")
def error_rates(c, r):
    tx, rx = FakeTx(), FakeRx()
    dev = SimulatedDevice()
    kinds = [BitErrorEvaluator, BlockErrorEvaluator, FrameErrorEvaluator, ThroughputEvaluator, ConstellationEVM]
    ev = [k(tx, rx) for k in kinds]
    for e in ev:
        try:
            e.evaluate()
            r.fail(f"{e.title} was evaluated before any transmission")
        except RuntimeError:
            pass
    for h, x in enumerate(c["history"]):
        tx.next, rx.next, info, nt, nr = make(x)
        tx.transmit(dev.state())
        if h == 0:
            for e in ev:
                try:
                    e.evaluate()
                    r.fail(f"{e.title} was evaluated before any reception")
                except RuntimeError:
                    pass
        rx.receive(sig(), dev.state())
        both = min(nt, nr)
        txb = np.concatenate([k[0] for k in info[:nt]] + [np.empty(0, int)])
        rxb = np.concatenate([k[1] for k in info[:nr]] + [np.empty(0, int)])
        some = any(np.any(errors(k[0], k[1])) for k in info[:both])
        r.nontrivial(some and both > 1)
        r.cls("lost frame", nt > nr)
        r.cls("frames of differing size", any(len(k[0]) != len(k[1]) for k in info[:both]))
        # bits
        if max(len(txb), len(rxb)) > 0:
            v = ev[0].evaluate()
            if len(txb) == len(rxb):
                r.equal(np.asarray(v.evaluation).astype(bool), errors(txb, rxb), "positions of erroneous bits")
                r.close(v.artifact().to_scalar(), float(np.mean(errors(txb, rxb))), "bit error rate")
            else:
                n = min(len(txb), len(rxb))
                r.equal(len(v.evaluation), max(len(txb), len(rxb)), "number of compared bits")
                r.equal(np.asarray(v.evaluation)[:n].astype(bool), errors(txb[:n], rxb[:n]), "positions of erroneous bits")
        # blocks
        blocks = []
        for f in range(max(nt, nr)):
            t, y, b = info[f][:3]
            t, y = t if f < nt else t[:0], y if f < nr else y[:0]
            for k in range(max(len(t), len(y)) // b):
                p, q = t[k * b : k * b + b], y[k * b : k * b + b]
                blocks.append(len(p) != len(q) or np.any(p != q))
        v = ev[1].evaluate()
        r.equal(np.asarray(v.evaluation).astype(bool), np.array(blocks, bool), "erroneous blocks")
        if blocks:
            r.close(v.artifact().to_scalar(), float(np.mean(blocks)), "block error rate")
        # frames
        fer = np.array([f >= both or len(info[f][0]) != len(info[f][1]) or bool(np.any(info[f][0] != info[f][1])) for f in range(max(nt, nr))], bool)
        v = ev[2].evaluate()
        r.equal(np.asarray(v.evaluation).astype(bool), fer, "erroneous frames")
        if len(fer):
            r.close(v.artifact().to_scalar(), float(np.mean(fer)), "frame error rate")
        # throughput: correct bits over the time spent by all frames
        v = ev[3].evaluate().artifact().to_scalar()
        if nr < 1:
            r.close(v, 0.0, "throughput without receptions")
        elif len({(len(k[1]), k[5]) for k in info[:nr]}) == 1:
            r.close(v, np.sum(~fer) * len(info[0][1]) / (len(fer) * info[0][5]), "throughput")
        # error vector magnitude
        if nt and nr:
            try:
                s, q = tx.next.symbols.raw.ravel(), rx.next.equalized_symbols.raw.ravel()
            except ValueError:
                continue
            n = min(len(s), len(q))
            if n:
                want = np.sqrt(np.sum(np.abs(s[:n] - q[:n]) ** 2) / n)
                r.close(ev[4].evaluate().artifact().to_scalar(), want, "error vector magnitude")
                if nt == nr and all(len(k[3]) == len(k[4]) == len(info[0][3]) for k in info):
                    d = np.concatenate([k[3] - k[4] for k in info[:nt]])
                    r.close(want, np.sqrt(np.mean(np.abs(d) ** 2)), "symbols of multiple frames")
    # another pair of modems does not interfere
    o_tx, o_rx = FakeTx(), FakeRx()
    before = [e.evaluate() for e in ev[1:3]]
    o_tx.next, o_rx.next, *_ = make(c["history"][0])
    o_tx.transmit(dev.state()), o_rx.receive(sig(), dev.state())
    for e, b in zip(ev[1:3], before):
        r.equal(e.evaluate().evaluation, b.evaluation, "unrelated modems were evaluated")


@check.facet("links", R(order=st.sampled_from([2, 4, 16]), rep=st.sampled_from([1, 3]), block=st.integers(1, 9), n=st.integers(1, 20), frames=st.integers(1, 3), snr=floats(-6, 15), seed=seeds), quick=60, thorough=3000, rule="a noisy link of several frames")
def links(c, r):
    w = RRCWaveform(modulation_order=c["order"], num_preamble_symbols=2, num_data_symbols=c["n"])
    w.channel_estimation = SingleCarrierLeastSquaresChannelEstimation()
    w.channel_equalization = SingleCarrierZeroForcingChannelEqualization()
    a, b = SimulatedDevice(bandwidth=1e6, seed=c["seed"]), SimulatedDevice(bandwidth=1e6, seed=c["seed"] + 1)
    link = SimplexLink(waveform=w, seed=c["seed"])
    if c["rep"] > 1:
        link.encoder_manager.add_encoder(RepetitionEncoder(bit_block_size=c["block"], repetitions=c["rep"]))
    a.transmitters.add(link)
    b.receivers.add(link)
    ev = [k(link, link) for k in (BitErrorEvaluator, BlockErrorEvaluator, FrameErrorEvaluator, ThroughputEvaluator, ConstellationEVM)]
    b.noise_level = N0(10 ** (-c["snr"] / 10) / 1e6)
    for _ in range(2):
        x = a.transmit()
        y = b.receive(x)
        tx, rx = x.operator_transmissions[0], y.operator_receptions[0]
        r.nontrivial(True)
        tb, rb = [f.bits for f in tx.frames], [f.decoded_bits for f in rx.frames]
        r.equal(len(tb), len(rb), "number of frames")
        if any(len(p) != len(q) for p, q in zip(tb, rb)):
            r.fail("frames of a link differ in their number of bits")
            return
        e = np.concatenate([p != q for p, q in zip(tb, rb)])
        r.cls("erroneous", np.any(e))
        r.cls("partially erroneous", np.any(e) and not np.all(e))
        if e.size:
            r.close(ev[0].evaluate().artifact().to_scalar(), float(np.mean(e)), "bit error rate of a link")
        blk = [np.any((p != q)[k : k + s]) for p, q, s in zip(tb, rb, [f.bit_block_size for f in tx.frames]) for k in range(0, len(p) // s * s, s)]
        if blk:
            r.close(ev[1].evaluate().artifact().to_scalar(), float(np.mean(blk)), "block error rate of a link")
        fer = [np.any(p != q) for p, q in zip(tb, rb)]
        r.close(ev[2].evaluate().artifact().to_scalar(), float(np.mean(fer)), "frame error rate of a link")
        r.close(ev[3].evaluate().artifact().to_scalar(), (1 - np.mean(fer)) * len(rb[0]) / rx.frames[0].signal.duration, "throughput of a link", rtol=1e-9)
        d = tx.symbols.raw - rx.equalized_symbols.raw
        r.close(ev[4].evaluate().artifact().to_scalar(), float(np.sqrt(np.mean(np.abs(d) ** 2))), "error vector magnitude of a link", rtol=1e-9)


# --- powers ------------------------------------------------------------------------------------------------------------------

signal = R(n=st.integers(2, 30), kind=st.sampled_from(["dense", "dense", "zeros", "sparse"]), scale=logfloats(1e-4, 1e3), seed=seeds)


def samples(s, streams):
    rng = np.random.default_rng(s["seed"])
    x = s["scale"] * cmat(rng, streams, s["n"])
    if s["kind"] == "zeros":
        x[:, rng.random(s["n"]) < 0.5] = 0
        x[:, 0] = s["scale"]
    if s["kind"] == "sparse":
        x[:, s["n"] // 3 : 2 * s["n"] // 3] = 0
        x[:, 0] = x[:, -1] = s["scale"]
    return x


@check.facet("powers", R(ants=st.integers(1, 3), history=st.lists(signal, min_size=1, max_size=3), extra=st.integers(0, 10)), quick=200, thorough=10000, rule="several antennas or transmissions")
def powers(c, r):
    n = c["ants"]
    dev = SimulatedDevice(bandwidth=1e6, oversampling_factor=1, antennas=SimulatedUniformArray(SimulatedIdealAntenna, 0.1, (n, 1, 1)))
    other = SimulatedDevice(bandwidth=1e6, oversampling_factor=1)
    r.nontrivial(n > 1 or len(c["history"]) > 1)
    tx = SignalTransmitter(Signal.Create(np.zeros((n, 1), complex), 1e6))
    rx = SignalReceiver(1, expected_power=1.0)
    otx, orx = SignalTransmitter(Signal.Create(np.ones((1, 5), complex), 1e6)), SignalReceiver(5)
    dev.transmitters.add(tx)
    dev.receivers.add(rx)
    other.transmitters.add(otx)
    other.receivers.add(orx)
    ev = dict(tx=TransmitPowerEvaluator(tx), rx=ReceivePowerEvaluator(rx), ptx=PAPR(dev, AntennaMode.TX), prx=PAPR(dev, AntennaMode.RX), etx=SignalExtractor(tx), erx=SignalExtractor(rx))
    for k, e in ev.items():
        try:
            e.evaluate()
            r.fail(f"{e.title} was evaluated before any signal was processed")
        except RuntimeError:
            pass
    try:
        PAPR(dev, AntennaMode.DUPLEX)
        r.fail("PAPR of a duplex direction")
    except ValueError:
        pass
    stash = []
    for s in c["history"]:
        x = samples(s, n)
        tx.signal = Signal.Create(x, 1e6)
        rx.num_samples = x.shape[1]
        dev.receive(dev.transmit())
        other.receive(other.transmit())
        p = np.abs(x) ** 2
        for k in ("tx", "rx"):
            v = ev[k].evaluate()
            r.close(v.power, p.mean(axis=1), f"{k} power per stream", rtol=1e-9)
            r.close(v.artifact().power, p.mean(axis=1), f"{k} power per stream of the artifact", rtol=1e-9)
            r.close(v.artifact().to_scalar(), p.mean(axis=1).sum(), f"total {k} power", rtol=1e-9)
        for k in ("ptx", "prx"):
            v = ev[k].evaluate()
            r.close(v.instantaneous_power, p, f"instantaneous power {k}", rtol=1e-9)
            r.close(v.artifact().to_scalar(), np.mean(p.max(axis=1) / p.mean(axis=1)), f"peak to average power ratio {k}", rtol=1e-9)
        for k in ("etx", "erx"):
            v = ev[k].evaluate()
            r.close(v.signal.to_dense().view(np.ndarray), x, f"extracted signal {k}")
            r.check(v.artifact().to_scalar() is None, "scalar of an extracted signal")
        stash.append((x, ev["erx"].evaluate().artifact()))
    # results over a grid of two sample points
    grid = [GridDimensionInfo([SamplePoint(0), SamplePoint(1)], "x", "linear", ValueType.LIN)]
    res = ev["erx"].initialize_result(grid)
    for i, (x, a) in enumerate(stash):
        res.add_artifact((i % 2,), a)
    arr = res.to_array()
    r.equal(arr.shape[:3], (2, (len(stash) + 1) // 2, n), "shape of extracted signals")
    for i, (x, a) in enumerate(stash):
        r.close(arr[i % 2, i // 2, :, : x.shape[1]], x, "extracted signals of a grid")
        r.check(not np.any(arr[i % 2, i // 2, :, x.shape[1] :]), "padding of extracted signals")


@check.facet("interference", R(ants=st.integers(1, 3), a=st.lists(signal, min_size=1, max_size=3), leak=st.one_of(st.none(), signal), noise=logfloats(1e-12, 1e-3), power=floats(0.1, 5), seed=seeds), quick=200, thorough=10000, rule="leakage and impinging signals")
def interference(c, r):
    n = c["ants"]
    dev = SimulatedDevice(bandwidth=1e6, oversampling_factor=1, antennas=SimulatedUniformArray(SimulatedIdealAntenna, 0.1, (n, 1, 1)), seed=c["seed"])
    dev.noise_level = N0(c["noise"] / 1e6)
    dev.receivers.add(SignalReceiver(4))
    si, ss = SI(dev), SSINR(dev)
    for e in (si, ss):
        try:
            e.evaluate()
            r.fail(f"{e.title} was evaluated before any signal was received")
        except RuntimeError:
            pass
    imp = [samples(s, n) for s in c["a"]]
    r.nontrivial(c["leak"] is not None and len(imp) > 1)
    r.cls("no leakage", c["leak"] is None)
    args = {}
    L = np.zeros(n)
    if c["leak"] is not None:
        l = samples(c["leak"], n)
        args["leaking_signals"] = Signal.Create(l, 1e6)
        L = np.mean(np.abs(l) ** 2, axis=1)
    dev.process_input([Signal.Create(x, 1e6) for x in imp], **args)
    S = sum(np.mean(np.abs(x) ** 2, axis=1) for x in imp)
    r.close(si.evaluate().power, L, "self-interference", rtol=1e-9)
    r.close(ss.evaluate().power, S / (L + c["noise"]), "signal to interference and noise ratio", rtol=1e-9)
    r.close(si.evaluate().artifact().to_scalar(), L.sum(), "total self-interference", rtol=1e-9)


@check.facet("duplex leakage", R(s=signal, iso=st.lists(st.lists(logfloats(1e-8, 1e2), min_size=3, max_size=3), min_size=3, max_size=3), ants=st.integers(1, 3)), quick=60, thorough=3000, rule="leakage between several antennas")
def leakage(c, r):
    n = c["ants"]
    dev = SimulatedDevice(bandwidth=1e6, oversampling_factor=1, antennas=SimulatedUniformArray(SimulatedIdealAntenna, 0.1, (n, 1, 1)))
    iso = np.array(c["iso"])[:n, :n]
    dev.isolation = SpecificIsolation(iso)
    x = samples(c["s"], n)
    dev.transmitters.add(SignalTransmitter(Signal.Create(x, 1e6)))
    dev.receivers.add(SignalReceiver(x.shape[1]))
    scenario = SimulationScenario()
    scenario.add_device(dev)
    si = SI(dev)
    scenario.drop()
    leak = (1 / np.sqrt(iso)) @ x
    r.nontrivial(n > 1)
    r.close(si.evaluate().power, np.mean(np.abs(leak) ** 2, axis=1), "power leaking into the receive chains", rtol=1e-9)


# --- radar -------------------------------------------------------------------------------------------------------------------

@check.facet("roc", R(grid=st.lists(st.integers(1, 3), min_size=1, max_size=2), n=st.integers(0, 12), thresholds=st.integers(2, 30), same=st.booleans(), seed=seeds), quick=200, thorough=10000, rule="artifacts of more than a single sample point")
def roc(c, r):
    rng = np.random.default_rng(c["seed"])
    grid = [GridDimensionInfo([SamplePoint(k) for k in range(m)], f"dim {i}", "linear", ValueType.LIN) for i, m in enumerate(c["grid"])]
    res = RocEvaluationResult(grid, None, c["thresholds"])
    data = {}
    for idx in np.ndindex(*c["grid"]):
        v = rng.random((int(rng.integers(0, c["n"] + 1)), 2)) ** 3 + (0 if c["same"] else np.array([0.0, 0.3]))
        data[idx] = v
        for h0, h1 in v:
            res.add_artifact(idx, RocArtifact(h0, h1))
    r.nontrivial(len(data) > 1 and c["n"] > 2)
    a = res.to_array()
    r.equal(a.shape, tuple(c["grid"]) + (c["thresholds"], 2), "shape of characteristics")
    for idx, v in data.items():
        if len(v) == 0:
            r.check(np.all(np.isnan(a[idx])), "characteristics without artifacts")
            continue
        th = np.linspace(v.min(), v.max(), c["thresholds"])
        r.close(a[idx][:, 0], [(v[:, 1] >= t).mean() for t in th], "detection probability")
        r.close(a[idx][:, 1], [(v[:, 0] >= t).mean() for t in th], "false alarm probability")
    if c["seed"] % 4 == 0:
        vis = res.visualize()
        for idx, line in zip(data, vis.lines[0, 0]):
            r.close(np.nan_to_num(np.asarray(line.get_xdata(), float)), np.nan_to_num(a[idx][:, 1]), "plotted false alarm probabilities")
            r.close(np.nan_to_num(np.asarray(line.get_ydata(), float)), np.nan_to_num(a[idx][:, 0]), "plotted detection probabilities")
        plt.close("all")


pose = R(rpy=st.lists(floats(-3.1, 3.1), min_size=3, max_size=3), pos=st.lists(floats(-50, 50), min_size=3, max_size=3))


def radar_scene(c, device_pose, seed, others=0):
    scenario = SimulationScenario(seed=seed)
    dev = scenario.new_device(carrier_frequency=1e10, bandwidth=1e9, oversampling_factor=2, pose=device_pose)
    radar = Radar(FMCW(num_chirps=3, chirp_duration=60.5e-9, pulse_rep_interval=80.3e-9), detector=MaxDetector())
    extra = []
    for _ in range(others):
        e = scenario.new_device(carrier_frequency=1e10, bandwidth=1e9, oversampling_factor=2, pose=Transformation.From_Translation(np.array([30.0, 20, 10])))
        e.transmitters.add(SignalTransmitter(Signal.Create(0.7 * cmat(np.random.default_rng(seed), 1, 300), e.sampling_rate)))
        extra.append(e)
    dev.add_dsp(radar)
    return scenario, dev, radar, extra


def place(c, p):
    """Target position in local and global coordinates."""
    d = np.array([np.cos(c["az"]) * np.sin(c["ze"]), np.sin(c["az"]) * np.sin(c["ze"]), np.cos(c["ze"])])
    local = c["range"] * d
    return local, p.transform_position(local)


@check.facet("hypotheses", R(pose=pose, range=floats(0.5, 3.0), az=floats(-3, 3), ze=floats(0, 1.5), clutter=st.booleans(), others=st.integers(0, 1), first=st.booleans(), noise=st.sampled_from([0.0, 1e-12, 1e-8]), amp=logfloats(1e-2, 1e2), seed=seeds), quick=60, thorough=3000, rule="noise, clutter or interference under the null hypothesis")
def hypotheses(c, r):
    """The null hypothesis differs from the alternative one by the absence of non-static targets only."""
    p = Transformation.From_RPY(np.array(c["pose"]["rpy"]), np.array(c["pose"]["pos"]))
    local, position = place(c, p)

    def run(target, evaluator=True):
        scenario = SimulationScenario(seed=c["seed"])
        args = dict(carrier_frequency=1e10, bandwidth=1e9, oversampling_factor=2)
        devs = []
        for k in ([1, 0] if c["others"] and c["first"] else [0, 1][: 1 + c["others"]]):
            d = scenario.new_device(pose=p if k == 0 else Transformation.From_Translation(np.array([30.0, 20, 10])), **args)
            devs.append((k, d))
        dev = [d for k, d in devs if k == 0][0]
        dev.noise_level = N0(c["noise"] / 1e9)
        radar = Radar(FMCW(num_chirps=3, chirp_duration=60.5e-9, pulse_rep_interval=80.3e-9), detector=MaxDetector())
        for k, d in devs:
            if k:
                d.transmitters.add(SignalTransmitter(Signal.Create(3e-4 * cmat(np.random.default_rng(c["seed"]), 1, 300), d.sampling_rate)))
        dev.add_dsp(radar)
        ch = MultiTargetRadarChannel(attenuate=True, seed=c["seed"])
        if c["clutter"]:
            ch.add_target(VirtualRadarTarget(FixedCrossSection(1e-1), trajectory=StaticTrajectory(Transformation.From_Translation(p.transform_position(np.array([0.5, 1.0, 2.0])))), static=True))
        if target > 0:
            ch.add_target(VirtualRadarTarget(FixedCrossSection(target), trajectory=StaticTrajectory(Transformation.From_Translation(position)), static=False))
        scenario.set_channel(dev, dev, ch)
        roc_ = ReceiverOperatingCharacteristic(radar, dev, dev, ch, 7)
        try:
            roc_.evaluate()
            r.fail("characteristics were evaluated before any drop")
        except RuntimeError:
            pass
        drop = scenario.drop()
        k = scenario.device_index(dev)
        return roc_.evaluate(), drop.device_receptions[k].operator_receptions[0], roc_

    e, rec, roc_ = run(c["amp"])
    r.nontrivial(c["noise"] > 0 or c["clutter"] or c["others"] > 0)
    r.cls("interfering device in front of the radar", bool(c["others"] and c["first"]))
    r.equal(e.cube_h1.data, rec.cube.data, "alternative hypothesis is the reception")
    # identical noise and interference, no target
    ref, rec0, _ = run(0.0)
    scale = float(max(e.cube_h1.data.max(), e.cube_h0.data.max()))
    if c["noise"] == 0.0:
        r.close(e.cube_h0.data, rec0.cube.data, "null hypothesis still includes the target or misses interference", scale=scale, rtol=1e-6)
    r.close(ref.cube_h0.data, ref.cube_h1.data, "null hypothesis differs without any target", scale=float(ref.cube_h1.data.max()) + 1e-300, rtol=1e-6)
    if c["noise"] > 0:
        # the noise is drawn from the same distribution
        got, want = float(np.mean(e.cube_h0.data)), float(np.mean(rec0.cube.data))
        r.check(0.4 * want <= got <= 2.5 * want, f"mean power {got} under the null hypothesis instead of {want}")
    a = e.artifact()
    r.close([a.h0_value, a.h1_value], [e.cube_h0.data.max(), e.cube_h1.data.max()], "decision variables")
    res = roc_.initialize_result([GridDimensionInfo([SamplePoint(0)], "x", "linear", ValueType.LIN)])
    res.add_artifact((0,), a)
    r.equal(res.to_array().shape, (1, 7, 2), "number of thresholds")


@check.facet("recorded", R(range=st.lists(floats(0.5, 3.0), min_size=1, max_size=4), n0=st.integers(1, 4), off=st.integers(0, 1), num=st.integers(1, 4), noise=logfloats(1e-6, 1e-2), thresholds=st.integers(2, 12), seed=seeds), quick=12, thorough=300, rule="several drops of both hypotheses", shards=4)
def recorded(c, r):
    """Characteristics extracted from recorded or live scenarios equal those of the processed drops."""
    def setup(seed):
        scenario = SimulationScenario(seed=seed)
        dev = scenario.new_device(carrier_frequency=1e10, bandwidth=1e9, oversampling_factor=2)
        dev.noise_level = N0(c["noise"] / 1e9)
        idle = SignalReceiver(3)
        dev.receivers.add(idle)
        radar = Radar(FMCW(num_chirps=2, chirp_duration=60.5e-9, pulse_rep_interval=80.3e-9), detector=MaxDetector())
        dev.add_dsp(radar)
        ch = SingleTargetRadarChannel(c["range"][0], 1e-3, attenuate=False, seed=seed)
        scenario.set_channel(dev, dev, ch)
        return scenario, radar, ch

    def curve(v, n):
        v = np.array(v)
        th = np.linspace(v.min(), v.max(), n)
        return np.array([[(v[:, 1] >= t).mean(), (v[:, 0] >= t).mean()] for t in th])

    scenario, radar, ch = setup(c["seed"])
    values = {}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "drops.h5")
        for campaign, exists, n in (("h0", False, c["n0"]), ("h1", True, len(c["range"]))):
            ch.target_exists = exists
            scenario.record(path, campaign=campaign)
            values[campaign] = []
            for i in range(n):
                ch.target_range = c["range"][i % len(c["range"])]
                values[campaign].append(scenario.drop().device_receptions[0].operator_receptions[1].cube.data.max())
            scenario.stop()
        pairs = list(zip(values["h0"][c["off"] :], values["h1"][c["off"] :]))[: c["num"]]
        r.nontrivial(len(pairs) > 1)
        if pairs:
            s2, radar2, _ = setup(c["seed"] + 1)
            s2.replay(path, campaign="h0")
            res = ReceiverOperatingCharacteristic.FromScenario(s2, radar2, "h0", "h1", c["off"], c["num"])
            r.close(res.to_array()[0], curve(pairs, 101), "characteristics of a replayed scenario", rtol=1e-6)
            s2.stop()
            res = ReceiverOperatingCharacteristic.FromFile(path, "h0", "h1", c["thresholds"], c["off"], c["num"])
            r.close(res.to_array()[0], curve(pairs, c["thresholds"]), "characteristics of recorded campaigns", rtol=1e-6)
    # live scenarios: identical seeds yield identical drops
    live = []
    for exists in (False, True):
        s, _, h = setup(c["seed"])
        h.target_exists = exists
        live.append((s, [s.drop().device_receptions[0].operator_receptions[1].cube.data.max() for _ in range(3)]))
    got = ReceiverOperatingCharacteristic.FromScenarios(live[0][0], live[1][0], 3, num_thresholds=c["thresholds"]).to_array()
    r.equal(got.shape, (1, c["thresholds"], 2), "shape of the characteristics of scenarios")
    r.check(np.all(np.diff(got[0], axis=0) <= 0) and np.all(got[0][0] >= 0) and got[0][0].max() == 1.0, "characteristics are no cumulative probabilities")


@check.facet("root mean squares", R(points=st.lists(st.lists(floats(-100, 100), min_size=3, max_size=3), min_size=1, max_size=4), truth=st.lists(st.lists(floats(-100, 100), min_size=3, max_size=3), min_size=1, max_size=3), batches=st.integers(1, 3)), quick=150, thorough=8000, rule="several points or targets")
def rms(c, r):
    r.nontrivial(len(c["points"]) * len(c["truth"]) > 1)
    pcl = RadarPointCloud(1e4)
    for q in c["points"]:
        pcl.add_point(PointDetection(np.array(q), np.zeros(3), 1.0))
    d = np.array([[np.sum((np.array(q) - np.array(t)) ** 2) for t in c["truth"]] for q in c["points"]])
    a = RootMeanSquareEvaluation(pcl, np.array(c["truth"])).artifact()
    r.equal(a.num_errors, d.size, "number of errors")
    r.close(a.cummulation, d.sum(), "accumulated squared errors", rtol=1e-9)
    r.close(a.to_scalar(), np.sqrt(d.mean()), "root mean square error", rtol=1e-9)


@check.facet("localization", R(pose=pose, range=floats(0.5, 5.0), az=floats(-3, 3), ze=floats(0, 1.5), boresight=st.booleans(), drops=st.integers(1, 2), seed=seeds), quick=60, thorough=3000, rule="a rotated radar")
def localization(c, r):
    p = Transformation.From_RPY(np.array(c["pose"]["rpy"]), np.array(c["pose"]["pos"]))
    if c["boresight"]:
        c["ze"] = 0.0
    local, position = place(c, p)
    scenario, dev, radar, _ = radar_scene(c, p, c["seed"])
    ch = MultiTargetRadarChannel(attenuate=False, seed=c["seed"])
    ch.add_target(VirtualRadarTarget(FixedCrossSection(1.0), trajectory=StaticTrajectory(Transformation.From_Translation(position))))
    ch.add_target(VirtualRadarTarget(FixedCrossSection(1e-12), trajectory=StaticTrajectory(Transformation.From_Translation(position))))
    scenario.set_channel(dev, dev, ch)
    e, pd = RootMeanSquareError(radar, dev, dev, ch), DetectionProbEvaluator(radar)
    for k in (e, pd):
        try:
            k.evaluate()
            r.fail(f"{k.title} was evaluated before any drop")
        except RuntimeError:
            pass
    res = e.initialize_result([GridDimensionInfo([SamplePoint(0)], "x", "linear", ValueType.LIN)])
    acc = []
    r.nontrivial(bool(np.any(np.abs(c["pose"]["rpy"]) != 0)))
    for _ in range(c["drops"]):
        rec = scenario.drop().device_receptions[0].operator_receptions[0]
        a = e.evaluate().artifact()
        d = [np.sum((q.position - local) ** 2) for q in rec.cloud.points for _ in range(2)]
        r.close(a.to_scalar(), np.sqrt(np.mean(d)), "root mean square error in coordinates of the radar", rtol=1e-6, scale=1e-3)
        if c["boresight"]:
            r.check(a.to_scalar() <= 0.75 * C / 2e9 + 1e-6 + c["range"] * 0.02, f"boresight target is located with an error of {a.to_scalar()} m")
        acc += d
        res.add_artifact((0,), a)
        r.equal(bool(pd.evaluate().artifact().to_scalar()), len(rec.cloud.points) > 0, "detection")
        r.equal(rec.cloud.num_points, 1, "detected points")
    r.close(res.to_array(), [np.sqrt(np.mean(acc))], "accumulated root mean square error", rtol=1e-6, scale=1e-3)
    radar.detector = ThresholdDetector(1e30, normalize=False)
    scenario.drop()
    r.equal(bool(pd.evaluate().artifact().to_scalar()), False, "detection beyond the threshold")
