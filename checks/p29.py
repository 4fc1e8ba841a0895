"""P29 trigger models and the synchronization of devices."""
from fractions import Fraction
from math import floor

import numpy as np
from hypothesis import strategies as st
from scipy.stats import binom, chi2, kstest, norm

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats, logfloats

from hermespy.core import DenseSignal, SignalReceiver, SignalTransmitter
from hermespy.simulation import (
    NormalTrigger, RandomTrigger, SampleOffsetTrigger, SimulatedDevice, SimulationScenario, StaticTrigger, TimeOffsetTrigger, TriggerRealization,
)

check = Check(
    "P29",
    "Triggers delay transmissions and open receptions at exactly the drawn instant",
    assumptions=["Statistical assertions have error probabilities below 1e-10 each."],
)
ALPHA = 1e-11


def raw(s):
    return np.array(np.asarray(s.to_dense()).view(np.ndarray))


def refused(r, f, what, *errors):
    try:
        f()
    except (errors or (ValueError, RuntimeError)):
        return
    r.fail(f"{what} accepted")


# --- realizations ----------------------------------------------------------------------
# Rates and delays are ratios of small integers, so that the reference is exact
rates = st.tuples(st.integers(1, 60), st.sampled_from([1, 2, 3, 5, 7]), st.integers(0, 8)).map(lambda t: Fraction(t[0], t[1]) * 10 ** t[2])


@check.facet(
    "realizations",
    R(n=st.one_of(st.integers(0, 50), st.integers(0, 10**6)), fs=st.tuples(st.integers(1, 60), st.sampled_from([1, 2, 3, 5, 7]), st.integers(0, 8)),
      other=st.tuples(st.integers(1, 60), st.sampled_from([1, 2, 3, 5, 7])), init=st.integers(-40, 40), inv=st.booleans()),
    quick=1500, thorough=60000,
    rule="a positive offset seen at another sampling rate",
)
def realizations(case, r):
    a, b, e = case["fs"]
    fs = Fraction(a, b) * 10**e
    c, d = case["other"]
    other = Fraction(c, d) * 10**e
    n = case["n"]
    t = TriggerRealization(n, float(fs))
    r.equal(t.num_offset_samples, n, "offset samples")
    r.equal(t.sampling_rate, float(fs), "sampling rate")
    r.close(t.trigger_delay, float(n / fs), "delay of a trigger in seconds", rtol=1e-12)
    r.equal(t.compute_num_offset_samples(float(fs)), n, "offset at the trigger's own sampling rate")
    r.equal(t.compute_num_offset_samples(float(other)), floor(n / fs * other), f"offset of {n}/{fs} s at rate {other}")
    init = case["init"] / other
    want = (n / fs - init) * other
    got = t.compute_num_offset_samples(float(other), float(init))
    r.equal(got, floor(want), f"offset at rate {other} behind an initial delay of {init}")
    r.check(isinstance(got, (int, np.integer)), "offset is no integer")
    for bad in (0.0, -float(other)):
        refused(r, lambda: t.compute_num_offset_samples(bad), f"sampling rate {bad}", ValueError)
        refused(r, lambda: TriggerRealization(n, bad), f"sampling rate {bad}", ValueError)
    refused(r, lambda: TriggerRealization(-1 - n, float(fs)), "negative offset", ValueError)
    r.cls("fractional", want.denominator > 1)
    r.nontrivial(n > 0 and other != fs)


# --- groups of devices -------------------------------------------------------------------
def build_model(spec):
    kind, v = spec
    return {
        "static": lambda: StaticTrigger(), "samples": lambda: SampleOffsetTrigger(v), "time": lambda: TimeOffsetTrigger(v * 1e-7),
        "random": lambda: RandomTrigger(), "normal": lambda: NormalTrigger(v * 1e-7, 2e-6),
    }[kind]()


model_specs = st.tuples(st.sampled_from(["static", "samples", "time", "random", "normal"]), st.one_of(st.just(0), st.integers(1, 500)))


@check.facet(
    "groups",
    R(models=st.lists(model_specs, min_size=1, max_size=4), devices=st.lists(R(bandwidth=st.sampled_from([1e6, 3e6, 1e7]), os=st.integers(1, 4), tx=st.lists(st.integers(0, 300), max_size=2), rx=st.lists(st.integers(0, 300), max_size=2)), min_size=1, max_size=4),
      ops=st.lists(st.tuples(st.sampled_from(["assign", "assign", "add", "realize", "set", "scenario"]), st.integers(0, 99), st.integers(0, 99)), min_size=1, max_size=14), seed=seeds, shared=st.booleans()),
    quick=500, thorough=15000,
    rule="devices move between trigger models and models are realized",
)
def groups(case, r):
    specs = [list(s) for s in case["models"]]
    models = [build_model(s) for s in specs]
    devices, lengths = [], []
    for d in case["devices"]:
        dev = SimulatedDevice(bandwidth=case["devices"][0]["bandwidth"] if case["shared"] else d["bandwidth"], oversampling_factor=case["devices"][0]["os"] if case["shared"] else d["os"])
        for n in d["tx"]:
            dev.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(np.ones((1, n), complex), dev.sampling_rate)))
        for n in d["rx"]:
            dev.receivers.add(SignalReceiver(n))
        devices.append(dev)
        lengths.append(max([0] + d["tx"] + d["rx"]))
    own = [dev.trigger_model for dev in devices]
    for k, (dev, m) in enumerate(zip(devices, own)):
        r.check(isinstance(m, StaticTrigger) and list(m.devices) == [dev], f"device {k} is not triggered statically by default")
    members = [[] for _ in models]  # indices of the controlled devices in the order of being added
    where = [None] * len(devices)
    scenario = None
    rng = np.random.default_rng(case["seed"])
    moved = realized = 0

    def fs(k):
        return devices[k].sampling_rate

    def verify(m, t):
        """Verify a realization t of model m."""
        kind, v = specs[m]
        group = members[m]
        rate = fs(group[0])
        if kind == "static":
            r.equal(t.trigger_delay, 0.0, "delay of a static trigger")
            r.equal(t.num_offset_samples, 0, "offset of a static trigger")
        elif kind == "samples":
            r.equal(t.num_offset_samples, v, "offset of a sample offset trigger")
            r.equal(t.sampling_rate, rate, "sampling rate of a sample offset trigger")
        elif kind == "time":
            r.equal(t.sampling_rate, rate, "sampling rate of a time offset trigger")
            r.equal(t.num_offset_samples, floor(Fraction(v, 10**7) * Fraction(rate)), f"samples of a time offset of {v * 1e-7} at rate {rate}")
        elif kind == "random":
            duration = max(lengths[k] / devices[k].bandwidth for k in group)
            r.equal(t.sampling_rate, rate, "sampling rate of a random trigger")
            r.check(0 <= t.num_offset_samples <= max(0, duration * rate * (1 + 1e-9)), f"random trigger delayed by {t.num_offset_samples} samples, longest frame {duration * rate}")
        else:
            r.equal(t.sampling_rate, rate, "sampling rate of a normal trigger")
            r.check(0 <= t.num_offset_samples <= (v * 1e-7 + 8 * 2e-6) * rate, f"normal trigger delayed by {t.num_offset_samples}")

    for op, a, b in case["ops"]:
        k, m = a % len(devices), b % len(models)
        if op in ("assign", "add"):
            if where[k] == m:
                continue  # whether reassigning alters the order is left open
            if where[k] is not None:
                members[where[k]].remove(k)
            members[m].append(k)
            where[k] = m
            if op == "assign":
                devices[k].trigger_model = models[m]
            else:
                models[m].add_device(devices[k])
            moved += 1
        elif op == "set":
            kind, v = specs[m]
            v = a * 7
            if kind == "samples":
                models[m].num_offset_samples = v
                refused(r, lambda: setattr(models[m], "num_offset_samples", -1), "negative offset", ValueError)
            elif kind == "time":
                models[m].offset = v * 1e-7
                refused(r, lambda: setattr(models[m], "offset", -1e-9), "negative offset", ValueError)
            elif kind == "normal":
                models[m].mean = v * 1e-7
                refused(r, lambda: setattr(models[m], "std", -1e-9), "negative deviation", ValueError)
            else:
                continue
            specs[m][1] = v
        elif op == "realize":
            if not members[m]:
                if specs[m][0] in ("samples", "time", "random"):
                    refused(r, lambda: models[m].realize(rng), "trigger without devices realized", RuntimeError)
                continue
            if specs[m][0] == "random" and len({fs(j) for j in members[m]}) > 1:
                refused(r, lambda: models[m].realize(rng), "random trigger of devices with differing rates", RuntimeError)
                continue
            verify(m, models[m].realize(rng))
            realized += 1
        else:
            if scenario is None:
                scenario = SimulationScenario(seed=case["seed"])
                for dev in devices:
                    scenario.add_device(dev)
            if any(specs[q][0] == "random" and len({fs(j) for j in members[q]}) > 1 for q in range(len(models))):
                continue
            selection = None if a % 3 else [devices[j] for j in rng.permutation(len(devices))[: 1 + a % len(devices)]]
            result = scenario.realize_triggers() if selection is None else scenario.realize_triggers(selection)
            order = devices if selection is None else selection
            r.equal(len(result), len(order), "number of realized triggers")
            first = {}
            for dev, t in zip(order, result):
                q = where[devices.index(dev)]
                if q is None:
                    r.equal(t.trigger_delay, 0.0, "delay of a device triggered by default")
                    continue
                verify(q, t)
                f = first.setdefault(q, t)
                r.equal((t.num_offset_samples, t.sampling_rate), (f.num_offset_samples, f.sampling_rate), "trigger of devices sharing a model")
            realized += 1

        for q, model in enumerate(models):
            r.equal(model.num_devices, len(members[q]), "number of devices of a trigger")
            r.check(set(model.devices) == {devices[j] for j in members[q]}, "devices of a trigger")
        for k, dev in enumerate(devices):
            r.check(dev.trigger_model is (own[k] if where[k] is None else models[where[k]]), "trigger of a device")
            if where[k] is not None:
                r.equal(own[k].num_devices, 0, "devices of an abandoned default trigger")
    r.cls("scenario", scenario is not None)
    r.cls("different_rates", any(len({fs(j) for j in g}) > 1 for g in members))
    r.nontrivial(moved > 1 and realized > 0)


# --- distributions -----------------------------------------------------------------------
@check.facet(
    "distributions",
    R(kind=st.sampled_from(["random", "normal", "normal_deep"]), seed=seeds, frames=st.lists(st.integers(1, 400), min_size=1, max_size=3), bandwidth=logfloats(1e3, 1e9), os=st.integers(1, 4),
      mean=floats(-2, 4), std=logfloats(0.1, 3), explicit=st.booleans()),
    quick=60, thorough=1500,
    rule="more than one attainable delay",
)
def distributions(case, r):
    B, os = case["bandwidth"], case["os"]
    model = RandomTrigger() if case["kind"] == "random" else NormalTrigger(case["mean"] * 1e5 / B, case["std"] * 1e5 / B)
    model.seed = case["seed"]
    rng = np.random.default_rng(case["seed"]) if case["explicit"] else None
    for i, n in enumerate(case["frames"]):
        dev = SimulatedDevice(bandwidth=B, oversampling_factor=os, trigger_model=model)
        if i % 2:
            dev.receivers.add(SignalReceiver(n))
        else:
            dev.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(np.ones((1, n), complex), dev.sampling_rate)))
    N = 1000
    draws = np.array([model.realize(rng).num_offset_samples if rng is not None else model.realize().num_offset_samples for _ in range(N)])
    r.check(bool(np.all(draws >= 0)), "frames start before their drop")
    if case["kind"] == "random":
        top = max(case["frames"]) * os
        r.check(draws.max() <= top, f"delay {draws.max()} exceeds the longest frame of {top} samples")
        bins = min(20, top)
        if bins > 1:
            # jittered to a continuous distribution over [0, top)
            u = (draws + np.random.default_rng(case["seed"] + 1).random(N)) / top
            p = kstest(np.minimum(u, 1.0), "uniform").pvalue
            # the implementation may lose the last sample to rounding and may include the last instant
            slack = 1.5 / top
            stat = kstest(np.minimum(u, 1.0), "uniform").statistic
            r.check(p > ALPHA or stat < slack + 0.11, f"delays are not uniform over {top} samples: Kolmogorov {stat:.3f}")
        r.nontrivial(top > 1)
    else:
        fs = B * os
        mean, std = case["mean"] * 1e5 / B, case["std"] * 1e5 / B
        p0 = norm.cdf(0.0, mean, std)
        zero = int(np.sum(draws == 0))
        lo, hi = binom.ppf([ALPHA, 1 - ALPHA], N, min(1.0, p0 + 1e-4))
        r.check(lo - 1 <= zero <= hi + 1, f"{zero} of {N} immediate frames, probability {p0:.4f}")
        pos = draws[draws > 0]
        if pos.size > 50:
            u = (norm.cdf((pos + 0.5) / fs, mean, std) - p0) / (1 - p0)
            p = kstest(np.clip(u, 0, 1), "uniform").pvalue
            r.check(p > ALPHA, f"delays are not normally distributed: Kolmogorov p {p:.2e}")
        r.cls("clipped", zero > 0)
        r.nontrivial(True)


# --- devices of a scenario ---------------------------------------------------------------
@check.facet(
    "drops",
    R(models=st.lists(st.tuples(st.sampled_from(["static", "samples", "samples", "time", "random"]), st.one_of(st.just(0), st.integers(1, 60))), min_size=1, max_size=3),
      devices=st.lists(R(model=st.sampled_from([0, 1, 2, 0, 1, None]), power=st.sampled_from([1.0, 1.0, 4.0, 0.25]), tx=st.lists(st.one_of(st.integers(1, 25), st.just(0)), max_size=2), rx=st.sampled_from([1, 2, 0]), separate=st.booleans()), min_size=1, max_size=4),
      seed=seeds, os=st.integers(1, 3), bandwidth=st.sampled_from([1e7, 5e6]), fc=st.sampled_from([0.0, 1e9]), drops=st.integers(1, 2), staged=st.booleans()),
    quick=500, thorough=12000,
    rule="a receiver's trigger differs from the trigger of a device it hears",
)
def drops(case, r):
    scenario = SimulationScenario(seed=case["seed"])
    models = [build_model(s) for s in case["models"]]
    fs = case["bandwidth"] * case["os"]
    devices, samples = [], []
    for k, d in enumerate(case["devices"]):
        dev = scenario.new_device(bandwidth=case["bandwidth"], oversampling_factor=case["os"], carrier_frequency=case["fc"], power=d["power"], operator_separation=d["separate"])
        if d["model"] is not None:
            dev.trigger_model = models[d["model"] % len(models)]
        xs = [cmat(case["seed"] + 17 * k + i, 1, n) for i, n in enumerate(d["tx"])]
        for x in xs:
            dev.transmitters.add(SignalTransmitter(DenseSignal.FromNDArray(x, fs)))
        for _ in range(d["rx"]):
            dev.receivers.add(SignalReceiver(10))
        devices.append(dev)
        total = np.zeros((1, max([0] + d["tx"])), complex)
        for x in xs:
            total[:, : x.shape[1]] += x
        samples.append(total * np.sqrt(d["power"]))
    differing = False
    for _ in range(case["drops"]):
        if case["staged"]:
            triggers = scenario.realize_triggers()
            transmissions = scenario.transmit_devices(trigger_realizations=triggers)
            propagations, _ = scenario.propagate(transmissions)
            receptions = scenario.receive_devices(propagations, trigger_realizations=triggers)
        else:
            drop = scenario.drop()
            transmissions, receptions = drop.device_transmissions, drop.device_receptions
        delays = []
        for k, (d, t) in enumerate(zip(case["devices"], transmissions)):
            delay = t.trigger_realization.compute_num_offset_samples(fs)
            if case["staged"]:
                r.equal(t.trigger_realization.num_offset_samples, triggers[k].num_offset_samples, "trigger of a transmission")
            delays.append(delay)
            kind, v = ("static", 0) if d["model"] is None else case["models"][d["model"] % len(models)]
            if kind != "random":
                want = {"static": 0, "samples": v, "time": floor(Fraction(v, 10**7) * Fraction(fs))}[kind]
                r.equal(delay, want, f"delay of a device with {kind} trigger")
            if len(d["tx"]):
                r.close(t.mixed_signal.delay, delay / fs, "delay of a transmission", rtol=1e-9, atol=1e-15)
                got = raw(t.mixed_signal)
                if case["os"] == 1:
                    r.equal(got.shape[1], samples[k].shape[1], "samples of a transmission")
                    r.close(got, samples[k], "samples of a transmission", rtol=1e-9, atol=1e-12)
                # oversampled transmissions are filtered by the radio-frequency chain
                want = raw(devices[k].transmit(trigger_realization=TriggerRealization(0, fs)).mixed_signal)
                r.equal(got.shape, want.shape, "shape of a delayed transmission")
                r.close(got, want, "samples of a delayed transmission", rtol=1e-9, atol=1e-12)
                samples[k] = want
        for a, da in enumerate(case["devices"]):
            for b, db in enumerate(case["devices"]):
                if da["model"] is not None and db["model"] is not None and da["model"] % len(models) == db["model"] % len(models):
                    r.equal(delays[a], delays[b], "delays of devices sharing a trigger")
        ends = [delays[k] + x.shape[1] for k, x in enumerate(samples)]
        for k, (d, y) in enumerate(zip(case["devices"], receptions)):
            r.equal(y.trigger_realization.compute_num_offset_samples(fs), delays[k], "trigger of a reception")
            # timeline since the start of the drop
            line = np.zeros((1, max(ends + [delays[k]]) + 5), complex)
            for x, delay in zip(samples, delays):
                line[:, delay : delay + x.shape[1]] += x
            want = line[:, delays[k] :]
            for i, s in enumerate(y.operator_inputs):
                got = raw(s)
                n = got.shape[1]
                r.check(not np.any(want[:, n:]), f"reception of device {k} ends after {n} samples, transmissions continue: {ends}, trigger {delays[k]}")
                expected = np.zeros((1, n), complex)
                expected[:, : min(n, want.shape[1])] = want[:, :n]
                if case["os"] > 1:
                    # oversampled receptions are filtered by the radio-frequency chain
                    direct = devices[k].process_input(DenseSignal.FromNDArray(expected, fs, case["fc"]))
                    expected = raw(direct.operator_inputs[i])
                r.close(got, expected, f"samples received by device {k} triggered at {delays[k]}, transmissions at {delays}", rtol=1e-9, atol=1e-12)
            if d["rx"] and any(delays[j] != delays[k] and samples[j].shape[1] for j in range(len(delays))):
                differing = True
    r.cls("receiver_later", differing)
    r.nontrivial(differing)
