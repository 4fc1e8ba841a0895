"""P16 FMCW radars."""
import numpy as np
from hypothesis import strategies as st
from scipy.constants import speed_of_light

from lib.harness import Check
from lib.gen import seeds, rec as R, floats, logfloats

from hermespy.beamforming import ConventionalBeamformer
from hermespy.channel import FixedCrossSection, MultiTargetRadarChannel, VirtualRadarTarget
from hermespy.core import Signal, Transformation
from hermespy.radar import FMCW, MaxDetector, Radar
from hermespy.simulation import SimulatedDevice, SimulatedIdealAntenna, SimulatedUniformArray, StaticTrajectory

check = Check("P16", "FMCW radars report targets at their range, velocity and direction")

C = speed_of_light
# chirps are (n + fraction) samples long at the bandwidth, so that truncations are unambiguous
waveform = R(
    B=logfloats(1e6, 5e9), n=st.integers(24, 160), frac=floats(0.1, 0.9), guard=st.one_of(st.just(0.0), floats(0.05, 2.0)),
    N=st.integers(1, 17), osf=st.integers(1, 4), adc=st.one_of(st.just(0.0), floats(0.2, 0.95), floats(1.0, 3.0)), fc=logfloats(1e9, 1e11),
)


def raw(s):
    return np.array(np.asarray(s.to_dense()).view(np.ndarray))


class Setup:
    def __init__(self, c, radar=True, **device):
        self.B, self.N, self.osf, self.fc = c["B"], c["N"], c["osf"], c["fc"]
        self.fs = self.B * self.osf
        self.T = (c["n"] + c["frac"]) / self.B
        self.PRI = self.T if c["guard"] == 0.0 else self.T * (1 + c["guard"])
        self.adc = c["adc"] * self.B
        self.wave = FMCW(num_chirps=self.N, chirp_duration=self.T, pulse_rep_interval=self.PRI, adc_sampling_rate=None if self.adc == 0 else self.adc)
        self.device = SimulatedDevice(carrier_frequency=self.fc, bandwidth=self.B, oversampling_factor=self.osf, **device)
        # beat frequencies never exceed the sweep
        self.captured = min(self.adc, self.B) if self.adc > 0 else self.B
        self.max_range = self.captured * C * self.T / (2 * self.B)
        self.res = C / (2 * self.B)
        self.vres = C / self.fc / (2 * self.N * self.PRI)
        if radar:
            self.radar = Radar(self.wave, detector=MaxDetector())
            self.device.add_dsp(self.radar)

    def chirp(self, t):
        """The documented linear sweep from -B/2 to B/2."""
        return np.where((t >= 0) & (t < int(self.T * self.fs) / self.fs), np.exp(1j * np.pi * (-self.B * t + self.B / self.T * t**2)), 0)

    def period(self):
        return int(self.PRI * self.fs)

    def echo(self, rng, vel, amplitude):
        """Analytic echo of a target receding with vel, positive Doppler for receding targets."""
        t = np.arange(self.N * self.period() + self.period()) / self.fs
        tau = 2 * rng / C
        out = sum(self.chirp(t - tau - p * self.period() / self.fs) for p in range(self.N))
        return amplitude * out * np.exp(2j * np.pi * 2 * vel * self.fc / C * t)


@check.facet("frame", R(w=waveform), quick=120, thorough=6000, rule="more than one chirp or a guard interval")
def frame(c, r):
    s = Setup(c["w"])
    r.nontrivial(s.N > 1 or c["w"]["guard"] > 0)
    r.cls("oversampled", s.osf > 1)
    sig = s.device.transmit().operator_transmissions[0].signal
    x = raw(sig)
    r.equal(sig.num_streams, 1, "a radar transmits a single stream")
    r.close(sig.sampling_rate, s.fs, "sampling rate of the radar frame")
    r.equal(sig.num_samples % s.N, 0, "frame is no repetition of equally long pulses")
    length = sig.num_samples // s.N
    r.check(abs(length - s.PRI * s.fs) <= 1, f"pulses of {length} samples instead of {s.PRI * s.fs}")
    r.equal(s.wave.samples_per_frame(s.B, s.osf), sig.num_samples, "number of samples per frame")
    r.equal(s.radar.samples_per_frame(s.B, s.osf), sig.num_samples, "number of samples per radar frame")
    pulses = x.reshape(s.N, length)
    for p in pulses[1:]:
        r.close(p, pulses[0], "pulses differ within a frame")
    on = np.flatnonzero(np.abs(pulses[0]) > 0)
    r.check(abs(len(on) - s.T * s.fs) <= 1 and on[0] == 0 and on[-1] == len(on) - 1, f"chirps of {len(on)} samples instead of {s.T * s.fs}")
    t = np.arange(len(on)) / s.fs
    r.close(pulses[0][: len(on)], np.exp(1j * np.pi * (-s.B * t + s.B / s.T * t**2)), "chirp does not sweep the bandwidth", rtol=1e-6)
    r.close(s.wave.energy(s.B, s.osf), float(np.sum(np.abs(x) ** 2)), "energy of the frame", rtol=1e-9)
    r.close(s.wave.power, 1.0, "power of chirps")
    r.close(s.radar.power, 1.0, "power of the radar")
    r.close(s.wave.frame_duration(s.B), s.N * s.PRI, "frame duration", rtol=1e-9)
    r.close(s.wave.max_range(s.B), s.max_range, "maximum range", rtol=1e-9)
    r.close(s.radar.max_range(s.B), s.max_range, "maximum range of the radar", rtol=1e-9)
    r.close(s.wave.range_resolution(s.B), s.res, "range resolution", rtol=1e-9)
    bins = s.wave.range_bins(s.B)
    r.close(bins, np.arange(len(bins)) * s.res, "range bins are no multiples of the resolution", rtol=1e-9)
    r.check(0 <= s.max_range - len(bins) * s.res <= s.res * (1 + 1e-6), "range bins do not cover the maximum range")
    r.close(s.wave.max_relative_doppler, 1 / (4 * s.PRI), "maximum doppler", rtol=1e-9)
    r.close(s.wave.relative_doppler_resolution, 1 / (2 * s.N * s.PRI), "doppler resolution", rtol=1e-9)
    dop = np.sort(s.wave.relative_doppler_bins)
    r.equal(len(dop), s.N, "number of doppler bins")
    if s.N > 1:
        r.close(np.diff(dop), np.full(s.N - 1, s.wave.relative_doppler_resolution), "spacing of doppler bins", rtol=1e-9)
    r.check(np.min(np.abs(dop)) <= 1e-9 * s.wave.max_relative_doppler, "no bin represents resting targets")
    r.check(np.max(np.abs(dop)) <= s.wave.max_relative_doppler * (1 + 1e-9), "bins beyond the maximum doppler")
    got = s.radar.velocity_resolution(s.fc)
    if abs(got - 0.5 * s.vres) <= 1e-9 * s.vres:
        r.finding("velocity resolution is half the documented spacing of velocity bins", "velocity resolution halved")
    else:
        r.close(got, s.vres, "velocity resolution", rtol=1e-9)


target = R(range=floats(0.02, 0.85), vel=floats(-0.95, 0.95), amp=logfloats(1e-6, 1e6), phase=floats(-3.1, 3.1))


def peak(cube):
    i = np.unravel_index(np.argmax(cube.data), cube.data.shape)
    return i, cube.range_bins[i[2]], cube.velocity_bins[i[1]]


def judge(r, s, cube, rng, vel, what, slack=0.0):
    i, got_r, got_v = peak(cube)
    # chirps are truncated to whole samples, which stretches the beat frequencies' grid
    num = int(s.T * s.fs)
    slack = slack + 0.56 + rng / s.res * (s.T * s.fs / num - 1)
    r.check(abs(got_r - rng) <= slack * s.res, f"{what}: target at {rng} m seen at {got_r} m, resolution {s.res}")
    span = s.N * s.vres  # ambiguity interval
    err = abs((got_v - vel + span / 2) % span - span / 2)
    r.check(err <= 1.01 * s.vres, f"{what}: target of {vel} m/s seen at {got_v} m/s, resolution {s.vres}")
    return i


@check.facet("echo", R(w=waveform, t=target), quick=150, thorough=8000, rule="a moving target beyond the first resolution cell")
def echo(c, r):
    s, t = Setup(c["w"]), c["t"]
    rng = t["range"] * (int(s.max_range / s.res) - 1) * s.res
    vel = t["vel"] * (s.N // 2) * s.vres
    if s.osf == 1 and s.PRI > s.T and 2 * rng / C + s.T > s.PRI:
        # without oversampling the preceding echo's negative beat frequencies are aliased
        rng = 0.5 * C * 0.9 * (s.PRI - s.T)
    r.nontrivial(rng > 2 * s.res and s.N > 2 and abs(vel) > s.vres)
    r.cls("limited ADC", s.captured < s.B)
    r.cls("upper half of the range", t["range"] > 0.5)
    r.cls("odd chirps", s.N % 2 == 1)
    # Doppler within a chirp moves the beat frequency, bound it to a fraction of a range bin
    shift = abs(2 * vel * s.fc / C) * s.T
    x = t["amp"] * np.exp(1j * t["phase"]) * s.echo(rng, vel, 1.0)
    state = s.device.state()
    rec = s.radar.receive(Signal.Create(x[None, :], s.fs, carrier_frequency=s.fc), state)
    cube = rec.cube
    r.equal(cube.data.shape, (1, s.N, len(s.wave.range_bins(s.B))), "shape of the radar cube")
    r.close(cube.range_bins, s.wave.range_bins(s.B), "range bins of the cube")
    r.close(cube.velocity_bins, s.wave.relative_doppler_bins * C / s.fc, "velocity bins of the cube", rtol=1e-9)
    r.check(np.all(np.isfinite(cube.data)) and np.all(cube.data >= 0), "cube of powers is negative or undefined")
    i = judge(r, s, cube, rng, vel, "echo", slack=shift + (0.7 if t["range"] > 0.4 else 0.1))
    # coherent integration over the overlap of chirp and echo, up to scalloping losses
    num, bins = int(s.T * s.fs), cube.data.shape[2]
    overlap = max(num - 2 * rng / C * s.fs, 0.0) / num
    expected = (t["amp"] * bins * s.N) ** 2
    got = cube.data[i]
    lo = 0.12 * max(overlap - 2 / num, 0.0) ** 2
    r.check(lo * expected <= got <= 1.2 * expected, f"peak power {got / expected} of the coherently integrated {expected}, overlap {overlap}")
    cells = np.ones(cube.data.shape[1:], bool)
    cells[np.ix_((i[1] + np.arange(-1, 2)) % s.N, np.clip(i[2] + np.arange(-3, 4), 0, bins - 1))] = False
    if s.osf > 1 and overlap > 0.5 and np.any(cells):
        r.check(np.max(cube.data[0][cells]) <= 0.6 * got, "a second, equally strong target appears")
    # detection
    q = rec.cloud.points
    r.equal(len(q), 1, "number of detected points")
    r.close(np.linalg.norm(q[0].position), cube.range_bins[i[2]], "range of the detection", rtol=1e-9, scale=s.max_range)
    r.close(q[0].velocity @ np.array([0.0, 0, 1]), cube.velocity_bins[i[1]], "velocity of the detection", rtol=1e-9, scale=s.vres)
    r.close(q[0].power, got, "power of the detection")


@check.facet("linearity", R(w=waveform, a=target, b=target, scale=logfloats(1e-3, 1e3), min=floats(0.0, 0.9), cut=floats(0.3, 0.99)), quick=60, thorough=3000, rule="two distinct targets")
def linearity(c, r):
    s = Setup(c["w"])
    t = [c["a"], c["b"]]
    echoes = [s.echo(k["range"] * s.max_range, k["vel"] * (s.N // 2) * s.vres, np.exp(1j * k["phase"])) for k in t]
    r.nontrivial(abs(t[0]["range"] - t[1]["range"]) * s.max_range > 2 * s.res)

    def cube(x, osr=None):
        return s.radar.receive(Signal.Create(x[None, :], s.fs, carrier_frequency=s.fc), s.device.state()).cube

    # |A + B|^2 + |A - B|^2 = 2 |A|^2 + 2 |B|^2 for every linear processing of the echoes
    a, b = (cube(e).data for e in echoes)
    p, m = cube(echoes[0] + echoes[1]).data, cube(echoes[0] - echoes[1]).data
    r.close(p + m, 2 * a + 2 * b, "superposition of two targets", rtol=1e-8)
    r.close(cube(c["scale"] * echoes[0]).data, c["scale"] ** 2 * a, "power scaling of the cube", rtol=1e-8)
    # samples beyond the frame are ignored, missing ones are zero
    x = echoes[0]
    n = s.N * s.period()
    r.close(cube(x[:n]).data, a, "samples following the frame influence the estimate", rtol=1e-8)
    k = int(c["cut"] * n)
    z = x.copy()
    z[k:] = 0
    r.close(cube(x[:k]).data, cube(z).data, "shortened receptions are not padded by silence", rtol=1e-8, scale=float(a.max()) + 1e-300)
    # the minimum range only removes bins
    full = cube(x)
    s.radar.min_range = c["min"] * full.range_bins[-1]
    cutc = cube(x)
    keep = full.range_bins >= s.radar.min_range
    if np.any(keep):
        r.equal(cutc.range_bins, full.range_bins[keep], "range bins beyond the minimum range")
        r.equal(cutc.data, full.data[:, :, keep], "cube beyond the minimum range")
        r.cls("minimum range excludes bins", not np.all(keep))


scene = R(
    w=R(B=logfloats(1e8, 4e9), n=st.integers(60, 160), frac=floats(0.1, 0.9), guard=st.one_of(st.just(0.0), floats(0.05, 1.0)), N=st.integers(1, 9), osf=st.integers(2, 4), adc=st.just(0.0), fc=logfloats(2e10, 1e11)),
    shape=st.tuples(st.integers(1, 5), st.integers(1, 5)), rpy=st.lists(floats(-3.1, 3.1), min_size=3, max_size=3), pos=st.lists(floats(-100, 100), min_size=3, max_size=3),
    range=floats(0.1, 0.5), vel=floats(-0.9, 0.9), az=floats(-3.1, 3.1), ze=floats(0.0, 1.3), others=st.lists(st.tuples(floats(-3.1, 3.1), floats(0.0, 1.3)), min_size=0, max_size=4), seed=seeds,
)


def rotation(rpy):
    a, p, y = rpy
    cx, sx, cy, sy, cz, sz = np.cos(a), np.sin(a), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    return np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]]) @ np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]) @ np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])


@check.facet("scene", scene, quick=60, thorough=3000, rule="an array of antennas probing more than one direction")
def scenes(c, r):
    nx, ny = c["shape"]
    arr = SimulatedUniformArray(SimulatedIdealAntenna, 0.5 * C / c["w"]["fc"], (nx, ny, 1))
    # radars transmit a single stream: radiate from a single antenna and receive with all of them
    from hermespy.core import AntennaMode
    for a in arr.antennas[1:]:
        a.mode = AntennaMode.RX
    c["w"]["B"] = min(c["w"]["B"], 0.03 * c["w"]["fc"])  # narrow-band phases
    s = Setup(c["w"], antennas=arr, pose=Transformation.From_RPY(np.array(c["rpy"]), np.array(c["pos"])), seed=c["seed"])
    angles = [(c["az"], c["ze"])] + c["others"]
    bf = ConventionalBeamformer()
    bf.probe_focus_points = np.array(angles)[:, None, :]
    s.radar.receive_beamformer = bf
    direction = [np.array([np.cos(a) * np.sin(z), np.sin(a) * np.sin(z), np.cos(z)]) for a, z in angles]
    rot = rotation(c["rpy"])
    rng, vel = c["range"] * s.max_range, c["vel"] * (s.N // 2) * s.vres
    d = rot @ direction[0]
    ch = MultiTargetRadarChannel(attenuate=False, seed=c["seed"])
    ch.add_target(VirtualRadarTarget(FixedCrossSection(1.0), trajectory=StaticTrajectory(Transformation.From_Translation(np.array(c["pos"]) + rng * d), vel * d)))
    rec = s.device.receive(ch.propagate(s.device.transmit(), s.device, s.device)).operator_receptions[0]
    cube = rec.cube
    r.nontrivial(len(angles) > 1 and nx * ny > 1)
    r.cls("single antenna probing several directions", nx * ny == 1 and len(angles) > 1)
    r.equal(cube.data.shape[0], len(angles), "number of probed directions")
    r.close(cube.angle_bins, np.array(angles), "probed directions")
    i = judge(r, s, cube, rng, vel, "scene", slack=1.0 / s.osf + abs(2 * vel * s.fc / C) * s.T)
    q = np.array([np.asarray(a.position).view(np.ndarray) for a in arr.antennas])
    resp = np.exp(2j * np.pi * s.fc / C * q @ np.array(direction).T)
    gain = np.abs(resp[:, [0]].conj().T @ resp)[0] / len(q)
    best = cube.data.max(axis=(1, 2))
    r.close(best / best[0], gain**2, "power over the probed directions", rtol=5e-2, scale=1.0)
    r.check(gain[i[0]] >= 0.97, f"target in direction {angles[0]} seen in {angles[i[0]]}")
    # position of the detection in local coordinates of the array
    p = rec.cloud.points[0]
    err = np.linalg.norm(p.position - cube.range_bins[i[2]] * direction[i[0]])
    r.check(err <= 1e-6 * s.max_range, "position of the detected target")
