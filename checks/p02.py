"""P02 Deserializing a serialized object restores its observable state."""
import os
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from lib.harness import Check
from lib.gen import seeds, cmat, rec as R, floats
from lib.deep import diff

from hermespy.beamforming import (
    BeamformingReceiver, BeamformingTransmitter, CaponBeamformer, ConventionalBeamformer, CoordinateFocus, NullSteeringBeamformer, SphericalFocus,
)
from hermespy.channel import (
    CDL, CDLType, ConsistentGenerator, Cost259, Cost259Type, CorrelationType, CustomAntennaCorrelation, DelayNormalization, DeviceType, Exponential, FactoryType, FixedCrossSection,
    IdealChannel, IndoorFactory, IndoorOffice, LOSState, MultipathFadingChannel, MultiTargetRadarChannel, O2IState, OfficeType, PhysicalRadarTarget,
    RandomDelayChannel, RuralMacrocells, SingleTargetRadarChannel, SpatialDelayChannel, StandardAntennaCorrelation, TDL, TDLType, UrbanMacrocells,
    UrbanMicrocells, VirtualRadarTarget,
)
from hermespy.core import (
    AntennaMode, ChannelStateInformation, CustomAntennaArray, Dipole, Factory, IdealAntenna, LinearAntenna, PatchAntenna, Signal, SignalReceiver,
    SignalTransmitter, SilentTransmitter, Transformation, TransmitSignalCoding, ReceiveSignalCoding, UniformArray,
)
from hermespy.core.channel import ChannelStateFormat
from hermespy.core.device import DeviceInput, DeviceOutput, DeviceReception, DeviceTransmission, ProcessedDeviceInput, Reception, Transmission
from hermespy.fec import BlockInterleaver, CyclicRedundancyCheck, EncoderManager, RepetitionEncoder, Scrambler3GPP, Scrambler80211a
from hermespy.jcas import MatchedFilterJcas, OFDMRadar
from hermespy.modem import (
    Alamouti, ChirpFSKCorrelationSynchronization, ChirpFSKWaveform, CustomPilotSymbolSequence, DFT, DuplexModem, ElementType, FMCWWaveform, Ganesan, GridElement,
    GridResource, GuardSection, MappedPilotSymbolSequence, MaximumRatioCombining, OCDMWaveform, OFDMWaveform, OTFSWaveform, PilotSection, PrefixType,
    RandomBitsSource, RaisedCosineWaveform, ReceiveSymbolCoding, ReceivingModem, RectangularWaveform, RootRaisedCosineWaveform, SchmidlCoxPilotSection,
    SchmidlCoxSynchronization, SimplexLink, SingleCarrier, SingleCarrierCorrelationSynchronization, SingleCarrierLeastSquaresChannelEstimation,
    SingleCarrierMinimumMeanSquareChannelEqualization, SingleCarrierZeroForcingChannelEqualization, StatedSymbols, Symbols, SymbolSection,
    TransmitSymbolCoding, TransmittingModem, UniformPilotSymbolSequence, OrthogonalLeastSquaresChannelEstimation,
    OrthogonalZeroForcingChannelEqualization, OFDMCorrelationSynchronization,
)
from hermespy.modem.modem import CommunicationReception, CommunicationReceptionFrame, CommunicationTransmission, CommunicationTransmissionFrame
from hermespy.modem.precoding.dft import DFTNorm
from hermespy.modem.tools.psk_qam_mapping import PskQamMapping
from hermespy.radar import CFARDetector, FMCW, MaxDetector, PointDetection, Radar, RadarCube, RadarPointCloud, RadarReception, ThresholdDetector
from hermespy.radar.radar import RadarTransmission
from hermespy.simulation import (
    EBN0, ESN0, ImpedanceCoupling, LinearTrajectory, N0, NormalTrigger, PerfectCoupling, PerfectIsolation, RandomTrigger, SampleOffsetTrigger,
    SelectiveLeakage, SimulatedCustomArray, SimulatedDevice, SimulatedDipole, SimulatedIdealAntenna, SimulatedLinearAntenna, SimulatedPatchAntenna,
    SimulatedUniformArray, SimulationScenario, SNR, SpecificIsolation, StaticTrajectory, StaticTrigger, ThermalNoise, TimeOffsetTrigger,
)
from hermespy.simulation.rf import (
    ADC, AWGN, ClippingPowerAmplifier, CustomPowerAmplifier, DAC, HPF, IdealMixer, MixerType, OscillatorPhaseNoise, PowerAmplifier,
    RampGenerator, RappPowerAmplifier, RFChain, SalehPowerAmplifier, Shift, Source, Split, Sum, X4,
)
from hermespy.simulation.rf.blocks.ad import AutomaticGainControl, Gain, GainControlType, QuantizerType
from hermespy.core.random_node import RandomRealization
from hermespy.simulation.rf.noise.model import AWGNRealization

check = Check("P02", "Deserialized objects equal the serialized ones")

BUILD = {}


def B(group):
    def dec(f):
        BUILD.setdefault(group, {})[f.__name__] = f
        return f

    return dec


# --- helpers ------------------------------------------------------------------------------------------------------------------


class G:
    """Random choices of a case."""

    def __init__(self, seed):
        self.r = np.random.default_rng(seed)

    def u(self, lo=0.0, hi=1.0):
        return float(self.r.uniform(lo, hi))

    def i(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def b(self):
        return bool(self.r.integers(2))

    def of(self, *x):
        return x[int(self.r.integers(len(x)))]

    def vec(self, n=3, scale=10.0):
        return self.r.uniform(-scale, scale, n)

    def c(self, *shape):
        return self.r.standard_normal(shape) + 1j * self.r.standard_normal(shape)

    def pose(self):
        return Transformation.From_RPY(self.vec(3, 3.0), self.vec(3, 50.0))

    def opt(self, f):
        return f() if self.b() else None

    def seed(self):
        return self.of(None, self.i(0, 10**6), 0)

    def signal(self, n=None, m=None, sparse=None):
        n, m = n or self.i(1, 3), m or self.i(1, 30)
        kw = dict(sampling_rate=self.u(1e3, 1e9), carrier_frequency=self.of(0.0, self.u(1e6, 1e11)), noise_power=self.of(0.0, self.u()), delay=self.of(0.0, self.u(0, 1e-6)))
        if sparse if sparse is not None else self.b():
            return Signal.Create([self.c(n, m), self.c(n, self.i(1, 9))], offsets=[self.i(0, 3), m + self.i(3, 8)], **kw)
        return Signal.Create(self.c(n, m), **kw)

    def ports(self, n=3):
        return self.of(None, [0], [1], [n - 1, 0], list(range(n)))


# --- beamforming, arrays ------------------------------------------------------------------------------------------------------

ANT = dict(IdealAntenna=IdealAntenna, Dipole=Dipole, PatchAntenna=PatchAntenna)
SANT = dict(SimulatedIdealAntenna=SimulatedIdealAntenna, SimulatedDipole=SimulatedDipole, SimulatedPatchAntenna=SimulatedPatchAntenna)


def antenna(g):
    mode = g.of(*AntennaMode)
    if g.of(1, 2, 3, 4) == 1:
        return LinearAntenna(mode, g.u(-3, 3), g.opt(g.pose))
    return g.of(*ANT.values())(mode, g.opt(g.pose))


def sim_antenna(g):
    mode, weight = g.of(*AntennaMode), g.of(1.0 + 0j, complex(g.u(), g.u()))
    if g.of(1, 2, 3, 4) == 1:
        return SimulatedLinearAntenna(mode, g.u(-3, 3), g.opt(g.pose), weight)
    return g.of(*SANT.values())(mode, g.opt(g.pose), weight)


def dims(g):
    return g.of((1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 2, 2), (1, 2, 3))


def sim_array(g):
    if g.b():
        return SimulatedUniformArray(sim_antenna(g), g.u(0.001, 1), dims(g), g.opt(g.pose))
    return SimulatedCustomArray([sim_antenna(g) for _ in range(g.i(1, 3))], g.opt(g.pose))


@B("antennas")
def antennas(g):
    return g.of(antenna, sim_antenna)(g)


@B("antennas")
def uniform_array(g):
    return UniformArray(antenna(g), g.u(0.001, 1), dims(g), g.opt(g.pose))


@B("antennas")
def custom_array(g):
    return CustomAntennaArray([antenna(g) for _ in range(g.i(1, 4))], g.opt(g.pose))


@B("antennas")
def simulated_array(g):
    return sim_array(g)


@B("antennas")
def transformation(g):
    return g.pose()


@B("antennas")
def trajectory(g):
    if g.b():
        return LinearTrajectory(g.pose(), g.pose(), g.u(0.1, 9), g.of(0.0, g.u()))
    return StaticTrajectory(g.opt(g.pose), g.opt(g.vec))


@B("antennas")
def antenna_array_state(g):
    return sim_array(g).state(g.pose())


def focus(g):
    if g.b():
        return SphericalFocus(g.u(-3, 3), g.u(0, 3))
    return CoordinateFocus(g.vec(), g.of("local", "global"))


def beamformer(g):
    b = g.of(ConventionalBeamformer, CaponBeamformer)
    if b is CaponBeamformer:
        x = b(loading=g.u(0, 2))
    else:
        x = b()
    if g.b():
        x.receive_focus = focus(g)
    if g.b() and hasattr(type(x), "transmit_focus"):
        x.transmit_focus = focus(g)
    if g.b():
        x.probe_focus_points = g.r.uniform(0, 1, (g.i(1, 4), 1, 2))
    return x


@B("beamforming")
def beamformers(g):
    return beamformer(g)


@B("beamforming")
def null_steering(g):
    x = NullSteeringBeamformer()
    if g.b():
        x.transmit_focus = [focus(g) for _ in range(3)]
    if g.b():
        x.receive_focus = [focus(g) for _ in range(3)]
    return x


@B("beamforming")
def focus_points(g):
    return focus(g)


@B("beamforming")
def beamforming_operators(g):
    if g.b():
        x = BeamformingTransmitter(g.signal(1, sparse=False), ConventionalBeamformer())
        x.selected_transmit_ports = g.ports()
        return x
    return BeamformingReceiver(g.of(ConventionalBeamformer(), CaponBeamformer(loading=g.u())), g.i(1, 99), g.ports(), g.of(0.0, g.u()))


# --- channels -----------------------------------------------------------------------------------------------------------------


def correlation(g):
    if g.b():
        return StandardAntennaCorrelation(g.of(*DeviceType), g.of(*CorrelationType))
    n = g.i(1, 2)
    m = g.c(n, n)
    m = m @ m.conj().T
    d = np.sqrt(np.diag(m).real)
    return CustomAntennaCorrelation(m / np.outer(d, d))


def fading(g):
    return dict(
        num_sinusoids=g.of(None, g.i(1, 30)), los_angle=g.of(None, g.u(-3, 3)), doppler_frequency=g.of(None, g.u(0, 100)), los_doppler_frequency=g.of(None, g.u(0, 100)),
        antenna_correlation=g.opt(lambda: correlation(g)), gain=g.u(0.1, 3), seed=g.seed(),
    )


def channel(g, kind=None):
    kind = kind or g.i(0, 13)
    kw = dict(gain=g.u(0.1, 3), seed=g.seed())
    if kind == 0:
        return IdealChannel(**kw)
    if kind == 1:
        return SpatialDelayChannel(g.b(), **kw)
    if kind == 2:
        a, b = sorted((g.u(0, 1e-6), g.u(0, 1e-6)))
        return RandomDelayChannel(g.of(a, (a, b)), g.of(float("inf"), g.u(1, 99)), g.b(), **kw)
    if kind == 3:
        n = g.i(1, 4)
        return MultipathFadingChannel(np.sort(g.r.uniform(0, 1e-6, n)), g.r.uniform(0.1, 1, n), g.r.choice([0.0, 1.0, float("inf")], n), decorrelation_distance=g.of(float("inf"), g.u(1, 99)), **fading(g))
    if kind == 4:
        f = fading(g)
        t = g.of(*TDLType)
        if t in (TDLType.D, TDLType.E):
            f["los_doppler_frequency"] = None
        return TDL(t, g.u(1e-9, 1e-6), **{k: v for k, v in f.items()})
    if kind == 5:
        t = g.of(*Cost259Type)
        f = fading(g)
        if t is Cost259Type.HILLY:
            f["los_angle"], f["los_doppler_frequency"] = g.u(0, 3), None
        return Cost259(t, **f)
    if kind == 6:
        return Exponential(g.u(1e-8, 1e-7), g.u(1e-8, 1e-7), **fading(g))
    if kind == 7:
        return SingleTargetRadarChannel(
            g.of(g.u(1, 9), (g.u(1, 9), g.u(10, 20))), g.u(0.1, 3), g.of(0.0, g.u(), (0.0, g.u())), g.of(0.0, g.u(), (0.0, g.u())), g.b(), g.of(0.0, g.u(), (0.0, g.u()), g.vec()),
            g.of(float("inf"), g.u(1, 99)), g.b(), **kw)
    if kind == 8:
        x = MultiTargetRadarChannel(g.b(), g.of(float("inf"), g.u(1, 99)), g.b(), **kw)
        for _ in range(g.i(0, 3)):
            x.add_target(VirtualRadarTarget(FixedCrossSection(g.u(0.1, 3)), g.opt(lambda: trajectory(g)), g.b()))
        return x
    if kind == 9:
        return IndoorFactory(g.u(100, 9000), g.u(10, 900), g.of(*FactoryType), g.u(1, 2), g.u(0.1, 0.9), g.of(None, *LOSState), g.of(*DelayNormalization), **kw)
    if kind == 10:
        return IndoorOffice(g.of(*OfficeType), g.of(None, *LOSState), g.of(*DelayNormalization), **kw)
    if kind == 11:
        return g.of(RuralMacrocells, UrbanMacrocells, UrbanMicrocells)(g.of(None, *O2IState) if False else None, g.of(*DelayNormalization), **kw) if False else g.of(RuralMacrocells, UrbanMacrocells, UrbanMicrocells)(expected_state=g.of(None, *O2IState), **kw)
    if kind == 12:
        return CDL(g.of(*CDLType), g.u(1e-9, 1e-7), g.u(1e-9, 1e-7), g.u(1, 9), **kw)
    return channel(g, 3)


@B("channels")
def channels(g):
    return channel(g)


@B("channels")
def channel_realizations(g):
    return channel(g).realize()


@B("channels")
def correlations(g):
    return correlation(g)


@B("channels")
def targets(g):
    return VirtualRadarTarget(FixedCrossSection(g.u(0.1, 3)), g.opt(lambda: trajectory(g)), g.b())


# --- data ---------------------------------------------------------------------------------------------------------------------


@B("data")
def signals(g):
    return g.signal()


@B("data")
def symbols(g):
    s = g.c(g.i(1, 3), g.i(1, 4), g.i(1, 5))
    if g.b():
        return Symbols(s)
    return StatedSymbols(s, g.c(s.shape[0], g.i(1, 3), s.shape[1], s.shape[2]))


@B("data")
def channel_state(g):
    if g.b():
        n, k, t, d = g.i(1, 2), g.i(1, 2), g.i(1, 4), g.i(1, 3)
        return ChannelStateInformation(ChannelStateFormat.IMPULSE_RESPONSE, g.c(n, k, t, d), d, g.of(None, t + d))
    return ChannelStateInformation(ChannelStateFormat.FREQUENCY_SELECTIVITY, g.c(g.i(1, 2), g.i(1, 2), g.i(1, 4), g.i(1, 4)), g.of(None, 3))


def tx_frame(g):
    n, m = g.i(0, 20), g.i(0, 30)
    return CommunicationTransmissionFrame(
        g.signal(), g.r.integers(0, 2, n).astype(np.uint8), g.i(1, 9), g.r.integers(0, 2, m).astype(np.uint8), g.i(1, 9), Symbols(g.c(1, 1, g.i(1, 4))),
        Symbols(g.c(g.i(1, 2), 1, g.i(1, 4))), g.of(0.0, g.u()))


def rx_frame(g):
    n = g.i(1, 4)
    return CommunicationReceptionFrame(
        g.signal(), g.signal(), Symbols(g.c(1, 1, n)), StatedSymbols(g.c(1, 1, n), g.c(1, 1, 1, n)), g.of(0.0, g.u()), Symbols(g.c(1, 1, n)),
        g.r.integers(0, 2, 8).astype(np.uint8), g.i(1, 9), g.r.integers(0, 2, 5).astype(np.uint8), g.i(1, 9))


@B("data")
def communication_transmission(g):
    return CommunicationTransmission(g.signal(), [tx_frame(g) for _ in range(g.i(0, 3))])


@B("data")
def communication_reception(g):
    return CommunicationReception(g.signal(), [rx_frame(g) for _ in range(g.i(0, 3))])


def cube(g):
    a, d, r = g.i(1, 3), g.i(1, 3), g.i(1, 4)
    return RadarCube(g.r.random((a, d, r)), g.r.random((a, 2)), g.r.random(d), np.sort(g.r.random(r)), g.of(0.0, g.u(1e6, 1e10)))


def cloud(g):
    c = RadarPointCloud(g.of(0.0, g.u(1, 9)))
    for _ in range(g.i(0, 3)):
        c.add_point(PointDetection(g.vec(3, 0.5), g.vec(), g.u(0.1, 2)))
    return c


@B("data")
def radar_cubes(g):
    return cube(g)


@B("data")
def point_clouds(g):
    return cloud(g)


@B("data")
def radar_results(g):
    if g.b():
        return RadarTransmission(g.signal())
    return RadarReception(g.signal(), cube(g), g.opt(lambda: cloud(g)))


@B("data")
def device_results(g):
    k = g.i(0, 5)
    s = lambda: g.signal(sparse=False)
    if k == 0:
        return DeviceOutput(s())
    if k == 1:
        return DeviceTransmission([Transmission(s()) for _ in range(g.i(0, 2))], s())
    if k == 2:
        return DeviceInput([s() for _ in range(g.i(1, 3))])
    if k == 3:
        return ProcessedDeviceInput([s()], [s() for _ in range(g.i(0, 2))])
    if k == 4:
        return DeviceReception([s()], [s()], [Reception(s())])
    return g.of(Transmission, Reception)(s())


@B("data")
def random_realizations(g):
    return RandomRealization(g.i(0, 10**9)) if g.b() else AWGNRealization(g.u(), g.i(0, 10**6))


# --- coding -------------------------------------------------------------------------------------------------------------------


def encoder(g):
    e = g.of(
        lambda: BlockInterleaver(4 * g.i(1, 4), 4), lambda: CyclicRedundancyCheck(g.i(1, 20), g.i(1, 9)), lambda: RepetitionEncoder(g.i(1, 20), 2 * g.i(0, 3) + 1),
        lambda: Scrambler3GPP(g.of(None, g.r.integers(0, 2, 31).astype(np.uint8))), lambda: Scrambler80211a(g.of(None, g.r.integers(0, 2, 7).astype(np.uint8))))()
    e.enabled = g.of(True, True, False)
    return e


def manager(g):
    m = EncoderManager(g.b(), g.b())
    for _ in range(g.i(0, 3)):
        m.add_encoder(encoder(g))
    return m


@B("coding")
def encoders(g):
    return encoder(g)


@B("coding")
def encoder_managers(g):
    return manager(g)


def symbol_coder(g):
    return g.of(lambda: DFT(g.of(*DFTNorm)), Alamouti, Ganesan, SingleCarrier, MaximumRatioCombining)()


@B("coding")
def symbol_coders(g):
    return symbol_coder(g)


def tx_coding(g):
    c = TransmitSymbolCoding()
    for _ in range(g.i(0, 2)):
        c[len(c)] = g.of(lambda: DFT(g.of(*DFTNorm)), Alamouti, Ganesan)()
    return c


def rx_coding(g):
    c = ReceiveSymbolCoding()
    for _ in range(g.i(0, 2)):
        c[len(c)] = g.of(lambda: DFT(g.of(*DFTNorm)), Alamouti, Ganesan, SingleCarrier, MaximumRatioCombining)()
    return c


@B("coding")
def symbol_codings(g):
    return g.of(tx_coding, rx_coding)(g)


def signal_coding(g, tx):
    c = TransmitSignalCoding() if tx else ReceiveSignalCoding()
    for _ in range(g.i(0, 2)):
        c[len(c)] = ConventionalBeamformer()
    return c


@B("coding")
def signal_codings(g):
    return signal_coding(g, g.b())


# --- waveforms and modems -----------------------------------------------------------------------------------------------------


def mapping(g):
    o = g.of(2, 4, 8, 16, 64)
    if g.of(0, 0, 1):
        return PskQamMapping(o, g.c(o), g.b())
    if o in (2, 4, 16) and g.b():
        return PskQamMapping(o, None, g.b(), False)
    return PskQamMapping(o, None, g.b())


@B("modems")
def mappings(g):
    return mapping(g)


def pilots(g):
    return g.of(
        lambda: UniformPilotSymbolSequence(complex(g.u(), g.u())), lambda: CustomPilotSymbolSequence(g.c(g.i(1, 9))),
        lambda: MappedPilotSymbolSequence(PskQamMapping(g.of(2, 4, 16))))()


@B("modems")
def pilot_sequences(g):
    return pilots(g)


def put(w, name, part):
    if part is not None:
        setattr(w, name, part)


def single_carrier(g):
    kw = dict(modulation_order=g.of(2, 4, 16, 64), num_preamble_symbols=g.i(0, 9), num_data_symbols=g.i(1, 30), num_postamble_symbols=g.i(0, 3), pilot_rate=g.of(0, 3, 10), guard_interval=g.of(0.0, g.u(0, 1e-7)), pilot_symbol_sequence=g.opt(lambda: pilots(g)), repeat_pilot_symbol_sequence=g.b())
    k = g.i(0, 3)
    if k == 0:
        w = RootRaisedCosineWaveform(roll_off=g.u(0, 1), **kw)
    elif k == 1:
        w = RaisedCosineWaveform(roll_off=g.u(0, 1), **kw)
    elif k == 2:
        w = RectangularWaveform(**kw)
    else:
        w = FMCWWaveform(num_samples_per_chirp=g.of(16, 64), **kw)
    put(w, "channel_estimation", g.of(None, SingleCarrierLeastSquaresChannelEstimation()))
    put(w, "channel_equalization", g.of(None, SingleCarrierZeroForcingChannelEqualization(), SingleCarrierMinimumMeanSquareChannelEqualization()))
    put(w, "synchronization", g.of(None, SingleCarrierCorrelationSynchronization(g.u(0.1, 0.9), g.u(0.1, 0.9), g.u(0.1, 0.9))))
    return w


def chirp(g):
    w = ChirpFSKWaveform(chirp_duration=g.of(1e-8, g.u(1e-8, 1e-7)), freq_difference=g.u(1e5, 1e6), num_pilot_chirps=g.i(0, 9), num_data_chirps=g.i(1, 30), guard_interval=g.of(0.0, g.u(0, 1e-7)), modulation_order=g.of(2, 4, 16))
    put(w, "synchronization", g.of(None, ChirpFSKCorrelationSynchronization(g.u(0.1, 0.9), g.u(0.1, 0.9), g.u(0.1, 0.9))))
    return w


def orthogonal(g, kinds=(0, 1, 2)):
    n = g.of(16, 32)
    def resource():
        return GridResource(g.i(1, 2), g.of(*PrefixType), g.u(0, 0.5), elements=[GridElement(g.of(*ElementType), g.i(1, 3)) for _ in range(g.i(1, 3))])
    resources = [resource() for _ in range(g.i(1, 3))]
    structure = []
    for _ in range(g.i(1, 3)):
        if g.of(0, 0, 1):
            structure.append(GuardSection(g.u(0, 1e-6), g.i(1, 2)))
        else:
            structure.append(SymbolSection(g.i(1, 3), [g.i(0, len(resources) - 1) for _ in range(g.i(1, 3))], g.i(0, 3)))
    structure.append(SymbolSection(1, [0]))
    ps = g.of(None, 1, 2)
    if ps == 1:
        ps = PilotSection(g.opt(lambda: Symbols(g.c(1, 1, n))))
    elif ps == 2:
        ps = SchmidlCoxPilotSection(None)
    kw = dict(grid_resources=resources, grid_structure=structure, num_subcarriers=n, pilot_section=ps, pilot_sequence=g.opt(lambda: pilots(g)), repeat_pilot_sequence=g.b(), modulation_order=g.of(2, 4, 16))
    k = g.of(*kinds)
    if k == 0:
        w = OFDMWaveform(dc_suppression=g.b(), **kw)
        put(w, "synchronization", g.of(None, OFDMCorrelationSynchronization(g.u(0.1, 0.9), g.u(0.1, 0.9), g.u(0.1, 0.9)), SchmidlCoxSynchronization()))
    elif k == 1:
        w = OTFSWaveform(dc_suppression=g.b(), **kw)
    else:
        w = OCDMWaveform(**kw)
    put(w, "channel_estimation", g.of(None, OrthogonalLeastSquaresChannelEstimation()))
    put(w, "channel_equalization", g.of(None, OrthogonalZeroForcingChannelEqualization()))
    return w


def waveform(g):
    return g.of(single_carrier, chirp, orthogonal)(g)


@B("modems")
def single_carrier_waveforms(g):
    return single_carrier(g)


@B("modems")
def chirp_waveforms(g):
    return chirp(g)


@B("modems")
def orthogonal_waveforms(g):
    return orthogonal(g)


def modem(g):
    base = dict(encoding=g.opt(lambda: manager(g)), waveform=g.opt(lambda: waveform(g)), seed=g.seed())
    tx = dict(selected_transmit_ports=g.ports(), bits_source=RandomBitsSource(g.seed()) if g.b() else None, transmit_symbol_coding=g.opt(lambda: tx_coding(g)), transmit_signal_coding=g.opt(lambda: signal_coding(g, True)))
    rx = dict(selected_receive_ports=g.ports(), receive_symbol_coding=g.opt(lambda: rx_coding(g)), receive_signal_coding=g.opt(lambda: signal_coding(g, False)))
    cf = dict(carrier_frequency=g.of(None, 1e9, 0.0))
    k = g.i(0, 3)
    if k == 0:
        return TransmittingModem(**base, **tx, **cf)
    if k == 1:
        return ReceivingModem(**base, **rx, **cf)
    if k == 2:
        return DuplexModem(**base, **tx, **rx, **cf)
    return SimplexLink(**base, **tx, **rx, **cf)


@B("modems")
def modems(g):
    return modem(g)


@B("modems")
def bits_sources(g):
    return RandomBitsSource(g.seed())


# --- radars and static operators ----------------------------------------------------------------------------------------------


def detector(g):
    return g.of(lambda: ThresholdDetector(g.u(0.1, 0.9), g.b(), g.b()), MaxDetector, lambda: CFARDetector((g.i(1, 4), g.i(1, 4)), (g.i(0, 1), g.i(0, 1)), g.u(0.01, 0.5)))()


@B("radars")
def detectors(g):
    return detector(g)


def fmcw(g):
    d = g.u(1e-7, 1e-6)
    return FMCW(g.i(1, 9), d, d * g.u(1, 2), g.of(None, g.u(1e6, 1e9)))


@B("radars")
def fmcw_waveforms(g):
    return fmcw(g)


@B("radars")
def radars(g):
    kw = dict(receive_beamformer=g.opt(lambda: g.of(ConventionalBeamformer, lambda: CaponBeamformer(loading=g.u()))()), detector=g.opt(lambda: detector(g)), min_range=g.of(0.0, g.u(0, 9)), selected_transmit_ports=g.ports(), selected_receive_ports=g.ports(), carrier_frequency=g.of(None, 1e9, 0.0), seed=g.seed())
    k = g.i(0, 2)
    if k == 0:
        return Radar(g.opt(lambda: fmcw(g)), **kw)
    if k == 1:
        return MatchedFilterJcas(g.u(1, 99), g.opt(lambda: single_carrier(g)), max_velocity=g.of(0.0, g.u(1, 9)), velocity_resolution=g.u(0.1, 2), **kw)
    return OFDMRadar(g.opt(lambda: orthogonal(g, (0,))), **kw)


@B("radars")
def static_operators(g):
    k = g.i(0, 2)
    if k == 0:
        return SilentTransmitter(g.i(1, 99), g.ports())
    if k == 1:
        return SignalTransmitter(g.signal(sparse=False), selected_transmit_ports=g.ports())
    return SignalReceiver(g.i(1, 99), g.ports(), g.of(0.0, g.u()))


# --- simulated devices --------------------------------------------------------------------------------------------------------


def noise_level(g):
    return g.of(lambda: N0(g.of(0.0, g.u())), lambda: ThermalNoise(g.u(0, 300)))()


def blk(g):
    return dict(noise_level=g.opt(lambda: noise_level(g)), noise_model=g.opt(lambda: AWGN(g.seed())), seed=g.seed())


def rf_block(g, k=None):
    k = g.i(0, 14) if k is None else k
    if k == 0:
        return ADC(g.of(None, g.i(1, 9)), g.opt(lambda: g.of(Gain(g.u(0.1, 2), g.b()), AutomaticGainControl(g.of(*GainControlType), g.u(0.1, 2), g.b()))), g.of(*QuantizerType), g.i(1, 3), **blk(g))
    if k == 1:
        return DAC(g.of(None, g.i(1, 9)), g.i(1, 3), **blk(g))
    if k == 2:
        return IdealMixer(g.of(*MixerType), g.of(0.0, g.u(1, 1e9)), **blk(g))
    if k == 3:
        return PowerAmplifier(g.u(0.1, 3), **blk(g))
    if k == 4:
        return ClippingPowerAmplifier(g.u(0.1, 3), g.u(0.1, 3), **blk(g))
    if k == 5:
        return RappPowerAmplifier(g.u(0.1, 3), g.u(0.1, 3), **blk(g))
    if k == 6:
        return SalehPowerAmplifier(g.u(), g.u(), g.u(), g.u(), g.u(0.1, 3), **blk(g))
    if k == 7:
        n = g.i(2, 5)
        return CustomPowerAmplifier(np.sort(g.r.random(n)), g.r.random(n), g.r.random(n), g.u(0.1, 3), **blk(g))
    if k == 8:
        return HPF(g.u(1, 1e6), g.i(1, 6), **blk(g))
    if k == 9:
        return Source(g.of(0.0, g.u(1, 1e9)), g.opt(lambda: OscillatorPhaseNoise(g.u(1e-12, 1e-10), g.u(1, 20), g.u(1e3, 1e5), seed=g.seed())), g.u(0.1, 2), **blk(g))
    if k == 10:
        return Split(g.i(1, 4), g.seed())
    if k == 11:
        return Sum(g.i(1, 4), g.seed())
    if k == 12:
        return X4(g.seed())
    if k == 13:
        return RampGenerator(g.i(1, 9), g.u(1e6, 1e9), g.u(1e12, 1e14), g.u(1e-6, 1e-5), **blk(g))
    return Shift(g.u(-3, 3), g.i(0, 4), g.i(1, 3), **blk(g))


@B("rf")
def rf_blocks(g):
    return rf_block(g)


@B("rf")
def noise_levels(g):
    return noise_level(g)


@B("rf")
def referenced_noise_levels(g):
    k = g.i(0, 2)
    if k == 0:
        return SNR(g.u(0.1, 99), g.of(SilentTransmitter(g.i(1, 9)), SignalReceiver(g.i(1, 9), expected_power=g.u())))
    return (EBN0, ESN0)[k - 1](single_carrier(g), g.u(0.1, 99))


def trigger(g):
    return g.of(StaticTrigger, RandomTrigger, lambda: SampleOffsetTrigger(g.i(0, 99)), lambda: TimeOffsetTrigger(g.u()), lambda: NormalTrigger(g.u(0, 1e-6), g.u(0, 1e-7)))()


@B("rf")
def triggers(g):
    return trigger(g)


def isolation(g, n=None, m=None):
    n, m = n or g.i(1, 3), m or g.i(1, 3)
    return g.of(PerfectIsolation, lambda: SpecificIsolation(g.r.random((n, m))), lambda: SelectiveLeakage(g.c(n, m, g.i(1, 4))))()


@B("rf")
def isolations(g):
    return isolation(g)


def coupling(g, n=None):
    n = n or g.i(1, 3)
    return g.of(PerfectCoupling, lambda: ImpedanceCoupling(g.opt(lambda: g.c(n, n)), g.opt(lambda: g.c(n, n)), g.opt(lambda: g.c(n, n)), g.opt(lambda: g.c(n, n)), g.opt(lambda: g.c(n, n))))()


@B("rf")
def couplings(g):
    return coupling(g)


def device(g):
    d = SimulatedDevice(
        antennas=g.opt(lambda: sim_array(g)), isolation=g.opt(lambda: isolation(g)), coupling=g.opt(lambda: coupling(g)), trigger_model=g.opt(lambda: trigger(g)),
        carrier_frequency=g.of(0.0, g.u(1e6, 1e10)), bandwidth=g.u(1e6, 1e9), oversampling_factor=g.i(1, 4), operator_separation=g.b(), noise_level=g.opt(lambda: noise_level(g)),
        noise_model=g.opt(lambda: AWGN(g.seed())), pose=g.opt(lambda: g.of(g.pose, lambda: trajectory(g))()), velocity=g.opt(g.vec), power=g.u(0.1, 2), seed=g.seed(),
        transmit_dsp=g.opt(lambda: [SilentTransmitter(g.i(1, 9)) for _ in range(g.i(1, 2))]), receive_dsp=g.opt(lambda: [SignalReceiver(g.i(1, 9))]),
        transmit_encoding=g.opt(ConventionalBeamformer), receive_decoding=g.opt(ConventionalBeamformer))
    return d


@B("devices")
def devices(g):
    return device(g)


@B("devices")
def devices_with_modems(g):
    d = device(g)
    m = DuplexModem(waveform=g.opt(lambda: waveform(g)))
    d.add_dsp(m)
    if g.b():
        d.transmitters.add(TransmittingModem(waveform=waveform(g)))
    return d


@B("devices")
def scenarios(g):
    return SimulationScenario(devices=[device(g) for _ in range(g.i(0, 3))])


# --- round trip ---------------------------------------------------------------------------------------------------------------

SKIP = ("seed",)


def roundtrip(x, cls=None):
    f = h5py.File("mem", "w", driver="core", backing_store=False)
    try:
        factory = Factory()
        factory.to_HDF(f, x)
        y = factory.from_HDF(f, cls or type(x))
    finally:
        f.close()
    return y
