"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run tools/gen_meta.py)."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, note, technique=None):
    assert len(title) <= 80, title
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=" ".join(statement.split()),
            over=over,
            text=text,
            why=why,
            files=files,
            mech=mech,
            observe=observe,
            note=note,
            technique=technique or "property-based testing (Hypothesis-generated cases against reference oracles)",
        )
    )


P(
    "P01",
    "Signal models agree: dense, sparse and sample-matrix views never diverge",
    """A signal built from dense samples, sparse blocks or blocks with offsets always represents the same
    stream-by-time sample matrix: construction, conversion between the dense and sparse models, slicing, item
    assignment, appending samples or streams, energy, power and interleaved-integer conversion return exactly what
    the same operation on that plain matrix returns, and no operation modifies its other arguments. Superimposing
    one signal onto another adds its samples at its delay and at the requested streams, mixed by the carrier frequency
    difference, and refuses differing sampling rates unless resampling is permitted. Resampling maps band-limited
    content to the new rate and preserves duration and amplitude.""",
    ["inputs", "histories"],
    "All sample matrices with silent regions, block layouts, index expressions, operation sequences, delays, stream selections, carrier offsets and rate ratios.",
    "Unit tests compare a handful of fixed matrices per method; equivalence of two representations is a statement over all block layouts and operation histories.",
    ["hermespy/core/signal_model.py"],
    [("Signal.Create / DenseSignal / SparseSignal", "hermespy/core/signal_model.py")],
    ["getitem", "setitem", "append_samples", "append_streams", "superimpose", "resample", "energy", "power", "to_interleaved", "to_dense"],
    "Random matrices with zero runs, random operation histories executed on both models and a plain numpy reference; resampling judged on band-limited content away from the borders.",
)
P(
    "P04",
    "Coordinate frames compose, invert and stay up to date along kinematic chains",
    """Rotations given as roll-pitch-yaw angles (about x, then y, then z), as quaternions or as directions round-trip
    exactly for every orientation, including gimbal lock and half turns, and transformations compose, invert and map
    positions and directions as homogeneous matrices. Whatever sequence of pose, position, orientation, lookat, base and
    link changes is applied to a kinematic chain, each frame's global and local coordinates are those of the current
    product of poses from its root. Trajectories interpolate position and orientation between their ends, rest beyond
    them, report the derivative of their position as velocity, and track their lookat target.""",
    ["inputs", "histories"],
    "All orientations and positions including singular ones, all histories of changes to chains of up to five frames, all sampling times.",
    "Caches of chain transformations are only wrong after particular orders of reads and modifications, and singular orientations have measure zero among hand-picked examples.",
    ["hermespy/core/transformation.py", "hermespy/simulation/animation.py"],
    [("Transformation / Transformable / Direction", "hermespy/core/transformation.py"), ("Trajectory", "hermespy/simulation/animation.py")],
    ["rotation_rpy", "rotation_quaternion", "lookat", "forwards_transformation", "backwards_transformation", "to_local_coordinates", "Trajectory.sample"],
    "Matrix reference model of each frame's pose and base; random operation histories; tolerances of 1e-6 and below.",
)
P(
    "P05",
    "Antenna arrays report geometry, phases and patterns of their physical pose",
    """Element positions of an antenna array, in its own and in the global frame, follow its grid or its elements' poses
    under every pose of the elements, the array and its base, and after any of them move. Near- and far-field phase
    responses equal exp(-j2πfd/c) over the true distances, respectively exp(j2πf k·p/c), and polarisation patterns are
    the element's documented field rotated with it, identically for local and global positions and directions. Transmit,
    receive and duplex modes select their elements in order, immutable states and subarrays retain poses, modes and weights
    of the array, and antenna weights scale exactly their own streams.""",
    ["inputs", "configurations", "histories"],
    "All array geometries, element types, modes and weights, poses of elements, arrays and devices, carrier frequencies and directions.",
    "Tests check dimensions and invariances of one upright array at the origin; frame mix-ups are invisible there.",
    ["hermespy/core/antennas.py", "hermespy/simulation/antennas.py"],
    [("AntennaArrayBase", "hermespy/core/antennas.py"), ("SimulatedAntennaArray", "hermespy/simulation/antennas.py")],
    ["topology", "characteristics", "cartesian_array_response", "spherical_phase_response", "state", "select_subarray", "transmit", "receive"],
    "Directions within 1e-5 of a coordinate pole, where the polarisation basis is undefined, are not compared.",
)
P(
    "P07",
    "Forward error correction: decoding recovers every encoded bit stream",
    """For every chain of enabled and disabled encoders, in any combination of block sizes, and every data length,
    decoding the encoded bits returns exactly the data bits, frame after frame, when the frame is sized by the required
    number of data bits and padded to the requested number of code bits. Each single encoder fills its announced block
    sizes and rate, a repetition code corrects any error pattern hitting less than half of each bit's repetitions,
    interleaving is the block transposition, checksums leave data bits intact, and scrambling is one continuous key
    stream independent of block boundaries (802.11a: x^7+x^4+1). Padding is refused if disallowed, and so is encoding
    more bits than fit.""",
    ["inputs", "configurations", "histories"],
    "All bit streams, encoder parameters, chains of up to four encoders, numbers of code bits and consecutive frames.",
    "Tests encode one hand-written block per encoder; composition of arbitrary block sizes, padding and several frames is never enumerated.",
    ["hermespy/fec/coding.py", "hermespy/fec/block_interleaver.py", "hermespy/fec/repetition_encoder.py", "hermespy/fec/cyclic_redundancy_check.py", "hermespy/fec/scrambler.py"],
    [("EncoderManager.encode/decode", "hermespy/fec/coding.py")],
    ["EncoderManager.encode", "EncoderManager.decode", "required_num_data_bits", "Encoder.encode", "Encoder.decode"],
    "Round trips and closed-form code models over random encoder chains; aff3ct encoders are not built in this environment and are outside the check.",
)
P(
    "P08",
    "Constellation mapping is invertible, normalised and detects the nearest point",
    """Every default and every custom PSK, QAM or PAM constellation has unit mean energy and distinct points, default
    constellations are zero-mean and Gray labelled, and every word of bits selects the point listed at its index.
    Hard detection of any received symbol returns the bits of the nearest constellation point. Soft detection
    is the max-log likelihood ratio of each bit, positive for ones and inversely proportional to the noise
    variance; unsupported orders are refused.""",
    ["inputs", "configurations"],
    "All supported constellations, random custom constellations, bit words, received points and noise variances.",
    "Tests detect a few points per constellation; decision regions and piecewise-linear likelihoods are defined over the whole complex plane.",
    ["hermespy/modem/tools/psk_qam_mapping.py"],
    [("PskQamMapping.get_symbols/detect_bits", "hermespy/modem/tools/psk_qam_mapping.py")],
    ["get_symbols", "detect_bits", "get_mapping"],
    "Brute-force nearest-point and max-log references over random received points at five noise levels.",
)
P(
    "P09",
    "Multi-carrier frames return the symbols placed on their resource grid",
    """For every OFDM, OCDM and OTFS grid configuration, frames have exactly the announced number of symbols, bits and
    samples, symbols occupy exactly the configured data and reference elements, prefixes repeat or silence as
    configured, and demodulating a modulated frame returns the grid and all data bits, also when a section is
    sampled early inside its cyclic prefix. A multipath channel shorter than the cyclic prefix scales each OFDM subcarrier
    by a sample of its frequency response, which least-squares estimation recovers exactly for flat channels from any
    references and for responses varying linearly between references, and zero-forcing removes. Correlation and
    Schmidl-Cox synchronisation locate frames after silence, independent of gain and phase, and 5G NR slots have the standard's
    dimensions.""",
    ["inputs", "configurations"],
    "All grid resources, element patterns, prefixes, guard sections, subcarrier counts, oversampling factors, modulation orders and data, multipath responses and reference patterns.",
    "Tests run one fixed grid per waveform with loose comparisons; index arithmetic errors in grids show only for particular combinations of repetitions, prefixes, oversampling and DC suppression.",
    ["hermespy/modem/waveforms/orthogonal/waveform.py", "hermespy/modem/waveforms/orthogonal/ofdm.py", "hermespy/modem/waveforms/orthogonal/ocdm.py", "hermespy/modem/waveforms/orthogonal/otfs.py", "hermespy/modem/waveforms/orthogonal/channel.py", "hermespy/modem/waveforms/ieee_5gnr.py"],
    [("OrthogonalWaveform.place/modulate/demodulate/pick", "hermespy/modem/waveforms/orthogonal/waveform.py")],
    ["map", "place", "modulate", "demodulate", "pick", "unmap", "estimate_channel", "synchronize", "samples_per_frame"],
    "Round trip plus an element-by-element grid reference, structural checks of prefixes, guards and pilots, superposition, and frequency-response oracles.",
)
P(
    "P10",
    "Single-carrier and chirp-FSK frames return the bits they carry",
    """Root-raised-cosine, raised-cosine, rectangular and FMCW frames place preamble, data, regularly interleaved pilots and
    postamble in order, are the superposition of the configured pulse (its textbook formula for every filter length,
    roll-off, relative bandwidth and oversampling) at the symbol times, and matched filtering samples every
    symbol at its time; chirp-FSK frames are unit-power chirps selected by the bits, followed by a silent guard interval. Frames
    have the announced samples and duration and demodulation returns every data bit. Least-squares estimation, zero-forcing
    and MMSE equalisation restore symbols over flat, linearly varying and MIMO channels, and
    correlation synchronisation returns exactly the frames whose preamble correlation exceeds the configured threshold.""",
    ["inputs", "configurations"],
    "All frame layouts, pulse parameters, oversampling factors, modulation orders, pilot sequences, chirp parameters, data, channel responses, frame spacings and amplitudes.",
    "Tests modulate one default configuration per waveform; pulse singularities, odd filter lengths, pilot patterns and threshold settings are quantified over configurations.",
    ["hermespy/modem/waveform_single_carrier.py", "hermespy/modem/waveform_chirp_fsk.py", "hermespy/modem/waveform_correlation_synchronization.py", "hermespy/modem/waveform.py"],
    [("FilteredSingleCarrierWaveform.modulate/demodulate", "hermespy/modem/waveform_single_carrier.py"), ("ChirpFSKWaveform", "hermespy/modem/waveform_chirp_fsk.py")],
    ["place", "modulate", "demodulate", "pick", "estimate_channel", "equalize_symbols", "synchronize", "pilot_signal"],
    "Independent pulse and chirp formulas, superposition reference, round trips, and synchronisation judged where the direct correlation is unambiguous.",
)
P(
    "P11",
    "Precodings are inverted by their decoders over every coherent channel",
    """Alamouti and Ganesan space-time codes map groups of symbols onto orthogonal designs, and every receive antenna
    recovers them exactly, with unit channel state, over any channel constant during a group, without amplifying
    disturbances beyond the channel's gain; Fourier precoding, maximum ratio and selection combining compute their
    defining formulas, report matching channel states, and leave their inputs unmodified. Chains of symbol or stream
    precodings apply their stages in order, deriving stream counts, block counts and rates from the stages for any number
    of stages and registration history, and refuse impossible dimensions.""",
    ["inputs", "histories", "configurations"],
    "All symbols, coherent channels, antenna counts, group counts, sparse or dense states, chains of up to four stages and their edit histories.",
    "Tests check the decoders for one or two random channels and mock most of the chain; algebraic identities hold over all channels and chain dimensions multiply over all stage sequences.",
    ["hermespy/modem/precoding/symbol_precoding.py", "hermespy/modem/precoding/space_time_block_coding.py", "hermespy/modem/precoding/ratio_combining.py", "hermespy/modem/precoding/single_carrier.py", "hermespy/modem/precoding/dft.py", "hermespy/core/precoding.py"],
    [("TransmitSymbolCoding / ReceiveSymbolCoding", "hermespy/modem/precoding/symbol_precoding.py"), ("TransmitSignalCoding / ReceiveSignalCoding", "hermespy/core/precoding.py")],
    ["encode_symbols", "decode_symbols", "encode_streams", "decode_streams", "encode_rate", "num_encoded_blocks", "num_transmit_input_streams"],
    "Independent formulas, orthogonality and linearity relations, and matrix-valued test stages composed into random chains.",
)
P(
    "P12",
    "Modem links return every transmitted payload bit in frame order",
    """For every waveform, forward error correction chain and multi-antenna precoding, a modem fills a requested duration with the
    whole frames fitting into it, each carrying new payload (or the next bits of a stream source), of announced bit,
    symbol and sample counts, block sizes and time stamps, concatenated in order. A receiving modem, separate or the same
    object, returns over any coherent channel known to its channel estimation the frames in order with exactly their
    code and payload bits and symbols, locates a frame after silence by its pilot, finds nothing in receptions shorter
    than a frame, notifies callbacks once per call and alters neither signals nor earlier transmissions.""",
    ["inputs", "configurations", "histories"],
    "All combinations of waveform, modulation order, error correction chain, precoding, antenna count, frame count, oversampling, payload and flat channel.",
    "Tests run a few fixed links; bit bookkeeping across error correction, stream multiplexing, precoding rates and frames only fails for particular combinations.",
    ["hermespy/modem/modem.py", "hermespy/modem/symbols.py", "hermespy/modem/bits_source.py", "hermespy/fec/coding.py", "hermespy/modem/precoding/symbol_precoding.py"],
    [("TransmittingModemBase._transmit", "hermespy/modem/modem.py"), ("ReceivingModemBase._receive", "hermespy/modem/modem.py")],
    ["transmit", "receive", "CommunicationTransmission.bits", "CommunicationReception.bits", "frames", "timestamp"],
    "Exact bit equality over random flat and MIMO channels known to the estimator; synchronisation judged where the pilot correlation is unambiguous.",
)
P(
    "P19",
    "Monte Carlo simulations sample every grid section and average its artifacts",
    """A simulation over any grid, in whatever order its dimensions were added, collects exactly the configured number of
    samples of each section, realized with that section's parameters even where only the simulation stages impacted by
    changed parameters are executed again, for every number of actors and batch size; no sample is lost or counted twice.
    Sections stop early only once all evaluators have reached their confidence threshold by the documented criterion, the
    probability of the mean exceeding its tolerance, evaluated at multiples of the minimum number of samples, and never before.
    Results report the mean artifact of each section, equally in arrays, plots, tables and exports, and exceptions
    are raised or, if caught, spare other batches.""",
    ["inputs", "histories", "schedules"],
    "All grids, impacted stages, batches, artifact sequences and confidence settings; campaigns of concurrently running actors, collectors and queue managers.",
    "Tests run one small campaign with mocked remote objects; losses and deadlocks depend on the interleaving of actors and collector, stale parameters on the order of sections.",
    ["hermespy/core/pymonte/monte_carlo.py", "hermespy/core/pymonte/actors.py", "hermespy/core/pymonte/grid.py", "hermespy/core/pymonte/scalar.py", "hermespy/core/pymonte/evaluation.py"],
    [("MonteCarlo.simulate", "hermespy/core/pymonte/monte_carlo.py"), ("MonteCarloActor / MonteCarloCollector / MonteCarloQueueManager", "hermespy/core/pymonte/actors.py")],
    ["MonteCarlo.simulate", "MonteCarloQueueManager.next_batch", "MonteCarloActor.run", "ScalarEvaluationResult.add_artifact", "MonteCarloResult"],
    "Campaigns run on a local ray instance with up to three actors; the interleaving is the operating system's, varied by stage delays and batch sizes.",
)
P(
    "P03",
    "Logarithmic quantities behave like the linear numbers they denote",
    """A decibel value or a sequence of them, created from decibels or linear numbers by power or amplitude convention, equals
    the linear number it denotes in comparison and arithmetic with plain numbers, stays logarithmic in arithmetic among
    logarithmic values, keeps its decibel value and convention through copies, pickling and text, and refuses non-positive values.
    After any history of item assignments, slices, index selections and in-place arithmetic, array, items, iteration
    and decibel values of a sequence describe the same numbers. Free-space amplitudes, root mean squares and
    the Marcum Q function equal their definitions for every argument.""",
    ["inputs", "histories"],
    "All decibel values, conventions and operand kinds; all histories of up to six sequence operations; all carriers, distances, sample vectors and Marcum Q arguments.",
    "The sequence mirrors its numbers twice, so divergence only shows after particular orders of modification; formulas are sampled at few points by tests.",
    ["hermespy/core/logarithmic.py", "hermespy/tools/math.py"],
    [("Logarithmic / LogarithmicSequence", "hermespy/core/logarithmic.py"), ("marcum_q / amplitude_path_loss / lin2db", "hermespy/tools/math.py")],
    ["dB", "Logarithmic", "LogarithmicSequence.__setitem__", "value_db", "marcum_q", "rms_value", "amplitude_path_loss"],
    "Plain float lists as reference model, numerical integration for the Marcum Q function (1e-5).",
)
P(
    "P31",
    "3GPP cluster delay line channels superimpose the rays their standard prescribes",
    """Any sample of an urban micro, urban macro, rural, indoor office or factory channel, or of a tabulated model A to E, is for all
    poses, velocities, antennas and carriers the superposition of its rays by TR 38.901: array responses and polarizations,
    ray powers, sub-cluster splitting, K-factor, line of sight component, Doppler, delay normalization and gain, alike
    for propagated signals and channel states, and reciprocal for resting devices. Delays, powers, angles, path losses, line of
    sight probabilities and large scale parameters follow the scenario's tables and distributions. Realizations are
    consistent in space and reproducible from their seed, and tabulated models take their clusters from the standard's tables.""",
    ["inputs", "configurations"],
    "All scenarios, line of sight and indoor states, device geometries and velocities, antenna arrays, delay normalizations, carriers and seeds.",
    "Tests check shapes and a few branches; wrong frames, polarization signs, table entries or sub-cluster indices yield plausible channels that only an independent model tells apart.",
    ["hermespy/channel/cdl/cluster_delay_lines.py", "hermespy/channel/cdl/cdl.py", "hermespy/channel/cdl/urban_macrocells.py", "hermespy/channel/cdl/urban_microcells.py", "hermespy/channel/cdl/rural_macrocells.py", "hermespy/channel/cdl/indoor_office.py", "hermespy/channel/cdl/indoor_factory.py"],
    [("ClusterDelayLineSample", "hermespy/channel/cdl/cluster_delay_lines.py"), ("ClusterDelayLineRealization", "hermespy/channel/cdl/cluster_delay_lines.py")],
    ["realize", "sample", "propagate", "state", "ClusterDelayLineSample.jones_matrices", "cluster_delays", "cluster_powers"],
    "Independent ray superposition in numpy from the sample's published cluster parameters; transcribed 3GPP tables for scenario statistics (confidence bounds below 1e-9 error probability).",
)
P(
    "P14",
    "Link channels apply exactly the delays, gains and fading they publish",
    """Any sample of an ideal, delay or multipath fading channel, for all devices, antennas, bandwidths and configurations,
    maps dense signals and signals of offset blocks alike to the superposition of its delayed, time-variant paths by the documented equations,
    in a power scaled by the linear gain, which its channel state also describes, and alters no input. Realizations depend only
    on the seed, are mutually independent, can be sampled repeatedly, are transposed for the reciprocal link and notify exactly the
    matching hooks. Random delays, phases and angles follow their distributions, and predefined profiles and antenna
    correlations equal their standards' tables.""",
    ["inputs", "configurations", "histories"],
    "All link channel models and parameters, device geometries with dedicated or duplex antennas, carriers, bandwidths, gains, block layouts and seeds.",
    "Tests use one antenna pair and mean energies; time offsets of blocks, state versus propagation, dedicated antennas and table entries need independent models over all configurations.",
    ["hermespy/channel/channel.py", "hermespy/channel/ideal.py", "hermespy/channel/delay/delay.py", "hermespy/channel/delay/random.py", "hermespy/channel/delay/spatial.py", "hermespy/channel/fading/fading.py", "hermespy/channel/fading/tdl.py", "hermespy/channel/fading/cost259.py", "hermespy/channel/fading/exponential.py", "hermespy/channel/fading/correlation.py"],
    [("ChannelSample.propagate / ChannelRealization.sample", "hermespy/channel/channel.py"), ("MultipathFadingSample", "hermespy/channel/fading/fading.py")],
    ["Channel.realize", "Channel.propagate", "ChannelRealization.sample", "reciprocal_sample", "ChannelSample.propagate", "ChannelSample.state", "expected_energy_scale"],
    "Sum-of-sinusoids and delay models in numpy from the sample's published parameters, transcribed 3GPP tables, distribution bounds below 1e-9 error probability.",
)
P(
    "P15",
    "Channel state information transforms like the channel matrix it holds",
    """Channel state information, dense or sparse, as impulse response or frequency selectivity, represents one tensor of
    receive streams, transmit streams, samples and taps: after any history of conversions between both formats, slicing, assignment,
    iteration over samples or streams, concatenation and reciprocity its state, dimensions and linear transformation are those of
    the same operations on that tensor, and the original is left unchanged by derived views. Propagating a signal convolves it with the
    time-variant impulse response and equals the linear transformation of its samples.""",
    ["inputs", "histories"],
    "All tensors of up to three streams, six samples and five taps, both formats and storages, and all histories of up to six operations.",
    "Inconsistent tap counts or index orders only show after particular sequences of conversions and slices with unequal dimensions.",
    ["hermespy/core/channel.py"],
    [("ChannelStateInformation", "hermespy/core/channel.py")],
    ["to_impulse_response", "to_frequency_selectivity", "linear", "propagate", "__getitem__", "__setitem__", "concatenate", "samples", "received_streams", "reciprocal"],
    "Plain numpy tensors as reference model; exact up to floating point.",
)
P(
    "P28",
    "Spatially consistent random fields are reproducible, normalised and decorrelate",
    """A realization of consistent random variables is a fixed function of both link ends: independent of the order and number of
    samples taken, equal for equal seeds, independent between realizations and variables, and of the requested shapes. Gaussian
    variables have zero mean, unit variance and the requested moments, uniform variables fill the unit interval and booleans are
    fair. Values are continuous in space and their correlation decays exponentially with each end's displacement relative to
    the decorrelation distance, being constant for infinite distance.""",
    ["inputs", "histories"],
    "All sets of variables, shapes, seeds, decorrelation distances, positions and sampling orders.",
    "Tests sample a few points; distributions and correlations are statements over ensembles, and offset collisions appear only for certain variable sets.",
    ["hermespy/channel/consistent.py"],
    [("ConsistentGenerator / ConsistentRealization", "hermespy/channel/consistent.py")],
    ["ConsistentGenerator.gaussian", "uniform", "boolean", "realize", "ConsistentRealization.sample", "ConsistentVariable.sample"],
    "Moments, Kolmogorov distances and correlations of 6000 scalars with bounds of error probability below 1e-9.",
)
P(
    "P30",
    "Radar channels echo signals at each target's delay, Doppler and cross section",
    """For all geometries, velocities, antennas and carriers a radar channel's output and channel state are the superposition of
    one echo per target and the line of sight interference between separate devices, with the documented delays, amplitudes,
    polarized array responses and Doppler shifts, reflection phases, linear gain and optional attenuation, evaluated at the sampling time for moving
    targets and block offsets. Cross sections are queried with directions in the target's own frame, single random targets lie within their
    configured limits relative to the sensor with uniform distribution, and targets colliding with a device are refused. The null
    hypothesis keeps exactly the static paths, and reciprocal samples describe the same scene.""",
    ["inputs", "configurations"],
    "All mono- and bistatic geometries, target sets, trajectories, cross section models, block layouts, times and seeds.",
    "Tests check one echo on an axis; sign, frame and timing errors cancel in such geometries and need random scenes against an independent model.",
    ["hermespy/channel/radar/radar.py", "hermespy/channel/radar/single.py", "hermespy/channel/radar/multi.py"],
    [("RadarPath.add_propagation / RadarChannelSample", "hermespy/channel/radar/radar.py"), ("MultiTargetRadarChannelRealization", "hermespy/channel/radar/multi.py")],
    ["realize", "sample", "propagate", "state", "null_hypothesis", "RadarPath.propagation_delay", "relative_velocity"],
    "Documented radar equations in numpy; delays compared as whole samples away from rounding borders; constant carrier phase through the array responses.",
)
P(
    "P22",
    "Radio-frequency blocks and chains transform signals as configured",
    """Each block of a radio-frequency chain applies its documented transformation to every stream for all amplitudes, rates and
    carriers: power amplifiers their gain and compression curves, also with memory, mixers and frequency multipliers their products and
    resulting carrier frequencies, converters gain control followed by uniform mid-rise or mid-tread quantization with bounded error,
    phase shifters, splitters, sums, ramp generators and filters theirs. A chain connecting blocks by any acyclic wiring of ports
    transmits and receives exactly the composition of its blocks' transformations, routing each stream to the connected port.""",
    ["inputs", "configurations"],
    "All block parameters, signal amplitudes, oversampling rates, carriers, stream counts and acyclic wirings of up to several blocks.",
    "Tests run single blocks on fixed waveforms; carrier bookkeeping, stream routing, clipping ranges and level counts only disagree for particular combinations of blocks and parameters.",
    ["hermespy/simulation/rf/block.py", "hermespy/simulation/rf/chain.py", "hermespy/simulation/rf/signal.py", "hermespy/simulation/rf/blocks/ad.py", "hermespy/simulation/rf/blocks/amps.py", "hermespy/simulation/rf/blocks/filters.py", "hermespy/simulation/rf/blocks/mixers.py", "hermespy/simulation/rf/blocks/ramp.py", "hermespy/simulation/rf/blocks/shift.py", "hermespy/simulation/rf/blocks/split.py", "hermespy/simulation/rf/blocks/sum.py", "hermespy/simulation/rf/blocks/x4.py"],
    [("RFChain.connect / propagation", "hermespy/simulation/rf/chain.py"), ("RFBlock.propagate", "hermespy/simulation/rf/block.py")],
    ["RFBlock.propagate", "RFChain.connect", "RFChain.transmit", "RFChain.receive", "ADC", "DAC", "PowerAmplifier.model", "Mixer", "RampGenerator"],
    "Independent numpy models of each block, evaluated over the wiring graph in topological order; exact up to floating point, quantization errors bounded by half a step.",
)
P(
    "P23",
    "Noise is additive, white and Gaussian at exactly the configured level",
    """Adding noise to any dense, sparse or radio-frequency signal yields a new signal which differs by independent circularly symmetric
    white Gaussian samples of the requested power, reports that power, keeps all other parameters and is reproducible per realization
    and seed. Noise levels convert to power as documented: thermal and density levels proportional to bandwidth, signal to noise ratios
    relative to the reference's power and the channel's energy scale, and bit and symbol energy ratios relative to the
    energies waveforms actually transmit. Oscillator phase noise keeps the envelope and has the configured power spectrum.""",
    ["inputs", "configurations"],
    "All signal models, sizes, powers, seeds, levels, references, bandwidths and oscillator spectra.",
    "Tests compare one mean power with wide tolerances; whiteness, independence, reproducibility and the reference of each level are distributional and cross-module statements.",
    ["hermespy/simulation/rf/noise/model.py", "hermespy/simulation/rf/noise/level.py", "hermespy/simulation/rf/noise/phase_noise.py", "hermespy/simulation/modem/noise.py"],
    [("AWGNRealization.add_to", "hermespy/simulation/rf/noise/model.py"), ("NoiseLevel.get_power", "hermespy/simulation/rf/noise/level.py"), ("OscillatorPhaseNoiseRealization.add_noise", "hermespy/simulation/rf/noise/phase_noise.py")],
    ["NoiseModel.realize", "NoiseModel.add_noise", "NoiseRealization.add_to", "NoiseLevel.get_power", "NoiseLevel.level", "PhaseNoise.realize", "PhaseNoiseRealization.add_noise"],
    "Chi-square, Kolmogorov and correlation bounds of error probability below 1e-10; phase noise whitened by the covariance of its documented discrete model.",
)
P(
    "P21",
    "Devices transmit and receive exactly what their configuration describes",
    """A device transmits the sum of its operators' streams mapped to their selected ports, passed through its encoders in order,
    isolation and coupling models and antenna array weights, scaled to its power and delayed to its trigger instant.  A receiving device
    superposes all impinging signals at their true times and carriers, keeps the window starting at its trigger, applies coupling, weights,
    leakage, noise of the configured level and decoders, and hands every operator exactly the streams of its selected ports.  Processing
    never alters the signals passed in and notifies every callback once per result.""",
    ["inputs", "configurations", "histories"],
    "All numbers of operators, ports, encoders, decoders, impinging signals, overlaps, trigger instants, powers and noise levels.",
    "Tests transmit one operator over one port at time zero; orders, port maps, superposition offsets and inadvertent aliasing only show for combinations of several of each.",
    ["hermespy/simulation/simulated_device.py", "hermespy/core/device.py", "hermespy/core/operators.py", "hermespy/core/precoding.py", "hermespy/core/signal_model.py", "hermespy/simulation/antennas.py"],
    [("SimulatedDevice.generate_output / process_from_realization", "hermespy/simulation/simulated_device.py"), ("Transmit / receive coding", "hermespy/core/precoding.py")],
    ["SimulatedDevice.transmit", "generate_output", "process_input", "receive", "SimulatedDeviceReceiveRealization", "TransmitSignalCoding.encode_streams", "ReceiveSignalCoding.decode_streams"],
    "Independent linear reference of the whole transmit and receive path with user-defined encoders and decoders; noise recovered by differencing receptions of one realization.",
)
P(
    "P24",
    "Coupling and isolation models mix antenna streams as documented",
    """Impedance coupling applies exactly the documented matrix products of array impedances and correlations to transmitted and received
    signals, and ideal coupling leaves them unchanged.  Leakage from any set of transmitted signals into a device's reception is the linear
    combination of the transmitted streams with the configured isolation gains or convolution with the frequency-selective leakage response,
    additive over signals and scaled with transmit power.  Specifications can be set per port pair or for all pairs, and removed again.""",
    ["inputs", "configurations"],
    "All port counts, impedances, correlations, isolation values, leakage responses, signals and powers, dense and sparse.",
    "Tests use identity matrices and scalar isolation, for which transposed, omitted or inverted factors are invisible.",
    ["hermespy/simulation/coupling/coupling.py", "hermespy/simulation/coupling/impedance.py", "hermespy/simulation/coupling/perfect.py", "hermespy/simulation/isolation/isolation.py", "hermespy/simulation/isolation/perfect.py", "hermespy/simulation/isolation/selective.py", "hermespy/simulation/isolation/specific.py"],
    [("ImpedanceCoupling._transmit / _receive", "hermespy/simulation/coupling/impedance.py"), ("SelectiveLeakage._leak / SpecificIsolation._leak", "hermespy/simulation/isolation")],
    ["ImpedanceCoupling.transmit", "ImpedanceCoupling.receive", "PerfectCoupling", "PerfectIsolation.leak", "SpecificIsolation.leak", "SelectiveLeakage.leak", "SelectiveLeakage.Normal"],
    "Matrix products and convolutions written independently in numpy, plus linearity and superposition relations over devices in duplex operation.",
)
P(
    "P29",
    "Devices sharing a trigger model transmit and receive at one common instant",
    """Every trigger model realizes offsets from its documented distribution, zero, a fixed number of samples or seconds, uniform within
    the longest frame, or normal without negative values, reproducibly from its seed.  A realization converts to any sampling rate by
    flooring to whole samples and never yields an instant which is inconsistent between rates.  At every drop all devices controlled by one model start transmitting
    and receiving at that instant, independent models are realized independently, and devices move between models without remaining
    in their former ones.""",
    ["histories", "configurations"],
    "All trigger models, rates, durations, device groups, sequences of assignments and seeds.",
    "Tests realize each model once at one rate; rounding between rates, stale group membership and distributions are invisible to a single sample.",
    ["hermespy/simulation/simulated_device.py", "hermespy/simulation/scenario.py"],
    [("TriggerModel / TriggerRealization", "hermespy/simulation/simulated_device.py"), ("SimulationScenario.realize_triggers", "hermespy/simulation/scenario.py")],
    ["TriggerModel.realize", "TriggerModel.add_device", "TriggerModel.remove_device", "TriggerRealization.compute_num_offset_samples", "SimulatedDevice.trigger_model", "SimulationScenario.realize_triggers"],
    "Exact arithmetic oracle for offsets, a membership model driven by random assignment sequences, Kolmogorov bounds for the random models.",
)
P(
    "P13",
    "Beamformers focus directions of interest and suppress unwanted ones",
    """Transmit and receive beamformers apply exactly the documented weights of the antenna array's response towards the focused directions:
    conventional beamformers radiate and combine all elements in phase, null steering beamformers vanish in both suppressed directions with
    unit power and the largest possible gain in the focused one, Capon beamformers are the loaded minimum variance solution of each block
    and probing evaluates every focus point.  Focus points given by angles, local or global coordinates, directions or
    devices denote the same direction seen from any posed device, over operators, device codings and sidelobe evaluations alike.""",
    ["inputs", "configurations"],
    "All array geometries, antenna modes, poses, carriers, focus representations, codebooks, dense and sparse signals.",
    "Tests use unrotated arrays at the origin where mirrored directions, frames and conjugations coincide.",
    ["hermespy/beamforming/beamformer.py", "hermespy/beamforming/capon.py", "hermespy/beamforming/conventional.py", "hermespy/beamforming/nullsteeringbeamformer.py", "hermespy/beamforming/operators.py", "hermespy/simulation/beamforming.py", "hermespy/simulation/evaluators/beamforming.py"],
    [("TransmitBeamformer.encode_streams / ReceiveBeamformer.decode_streams", "hermespy/beamforming/beamformer.py"), ("BeamFocus.spherical_angles", "hermespy/beamforming/beamformer.py")],
    ["encode_streams", "decode_streams", "probe", "transmit_focus", "receive_focus", "BeamFocus.spherical_angles", "DeviceFocus", "SidelobeEvaluator.evaluate"],
    "Plane wave responses from element positions and rotation matrices; optimal weights by orthogonal projection and linear solves; ill-conditioned covariances are skipped.",
)
P(
    "P16",
    "FMCW radars report targets at their range, velocity and direction",
    """A frame consists of equally long chirps sweeping the documented bandwidth and every advertised quantity, i.e. range, velocity and
    Doppler bins, resolutions, maxima, energy and number of samples, agrees with the generated signal.  The echo of any target within the
    unambiguous region peaks in the radar cube within one resolution cell of its true range, velocity and probed direction, with the
    coherently integrated power; processing is quadratic in the superposed echoes, ignores samples beyond the frame and treats missing ones as
    silence.""",
    ["inputs", "configurations"],
    "All bandwidths, chirp durations and intervals, converter rates, oversampling factors, arrays, poses, ranges, velocities and directions.",
    "Tests place a single target in one configuration; off-by-one bins, sign and wrap-around errors depend on the parities and the fractions of samples.",
    ["hermespy/radar/fmcw.py", "hermespy/radar/radar.py", "hermespy/radar/cube.py", "hermespy/channel/radar/radar.py", "hermespy/channel/radar/multi.py", "hermespy/channel/radar/single.py", "hermespy/beamforming/beamformer.py"],
    [("FMCW.ping / FMCW.estimate", "hermespy/radar/fmcw.py"), ("RadarBase._receive", "hermespy/radar/radar.py")],
    ["Radar.transmit", "Radar.receive", "FMCW.range_bins", "relative_doppler_bins", "max_range", "range_resolution", "velocity_resolution", "RadarCube", "RadarPointCloud"],
    "Analytic chirps and echoes computed from the documented equations, plus full scenes through the multi target channel; parallelogram identity for linearity.",
)
P(
    "P17",
    "Radar detections and cubes keep power, range, velocity and direction",
    """Detectors report exactly those cells of a radar cube that fulfill their documented criterion, threshold, maximum or cell averaging constant
    false alarm rate, with the cell's position, velocity and power.  Radar cubes validate and infer their bins, are normalized and plotted consistently with them, and
    point clouds contain every added point up to their maximum range.  The false alarm rate of constant false alarm rate detectors in exponentially distributed
    noise equals the configured one.""",
    ["inputs", "configurations"],
    "All cubes, bins, thresholds, normalizations, guard and training cells and detection parameters.",
    "Tests detect one hand-placed peak; ties, edges of cubes, several angles and mixed up dimensions are never exercised.",
    ["hermespy/radar/detection.py", "hermespy/radar/cube.py"],
    [("ThresholdDetector / MaxDetector / CFARDetector.detect", "hermespy/radar/detection.py"), ("RadarCube", "hermespy/radar/cube.py")],
    ["RadarDetector.detect", "RadarPointCloud.points", "RadarCube.data", "normalize_power", "PointDetection.from_spherical"],
    "Brute force search over all cells and binomial bounds on empirical false alarm rates.",
)
P(
    "P18",
    "Joint communication and sensing resolves targets without disturbing data",
    """Matched filter and OFDM radars transmit the very frames of their communication waveform, report every target at its delay and velocity within one
    bin of the advertised resolution and advertise bins and resolutions consistent with the transmitted signal.  Communication over the same
    operators is unaffected by sensing and decodes all data of an ideal link.  Range and velocity estimates are independent of the transmitted
    data, and minimum ranges merely remove bins.""",
    ["inputs", "configurations"],
    "All waveforms, grids, modulation orders, oversampling factors, numbers of frames and antennas, ranges and velocities.",
    "Tests check a single target at one range; bins, data dependence and several streams are left open.",
    ["hermespy/jcas/jcas.py", "hermespy/jcas/matched_filtering.py", "hermespy/jcas/ofdm_radar.py", "hermespy/radar/radar.py"],
    [("MatchedFilterJcas._receive", "hermespy/jcas/matched_filtering.py"), ("OFDMRadar._receive / range and velocity bins", "hermespy/jcas/ofdm_radar.py")],
    ["MatchedFilterJcas.transmit", "MatchedFilterJcas.receive", "OFDMRadar.transmit", "OFDMRadar.receive", "JCASReception.cube", "JCASReception.bits"],
    "Delayed and Doppler shifted copies of the transmitted signals with known parameters; correlations recomputed from their definition.",
)
P(
    "P20",
    "Evaluators report exactly the documented figure of the latest result",
    """Bit, block and frame error rates, throughput and error vector magnitude equal the brute force comparison of transmitted and received
    information, where lost blocks and frames count as errors, and power, peak-to-average power ratio, signal extraction and self-interference
    evaluators report the statistics of the processed streams.  Receiver operating characteristics are the empirical detection and false alarm rates of hypotheses
    that only differ by the targets' presence, whether evaluated live, from replayed scenarios or from files, and localization errors are
    computed in the radar's coordinates.  Evaluators fail with a RuntimeError before any result is available and are never influenced
    by operators or devices they are not attached to.""",
    ["inputs", "histories", "configurations"],
    "All histories of transmissions and receptions, block sizes, lost frames, antenna counts, powers, poses, thresholds and campaigns.",
    "Tests evaluate error-free links and single artifacts; misaligned blocks, lost frames, thresholds and frames of reference are invisible.",
    ["hermespy/modem/evaluators.py", "hermespy/core/evaluators.py", "hermespy/radar/evaluators.py", "hermespy/simulation/evaluators/interference.py"],
    [("BitErrorEvaluator ... ConstellationEVM.evaluate", "hermespy/modem/evaluators.py"), ("ReceiverOperatingCharacteristic.evaluate / RocEvaluationResult.to_array", "hermespy/radar/evaluators.py")],
    ["evaluate", "artifact", "to_scalar", "initialize_result", "to_array", "FromScenario", "FromScenarios", "FromFile"],
    "User-defined modems exchanging hand-built frames, noisy links, signal operators and radar scenes against brute force counts; identical scenes without targets give the null hypothesis.",
)
