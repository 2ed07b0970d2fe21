#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

D = "dsptoolbox/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, tech, note):
    P.append(
        dict(
            pid=pid, title=title, statement=statement, over=over, qtext=qtext,
            why=why, files=[D + f for f in files],
            mech=[dict(name=n, where=D + w) for n, w in mech],
            observe=observe, tech=tech, note=note,
        )
    )


prop(
    "C01", "A signal behaves as the array of channels it holds",
    "After any sequence of operations, a signal reports the samples, channel "
    "order, length, duration, time axis and sampling rate of a plain samples x "
    "channels array on which the same operations were carried out: adding "
    "(with padding or trimming to the present length), removing, reordering, "
    "selecting and summing channels, replacing the data, copying, setting "
    "imaginary parts. Amplitude is kept unless limiting to full scale was "
    "asked for, and then one common factor is applied and reported. Invalid "
    "requests are refused and leave the signal as it was.",
    ["histories", "inputs", "configurations"],
    "every history of container operations on signals and impulse responses, "
    "real and complex, limited or not, any channel count and length",
    "tests do one operation each on one file-sized signal; nothing compares "
    "against a model or combines operations with complex data and limiting",
    ["classes/signal.py", "classes/_multichannel_data.py", "classes/impulse_response.py"],
    [("channel operations", "classes/_multichannel_data.py:MultichannelData"),
     ("time data and amplitude limiting", "classes/signal.py:Signal.time_data"),
     ("adding channels", "classes/signal.py:Signal.add_channel")],
    ["Signal.time_data", "Signal.time_data_imaginary", "Signal.number_of_channels",
     "Signal.amplitude_scale_factor", "Signal.time_vector_s"],
    "stateful model-based property testing",
    "operation sequences against a numpy model of the container",
)
prop(
    "C02", "Spectral results always belong to the present data and settings",
    "The spectrum, cross-spectral matrix and spectrogram a signal returns are "
    "those of its present samples and present settings, whatever was computed, "
    "plotted, changed or copied before and whether or not caching is switched "
    "on. Returned results are never altered by later calls, and plotting or "
    "querying leaves the settings and the results as they were.",
    ["histories", "configurations"],
    "every history of data changes, setting changes, queries, plots and copies, "
    "with caching on or off",
    "staleness needs a particular order of query, change and query; tests "
    "query once per signal and hardly ever with the cache on",
    ["classes/signal.py", "classes/_multichannel_data.py", "classes/impulse_response.py"],
    [("cache and state flags", "classes/signal.py:Signal.get_spectrum / __update_state"),
     ("parameter setters", "classes/signal.py:Signal.set_spectrum_parameters"),
     ("plots which switch the smoothing", "classes/signal.py:Signal.plot_magnitude")],
    ["Signal.get_spectrum", "Signal.get_csm", "Signal.get_spectrogram"],
    "stateful differential property testing",
    "histories with caching compared to a fresh signal given the same data and settings",
)
prop(
    "C03", "Operations leave their inputs alone",
    "Functions that return a result never change the signals, impulse "
    "responses, spectra, filters, filter banks, multiband signals, arrays, "
    "lists or dictionaries given to them, neither samples nor settings. The "
    "result shares no memory with the input: editing the result later does not "
    "change the input, and copies are fully independent.",
    ["inputs", "histories"],
    "every public function and every generated argument, including calls that "
    "end in an error",
    "tests look at the results; almost none looks at the arguments after the call",
    ["standard", "transfer_functions/transfer_functions.py", "transforms/transforms.py",
     "distances/distances.py", "room_acoustics/room_acoustics.py", "effects/effects.py",
     "classes/signal.py", "classes/spectrum.py", "classes/filter.py", "tools.py",
     "beamforming/beamforming.py"],
    [("copying results", "classes/signal.py:Signal.copy_with_new_time_data"),
     ("temporary settings", "transfer_functions/transfer_functions.py:group_delay")],
    ["deep state of every argument before and after the call"],
    "property-based testing with deep snapshots of the arguments",
    "a registry of the public functions; fingerprints of all arguments before and after",
)
prop(
    "C04", "Saved objects reload as they were",
    "Signals written as audio keep sampling rate, channels, length and samples "
    "to the accuracy of the chosen sample format, and any object saved in the "
    "package's own format reloads with all data and settings that influence "
    "later results. Converting samples between number representations keeps "
    "their values within one quantisation step and their full scale.",
    ["inputs", "configurations"],
    "all containers, channel counts, lengths, sampling rates, bit depths and formats",
    "the tests write one file per format and hardly compare the content",
    ["classes/signal.py", "classes/filter.py", "classes/filterbank.py",
     "classes/multibandsignal.py", "classes/spectrum.py", "standard/other.py",
     "helpers/bytes_conversion.py", "tools.py"],
    [("saving", "classes/signal.py:Signal.save_signal"),
     ("loading", "standard/other.py:load_pkl_object"),
     ("sample formats", "tools.py:convert_sample_representation")],
    ["Signal.from_file", "load_pkl_object", "convert_sample_representation"],
    "round-trip property testing", "save/load and format conversion round trips",
)
prop(
    "C05", "Spectra and cross-spectra follow their definitions in every scaling",
    "The spectrum of a signal equals, in each scaling (plain, orthonormal and "
    "forward transform, amplitude and power spectrum, amplitude and power "
    "density) and for both estimation methods, the textbook definition "
    "computed from its samples, window, overlap, detrending and averaging. "
    "Tone amplitudes and signal energy are recovered accordingly, and "
    "cross-spectral matrices are Hermitian, non-negative and have the power "
    "spectra on their diagonal.",
    ["inputs", "configurations"],
    "all signals, lengths (odd and even), sampling rates, windows, overlaps, "
    "averaging modes and scalings",
    "the tests compare one signal with scipy for some scalings only",
    ["classes/signal.py", "standard/_spectral_methods.py", "standard/enums.py",
     "helpers/spectrum_utilities.py"],
    [("Welch", "standard/_spectral_methods.py:_welch"),
     ("scaling", "helpers/spectrum_utilities.py:_scale_spectrum"),
     ("CSM", "standard/_spectral_methods.py:_csm_welch")],
    ["Signal.get_spectrum", "Signal.get_csm", "tools.scale_spectrum"],
    "differential property testing against scipy and numpy references",
    "independent numpy/scipy computation of each estimate plus Parseval relations",
)
prop(
    "C06", "The spectrogram matches its definition and inverts to the signal",
    "Each spectrogram frame is the scaled transform of the windowed, optionally "
    "detrended segment at the time given by the time axis, on the frequency "
    "axis given, for every channel. The inverse reproduces the signal it was "
    "computed from wherever the windows overlap-add to something nonzero.",
    ["inputs", "configurations"],
    "all signals, window lengths and types, overlaps, transform lengths, "
    "padding and scalings",
    "the tests round-trip a single configuration with large tolerances",
    ["standard/_spectral_methods.py", "standard/_framed_signal_representation.py",
     "transforms/transforms.py", "tools.py"],
    [("STFT", "standard/_spectral_methods.py:_stft"),
     ("inverse", "transforms/transforms.py:istft"),
     ("framing", "standard/_framed_signal_representation.py")],
    ["Signal.get_spectrogram", "transforms.istft", "tools.framed_signal"],
    "differential and round-trip property testing",
    "frame-by-frame reference and round trips",
)
prop(
    "C07", "Time editing puts the right samples in the right place",
    "Padding, trimming, appending, changing the length, cutting by time or by "
    "level and fading yield exactly the selected input samples at their places "
    "with zeros elsewhere, for every channel, band and imaginary part, and "
    "report the indices they used. Detrending removes the least-squares "
    "polynomial and nothing else; fades stay within 0 and 1, are monotonic and "
    "touch nothing outside the fade.",
    ["inputs", "configurations"],
    "all signals, lengths, offsets, levels and ends",
    "the tests use one signal and one or two lengths, mostly checking the shape",
    ["standard/pad_trim_methods.py", "standard/appending.py", "standard/other.py",
     "standard/_standard_backend.py", "helpers/other.py"],
    [("pad and trim", "helpers/other.py:_pad_trim"),
     ("trim and modify length", "standard/pad_trim_methods.py"),
     ("append", "standard/appending.py:append_signals")],
    ["pad_trim", "append_signals", "modify_signal_length", "trim_with_time_selection",
     "trim_with_level_threshold", "fade", "detrend"],
    "property-based testing against an index model",
    "each operation compared to direct numpy indexing",
)
prop(
    "C08", "Levels and gains are consistent decibel arithmetic",
    "Peak, true-peak, RMS, crest and loudness values equal their definitions; "
    "applying a gain of x dB to a signal, filter or spectrum raises its level "
    "by exactly x dB and changes nothing else; normalising reaches the target "
    "level, common or per channel, keeping waveform and (when common) channel "
    "balance. Dithering adds noise only within the stated bound, and "
    "decibel conversions are mutual inverses.",
    ["inputs", "configurations"],
    "all signals, multiband signals, filters and spectra, levels and channel counts",
    "the tests check single levels on fixed signals, not the relations",
    ["standard/gain_and_level.py", "helpers/gain_and_level.py", "standard/other.py",
     "classes/calibration_data.py"],
    [("gain and level", "standard/gain_and_level.py"),
     ("dB helpers", "helpers/gain_and_level.py"),
     ("calibration", "classes/calibration_data.py")],
    ["normalize", "apply_gain", "rms", "crest_factor", "true_peak_level",
     "lufs_integrated", "dither", "CalibrationData"],
    "metamorphic property testing", "definitions and level relations on generated signals",
)
prop(
    "C09", "Delays, latencies and resampling keep time and content",
    "Delaying moves a signal by exactly the requested (integer or fractional) "
    "time on the selected channels only; the latency found between a signal "
    "and its delayed copy is that delay with the right sign. Resampling keeps "
    "duration, amplitude, phase and frequency of all content below both "
    "Nyquist frequencies.",
    ["inputs", "configurations"],
    "all delays, channels, polynomial refinements, band-limited signals and rate pairs",
    "tests use a few fixed delays and one pair of rates",
    ["standard/latency_delay.py", "helpers/latency.py", "standard/resampling.py",
     "filterbanks/filterbanks.py"],
    [("delay", "standard/latency_delay.py:delay"),
     ("latency", "helpers/latency.py"),
     ("resample", "standard/resampling.py:resample")],
    ["delay", "fractional_delay", "latency", "resample"],
    "metamorphic property testing", "delay/latency duality; analytic band-limited signals",
)
prop(
    "C10", "All representations of a filter describe the same filter",
    "Coefficients, second-order sections and poles/zeros of one filter convert "
    "into each other without changing the transfer function; the impulse "
    "response, transfer function, group delay and filtered output agree with "
    "each other and with direct evaluation of the difference equation. "
    "Filtering is linear, time invariant, per channel, on the chosen channels "
    "only, keeps the length, and in zero-phase mode applies the squared "
    "magnitude without phase.",
    ["inputs", "configurations"],
    "all stable filters of any order and representation, all signals and channel selections",
    "tests check designed filters against scipy for a single signal",
    ["classes/filter.py", "classes/filter_helpers.py", "standard/resampling.py"],
    [("representations", "classes/filter.py:Filter.ba / sos / zpk"),
     ("filtering", "classes/filter_helpers.py"),
     ("group delay", "classes/filter_helpers.py:_group_delay_filter")],
    ["Filter.filter_signal", "Filter.get_ir", "Filter.get_transfer_function",
     "Filter.get_group_delay", "Filter.get_coefficients"],
    "differential and metamorphic property testing",
    "random stable filters against direct polynomial evaluation",
)
prop(
    "C11", "Designed filters have the response their parameters ask for",
    "Equaliser sections, crossover, Butterworth/Chebyshev/elliptic/Bessel and "
    "window-method designs, weighting, pinking, matched, Gaussian, "
    "fractional-delay and parametric (auto-regressive) designs meet the "
    "closed-form gain, cutoff, ripple, slope and delay implied by their "
    "parameters at the frequencies that define them. Designs are stable, and "
    "order and filter kind are as requested.",
    ["inputs", "configurations"],
    "all design parameters within their valid ranges",
    "tests design a handful of filters and mostly check that nothing fails",
    ["classes/filter.py", "classes/filter_helpers.py", "filterbanks/filterbanks.py",
     "filterbanks/_filterbank.py", "classes/group_delay_designer_phase_linearizer.py"],
    [("biquads", "classes/filter_helpers.py:_biquad_coefficients"),
     ("designs", "filterbanks/filterbanks.py"),
     ("matched biquads", "filterbanks/_filterbank.py")],
    ["Filter.biquad", "Filter.iir_filter", "Filter.fir_filter", "matched_biquad",
     "weighting_filter", "pinking_filter", "arma", "fractional_delay"],
    "property-based testing against closed-form specifications",
    "design parameters generated; responses checked at the defining frequencies",
)
prop(
    "C12", "Filtering in pieces equals filtering at once",
    "Feeding a signal in blocks of any sizes, or sample by sample, through a "
    "filter or filter bank that keeps its state gives the output of filtering "
    "the whole signal at once, independently for every channel. After "
    "resetting, the output is that of a new filter, and every realtime "
    "structure (direct, transposed, lattice, state-space, parallel, Kautz, "
    "warped, partitioned convolution, state-variable, averaging) realises the "
    "transfer function it was built from.",
    ["histories", "inputs", "configurations"],
    "all split points, block sizes, channel counts, filter kinds and resets",
    "tests stream one filter with one block size and one channel",
    ["classes/filter.py", "classes/filter_helpers.py", "classes/filterbank.py",
     "classes/iir_filter_realtime.py", "classes/fir_filter_realtime.py",
     "classes/lattice_ladder_filter.py", "classes/state_space_filter.py",
     "classes/parallel_filter.py", "classes/kautz_filter.py",
     "classes/warped_filters.py", "classes/sv_filter.py",
     "classes/exponential_average_filter.py", "classes/filter_chain.py"],
    [("filter state", "classes/filter_helpers.py:_filter_on_signal"),
     ("realtime structures", "classes/*_filter*.py process_sample / reset_state")],
    ["Filter.filter_signal(activate_zi)", "RealtimeFilter.process_sample"],
    "stateful differential property testing",
    "random split histories against the unsplit output and scipy references",
)
prop(
    "C13", "A filter bank is the collection of its filters in every mode",
    "Parallel filtering yields each filter's output as a band, sequential the "
    "cascade of all filters, summed the sum of all outputs, for signals, "
    "multiband signals and impulse responses. The impulse response and "
    "transfer function of the bank in each mode are those of the filtering in "
    "that mode, and adding, removing, reordering and merging filters act on "
    "the collection like on a list.",
    ["histories", "inputs", "configurations"],
    "all banks of generated filters, all modes and all collection histories",
    "tests use one bank and check types and shapes",
    ["classes/filterbank.py", "standard/appending.py", "standard/other.py"],
    [("modes", "classes/filter_helpers.py:_filterbank_on_signal"),
     ("transfer function", "classes/filterbank.py:FilterBank.get_transfer_function")],
    ["FilterBank.filter_signal", "FilterBank.get_ir", "FilterBank.get_transfer_function"],
    "stateful model-based property testing", "bank against a list of its filters",
)
prop(
    "C14", "Splitting filter banks put the signal back together",
    "Bands of the crossovers sum to an all-pass (flat magnitude) response, "
    "amplitude-preserving fractional-octave bands sum to the delayed input, "
    "quadrature-mirror analysis and synthesis cancel aliasing, a filter and its "
    "complement sum to a pure delay, and auditory bands resynthesise the "
    "input closely within their range. Each band has its nominal edges and "
    "attenuates outside of them.",
    ["inputs", "configurations"],
    "all crossover frequencies, orders, ranges, fractions, overlaps and signals",
    "tests build one bank each and compare shapes or a single sum",
    ["filterbanks/filterbanks.py", "filterbanks/_filterbank.py"],
    [("Linkwitz-Riley", "filterbanks/_filterbank.py:LRFilterBank"),
     ("QMF", "filterbanks/_filterbank.py:QMFCrossover"),
     ("gammatone", "filterbanks/_filterbank.py:GammaToneFilterBank")],
    ["linkwitz_riley_crossovers", "reconstructing_fractional_octave_bands",
     "qmf_crossover", "auditory_filters_gammatone", "complementary_fir_filter",
     "fractional_octave_bands"],
    "reconstruction property testing", "sum of bands against the input or its magnitude",
)
prop(
    "C15", "A multiband signal is the list of its bands",
    "After any history of adding, removing, reordering and replacing bands, a "
    "multiband signal returns these bands unchanged, refuses bands that do not "
    "fit, and reports their common sampling rate, length and channels. "
    "Collapsing is the sample-wise sum of all bands, and selecting one channel "
    "over all bands or all time data gives the bands' samples in order.",
    ["histories", "inputs"],
    "all histories over bands, equal or differing sampling rates, real and complex",
    "tests use a single construction and check types",
    ["classes/multibandsignal.py"],
    [("bands", "classes/multibandsignal.py:MultiBandSignal"),
     ("collapse", "classes/multibandsignal.py:MultiBandSignal.collapse")],
    ["MultiBandSignal.bands", "MultiBandSignal.collapse", "MultiBandSignal.get_all_bands",
     "MultiBandSignal.get_all_time_data"],
    "stateful model-based property testing", "against a python list of arrays",
)
prop(
    "C16", "A spectrum object is its frequencies and values, interpolated as set",
    "A spectrum keeps bins, values and coherence aligned through trimming, "
    "resampling, selecting, summing, appending, gain, normalisation, smoothing, "
    "copying and warping. Interpolation returns the data at its own bins, lies "
    "on the chosen scheme between them and follows the chosen edge handling; "
    "energy, gain and normalisation follow their definitions, and building "
    "from a signal or filter and going back to a signal keeps the response.",
    ["histories", "inputs", "configurations"],
    "all frequency vectors (linear, logarithmic, other), magnitude and complex "
    "data, interpolation settings and operation histories",
    "tests use one spectrum with linear spacing and few settings",
    ["classes/spectrum.py", "helpers/smoothing.py", "standard/appending.py"],
    [("interpolation", "classes/spectrum.py:Spectrum.get_interpolated_spectrum"),
     ("trim", "classes/spectrum.py:Spectrum.trim"),
     ("smoothing", "helpers/smoothing.py")],
    ["Spectrum.spectral_data", "Spectrum.get_interpolated_spectrum", "Spectrum.get_energy"],
    "stateful differential property testing", "against numpy interpolation and indexing",
)
prop(
    "C17", "Transforms equal their definitions and invert where they have an inverse",
    "Cepstra, mid/side, Laguerre and warping transforms return to the input "
    "when inverted; the analytic signal has the input as real part and no "
    "negative frequencies; Fourier sums at arbitrary frequencies, linear "
    "prediction, mel, cepstral-coefficient, chroma, wavelet and variable-Q "
    "representations equal direct evaluation of their definitions and put a "
    "tone into the right bin, frame and channel.",
    ["inputs", "configurations"],
    "all signals, lengths, channels and parameters",
    "tests check shapes and that nothing fails for a fixed signal",
    ["transforms/transforms.py", "transforms/_transforms.py", "helpers/ar_estimation.py",
     "helpers/frequency_conversion.py"],
    [("transforms", "transforms/transforms.py"), ("kernels", "transforms/_transforms.py")],
    ["cepstrum", "stereo_mid_side", "laguerre", "warp", "hilbert", "dft", "lpc",
     "mel_filterbank", "mfcc", "chroma_stft", "cwt", "vqt"],
    "round-trip and differential property testing", "inverse pairs and numpy references",
)
prop(
    "C18", "System identification recovers the system",
    "Given a signal and its output through a linear system, deconvolution and "
    "the transfer-function estimators return that system's response over the "
    "excited band, per channel; coherence is one for noise-free linear systems, "
    "always within zero and one, and drops with independent noise. Harmonics "
    "of a sweep response appear at their theoretical arrival times.",
    ["inputs", "configurations"],
    "all excitations, systems, channel counts and estimator settings",
    "tests check shapes and one deconvolution",
    ["transfer_functions/transfer_functions.py", "transfer_functions/_transfer_functions.py"],
    [("deconvolution", "transfer_functions/transfer_functions.py:spectral_deconvolve"),
     ("H1/H2/H3", "transfer_functions/transfer_functions.py:compute_transfer_function")],
    ["spectral_deconvolve", "compute_transfer_function", "harmonics_from_chirp_ir",
     "harmonic_distortion_analysis"],
    "metamorphic property testing", "known random systems identified from their output",
)
prop(
    "C19", "Phase tools keep the magnitude and deliver the promised phase",
    "Minimum- and linear-phase versions have the magnitude of their source; "
    "minimum phase is causal with the energy as early as possible and agrees "
    "with known minimum-phase systems, linear phase has the requested constant "
    "group delay. Group delay is the negative phase derivative, excess is total "
    "minus minimum, smoothing is an average, and impulse responses convert to "
    "filters and back without change.",
    ["inputs", "configurations"],
    "all responses, lengths, channels and settings",
    "tests check shapes and that nothing fails",
    ["transfer_functions/transfer_functions.py", "helpers/minimum_phase.py",
     "helpers/spectrum_utilities.py", "helpers/smoothing.py"],
    [("minimum phase", "helpers/minimum_phase.py"),
     ("group delay", "transfer_functions/transfer_functions.py:group_delay")],
    ["min_phase_ir", "min_phase_from_mag", "lin_phase_from_mag", "group_delay",
     "minimum_group_delay", "excess_group_delay", "ir_to_filter", "filter_to_ir"],
    "metamorphic property testing", "known minimum-phase systems and delays",
)
prop(
    "C20", "Windowing and averaging of impulse responses follow their description",
    "Windowed responses are the input times the returned window, of the "
    "requested length, with the peak kept under the window's top and flanks as "
    "requested; trimming keeps the indices it reports. Averaging is the mean "
    "over channels (after alignment of spectra or normalisation as asked), "
    "frequency-dependent windowing and smoothing keep flat responses flat, and "
    "the found start or latency follows a shift of the response.",
    ["inputs", "configurations"],
    "all impulse responses, lengths, windows, offsets and channels",
    "tests use one measured response and compare shapes",
    ["transfer_functions/transfer_functions.py", "transfer_functions/_transfer_functions.py",
     "helpers/windows.py"],
    [("windows", "transfer_functions/_transfer_functions.py"),
     ("averaging", "transfer_functions/transfer_functions.py:average_irs")],
    ["window_ir", "window_centered_ir", "window_ir_tukey", "trim_ir", "average_irs",
     "window_frequency_dependent", "complex_smoothing", "find_ir_latency",
     "combine_ir_with_dirac"],
    "property-based testing", "reported windows and indices, shift and scale relations",
)
prop(
    "C21", "Room-acoustic descriptors equal their formulas",
    "Reverberation times of exponential decays are the true ones for every "
    "evaluation range, and definition, clarity, centre time and bass ratio "
    "equal their energy integrals from the onset. All are "
    "unaffected by gain and leading silence, computed per channel and band, "
    "and convolving with a room response and finding its onset follow their "
    "definitions.",
    ["inputs", "configurations"],
    "all decays, decay times, levels, onsets, bands and channels",
    "tests check shapes and single values",
    ["room_acoustics/room_acoustics.py", "room_acoustics/_room_acoustics.py"],
    [("decay fit", "room_acoustics/_room_acoustics.py"),
     ("descriptors", "room_acoustics/room_acoustics.py:descriptors")],
    ["reverb_time", "descriptors", "find_ir_start", "find_modes", "convolve_rir_on_signal"],
    "metamorphic property testing", "synthetic decays with known parameters; invariances",
)
prop(
    "C22", "Room models obey geometry and the reverberation formulas",
    "A shoebox room's volume, area, absorption, reverberation time, critical "
    "distance, mixing and Schroeder quantities and eigenfrequencies equal the "
    "closed-form expressions for any dimensions and absorption, and positions "
    "outside are refused. Synthetic responses have the direct sound and the "
    "first reflections at the geometric times and spherical-spreading "
    "amplitudes, and swapping source and receiver changes nothing.",
    ["inputs", "configurations"],
    "all room dimensions, absorptions, temperatures, positions and orders",
    "tests use one room and check that values exist",
    ["room_acoustics/_room_acoustics.py", "room_acoustics/room_acoustics.py"],
    [("room", "room_acoustics/_room_acoustics.py:ShoeboxRoom"),
     ("image sources", "room_acoustics/_room_acoustics.py:_generate_rir")],
    ["ShoeboxRoom", "generate_synthetic_rir"],
    "differential property testing", "independent image-source and modal reference",
)
prop(
    "C23", "Generated test signals are what was ordered",
    "Noise, sweeps, oscillators and impulses have the requested length, "
    "sampling rate, channels, padding, peak level and fades; sweeps run through "
    "the requested frequencies with the requested law, oscillators have the "
    "requested period, waveform and band limit, noise has the requested "
    "spectral slope and independent channels, impulses sit at the requested "
    "sample.",
    ["inputs", "configurations"],
    "all generator parameters in their valid ranges",
    "tests create one signal each",
    ["generators/generators.py", "generators/_generators.py"],
    [("generators", "generators/generators.py")],
    ["generators.chirp", "generators.noise", "generators.oscillator", "generators.dirac"],
    "property-based testing against analytic descriptions",
    "instantaneous phase, period, slope and level checks",
)
prop(
    "C24", "Effects do what their parameters say on every channel",
    "Compression follows its static curve below, at and above threshold in "
    "every mode and knee, distortions follow their static curve with peak and "
    "mix as set, modulators, tremolo, chorus and delay follow their modulation "
    "and delay times, and noise reduction leaves signals above the floor "
    "alone. Effects keep length, rate and channels, are deterministic and "
    "finite for all inputs including silence.",
    ["inputs", "configurations"],
    "all effects, parameters, levels, channel counts and degenerate signals",
    "tests apply each effect once and only check that it runs",
    ["effects/effects.py", "effects/_effects.py"],
    [("effects", "effects/effects.py"), ("kernels", "effects/_effects.py")],
    ["AudioEffect.apply", "effects.get_time_period_from_musical_rhythm"],
    "property-based testing against reference formulas",
    "static curves and sample-accurate references of each effect",
)
prop(
    "C25", "Distances behave as distances between signals",
    "Each measure equals its definition per channel: spectral distances vanish "
    "for equal signals, are non-negative and ignore gain when energies are "
    "normalised; signal-to-noise ratios shift by exactly the level difference, "
    "the scale-invariant one ignores the gain of the estimate, and the "
    "segmental one stays within its limits and decreases with noise.",
    ["inputs", "configurations"],
    "all signal pairs, levels, channels, ranges and spectrum settings",
    "tests only run them on one pair",
    ["distances/distances.py", "distances/_distances.py"],
    [("distances", "distances/distances.py"), ("kernels", "distances/_distances.py")],
    ["distances.log_spectral", "distances.itakura_saito", "distances.snr",
     "distances.si_sdr", "distances.fw_snr_seg"],
    "metamorphic property testing", "definitions and invariances",
)
prop(
    "C26", "Beamforming maps peak at the source with the right level",
    "Array and grid objects report their geometry, the simulated array signals "
    "carry each source with its propagation delay and spreading, and with the "
    "steering vectors that preserve location every beamformer's map has its "
    "maximum at a single source's grid position in near and far field, for "
    "every spectrum scaling; power-preserving ones report the source's power. "
    "Maps equal the published definitions, delay-and-sum in time domain "
    "recovers the emitted signal at the source, and source order does not "
    "matter.",
    ["inputs", "configurations"],
    "all array layouts, grids, source positions, frequencies and beamformers",
    "tests run one array and do not check the map's content",
    ["beamforming/beamforming.py", "beamforming/_beamforming.py"],
    [("maps", "beamforming/beamforming.py"), ("kernels", "beamforming/_beamforming.py")],
    ["beamforming.BeamformerDASFrequency.get_beamformer_map", "beamforming.mix_sources_on_array",
     "beamforming.SteeringVector", "beamforming.Grid"],
    "metamorphic property testing", "simulated monopoles at known positions",
)
prop(
    "C27", "Numeric helpers equal their mathematical definitions",
    "Smoothing, phase wrapping, averaging coefficients, interpolation, "
    "logarithmic means, frequency vectors, crossovers, auditory and "
    "fractional-octave frequencies, framing and overlap-add, powers of two and "
    "frequency warping equal their definitions for all inputs, keep constants "
    "constant, and are inverse to each other where a pair exists.",
    ["inputs"],
    "all vectors, shapes and parameters in the documented ranges",
    "tests evaluate each on a single vector",
    ["tools.py", "helpers"],
    [("tools", "tools.py"), ("helpers", "helpers/other.py")],
    ["dsptoolbox.tools"],
    "differential and metamorphic property testing", "numpy re-computation of each helper",
)
prop(
    "C28", "Playback and recording exchange exactly the requested samples",
    "What is handed to the audio device is the signal's samples on the chosen "
    "channels at its sampling rate and level, and recordings become signals "
    "with the recorded samples, rate, length and channels, normalised only "
    "when asked. Output streams carry the signal's rate, channel count and the "
    "requested settings and callbacks to the device and stop when told to, and "
    "device, latency and block size choices become the defaults.",
    ["inputs", "configurations", "histories"],
    "all signals, durations, channel selections, levels and block sizes",
    "there is no audio device in tests, so nothing of it is tested",
    ["audio_io/audio_io.py"],
    [("play and record", "audio_io/audio_io.py:play_and_record"),
     ("stream callback", "audio_io/audio_io.py")],
    ["audio_io.play", "audio_io.record", "audio_io.play_and_record",
     "audio_io.output_stream"],
    "property-based testing with a stand-in audio device",
    "a recording stand-in for the sound library",
)

prop(
    "C29", "Plots show the data they are asked for",
    "What a plot shows is the data of the object: lines, matrices and points "
    "equal the spectrum in dB with the requested normalisation and smoothing, the phase "
    "(wrapped or unwrapped, latency removed as asked), group delay, samples, "
    "level over time, cross-spectra, spectrogram, taps, poles and zeros, band "
    "responses and their sum, effect curves and array positions, each at its "
    "own frequencies, times or places and inside the requested range. Plotting "
    "changes neither samples nor settings.",
    ["inputs", "configurations"],
    "all signals, responses, filters, banks and spectra, ranges, "
    "normalisations and latencies",
    "tests only check that a figure can be made",
    ["classes/plots.py", "plots/plots.py", "classes/signal.py",
     "classes/filter.py", "classes/filterbank.py", "classes/spectrum.py",
     "filterbanks/_filterbank.py"],
    [("general templates", "plots/plots.py:general_plot"),
     ("curves of signals", "classes/signal.py:plot_phase"),
     ("curves of filters", "classes/filter.py:plot_magnitude")],
    ["Signal.plot_*", "Filter.plot_*", "FilterBank.plot_*", "Spectrum.plot_magnitude",
     "plots.general_plot", "transforms.plot_waterfall"],
    "differential property testing of figure contents",
    "curves read back from the axes against numpy re-computation",
)
prop(
    "C30", "Leaving out an argument means its documented default",
    "For every public function, method and constructor with optional "
    "arguments, leaving an argument out gives the same result as passing the "
    "value that its documentation states, alone or together with other "
    "omitted arguments, and whatever the call has inside the library "
    "(indices that mean the end, numbers, ranges, modes, windows, None for "
    "everything or for keeping what was set).",
    ["inputs", "configurations"],
    "all subsets of the omitted arguments of calls over the public interface",
    "tests pass arguments explicitly or only check that the call works",
    ["standard/", "classes/", "transfer_functions/transfer_functions.py",
     "effects/effects.py", "room_acoustics/room_acoustics.py",
     "filterbanks/filterbanks.py", "beamforming/beamforming.py", "transforms/transforms.py",
     "tools/", "generators/generators.py", "distances/distances.py"],
    [("constructors", "classes/signal.py:__init__"),
     ("effects", "effects/effects.py:set_advanced_parameters"),
     ("functions", "transfer_functions/transfer_functions.py:window_ir")],
    ["about 130 public functions and methods with some 350 optional arguments"],
    "metamorphic property testing with a table of documented defaults",
    "the same call in equal surroundings, with and without the documented "
    "values passed explicitly",
)

NOT_YET = set()


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["pid"]
            f.write(json.dumps(dict(
                id=p["pid"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mech"],
                             observe_at=p["observe"], hook_needed=None),
            )) + "\n")
    checks, na = [], []
    for p in P:
        mod = os.path.join(here, "checks", p["pid"].lower() + ".py")
        if not os.path.exists(mod) or p["pid"] in NOT_YET:
            na.append(dict(property=p["pid"], reason="check under construction"))
            continue
        checks.append(dict(
            property=p["pid"],
            quick_cmd=f"./run {p['pid']} --tier quick",
            thorough_cmd=f"./run {p['pid']} --tier thorough",
            evidence_file=f"evidence/{p['pid']}.json",
            technique=p["tech"] + " (Hypothesis, shrinking to a replay file)",
            level="exploration",
            level_note=p["note"] + "; generated search, no proof",
        ))
    man = dict(version=1, setup_cmd="./run --selftest", checks=checks, not_applicable=na)
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
