"""Documented default values of the public functions and methods."""

import numpy as np

import dsptoolbox as dsp

DEFAULTS = {
    "Signal.__init__": dict(path=None, time_data=None, sampling_rate_hz=None, constrain_amplitude=False, activate_cache=False),
    "Signal.add_channel": dict(path=None, new_time_data=None, sampling_rate_hz=None, allow_padding_trimming=True),
    "Signal.from_time_data": dict(constrain_amplitude=True),
    "Signal.get_csm": dict(force_computation=False),
    "Signal.get_spectrogram": dict(force_computation=False),
    "Signal.get_spectrum": dict(force_computation=False),
    "Signal.remove_channel": dict(channel_number=-1),
    "Signal.set_spectrogram_parameters": dict(window_length_samples=1024, window_type=dsp.Window.Hann, overlap_percent=50.0, fft_length_samples=None, detrend=False, padding=True, scaling=dsp.SpectrumScaling.FFTBackward),
    "Signal.set_spectrum_parameters": dict(method=dsp.SpectrumMethod.WelchPeriodogram, smoothing=0, pad_to_fast_length=True, window_length_samples=1024, window_type=dsp.Window.Hann, overlap_percent=50, detrend=True, average='mean', scaling=dsp.SpectrumScaling.FFTBackward),
    "ImpulseResponse.__init__": dict(path=None, time_data=None, sampling_rate_hz=None, constrain_amplitude=True, activate_cache=False),
    "ImpulseResponse.from_time_data": dict(constrain_amplitude=True),
    "MultiBandSignal.__init__": dict(bands=None, same_sampling_rate=True, info=None),
    "MultiBandSignal.add_band": dict(index=-1),
    "MultiBandSignal.get_all_bands": dict(channel=0),
    "MultiBandSignal.remove_band": dict(index=-1, return_band=False),
    "Filter.filter_signal": dict(channels=None, activate_zi=False, zero_phase=False),
    "Filter.fir_filter": dict(window=dsp.Window.Hamming),
    "Filter.fir_from_file": dict(channel=0),
    "Filter.get_group_delay": dict(in_seconds=True),
    "Filter.get_ir": dict(zero_phase=False),
    "Filter.iir_filter": dict(filter_design_method=dsp.IirDesignMethod.Butterworth, passband_ripple_db=None, stopband_attenuation_db=None),
    "Filter.initialize_zi": dict(number_of_channels=1),
    "FilterBank.__init__": dict(filters=None, same_sampling_rate=True, info=None),
    "FilterBank.add_filter": dict(index=-1),
    "FilterBank.filter_multiband_signal": dict(activate_zi=False, zero_phase=False),
    "FilterBank.filter_signal": dict(activate_zi=False, zero_phase=False),
    "FilterBank.get_ir": dict(zero_phase=False),
    "FilterBank.initialize_zi": dict(number_of_channels=1),
    "FilterBank.remove_filter": dict(index=-1, return_filter=False),
    "Spectrum.apply_octave_smoothing": dict(window_type=dsp.Window.Hann),
    "Spectrum.from_filter": dict(complex=False),
    "Spectrum.from_filterbank": dict(complex=False),
    "Spectrum.from_signal": dict(complex=False),
    "Spectrum.get_energy": dict(f_lower_hz=None, f_upper_hz=None),
    "Spectrum.normalize": dict(reference_channel=None),
    "Spectrum.remove_channel": dict(channel_number=-1),
    "Spectrum.set_interpolator_parameters": dict(domain=dsp.InterpolationDomain.Power, scheme=dsp.InterpolationScheme.Linear, edges_handling=dsp.InterpolationEdgeHandling.ZeroPad),
    "Spectrum.sum_channels": dict(power_sum=True),
    "Spectrum.to_signal": dict(length_seconds=None),
    "Spectrum.trim": dict(inclusive=True),
    "CalibrationData.__init__": dict(calibration_spl_db=94, high_snr=True),
    "CalibrationData.add_calibration_channel": dict(allow_padding_trimming=False),
    "CalibrationData.calibrate_signal": dict(force_update=False),
    "latency": dict(in2=None, polynomial_points=0),
    "pad_trim": dict(in_the_end=True),
    "trim_with_level_threshold": dict(at_start=True, at_end=True),
    "fade": dict(length_fade_seconds=None, at_start=True, at_end=True),
    "append_signals": dict(allow_padding_trimming=True, at_end=True),
    "resample": dict(rescaling=False),
    "crest_factor": dict(in_db=True, use_true_peak=False),
    "activity_detector": dict(threshold_dbfs=-20, channel=0, relative_to_peak=True, pre_filter=None, attack_time_ms=1, release_time_ms=25),
    "normalize": dict(peak_normalization=True, each_channel=False),
    "fractional_delay": dict(channels=None, keep_length=False, order=30, side_lobe_suppression_db=60),
    "delay": dict(channels=None, keep_length=False),
    "detrend": dict(polynomial_order=0),
    "rms": dict(in_dbfs=True),
    "envelope": dict(analytic=True, window_length_samples=None),
    "dither": dict(triangular_distribution=True, epsilon=5.960464477539063e-08, noise_shaping_filterbank=None, truncate=False),
    "spectral_difference": dict(octave_fraction_smoothing=0.0, energy_normalization=True, complex=False, dynamic_range_db=100.0),
    "append_spectra": dict(complex_if_available=True),
    "trim_with_time_selection": dict(inclusive=True),
    "transfer_functions.spectral_deconvolve": dict(apply_regularization=True, start_stop_hz=None, threshold_db=-30.0, padding=False, keep_original_length=False),
    "transfer_functions.window_ir": dict(adaptive=True, constant_percentage=0.75, window_type=dsp.Window.Hann, at_start=True, offset_samples=0, left_to_right_flank_length_ratio=1.0),
    "transfer_functions.window_ir_tukey": dict(window_flank_type=dsp.Window.Hann),
    "transfer_functions.compute_transfer_function": dict(mode=dsp.transfer_functions.TransferFunctionType.H2),
    "transfer_functions.average_irs": dict(time_average=True, normalize_energy=True),
    "transfer_functions.min_phase_from_mag": dict(ir_length_samples=None),
    "transfer_functions.lin_phase_from_mag": dict(group_delay_ms=None, check_causality=True, minimum_group_delay_factor=1.0),
    "transfer_functions.min_phase_ir": dict(use_real_cepstrum=True, padding_factor=8, alpha=1.0),
    "transfer_functions.group_delay": dict(analytic_computation=True, smoothing=0, remove_ir_latency=False),
    "transfer_functions.minimum_group_delay": dict(smoothing=0, padding_factor=8),
    "transfer_functions.excess_group_delay": dict(smoothing=0, remove_ir_latency=False, analytic_computation=False),
    "transfer_functions.minimum_phase": dict(use_real_cepstrum=True, padding_factor=8),
    "transfer_functions.window_frequency_dependent": dict(end_window_value_db=-50.0),
    "transfer_functions.ir_to_filter": dict(channel=0, phase_mode='direct'),
    "transfer_functions.combine_ir_with_dirac": dict(order=8, normalization=None),
    "transfer_functions.window_centered_ir": dict(window_type=dsp.Window.Hann),
    "transfer_functions.find_ir_latency": dict(compare_to_min_phase_ir=True),
    "transfer_functions.harmonics_from_chirp_ir": dict(n_harmonics=5, offset_percentage=0.05),
    "transfer_functions.harmonic_distortion_analysis": dict(chirp_range_hz=None, chirp_length_s=None, n_harmonics=8, smoothing=12, generate_plot=True),
    "transfer_functions.trim_ir": dict(channel=None, start_offset_s=0.02),
    "transfer_functions.complex_smoothing": dict(window=dsp.Window.Hann),
    "room_acoustics.reverb_time": dict(mode=dsp.room_acoustics.ReverbTime.Adaptive, ir_start=None, automatic_trimming=True),
    "room_acoustics.find_modes": dict(f_range_hz=[50, 200], dist_hz=5, prominence_db=None, antiresonances=False),
    "room_acoustics.convolve_rir_on_signal": dict(keep_peak_level=True, keep_length=True),
    "room_acoustics.find_ir_start": dict(threshold_dbfs=-20),
    "room_acoustics.generate_synthetic_rir": dict(total_length_seconds=0.5, add_noise_reverberant_tail=False, apply_bandpass=False, use_detailed_absorption=False, max_order=None),
    "room_acoustics.ShoeboxRoom.__init__": dict(t60_s=None, absorption_coefficient=None),
    "room_acoustics.ShoeboxRoom.get_analytical_transfer_function": dict(max_mode_order=10, generate_plot=True, c=343),
    "room_acoustics.ShoeboxRoom.get_mixing_time": dict(mode='perceptual', n_reflections=400, c=343),
    "room_acoustics.ShoeboxRoom.get_room_modes": dict(max_order=6, c=343.0),
    "room_acoustics.ShoeboxRoom.modal_density": dict(c=343),
    "room_acoustics.descriptors": dict(automatic_trimming_rir=True),
    "filterbanks.reconstructing_fractional_octave_bands": dict(frequency_range_hz=[63, 16000], octave_fraction=1, overlap=1, slope=0, n_samples=2048, sampling_rate_hz=None),
    "filterbanks.fractional_octave_bands": dict(frequency_range_hz=[31.5, 16000.0], octave_fraction=1, filter_order=6, sampling_rate_hz=None),
    "filterbanks.auditory_filters_gammatone": dict(frequency_range_hz=[20, 20000], resolution=1, sampling_rate_hz=None),
    "filterbanks.weighting_filter": dict(a_weighting=True, sampling_rate_hz=None),
    "filterbanks.LatticeLadderFilter.__init__": dict(c_coefficients=None, sampling_rate_hz=None),
    "filterbanks.PhaseLinearizer.set_parameters": dict(delay_increase_percent=100.0, additional_length_samples=0, trapezoidal_integration=True, ensure_integer_delay=False),
    "filterbanks.FirDesigner.set_parameters": dict(delay_increase_ms=0.0, additional_length_samples=0, trapezoidal_integration=True, ensure_integer_delay=False),
    "filterbanks.ParallelFilter.set_coefficients": dict(fir=None),
    "filterbanks.ParallelFilter.set_parameters": dict(delay_iir_samples=0, fir_offset_ms=0.0),
    "filterbanks.ExponentialAverageFilter.__init__": dict(accuracy_step_response=0.95),
    "filterbanks.StateVariableFilter.process_sample": dict(channel=0),
    "filterbanks.matched_biquad": dict(q_factor=None),
    "filterbanks.gaussian_kernel": dict(kernel_boundary_value=0.01, approximation_order=12, sampling_rate_hz=None),
    "filterbanks.arma": dict(order_b=0, method_ar='yule-walker', cutoff_b_percentage=0.0),
    "transforms.cepstrum": dict(complex=True),
    "transforms.log_mel_spectrogram": dict(channel=0, range_hz=None, n_bands=40, generate_plot=True, stft_parameters=None),
    "transforms.mel_filterbank": dict(range_hz=None, n_bands=40, normalize=True),
    "transforms.mfcc": dict(channel=0, mel_filters=None, generate_plot=True, stft_parameters=None),
    "transforms.istft": dict(original_signal=None, parameters=None, sampling_rate_hz=None, window_length_samples=None, window_type=None, overlap_percent=None, fft_length_samples=None, padding=None, scaling=None),
    "transforms.MorletWavelet.__init__": dict(b=None, h=None, scale=1.0, precision_bounds=1e-05, step=0.005, interpolation=True),
    "transforms.cwt": dict(channel=None, synchrosqueezed=False, apply_synchrosqueezed_normalization=False),
    "transforms.chroma_stft": dict(tuning_a_hz=440, compression=0.5, plot_channel=-1),
    "transforms.vqt": dict(channel=None, q=1, gamma=50, octaves=[1, 5], bins_per_octave=24, a4_tuning=440, window='hann'),
    "transforms.warp": dict(total_length=None),
    "transforms.lpc": dict(synthesize_encoded_signal=False, use_burg_method=False, hop_size_samples=None, window_type=dsp.Window.Hann),
    "transforms.spectrum_via_filterbank": dict(bandwidth_octaves=None, bandwidth_hz=None, order=8, zero_phase=False),
    "tools.fractional_octave_smoothing": dict(bin_spacing_octaves=None, num_fractions=3, window_type='hann', window_vec=None, clip_values=False),
    "tools.get_smoothing_factor_ema": dict(accuracy=0.95),
    "tools.interpolate_fr": dict(mode=None, interpolation_scheme='linear'),
    "tools.time_smoothing": dict(descending_time_s=None),
    "tools.to_db": dict(dynamic_range_db=None, min_value=2.2250738585072014e-308),
    "tools.get_exact_value_at_frequency": dict(f=1000.0),
    "tools.log_mean": dict(axis=0),
    "tools.frequency_crossover": dict(logarithmic=True),
    "tools.erb_frequencies": dict(freq_range_hz=[20, 20000], resolution=1, reference_frequency_hz=1000),
    "tools.fractional_octave_frequencies": dict(num_fractions=1, frequency_range=(20, 20000.0), return_cutoff=False),
    "tools.scale_spectrum": dict(window=None),
    "tools.framed_signal": dict(keep_last_frames=True),
    "tools.reconstruct_from_framed_signal": dict(window=None, original_signal_length=None, safety_threshold=0.0001),
    "tools.convert_sample_representation": dict(cast_output=True, output_in_bytes=False),
    "tools.next_power_2": dict(mode='closest'),
    "generators.chirp": dict(type_of_chirp=dsp.generators.ChirpType.Logarithmic, range_hz=None, length_seconds=1.0, peak_level_dbfs=-10.0, number_of_channels=1, fade=dsp.FadeType.Logarithmic, phase_offset=0.0, padding_end_seconds=0.0),
    "generators.noise": dict(type_of_noise=dsp.generators.NoiseType.White, peak_level_dbfs=-10.0, number_of_channels=1, fade=dsp.FadeType.Logarithmic, padding_end_seconds=0.0),
    "generators.dirac": dict(delay_samples=0, number_of_channels=1),
    "generators.oscillator": dict(length_seconds=1.0, mode=dsp.generators.WaveForm.Harmonic, harmonic_cutoff_hz=None, peak_level_dbfs=-10.0, number_of_channels=1, uncorrelated=False, fade=dsp.FadeType.Logarithmic, padding_end_seconds=0.0),
    "distances.log_spectral": dict(method=dsp.SpectrumMethod.WelchPeriodogram, f_range_hz=[20, 20000], energy_normalization=True, spectrum_parameters=None),
    "distances.itakura_saito": dict(method=dsp.SpectrumMethod.WelchPeriodogram, f_range_hz=[20, 20000], energy_normalization=True, spectrum_parameters=None),
    "distances.fw_snr_seg": dict(f_range_hz=[20, 10000.0], snr_range_db=[-10, 35], gamma=0.2),
    "beamforming.MicArray.get_maximum_frequency_range": dict(lowest_he=4, c=343),
    "beamforming.MicArray.he_to_hz": dict(c=343),
    "beamforming.MicArray.hz_to_he": dict(c=343),
    "beamforming.SteeringVector.__init__": dict(formulation=dsp.beamforming.SteeringVectorType.TrueLocation),
    "beamforming.BeamformerDASFrequency.__init__": dict(c=343),
    "beamforming.BeamformerDASFrequency.get_beamformer_map": dict(octave_fraction=3, remove_csm_diagonal=True),
    "beamforming.BeamformerDASFrequency.get_frequency_range_from_he": dict(range_he=[4, 10]),
    "beamforming.BeamformerCleanSC.get_beamformer_map": dict(octave_fraction=3, maximum_iterations=None, safety_factor=0.5, remove_csm_diagonal=False),
    "beamforming.BeamformerOrthogonal.get_beamformer_map": dict(octave_fraction=3, number_eigenvalues=None),
    "beamforming.BeamformerFunctional.get_beamformer_map": dict(octave_fraction=3, gamma=10),
    "beamforming.BeamformerMVDR.get_beamformer_map": dict(octave_fraction=3, gamma=10),
    "beamforming.BeamformerDASTime.__init__": dict(c=343),
    "beamforming.MonopoleSource.get_signals_on_array": dict(c=343),
    "beamforming.mix_sources_on_array": dict(c=343),
    "effects.SpectralSubtractor.__init__": dict(adaptive_mode=True, threshold_rms_dbfs=-40, block_length_s=0.1, spectrum_to_subtract=False),
    "effects.SpectralSubtractor.set_advanced_parameters": dict(overlap_percent=50, window_type=dsp.Window.Hann, noise_forgetting_factor=0.9, subtraction_factor=2, subtraction_exponent=2, ad_attack_time_ms=0.5, ad_release_time_ms=30),
    "effects.SpectralSubtractor.set_parameters": dict(adaptive_mode=None, threshold_rms_dbfs=None, block_length_s=None, spectrum_to_subtract=False),
    "effects.Distortion.__init__": dict(distortion_level=20, post_gain_db=0, type_of_distortion=dsp.effects.DistortionType.Arctan),
    "effects.Distortion.set_advanced_parameters": dict(type_of_distortion=dsp.effects.DistortionType.Arctan, distortion_levels_db=20, mix_percent=100, offset_db=-np.inf, post_gain_db=0),
    "effects.Compressor.__init__": dict(threshold_dbfs=-10, attack_time_ms=0.5, release_time_ms=20, ratio=3, relative_to_peak_level=True),
    "effects.Compressor.set_advanced_parameters": dict(knee_factor_db=0, pre_gain_db=0, post_gain_db=0, mix_percent=100, automatic_make_up_gain=True, downward_compression=True),
    "effects.Compressor.set_parameters": dict(threshold_dbfs=None, attack_time_ms=None, release_time_ms=None, ratio=None, relative_to_peak_level=None),
    "effects.LFO.__init__": dict(waveform='harmonic', random_phase=False, smooth=0),
    "effects.LFO.get_waveform": dict(length_samples=None),
    "effects.LFO.set_parameters": dict(frequency_hz=None, waveform=None, random_phase=None, smooth=None),
    "effects.Tremolo.__init__": dict(depth=0.5, modulator=None),
    "effects.Tremolo.set_parameters": dict(depth=None, modulator=None),
    "effects.Chorus.__init__": dict(depths_ms=5, base_delays_ms=15, modulators=None, mix_percent=100),
    "effects.Chorus.set_parameters": dict(depths_ms=None, base_delays_ms=None, modulators=None, mix_percent=None),
    "effects.DigitalDelay.__init__": dict(delay_time_ms=300, feedback=0.1),
    "effects.DigitalDelay.set_advanced_parameters": dict(saturation=None),
    "effects.DigitalDelay.set_parameters": dict(delay_time_ms=None, feedback=None),
}
