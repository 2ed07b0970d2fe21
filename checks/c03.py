"""C03: operations leave their inputs alone and results share no memory.

Every case is a history: a set of objects and several operations drawn from a
catalogue of public calls. After every call (also one that ends in an error)
the public state of all objects must be what it was (arrays, settings and what
the settings lead to), and no array reachable from the result may overlap the
memory of an array reachable from an input."""

import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import core, gen, objects
from vt.core import sub

PID = "C03"
warnings.simplefilter("ignore")
FS = 8000
N = 1024
TF, TR, RA, FX, FB, BF, T, D = (dsp.transfer_functions, dsp.transforms, dsp.room_acoustics,
                                dsp.effects, dsp.filterbanks, dsp.beamforming, dsp.tools,
                                dsp.distances)
W, SM, SC = dsp.Window, dsp.SpectrumMethod, dsp.SpectrumScaling
MODE = dsp.FilterBankMode
STFT = dict(window_length_samples=256, window_type=W.Hann, overlap_percent=50.0,
            fft_length_samples=None, detrend=False, padding=True, scaling=SC.FFTBackward)


class Env(dict):
    __getattr__ = dict.__getitem__


def settings(s, r):
    s.set_spectrum_parameters(
        method=r.choice([SM.FFT, SM.WelchPeriodogram]), smoothing=int(r.choice([0, 3])),
        window_length_samples=256, overlap_percent=50, pad_to_fast_length=False,
        scaling=r.choice([SC.FFTBackward, SC.PowerSpectralDensity, SC.AmplitudeSpectrum]))
    s.set_spectrogram_parameters(window_length_samples=128)
    return s


def env(c):
    r = np.random.default_rng(c["seed"])

    def sig(ch=2, n=N, cls=dsp.Signal, decay=False, scale=0.2):
        x = r.standard_normal((n, ch)) * scale
        if decay:
            x = x * np.exp(-np.arange(n)[:, None] / 90)
            x[20] = 0.95
            x[:20] *= 1e-3
        s = cls(None, x, FS, constrain_amplitude=c["limit"], activate_cache=c["cache"])
        settings(s, r)
        if not c["limit"] and c["cal"]:
            s.calibrated_signal = True
        if c["used"]:
            s.get_spectrum(), s.time_vector_s, s.get_spectrogram()
        return s

    e = Env(a=sig(), b=sig(), mono=sig(1), long=sig(2, 4096), ir=sig(2, cls=dsp.ImpulseResponse, decay=True),
            ir1=sig(1, cls=dsp.ImpulseResponse, decay=True), loud=sig(1, 4096, scale=0.9))
    e["z"] = sig()
    e.z.time_data_imaginary = r.standard_normal((N, 2)) * 0.1
    e["mb"] = dsp.MultiBandSignal([sig(), sig(), sig()], info=dict(x=[1, 2]))
    e["mbir"] = dsp.MultiBandSignal([sig(1, cls=dsp.ImpulseResponse, decay=True) for _ in range(2)])
    f = np.linspace(0, FS / 2, 65)
    e["f"] = f
    e["fq"] = np.linspace(100, 3000, 12)
    e["fw"] = np.array([100.0, 250, 600, 1500])
    e["cs"] = dsp.Spectrum(f, r.standard_normal((65, 2)) + 1j * r.standard_normal((65, 2)))
    e["ms"] = dsp.Spectrum(f, r.uniform(0.1, 1, (65, 2)))
    e.ms.set_coherence(r.uniform(0, 1, (65, 2)))
    e["ms2"] = dsp.Spectrum(f, r.uniform(0.1, 1, (65, 2)))
    e.ms2.set_interpolator_parameters(dsp.InterpolationDomain.Magnitude)
    e["sosf"] = dsp.Filter.from_sos(gen.stable_sos(c["seed"], 2), FS)
    e["sosf2"] = dsp.Filter.from_sos(gen.stable_sos(c["seed"] + 1, 2), FS)
    e["zpkf"] = dsp.Filter.iir_filter(3, 1000.0, dsp.FilterPassType.Lowpass, FS)
    e["fir"] = dsp.Filter.fir_filter(30, 1000.0, dsp.FilterPassType.Lowpass, FS)
    e["firo"] = dsp.Filter.fir_filter(31, 2000.0, dsp.FilterPassType.Lowpass, FS)
    e["firup"] = dsp.Filter.fir_filter(30, 3000.0, dsp.FilterPassType.Lowpass, 16000)
    e["ba"] = dsp.Filter.from_ba(r.uniform(-1, 1, 4), np.r_[1.0, 0.3, 0.1], FS)
    for q in (e.sosf, e.ba):
        if c["zi"]:
            q.initialize_zi(2)
    e["fb"] = dsp.FilterBank([dsp.Filter.from_sos(gen.stable_sos(c["seed"] + i, 1), FS)
                              for i in range(3)], info=dict(k="v"))
    e["fb2"] = dsp.FilterBank([dsp.Filter.fir_filter(20, 500.0 * (i + 1), dsp.FilterPassType.Lowpass, FS)
                               for i in range(2)])
    e["x1"] = r.standard_normal(200)
    e["x2"] = r.standard_normal((200, 2))
    e["xc"] = r.standard_normal((65, 2)) + 1j * r.standard_normal((65, 2))
    e["pos"] = r.uniform(0.1, 1, 200)
    e["order"] = np.array([1, 0])
    e["lorder"] = [2, 0, 1]
    e["range"] = [100.0, 2000.0]
    e["win"] = r.uniform(0.1, 1, 9)
    e["gains"] = np.array([3.0, -2.0])
    e["params"] = dict(STFT)
    e["signals"] = [sig(1), sig(2)]
    e["filters"] = [e.sosf2.copy(), e.zpkf.copy()]
    e["spectra"] = [e.cs.copy(), e.ms2.copy()]
    e["wins"] = r.uniform(0.1, 1, (N, 2))
    e["coh"] = r.uniform(0, 1, (65, 2))
    e["sos"] = gen.stable_sos(c["seed"], 2)
    e["bv"], e["av"] = r.uniform(-1, 1, 5), np.r_[1.0, 0.2]
    e["zv"], e["pv"] = np.array([0.5, -0.3]), np.array([0.1, 0.2])
    e["mel"] = np.abs(r.standard_normal((20, 65)))
    e["ints"] = r.integers(-30000, 30000, 50).astype(np.int16)
    e["floats"] = r.uniform(-1.3, 1.3, 50)
    return e


OPS = {}


def op(group, **kw):
    OPS.setdefault(group, {}).update(kw)


# ------------------------------------------------------------------- catalogue
op("editing",
   pad=lambda e: dsp.pad_trim(e.a, 1300), trim=lambda e: dsp.pad_trim(e.mb, 500, False),
   pad_same=lambda e: dsp.pad_trim(e.z, N), pad_bad=lambda e: dsp.pad_trim(e.a, -2),
   trim_level=lambda e: dsp.trim_with_level_threshold(e.ir, -30),
   trim_level_none=lambda e: dsp.trim_with_level_threshold(e.a, -300),
   fade=lambda e: dsp.fade(e.a, dsp.FadeType.Linear, 0.02),
   fade_log=lambda e: dsp.fade(e.z, dsp.FadeType.Logarithmic, 0.02, at_end=False),
   fade_exp=lambda e: dsp.fade(e.ir, dsp.FadeType.Exponential, 0.02, at_start=False),
   fade_none=lambda e: dsp.fade(e.a, dsp.FadeType.NoFade),
   fade_nowhere=lambda e: dsp.fade(e.a, dsp.FadeType.Linear, 0.02, False, False),
   fade_bad=lambda e: dsp.fade(e.a, dsp.FadeType.Linear, 5.0),
   append=lambda e: dsp.append_signals(e.signals), append2=lambda e: dsp.append_signals([e.a, e.long]),
   append_cut=lambda e: dsp.append_signals([e.a, e.long], at_end=False),
   append_mb=lambda e: dsp.append_signals([e.mb, e.mb.copy()]),
   append_bad=lambda e: dsp.append_signals([e.a, e.long], allow_padding_trimming=False),
   append_one=lambda e: dsp.append_signals([e.a, e.z]),
   resample=lambda e: dsp.resample(e.a, 6000), resample_up=lambda e: dsp.resample(e.ir, 16000, True),
   resample_same=lambda e: dsp.resample(e.a, FS),
   norm=lambda e: dsp.normalize(e.a, -3), norm_rms=lambda e: dsp.normalize(e.mb, -20, False, True),
   norm_z=lambda e: dsp.normalize(e.z, -3), norm_each=lambda e: dsp.normalize(e.ir, -1, True, True),
   frac_delay=lambda e: dsp.fractional_delay(e.a, 0.00137), frac_one=lambda e: dsp.fractional_delay(e.a, 0.001, [1], True),
   frac_mb=lambda e: dsp.fractional_delay(e.mb, 0.00031, keep_length=True),
   frac_zero=lambda e: dsp.fractional_delay(e.a, 0), frac_bad=lambda e: dsp.fractional_delay(e.a, -1),
   delay=lambda e: dsp.delay(e.a, 7), delay_one=lambda e: dsp.delay(e.mb, 3, [0], True),
   delay_zero=lambda e: dsp.delay(e.a, 0),
   detrend=lambda e: dsp.detrend(e.a, 2), detrend_mb=lambda e: dsp.detrend(e.mb, 0),
   gain=lambda e: dsp.apply_gain(e.a, 3.0), gain0=lambda e: dsp.apply_gain(e.a, 0.0),
   gains=lambda e: dsp.apply_gain(e.z, e.gains), gain_mb=lambda e: dsp.apply_gain(e.mb, -2.0), gain_none=lambda e: dsp.apply_gain(e.mb, np.zeros(2)),
   gain_f=lambda e: dsp.apply_gain(e.sosf, 2.0), gain_fir=lambda e: dsp.apply_gain(e.fir, 2.0),
   gain_zpk=lambda e: dsp.apply_gain(e.zpkf, -5.0), gain_ba=lambda e: dsp.apply_gain(e.ba, -5.0),
   gain_fb=lambda e: dsp.apply_gain(e.fb, -5.0),
   length=lambda e: dsp.modify_signal_length(e.a, -0.01, 0.1), length_none=lambda e: dsp.modify_signal_length(e.a, None, None),
   length_mb=lambda e: dsp.modify_signal_length(e.mb, 0.01, None),
   time_sel=lambda e: dsp.trim_with_time_selection(e.a, 0.01, 0.05),
   time_sel_none=lambda e: dsp.trim_with_time_selection(e.ir, None, None),
   time_sel_mb=lambda e: dsp.trim_with_time_selection(e.mb, 0.01, None),
   dither=lambda e: dsp.dither(e.a), dither_t=lambda e: dsp.dither(e.a, False, truncate=True),
   dither_f=lambda e: dsp.dither(e.a, noise_shaping_filterbank=e.fb),
   envelope=lambda e: dsp.envelope(e.a), envelope_rms=lambda e: dsp.envelope(e.mb, False, 50))

op("measures",
   latency=lambda e: dsp.latency(e.a, e.b), latency_self=lambda e: dsp.latency(e.a),
   latency_poly=lambda e: dsp.latency(e.a, e.b, 2), latency_mb=lambda e: dsp.latency(e.mb, polynomial_points=1),
   crest=lambda e: dsp.crest_factor(e.a), crest_true=lambda e: dsp.crest_factor(e.a, use_true_peak=True),
   lufs=lambda e: dsp.lufs_integrated(e.long), lufs_loud=lambda e: dsp.lufs_integrated(e.loud),
   lufs_short=lambda e: dsp.lufs_integrated(e.a),
   activity=lambda e: dsp.activity_detector(e.a, -10), activity_f=lambda e: dsp.activity_detector(e.ir, -20, 1, True, e.sosf),
   true_peak=lambda e: dsp.true_peak_level(e.a), true_peak_mb=lambda e: dsp.true_peak_level(e.mb),
   rms=lambda e: dsp.rms(e.a), rms_mb=lambda e: dsp.rms(e.mb, False), rms_z=lambda e: dsp.rms(e.z),
   log_spectral=lambda e: D.log_spectral(e.a, e.b, f_range_hz=e.range),
   log_spectral_fft=lambda e: D.log_spectral(e.a, e.b, SM.FFT, e.range, False),
   log_spectral_par=lambda e: D.log_spectral(e.a, e.b, SM.WelchPeriodogram, e.range, True, dict(window_length_samples=128)),
   itakura=lambda e: D.itakura_saito(e.a, e.b, SM.FFT, e.range), snr=lambda e: D.snr(e.a, e.b),
   itakura_bad=lambda e: D.itakura_saito(e.a, e.mono), si_sdr=lambda e: D.si_sdr(e.a, e.b),
   si_sdr_mono=lambda e: D.si_sdr(e.mono, e.a), fwsnr=lambda e: D.fw_snr_seg(e.long, e.long.copy(), e.range),
   diff=lambda e: dsp.spectral_difference(e.a, e.b), diff_s=lambda e: dsp.spectral_difference(e.ms, e.ms2, 3.0),
   diff_mixed=lambda e: dsp.spectral_difference(e.ms, e.a, energy_normalization=False),
   diff_bad=lambda e: dsp.spectral_difference(e.a, e.mono),
   append_spectra=lambda e: dsp.append_spectra(e.spectra), append_spectra2=lambda e: dsp.append_spectra([e.ms, e.ms2]),
   append_spectra_c=lambda e: dsp.append_spectra([e.cs, e.cs.copy()], False))

op("transfer",
   deconv=lambda e: TF.spectral_deconvolve(e.a, e.mono), deconv_r=lambda e: TF.spectral_deconvolve(e.a, e.b, True, [50, 3000], padding=True),
   deconv_n=lambda e: TF.spectral_deconvolve(e.a, e.b, False, keep_original_length=True),
   deconv_bad=lambda e: TF.spectral_deconvolve(e.a, e.long),
   win_ir=lambda e: TF.window_ir(e.ir, 400, offset_samples=0), win_ir2=lambda e: TF.window_ir(e.ir, 300, False, at_start=False),
   win_list=lambda e: TF.window_ir(e.ir, 400, window_type=[W.Hann, W.Hamming]),
   win_tukey=lambda e: TF.window_ir_tukey(e.ir, 0.001, 0.02), win_tukey2=lambda e: TF.window_ir_tukey(e.ir, None, 0.01),
   win_center=lambda e: TF.window_centered_ir(e.ir, 300), win_center2=lambda e: TF.window_centered_ir(e.ir, 3000),
   tf=lambda e: TF.compute_transfer_function(e.a, e.b, 256), tf_h1=lambda e: TF.compute_transfer_function(e.a, e.mono, 256, TF.TransferFunctionType.H1),
   tf_h3=lambda e: TF.compute_transfer_function(e.a, e.b, 256, TF.TransferFunctionType.H3),
   average=lambda e: TF.average_irs(e.ir), average_m=lambda e: TF.average_irs(e.ir, False, False),
   average_same=lambda e: TF.average_irs(e.ir1),
   min_mag=lambda e: TF.min_phase_from_mag(e.ms, FS), lin_mag=lambda e: TF.lin_phase_from_mag(e.ms, FS),
   lin_mag_gd=lambda e: TF.lin_phase_from_mag(e.ms2, FS, 5.0, False), min_mag_len=lambda e: TF.min_phase_from_mag(e.cs, FS, 200),
   min_ir=lambda e: TF.min_phase_ir(e.ir), min_ir_h=lambda e: TF.min_phase_ir(e.ir, False, 4), min_ir_a=lambda e: TF.min_phase_ir(e.ir, alpha=0.5),
   gd=lambda e: TF.group_delay(e.ir), gd2=lambda e: TF.group_delay(e.ir, False, 3, True), gd3=lambda e: TF.group_delay(e.a, False, 3),
   min_gd=lambda e: TF.minimum_group_delay(e.ir, 3, 2), ex_gd=lambda e: TF.excess_group_delay(e.ir, 3, True),
   min_ph=lambda e: TF.minimum_phase(e.ir, padding_factor=2), fdw=lambda e: TF.window_frequency_dependent(e.ir, 5),
   ir_filter=lambda e: TF.ir_to_filter(e.ir, 1), ir_filters=lambda e: TF.ir_to_filter(e.ir, None, "min"),
   ir_filter_lin=lambda e: TF.ir_to_filter(e.ir, 0, "lin"), ir_filters_d=lambda e: TF.ir_to_filter(e.ir, None),
   filter_ir=lambda e: TF.filter_to_ir(e.fir), filter_irs=lambda e: TF.filter_to_ir(e.fb2),
   filter_ir_bad=lambda e: TF.filter_to_ir(e.sosf),
   dirac=lambda e: TF.combine_ir_with_dirac(e.ir, 1000, True), dirac_n=lambda e: TF.combine_ir_with_dirac(e.ir, 1000, False, 4, "energy"),
   find_lat=lambda e: TF.find_ir_latency(e.ir), find_lat2=lambda e: TF.find_ir_latency(e.ir, False),
   harmonics=lambda e: TF.harmonics_from_chirp_ir(e.ir1, e.range, 1.0, 2), hda=lambda e: TF.harmonic_distortion_analysis(
       e.ir1, e.range, 0.05, 2, generate_plot=False),
   trim_ir=lambda e: TF.trim_ir(e.ir), trim_ir1=lambda e: TF.trim_ir(e.ir, 1, None),
   csm=lambda e: TF.complex_smoothing(e.ir, 3, TF.SmoothingDomain.RealImaginary),
   csm2=lambda e: TF.complex_smoothing(e.ir, 3, TF.SmoothingDomain.MagnitudePhase),
   csm3=lambda e: TF.complex_smoothing(e.ir, 3, TF.SmoothingDomain.Power))

op("transforms",
   cepstrum=lambda e: TR.cepstrum(e.ir), cepstrum_r=lambda e: TR.cepstrum(e.a, False),
   from_cep=lambda e: TR.from_complex_cepstrum(e.xc, FS), mel=lambda e: TR.log_mel_spectrogram(e.a, 1, e.range, 12, False, e.params),
   mel_d=lambda e: TR.log_mel_spectrogram(e.a, 0, None, 10, False), melfb=lambda e: TR.mel_filterbank(e.f, e.range, 10),
   mfcc=lambda e: TR.mfcc(e.a, 0, None, False, e.params), mfcc_f=lambda e: TR.mfcc(e.a, 1, e.mel, False, dict(window_length_samples=128)),
   istft=lambda e: TR.istft(e.a.get_spectrogram()[2], e.a), istft_p=lambda e: TR.istft(e.a.get_spectrogram()[2], None, e.params, FS),
   cwt=lambda e: TR.cwt(e.mono, e.fw, TR.MorletWavelet(None, 1.0), None),
   cwt_ch=lambda e: TR.cwt(e.a, e.fw, TR.MorletWavelet(None, 1.0), e.order), cwt_s=lambda e: TR.cwt(e.a, e.fw, TR.MorletWavelet(None, 1.0), np.array([1]), True),
   chroma=lambda e: TR.chroma_stft(e.a), hilbert=lambda e: TR.hilbert(e.a), hilbert_mb=lambda e: TR.hilbert(e.mb),
   hilbert_ir=lambda e: TR.hilbert(e.ir), vqt=lambda e: TR.vqt(e.long, e.order, octaves=e.setdefault("oct", [2, 3]), bins_per_octave=4),
   ms_enc=lambda e: TR.stereo_mid_side(e.a, True), ms_dec=lambda e: TR.stereo_mid_side(e.a, False), ms_bad=lambda e: TR.stereo_mid_side(e.mono, True),
   laguerre=lambda e: TR.laguerre(e.signals[0], 0.3), warp=lambda e: TR.warp(e.ir1, 0.3, True, 200), warp_bark=lambda e: TR.warp(e.ir1, "bark", False, 200),
   warp_f=lambda e: TR.warp_filter(e.sosf, 0.2), warp_zpk=lambda e: TR.warp_filter(e.zpkf, -0.2), warp_fir=lambda e: TR.warp_filter(e.ba, 0.2),
   lpc=lambda e: TR.lpc(e.a, 6, 256), lpc_s=lambda e: TR.lpc(e.a, 6, 256, True, True), dft=lambda e: TR.dft(e.a, e.fq),
   dft_z=lambda e: TR.dft(e.z, e.fq), bank=lambda e: TR.spectrum_via_filterbank(e.a, e.fq[:4], 1.0, order=2), bank_z=lambda e: TR.spectrum_via_filterbank(
       e.a, e.fq[:3], None, 80.0, 2, True))

op("rooms",
   rt=lambda e: RA.reverb_time(e.ir, RA.ReverbTime.T20), rt_start=lambda e: RA.reverb_time(e.ir, RA.ReverbTime.EDT, e.setdefault("start", np.array([20, 20]))),
   rt_mb=lambda e: RA.reverb_time(e.mbir, RA.ReverbTime.Adaptive), rt_no=lambda e: RA.reverb_time(e.ir, RA.ReverbTime.T20, 20, False),
   rt_bad=lambda e: RA.reverb_time(e.a), modes=lambda e: RA.find_modes(e.ir, e.setdefault("fr", [50, 900])), modes_a=lambda e: RA.find_modes(e.ir, [50, 900], 20, 3, True),
   conv=lambda e: RA.convolve_rir_on_signal(e.a, e.ir1), conv2=lambda e: RA.convolve_rir_on_signal(e.a, e.ir1, False, False),
   start=lambda e: RA.find_ir_start(e.ir), **{
       f"d{i}": (lambda d: lambda e: RA.descriptors(e.ir, d))(d)
       for i, d in enumerate(RA.RoomAcousticsDescriptor)},
   dm=lambda e: RA.descriptors(e.mbir, RA.RoomAcousticsDescriptor.D50, False),
   rir=lambda e: RA.generate_synthetic_rir(e.setdefault("room", RA.ShoeboxRoom([4, 3, 2.5], 0.3)), e.setdefault("src", [1.0, 1, 1]),
                                           e.setdefault("rec", np.array([3.0, 2, 1.2])), FS, 0.1, max_order=2))

FXL = dict(sub_=lambda e: FX.SpectralSubtractor(threshold_rms_dbfs=-20, block_length_s=0.032),
           sub_spec=lambda e: FX.SpectralSubtractor(False, -30, 0.032, e.setdefault("noise", np.full(129, 0.1))),
           dist=lambda e: FX.Distortion(20, 0), comp=lambda e: FX.Compressor(-15), trem=lambda e: FX.Tremolo(0.5, FX.LFO(3, "harmonic")),
           trem_arr=lambda e: FX.Tremolo(0.5, e.setdefault("mod", np.linspace(-1, 1, N))), chorus=lambda e: FX.Chorus(2, 8),
           chorus_arr=lambda e: FX.Chorus(e.setdefault("dep", np.array([1.0, 2])), e.setdefault("base", np.array([5.0, 9]))),
           ddelay=lambda e: FX.DigitalDelay(20, 0.3))
for _n, _f in FXL.items():
    for _o in ("a", "mb", "mono", "ir"):
        op("effects", **{f"{_n}_{_o}": (lambda f, o: lambda e: f(e).apply(e[o]))(_f, _o)})

op("filters",
   filt=lambda e: e.sosf.filter_signal(e.a) if not hasattr(e.sosf, "zi") else e.sosf2.filter_signal(e.a),
   filt_ch=lambda e: e.zpkf.filter_signal(e.a, 0), filt_chs=lambda e: e.zpkf.filter_signal(e.a, e.order), filt_fir=lambda e: e.fir.filter_signal(e.a),
   filt_zero=lambda e: e.sosf.filter_signal(e.a, zero_phase=True), filt_none=lambda e: e.fir.filter_signal(e.a, []),
   filt_zi=lambda e: e.sosf.copy().filter_signal(e.a, activate_zi=True), filt_ir=lambda e: e.ba.filter_signal(e.ir), filt_z=lambda e: e.ba.filter_signal(e.z),
   filt_bad=lambda e: e.ba.filter_signal(e.a, [5]),
   down=lambda e: e.fir.filter_and_resample_signal(e.a, 4000), up=lambda e: e.firup.filter_and_resample_signal(e.a, 16000),
   f_ir=lambda e: e.sosf.get_ir(200), f_ir0=lambda e: e.fir.get_ir(200, True), f_tf=lambda e: e.sosf.get_transfer_function(e.fq),
   f_tf_fir=lambda e: e.fir.get_transfer_function(e.fq), f_gd=lambda e: e.sosf.get_group_delay(e.fq),
   **{f"co_{m.name}_{k}": (lambda m, k: lambda e: e[k].get_coefficients(m))(m, k) for m in
      (objects.ZPK, objects.SOS, objects.BA) for k in ("sosf", "zpkf", "ba", "fir")},
   meta=lambda e: e.sosf.metadata, copy=lambda e: e.zpkf.copy(), merge=lambda e: dsp.merge_filters(e.filters), merge_b=lambda e: dsp.merge_filters(e.fb),
   merge_fir=lambda e: dsp.merge_filters([e.fir, e.firo]), merge_mix=lambda e: dsp.merge_filters([e.zpkf, e.sosf]), merge_one=lambda e: dsp.merge_filters([e.ba]),
   rs_f=lambda e: dsp.resample_filter(e.sosf, 16000), rs_zpk=lambda e: dsp.resample_filter(e.zpkf, 6000), rs_fir=lambda e: dsp.resample_filter(e.ba, 16000),
   rs_same=lambda e: dsp.resample_filter(e.sosf, FS), comp=lambda e: FB.complementary_fir_filter(e.fir), qmf=lambda e: FB.qmf_crossover(e.firo),
   arma=lambda e: FB.arma(e.ir1, 4, 2), arma_b=lambda e: FB.arma(e.ir1, 4, 0, "burg"), spec=lambda e: dsp.Spectrum.from_filter(e.f, e.sosf, True),
   spec_b=lambda e: dsp.Spectrum.from_filterbank(e.f, e.fb, MODE.Parallel), iir=lambda e: dsp.Filter.iir_filter(2, e.range, dsp.FilterPassType.Bandpass, FS),
   fb_p=lambda e: e.fb.filter_signal(e.a, MODE.Parallel), fb_s=lambda e: e.fb.filter_signal(e.a, MODE.Sequential), fb_sum=lambda e: e.fb.filter_signal(e.a, MODE.Summed),
   fb_zero=lambda e: e.fb.filter_signal(e.ir, MODE.Parallel, zero_phase=True), fb_mb=lambda e: e.fb.filter_multiband_signal(e.mb),
   fb_ir=lambda e: e.fb.get_ir(300, MODE.Parallel), fb_tf=lambda e: e.fb.get_transfer_function(e.fq, MODE.Parallel), fb_tf2=lambda e: e.fb.get_transfer_function(e.fq, MODE.Summed),
   fb_app=lambda e: dsp.append_filterbanks([e.fb, e.fb2]), fb_copy=lambda e: e.fb.copy(), lr=lambda e: FB.linkwitz_riley_crossovers(e.range, e.setdefault("ord", [2, 4]), FS),
   oct=lambda e: FB.fractional_octave_bands(e.range, 1, 2, FS), gamma=lambda e: FB.auditory_filters_gammatone(e.range, 2, FS),
   lr_f=lambda e: FB.linkwitz_riley_crossovers([500], [2], FS).filter_signal(e.a, MODE.Parallel))

op("objects",
   copy=lambda e: e.a.copy(), copy_ir=lambda e: e.ir.copy(), copy_mb=lambda e: e.mb.copy(), copy_sp=lambda e: e.ms.copy(), copy_z=lambda e: e.z.copy(),
   new=lambda e: dsp.Signal(None, e.x2, FS), new1=lambda e: dsp.Signal(None, e.x1, FS), new_l=lambda e: dsp.Signal(None, e.x2, FS, True), new_c=lambda e: dsp.Signal(None, e.xc, FS),
   new_ir=lambda e: dsp.ImpulseResponse(None, e.x2, FS), new_sp=lambda e: dsp.Spectrum(e.f, e.xc), new_spm=lambda e: dsp.Spectrum(e.f, e.coh),
   from_td=lambda e: dsp.Signal.from_time_data(e.x2, FS, False), set_td=lambda e: setter(e.a, "time_data", e.x2), set_im=lambda e: setter(e.a, "time_data_imaginary", e.wins),
   set_f=lambda e: setter(e.cs, "frequency_vector_hz", e.f), set_sp=lambda e: setter(e.cs, "spectral_data", e.xc), set_ba=lambda e: setter(e.ba, "ba", [e.bv, e.av]),
   set_sos=lambda e: setter(e.sosf, "sos", e.sos), set_zpk=lambda e: setter(e.zpkf, "zpk", [e.zv, e.pv, 1.0]),
   f_ba=lambda e: dsp.Filter.from_ba(e.bv, e.av, FS), f_sos=lambda e: dsp.Filter.from_sos(e.sos, FS), f_zpk=lambda e: dsp.Filter.from_zpk(e.zv, e.pv, 1.0, FS),
   withdata=lambda e: e.a.copy_with_new_time_data(e.x2), withdata_ir=lambda e: e.ir.copy_with_new_time_data(e.x2),
   irsig=lambda e: dsp.ImpulseResponse.from_signal(e.a), irsig_z=lambda e: dsp.ImpulseResponse.from_signal(e.z), window=lambda e: e.ir.copy().set_window(e.wins),
   chans=lambda e: e.a.get_channels(e.order), chan=lambda e: e.a.get_channels(0), chans_sp=lambda e: e.ms.get_channels([1]), sum_=lambda e: e.a.sum_channels(),
   sum_sp=lambda e: e.cs.sum_channels(), sum1=lambda e: e.mono.sum_channels(), swap=lambda e: e.a.copy().swap_channels(e.order), swap_sp=lambda e: e.ms.copy().swap_channels(e.order),
   rem=lambda e: e.a.copy().remove_channel(0), add=lambda e: e.a.copy().add_channel(None, e.x1, FS), add_z=lambda e: e.z.copy().add_channel(None, e.x2, FS),
   add_long=lambda e: e.a.copy().add_channel(None, e.long.time_data, FS), add_bad=lambda e: e.a.copy().add_channel(None, e.x1, 100),
   spectrum=lambda e: e.a.get_spectrum(), csm=lambda e: e.b.get_csm(), stft=lambda e: e.a.get_spectrogram(), spectrum_ir=lambda e: e.ir.get_spectrum(),
   csm_again=lambda e: (e.a.get_csm(), e.a.get_csm())[1], spectrum_again=lambda e: (e.b.get_spectrum(), e.b.get_spectrum())[1],
   meta=lambda e: e.a.metadata, meta_mb=lambda e: e.mb.metadata, meta_txt=lambda e: e.ir.metadata_str,
   tosp=lambda e: dsp.Spectrum.from_signal(e.a), tosp_c=lambda e: dsp.Spectrum.from_signal(fft(e.ir), True), tosig=lambda e: e.cs.to_signal(FS), tosig_l=lambda e: e.cs.to_signal(FS, 0.05),
   interp=lambda e: e.ms.get_interpolated_spectrum(e.fq, dsp.SpectrumType.Power), interp_same=lambda e: e.ms2.get_interpolated_spectrum(e.f, dsp.SpectrumType.Magnitude),
   energy=lambda e: e.ms.get_energy(), coh=lambda e: e.ms2.copy().set_coherence(e.coh), resample=lambda e: e.ms.copy().resample(e.fq), trim=lambda e: e.ms.copy().trim(100, 2000),
   trim_none=lambda e: e.ms.copy().trim(None, None), warp=lambda e: e.cs.copy().warp(0.3, FS), smooth=lambda e: e.cs.copy().apply_octave_smoothing(3.0), spgain=lambda e: e.ms.copy().apply_gain(e.gains),
   spnorm=lambda e: e.ms.copy().normalize(500.0), mb=lambda e: lists(e, "mb"), mb_col=lambda e: e.mb.collapse(), mb_all=lambda e: e.mb.get_all_bands(1), mb_td=lambda e: e.mb.get_all_time_data(),
   fbl=lambda e: lists(e, "fb"), it=lambda e: [np.array(q) for q in e.a], cal=lambda e: dsp.CalibrationData(e.a, 94.0).calibrate_signal(e.b),
   cal_mb=lambda e: dsp.CalibrationData(e.mono, 94.0).calibrate_signal(e.mb), cal_add=lambda e: dsp.CalibrationData(e.mono, 94.0).add_calibration_channel((e.wins[:, 0], FS)),
   info=lambda e: [o.show_info() for o in (e.a, e.mb, e.sosf, e.fb, e.ir)] and None)

op("arrays",
   smooth=lambda e: T.fractional_octave_smoothing(e.x2, 0.02, 3), smooth_w=lambda e: T.fractional_octave_smoothing(e.x1, None, 3, None, e.win),
   smooth_clip=lambda e: T.fractional_octave_smoothing(e.x1, None, 12, clip_values=True), smooth_one=lambda e: T.fractional_octave_smoothing(e.x1, 0.5, 3),
   wrap=lambda e: T.wrap_phase(e.x1), interp=lambda e: T.interpolate_fr(e.f, e.xc, e.fq), interp_db=lambda e: T.interpolate_fr(e.f, e.coh, e.fq, "amplitude2db"),
   interp_c=lambda e: T.interpolate_fr(e.f, e.coh, e.fq, "db2power", "cubic"), interp_bad=lambda e: T.interpolate_fr(e.fq, e.coh, e.f),
   tsmooth=lambda e: T.time_smoothing(e.x2, FS, 0.01), tsmooth2=lambda e: T.time_smoothing(e.x1, FS, 0.01, 0.02), tsmooth0=lambda e: T.time_smoothing(e.x1, FS, 0.0, 0.0),
   logf=lambda e: T.log_frequency_vector(e.range, 3), db=lambda e: T.to_db(e.pos, True), db2=lambda e: T.to_db(e.x2, False, 60), db3=lambda e: T.to_db(e.xc, True, 60, None),
   undb=lambda e: T.from_db(e.x1, True), exact=lambda e: T.get_exact_value_at_frequency(e.f, e.coh[:, 0], 333.0), logmean=lambda e: T.log_mean(e.pos), logmean2=lambda e: T.log_mean(e.coh, 1),
   cross=lambda e: T.frequency_crossover(e.range)(e.f), cross_lin=lambda e: T.frequency_crossover(e.range, False)(e.f), erb=lambda e: T.erb_frequencies(e.range), octs=lambda e: T.fractional_octave_frequencies(3, (100.0, 2000.0), True),
   **{f"scale_{s.name}": (lambda s: lambda e: T.scale_spectrum(e.xc, s, 128, FS, e.setdefault("w128", np.hanning(128))))(s) for s in SC},
   scale_now=lambda e: T.scale_spectrum(e.xc, SC.AmplitudeSpectrum, 128, FS), frames=lambda e: T.framed_signal(e.x2, 64, 16), frames_all=lambda e: T.framed_signal(e.x2, 200, 200, False),
   rebuild=lambda e: T.reconstruct_from_framed_signal(e.setdefault("fr3", np.random.default_rng(1).uniform(-1, 1, (32, 9, 2))), 16, e.setdefault("w32", np.hanning(32)), 100),
   rebuild_n=lambda e: T.reconstruct_from_framed_signal(e.setdefault("fr3", np.random.default_rng(1).uniform(-1, 1, (32, 9, 2))), 16, "hann"),
   rebuild_no=lambda e: T.reconstruct_from_framed_signal(e.setdefault("fr3", np.random.default_rng(1).uniform(-1, 1, (32, 9, 2))), 32),
   conv=lambda e: T.convert_sample_representation(e.ints, "i16", "f64"), conv2=lambda e: T.convert_sample_representation(e.floats, "f64", "i24", False),
   conv3=lambda e: T.convert_sample_representation(e.floats, "f64", "f32"), conv4=lambda e: T.convert_sample_representation(e.ints, "i16", "u8", True, True),
   conv5=lambda e: T.convert_sample_representation(e.setdefault("f32", np.float32([0.2, -0.4, 1.0])), "f32", "f64"),
   warp=lambda e: T.warp_frequency(e.f, FS, 0.4), rhythm=lambda e: FX.get_frequency_from_musical_rhythm("quarter", 120))


def beam(e):
    if "mics" not in e:
        r = np.random.default_rng(5)
        e["points"] = dict(x=r.uniform(-0.5, 0.5, 4), y=r.uniform(-0.5, 0.5, 4), z=np.zeros(4))
        e["mics"] = BF.MicArray(e.points)
        e["line1"], e["line2"] = np.linspace(-0.5, 0.5, 3), np.linspace(-0.4, 0.4, 4)
        e["grid"] = BF.Regular2DGrid(e.line1, e.line2, ["x", "y"], 1.0)
        e["msig"] = dsp.Signal(None, r.standard_normal((N, 4)) * 0.1, FS)
        e["mmono"] = dsp.Signal(None, r.standard_normal((N, 1)) * 0.1, FS)
        e.msig.set_spectrum_parameters(window_length_samples=128)
        e["coord"] = [0.1, 0.2, 1.0]
        e["sources"] = [BF.MonopoleSource(e.mmono, e.coord), BF.MonopoleSource(e.mmono, [0, 0, 1.5])]
        e["sv"] = BF.SteeringVector(BF.SteeringVectorType.Inverse)
    return e


BM = dict(das=BF.BeamformerDASFrequency, clean=BF.BeamformerCleanSC, orth=BF.BeamformerOrthogonal,
          func=BF.BeamformerFunctional, mvdr=BF.BeamformerMVDR)
op("beamforming",
   **{k: (lambda k: lambda e: BM[k](beam(e).msig, e.mics, e.grid, e.sv).get_beamformer_map(
       1000.0, **({"remove_csm_diagonal": False} if k in ("das",) else {})))(k) for k in BM},
   time=lambda e: BF.BeamformerDASTime(beam(e).msig, e.mics, e.grid).get_beamformer_output(),
   mix=lambda e: BF.mix_sources_on_array(beam(e).sources, e.mics), source=lambda e: beam(e).sources[0].get_signals_on_array(e.mics),
   array=lambda e: BF.MicArray(beam(e).points), grid2=lambda e: BF.Regular2DGrid(beam(e).line1, e.line2, ["x", "z"], 1.0),
   grid=lambda e: BF.Grid(beam(e).points), line=lambda e: BF.LineGrid(beam(e).line1, "x", 0.0, 1.0), 
   rng=lambda e: beam(e).mics.get_maximum_frequency_range(), 
   steer=lambda e: beam(e).sv.get_vector(e.setdefault("wn", np.array([1.0, 2.0])), grid=e.grid, mic=e.mics))

op("plots",
   mag=lambda e: e.a.plot_magnitude(smoothing=6), mag_n=lambda e: e.a.plot_magnitude(normalize=dsp.MagnitudeNormalization.OneKhz), time=lambda e: e.z.plot_time(), time_ir=lambda e: e.ir.plot_time(),
   spl=lambda e: e.a.plot_spl(), spl_ir=lambda e: e.ir.plot_spl(True, window_length_s=0.01), gd=lambda e: e.ir.plot_group_delay(smoothing=3, remove_ir_latency="peak"), phase=lambda e: e.ir.plot_phase(smoothing=3, unwrap=True),
   stft=lambda e: e.a.plot_spectrogram(), csm=lambda e: e.a.plot_csm(), bode=lambda e: e.ir.plot_bode(smoothing=3, show_group_delay=True), bode2=lambda e: e.ir.plot_bode(), f_mag=lambda e: e.sosf.plot_magnitude(256),
   f_gd=lambda e: e.sosf.plot_group_delay(256), f_ph=lambda e: e.fir.plot_phase(256), f_zp=lambda e: e.ba.plot_zp(), f_tap=lambda e: e.fir.plot_taps(), fb=lambda e: e.fb.plot_magnitude(256, MODE.Parallel),
   fb_ph=lambda e: e.fb.plot_phase(256, MODE.Summed), fb_gd=lambda e: e.fb.plot_group_delay(256, MODE.Sequential), sp=lambda e: e.ms.plot_magnitude(), sp_n=lambda e: e.ms.plot_magnitude(True, dsp.MagnitudeNormalization.Max), coh=lambda e: e.ms.plot_coherence(),
   line=lambda e: dsp.plots.general_plot(e.f, e.coh), sub_=lambda e: dsp.plots.general_subplots_line(e.f, e.coh, xlabels="x", ylabels=["y", "z"]), mat=lambda e: dsp.plots.general_matrix_plot(e.coh), fall=lambda e: TR.plot_waterfall(e.a, 0, 40, e.params),
   mel=lambda e: TR.log_mel_spectrogram(e.a, 1, e.range, 12, True, e.params))


def setter(o, name, value):
    c = o.copy()
    setattr(c, name, value)
    return c


def fft(s):
    c = s.copy()
    c.set_spectrum_parameters(SM.FFT, scaling=SC.FFTBackward)
    return c


def lists(e, kind):
    """Containers do not keep the list that was passed to them."""
    if kind == "mb":
        q = [e.a, e.b]
        o = dsp.MultiBandSignal(q)
        o.add_band(e.a.copy())
        o.remove_band(0)
        o.swap_bands([1, 0])
        core.check(len(q) == 2 and q[0] is e.a and q[1] is e.b, "list of bands was changed")
    else:
        q = [e.sosf, e.sosf2]
        o = dsp.FilterBank(q)
        o.add_filter(e.ba.copy())
        o.remove_filter(0)
        o.swap_filters([1, 0])
        core.check(len(q) == 2 and q[0] is e.sosf and q[1] is e.sosf2, "list of filters was changed")
    return None


def history(c, group):
    e = env(c)
    ops = OPS[group]
    names = sorted(ops)
    before = {k: objects.state(v) for k, v in e.items()}
    bad = 0
    done = []
    more = np.random.default_rng(c["seed"] + 17).permutation(len(names))[: c["more"]]
    for i in c["ops"] + [int(q) for q in more]:
        name = names[i % len(names)]
        done.append(name)
        error, r = None, None
        known = set(e)
        if group == "beamforming":
            beam(e)
        for k in set(e) - known:
            before[k] = objects.state(e[k])
        known = set(e)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                r = ops[name](e)
            except core.Violation:
                raise
            except Exception as err:
                error, bad = err, bad + 1
        for k, v in e.items():
            if k not in before:  # made for this call
                before[k] = objects.state(v)
                continue
            d = objects.differ(objects.state(v), before[k], k)
            core.check(d is None, f"{group}.{name}{' (error)' if error else ''} changed its input: {d}",
                       key=f"{group}.{name}")
        if group == "plots":
            import matplotlib.pyplot as plt
            plt.close("all")
        elif error is None:
            for k, v in e.items():
                core.check(not objects.shared(r, v),
                           f"result of {group}.{name} shares memory with {k}", key=f"{group}.{name}")
    return f"{done[-1]}{'!' if bad else ''}"


def strategy(n):
    return gen.fd(seed=gen.seeds(), limit=st.booleans(), cache=st.booleans(), used=st.booleans(),
                  cal=st.booleans(), zi=st.booleans(),
                  ops=st.lists(st.integers(0, 199), min_size=1, max_size=n), more=st.integers(0, n).map(lambda v: 2 * v))


def _register(group, n, quick, thorough):
    def run(c):
        return history(c, group)
    run.__name__ = group
    sub(PID, strategy(n), quick=quick, thorough=thorough)(run)


for _g, _n, _q, _t in [("editing", 6, 40, 600), ("measures", 5, 30, 400), ("transfer", 5, 30, 400),
                       ("transforms", 5, 30, 400), ("rooms", 4, 25, 300), ("effects", 4, 25, 300),
                       ("filters", 6, 40, 600), ("objects", 8, 40, 600), ("arrays", 8, 30, 400),
                       ("beamforming", 4, 12, 150), ("plots", 2, 6, 100)]:
    _register(_g, _n, _q, _t)
