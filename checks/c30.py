"""C30: leaving out an argument means its documented default.

Every case makes the same call twice in equal, freshly built surroundings: once
as it stands and once with a random subset of the omitted arguments passed
explicitly with the values that the documentation states (checks/c30_table.py).
Results (public state and what it leads to) must be the same."""

import contextlib
import functools
import inspect
import io
import sys
import warnings

import numpy as np
import scipy.signal as sps
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks import c03
from checks.c30_table import DEFAULTS
from vt import core, gen, objects
from vt.core import sub

PID = "C30"
TF, TR, RA, FX, FB, BF, T, D, G = (dsp.transfer_functions, dsp.transforms, dsp.room_acoustics, dsp.effects, dsp.filterbanks,
                                   dsp.beamforming, dsp.tools, dsp.distances, dsp.generators)
SM, SC, MODE, PT = dsp.SpectrumMethod, dsp.SpectrumScaling, dsp.FilterBankMode, dsp.FilterPassType
FS = c03.FS


def resolve(path):
    o = dsp
    for k in path.split("."):
        owner, o = o, getattr(o, k)
    return owner, o


class Filler:
    """Passes omitted arguments of the public calls explicitly."""

    def __init__(self, seed, share):
        self.r = np.random.default_rng(seed)
        self.share = share
        self.filled = {}

    def wrap(self, f, table, key):
        sig = inspect.signature(f)
        names = list(sig.parameters)

        @functools.wraps(f)
        def g(*a, **k):
            given = set(names[: len(a)]) | set(k)
            for p, v in table.items():
                if p not in given and p in names and self.r.random() < self.share:
                    k[p] = v.copy() if isinstance(v, list) else v
                    self.filled[key, p] = self.filled.get((key, p), 0) + 1
            return f(*a, **k)

        return g

    @contextlib.contextmanager
    def active(self):
        undo = []
        mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "dsptoolbox" and m is not None]
        try:
            for key, table in DEFAULTS.items():
                owner, f = resolve(key)
                name = key.split(".")[-1]
                if inspect.isclass(owner):
                    raw = next(vars(c)[name] for c in owner.__mro__ if name in vars(c))
                    own = next(c for c in owner.__mro__ if name in vars(c))
                    kind = type(raw) if isinstance(raw, (staticmethod, classmethod)) else None
                    fn = raw.__func__ if kind else raw
                    w = self.wrap(fn, table, key)
                    undo.append((own, name, raw))
                    setattr(own, name, kind(w) if kind else w)
                else:
                    w = self.wrap(f, table, key)
                    for m in mods:
                        for n, v in list(vars(m).items()):
                            if v is f:
                                undo.append((m, n, v))
                                setattr(m, n, w)
            yield self
        finally:
            for o, n, v in reversed(undo):
                setattr(o, n, v)


@contextlib.contextmanager
def repeatable():
    """Unseeded random numbers become the same in both runs."""
    old = np.random.default_rng
    n = [0]

    def seeded(seed=None, *a, **k):
        if seed is None:
            n[0] += 1
            seed = n[0]
        return old(seed, *a, **k)

    np.random.seed(7)
    np.random.default_rng = seeded
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            yield
    finally:
        np.random.default_rng = old


# ------------------------------------------------------------ further calls
def fig(r):
    import matplotlib.pyplot as plt

    plt.close("all")
    return r


def after(o, f):
    f(o)
    return o


def two_states(f, s, *a):
    """A realtime-like use: result and the state it leaves."""
    return [f.process_sample(float(v), *a) for v in s[:40]]


def bands(e):
    return dsp.MultiBandSignal([e.a.copy(), e.b.copy(), e.a.copy().sum_channels().add_channel(None, e.x1, FS)])


def rates(kind):
    """Containers refuse a second sampling rate unless told otherwise."""
    if kind == "mb":
        return dsp.MultiBandSignal([dsp.Signal(None, np.ones((8, 1)), 100), dsp.Signal(None, np.ones((8, 1)), 200)])
    return dsp.FilterBank([dsp.Filter.from_ba([1.0], [1.0, 0.1], 100), dsp.Filter.from_ba([1.0], [1.0, 0.1], 200)])


def long_ir(e, n=16384, fs=FS):
    x = np.random.default_rng(3).standard_normal((n, 1)) * np.exp(-np.arange(n) / n * 12)[:, None]
    x[:100] *= 1e-4
    x[100] = 3
    return dsp.ImpulseResponse(None, x / 4, fs)


def reals(e, n):
    return np.random.default_rng(n).standard_normal(n)


def stereo(e):
    return dsp.Signal(None, np.random.default_rng(4).standard_normal((9000, 2)) * np.r_[np.full(3000, 0.01), np.full(6000, 0.2)][:, None], FS, constrain_amplitude=False)


def wide(e, n=6000):
    return dsp.Signal(None, np.random.default_rng(4).standard_normal((n, 2)) * 0.2, 48000, constrain_amplitude=False)


def room():
    return RA.ShoeboxRoom([4, 3, 2.5], 0.4)


def kf():
    return FB.ParallelFilter(np.array([0.9 * np.exp(0.3j), 0.8 * np.exp(1j)]), 4, FS)


def crossing(q):
    return q(np.linspace(0, 4000, 50))


C03E = {(g, n) for g in c03.OPS for n in c03.OPS[g]}
MORE = dict(
    remove=lambda e: after(e.a.copy(), lambda s: s.remove_channel()), remove_sp=lambda e: after(e.ms.copy(), lambda s: s.remove_channel()),
    loud=lambda e: dsp.Signal(None, e.x2 * 3, FS), loud_ir=lambda e: dsp.ImpulseResponse(None, e.x2 * 3, FS), loud_td=lambda e: dsp.Signal.from_time_data(e.x2 * 3, FS),
    loud_ir_td=lambda e: dsp.ImpulseResponse.from_time_data(e.x2 * 3, FS), add_short=lambda e: after(e.a.copy(), lambda s: s.add_channel(None, e.x1, FS)),
    spectrogram=lambda e: after(e.long.copy(), lambda s: s.set_spectrogram_parameters()), spectrum=lambda e: after(e.long.copy(), lambda s: s.set_spectrum_parameters()),
    spectrum_fft=lambda e: after(dsp.Signal(None, reals(e, 1009), FS, constrain_amplitude=False), lambda s: s.set_spectrum_parameters(method=SM.FFT)),
    spectrum_now=lambda e: dsp.Signal(None, e.long.time_data, FS).get_spectrum(), csm_now=lambda e: dsp.Signal(None, e.long.time_data, FS).get_csm(),
    stft_now=lambda e: dsp.Signal(None, e.long.time_data, FS).get_spectrogram(), bands=lambda e: rates("mb"), filters=lambda e: rates("fb"), fb_mb=lambda e: e.fb.filter_multiband_signal(e.mb), fb_irs=lambda e: e.fb.get_ir(200, MODE.Parallel), f_sig=lambda e: e.sosf2.filter_signal(e.a), no_bands=lambda e: after(dsp.MultiBandSignal(), lambda m: m.add_band(e.a.copy())),
    no_filters=lambda e: after(dsp.FilterBank(), lambda m: m.add_filter(e.ba.copy())), add_band=lambda e: after(bands(e), lambda m: m.add_band(e.b.copy())), add_filter=lambda e: after(e.fb.copy(), lambda m: m.add_filter(e.ba.copy())),
    all_bands=lambda e: e.mb.get_all_bands(), remove_band=lambda e: (lambda m: [m.remove_band(), m])(bands(e)), remove_filter=lambda e: (lambda m: [m.remove_filter(), m])(e.fb.copy()),
    fir=lambda e: dsp.Filter.fir_filter(30, 1000.0, PT.Lowpass, FS), iir=lambda e: dsp.Filter.iir_filter(3, 1000.0, PT.Highpass, FS),
    zi=lambda e: after(e.sosf2.copy(), lambda f: f.initialize_zi()), zi_fir=lambda e: after(e.fir.copy(), lambda f: f.initialize_zi()),
    zi_bank=lambda e: (lambda b: [b.initialize_zi(), b.filter_signal(e.mono, MODE.Parallel, activate_zi=True)])(e.fb.copy()), gd=lambda e: e.sosf.get_group_delay(e.fq),
    ir=lambda e: e.sosf2.get_ir(128), ir_fir=lambda e: e.fir.get_ir(128), energy=lambda e: e.ms2.get_energy(), energy1=lambda e: e.ms2.get_energy(300.0), energy2=lambda e: e.ms2.get_energy(f_upper_hz=999.0),
    sp_sum=lambda e: after(e.cs.copy(), lambda s: s.sum_channels()), sp_norm=lambda e: after(e.ms.copy(), lambda s: s.normalize(500.0)), sp_par=lambda e: after(e.cs.copy(), lambda s: s.set_interpolator_parameters()),
    sp_edges=lambda e: (lambda s: [s.set_interpolator_parameters(), s.get_interpolated_spectrum(np.linspace(0, 5000, 40), dsp.SpectrumType.Magnitude)])(dsp.Spectrum(e.f[3:], e.coh[3:])),
    sp_new=lambda e: dsp.Spectrum(e.f[3:], e.coh[3:]).get_interpolated_spectrum(np.linspace(0, 5000, 40), dsp.SpectrumType.Magnitude),
    sp_trim=lambda e: after(e.ms.copy(), lambda s: s.trim(100.0, 2010.0)), sp_oct=lambda e: after(e.ms.copy(), lambda s: s.apply_octave_smoothing(3.0)), sp_f=lambda e: dsp.Spectrum.from_filter(e.f, e.sosf),
    sp_fb=lambda e: dsp.Spectrum.from_filterbank(e.f, e.fb, MODE.Parallel), sp_s=lambda e: dsp.Spectrum.from_signal(c03.fft(e.a)), sp_back=lambda e: e.cs.to_signal(FS),
    cal=lambda e: dsp.CalibrationData(e.mono).calibrate_signal(e.b), cal_low=lambda e: dsp.CalibrationData(e.long.get_channels([0])).calibrate_signal(e.b),
    cal_add=lambda e: after(dsp.CalibrationData(e.mono), lambda c: c.add_calibration_channel((e.x1, FS))), cal_same=lambda e: after(dsp.CalibrationData(e.mono), lambda c: c.add_calibration_channel((e.wins[:, 0], FS))),
    latency=lambda e: dsp.latency(e.a, dsp.delay(e.a, 5, keep_length=True)), latency_own=lambda e: dsp.latency(e.a), pad=lambda e: dsp.pad_trim(e.a, N2), level=lambda e: dsp.trim_with_level_threshold(stereo(e), -20.0),
    fade=lambda e: dsp.fade(e.a, dsp.FadeType.Linear), fade2=lambda e: dsp.fade(e.a, dsp.FadeType.Exponential), append=lambda e: dsp.append_signals([e.a, e.long]), resample=lambda e: dsp.resample(e.a, 6000),
    crest=lambda e: dsp.crest_factor(e.a), crest_mono=lambda e: dsp.crest_factor(e.mono), activity=lambda e: dsp.activity_detector(stereo(e)), activity_abs=lambda e: dsp.activity_detector(stereo(e), relative_to_peak=False),
    norm=lambda e: dsp.normalize(stereo(e), -3.0), fdelay=lambda e: dsp.fractional_delay(e.a, 0.00137), delay=lambda e: dsp.delay(e.a, 9), detrend=lambda e: dsp.detrend(dsp.Signal(None, e.x2 + 0.3, FS, constrain_amplitude=False)),
    rms=lambda e: dsp.rms(e.a), env=lambda e: dsp.envelope(e.a), dither=lambda e: dsp.dither(e.a), diff=lambda e: dsp.spectral_difference(e.ms, e.ms2),
    diff_c=lambda e: dsp.spectral_difference(e.cs, e.cs.copy().apply_gain(2.0)), diff_s=lambda e: dsp.spectral_difference(e.a, e.b), asp=lambda e: dsp.append_spectra([e.cs, e.cs.copy()]), sel=lambda e: dsp.trim_with_time_selection(e.a, 0.0101, 0.0503),
    deconv=lambda e: TF.spectral_deconvolve(e.a, e.b), deconv_r=lambda e: TF.spectral_deconvolve(wide(e), wide(e, 6000)), win=lambda e: TF.window_ir(e.ir, 400), win_c=lambda e: TF.window_ir(e.ir, 400, adaptive=False),
    win2=lambda e: TF.window_ir(long_ir(e), 1000), tukey=lambda e: TF.window_ir_tukey(e.ir, 0.001, 0.02), tf=lambda e: TF.compute_transfer_function(e.a, e.b, 256), avg=lambda e: TF.average_irs(e.ir),
    minmag=lambda e: TF.min_phase_from_mag(e.ms, FS), linmag=lambda e: TF.lin_phase_from_mag(e.ms, FS), linmag_g=lambda e: TF.lin_phase_from_mag(e.ms2, FS, 5.0), minir=lambda e: TF.min_phase_ir(e.ir),
    minir_h=lambda e: TF.min_phase_ir(e.ir, False), gdir=lambda e: TF.group_delay(e.ir), mgd=lambda e: TF.minimum_group_delay(e.ir), egd=lambda e: TF.excess_group_delay(e.ir), mph=lambda e: TF.minimum_phase(e.ir),
    fdw=lambda e: TF.window_frequency_dependent(e.ir, 5), irf=lambda e: TF.ir_to_filter(e.ir), dirac=lambda e: TF.combine_ir_with_dirac(e.ir, 1000, True), dirac2=lambda e: TF.combine_ir_with_dirac(e.ir1, 800, False),
    centre=lambda e: TF.window_centered_ir(e.ir, 300), lat=lambda e: TF.find_ir_latency(e.ir), harm=lambda e: TF.harmonics_from_chirp_ir(long_ir(e), [20.0, 3000.0], 1.5),
    hda=lambda e: fig(TF.harmonic_distortion_analysis(long_ir(e), [20.0, 3000.0], 1.5)), hda_p=lambda e: type(fig(TF.harmonic_distortion_analysis(long_ir(e), [20.0, 3000.0], 1.5)).get("plot")).__name__,
    trim=lambda e: TF.trim_ir(long_ir(e)), csm=lambda e: TF.complex_smoothing(e.ir, 3, TF.SmoothingDomain.RealImaginary), csm_p=lambda e: TF.complex_smoothing(e.ir, 6, TF.SmoothingDomain.Power),
    rt=lambda e: RA.reverb_time(long_ir(e)), modes=lambda e: RA.find_modes(long_ir(e, 4096, 1000)), conv=lambda e: RA.convolve_rir_on_signal(e.a, e.ir1), start=lambda e: RA.find_ir_start(e.ir),
    rir_d=lambda e: RA.generate_synthetic_rir(room(), [1.0, 1, 1], [3.0, 2, 1.2], FS, max_order=2), room=lambda e: room(),
    atf=lambda e: [np.asarray(v) for v in fig(room().get_analytical_transfer_function([1.0, 1, 1], [3.0, 2, 1.2], np.linspace(20, 300, 30)))[:2]], mix=lambda e: room().get_mixing_time(), mixp=lambda e: room().get_mixing_time("physical"),
    rmodes=lambda e: room().get_room_modes(), dens=lambda e: room().modal_density(np.array([30.0, 200.0])), d50=lambda e: RA.descriptors(long_ir(e), RA.RoomAcousticsDescriptor.D50),
    rfb=lambda e: FB.reconstructing_fractional_octave_bands(sampling_rate_hz=44100), rfb3=lambda e: FB.reconstructing_fractional_octave_bands(octave_fraction=3, sampling_rate_hz=44100), oct_=lambda e: FB.fractional_octave_bands(sampling_rate_hz=44100),
    gamma=lambda e: FB.auditory_filters_gammatone(sampling_rate_hz=44100), gamma_r=lambda e: FB.auditory_filters_gammatone([100.0, 2000], sampling_rate_hz=44100), weight=lambda e: FB.weighting_filter(sampling_rate_hz=48000),
    lattice=lambda e: FB.LatticeLadderFilter(np.array([0.3, -0.2]), sampling_rate_hz=FS).filter_signal(e.a), pl=lambda e: pl(e), fd=lambda e: fd(e), para=lambda e: after(kf(), lambda k: k.set_parameters()).fit_to_ir(e.ir1).get_ir(60),
    para_c=lambda e: after(kf(), lambda k: k.set_coefficients(np.array([[0.2, 0.3], [0.1, -0.5]]))).get_ir(60), ema=lambda e: two_states(FB.ExponentialAverageFilter(0.01, 0.02, FS), e.x1, 0), sv=lambda e: two_states(FB.StateVariableFilter(500, 1.0, FS), e.x1),
    biquad=lambda e: FB.matched_biquad(dsp.BiquadEqType.Peaking, 1000, 3.0, 2.0, FS), gauss=lambda e: FB.gaussian_kernel(0.003, sampling_rate_hz=FS), arma=lambda e: FB.arma(e.ir1, 4), arma2=lambda e: FB.arma(e.ir1, 4, 2),
    ceps=lambda e: TR.cepstrum(e.ir), mel=lambda e: fig(TR.log_mel_spectrogram(e.a))[:3], melfb=lambda e: TR.mel_filterbank(e.f), mfcc=lambda e: fig(TR.mfcc(e.a))[:3], istft=lambda e: TR.istft(e.a.get_spectrogram()[2], e.a),
    istft_p=lambda e: TR.istft(e.a.get_spectrogram()[2], None, e.params, FS), morlet=lambda e: TR.MorletWavelet(None, 1.0).get_wavelet(100.0, FS), morlet_b=lambda e: TR.MorletWavelet(1.0).get_wavelet(np.array([100.0, 300]), FS),
    cwt=lambda e: TR.cwt(e.a, e.fw, TR.MorletWavelet(None, 1.0)), cwt_s=lambda e: TR.cwt(e.a, e.fw, TR.MorletWavelet(None, 1.0), synchrosqueezed=True), chroma=lambda e: fig(TR.chroma_stft(e.a)), vqt=lambda e: TR.vqt(wide(e).get_channels([0])),
    warp=lambda e: TR.warp(e.ir1, 0.3, True), lpc=lambda e: TR.lpc(e.a, 6, 256), lpc_s=lambda e: TR.lpc(e.a, 6, 256, True), via=lambda e: TR.spectrum_via_filterbank(e.a, e.fq[:4], 1.0), via_hz=lambda e: TR.spectrum_via_filterbank(e.a, e.fq[:4], bandwidth_hz=50.0),
    smooth=lambda e: T.fractional_octave_smoothing(e.x2, 0.02), smooth_l=lambda e: T.fractional_octave_smoothing(e.x2 - 0.3), emaf=lambda e: T.get_smoothing_factor_ema(0.01, FS), interp=lambda e: T.interpolate_fr(e.f, e.coh, e.fq),
    tsm=lambda e: T.time_smoothing(e.x2, FS, 0.01), db=lambda e: T.to_db(e.x2 * (e.x2 > 0), True), exact=lambda e: T.get_exact_value_at_frequency(e.f, e.coh[:, 0]), lmean=lambda e: T.log_mean(e.coh), cross=lambda e: crossing(T.frequency_crossover(e.range)),
    erb=lambda e: T.erb_frequencies(), erb2=lambda e: T.erb_frequencies([100, 3000.0]), octs=lambda e: T.fractional_octave_frequencies(), octs3=lambda e: T.fractional_octave_frequencies(3), scale=lambda e: T.scale_spectrum(e.xc, SC.PowerSpectralDensity, 128, FS),
    frames=lambda e: T.framed_signal(e.x2, 64, 16), rebuild=lambda e: T.reconstruct_from_framed_signal(np.random.default_rng(1).uniform(-1, 1, (32, 9, 2)), 16), rebuild_h=lambda e: T.reconstruct_from_framed_signal(np.random.default_rng(1).uniform(-1, 1, (32, 9, 2)), 32, "hann"),
    convert=lambda e: [T.convert_sample_representation(e.floats, "f64", v) for v in ("f32", "i16", "u8")], pow2=lambda e: [T.next_power_2(v) for v in (3, 5, 11, 13, 23, 100, 300)], chirp=lambda e: G.chirp(sampling_rate_hz=FS), chirp2=lambda e: G.chirp(length_seconds=0.1, sampling_rate_hz=FS),
    noise=lambda e: G.noise(0.2, sampling_rate_hz=FS), dirac_g=lambda e: G.dirac(30, sampling_rate_hz=FS), osc=lambda e: G.oscillator(300.0, sampling_rate_hz=FS), osc_s=lambda e: G.oscillator(300.0, length_seconds=0.1, mode=G.WaveForm.Sawtooth, sampling_rate_hz=FS),
    ls=lambda e: D.log_spectral(wide(e), wide(e, 6000).copy_with_new_time_data(np.random.default_rng(9).standard_normal((6000, 2)) * 0.1)), isd=lambda e: D.itakura_saito(wide(e), wide(e, 6000).copy_with_new_time_data(np.random.default_rng(9).standard_normal((6000, 2)) * 0.1)),
    fw=lambda e: D.fw_snr_seg(wide(e, 20000), wide(e, 20000).copy_with_new_time_data(wide(e, 20000).time_data + np.random.default_rng(9).standard_normal((20000, 2)) * 0.1)),
    he=lambda e: [BF.MicArray(c03.beam(e).points).he_to_hz(3.0), e.mics.hz_to_he(300.0), e.mics.get_maximum_frequency_range()], steer=lambda e: BF.SteeringVector().get_vector(np.array([3.0, 9.0]), grid=c03.beam(e).grid, mic=e.mics),
    he_bf=lambda e: BF.BeamformerDASFrequency(c03.beam(e).msig, e.mics, e.grid, e.sv).get_frequency_range_from_he(), das=lambda e: c03.BM["das"](c03.beam(e).msig, e.mics, e.grid, BF.SteeringVector()).get_beamformer_map(1000.0),
    clean=lambda e: c03.BM["clean"](c03.beam(e).msig, e.mics, e.grid, e.sv).get_beamformer_map(1000.0), orth=lambda e: c03.BM["orth"](c03.beam(e).msig, e.mics, e.grid, e.sv).get_beamformer_map(1000.0),
    func=lambda e: c03.BM["func"](c03.beam(e).msig, e.mics, e.grid, e.sv).get_beamformer_map(1000.0), mvdr=lambda e: c03.BM["mvdr"](c03.beam(e).msig, e.mics, e.grid, e.sv).get_beamformer_map(1000.0),
    time=lambda e: BF.BeamformerDASTime(c03.beam(e).msig, e.mics, e.grid).get_beamformer_output(), mono=lambda e: c03.beam(e).sources[1].get_signals_on_array(e.mics), mixm=lambda e: BF.mix_sources_on_array(c03.beam(e).sources, e.mics),
    sub_=lambda e: FX.SpectralSubtractor().apply(stereo(e)), sub_a=lambda e: after(FX.SpectralSubtractor(True, -30.0, 0.032), lambda q: q.set_advanced_parameters()).apply(stereo(e)), sub_n=lambda e: after(FX.SpectralSubtractor(threshold_rms_dbfs=-25.0), lambda q: q.set_parameters()).apply(stereo(e)),
    dist=lambda e: FX.Distortion().apply(e.a), dist_a=lambda e: after(FX.Distortion(), lambda q: q.set_advanced_parameters()).apply(e.a), comp=lambda e: FX.Compressor().apply(stereo(e)), comp_t=lambda e: FX.Compressor(-25.0).apply(stereo(e)),
    comp_a=lambda e: after(FX.Compressor(-25.0), lambda q: q.set_advanced_parameters()).apply(stereo(e)), comp_p=lambda e: after(FX.Compressor(-25.0, 2, 30, 5), lambda q: q.set_parameters()).apply(stereo(e)),
    lfo=lambda e: FX.LFO(3.0).get_waveform(FS, 700), lfo_s=lambda e: FX.LFO(3.0, "square").get_waveform(FS, 4000), lfo_n=lambda e: FX.LFO(3.0).get_waveform(FS), lfo_p=lambda e: after(FX.LFO(3.0, "triangle", False, 2), lambda q: q.set_parameters()).get_waveform(FS, 900),
    trem=lambda e: FX.Tremolo().apply(stereo(e)), trem_p=lambda e: after(FX.Tremolo(0.7, FX.LFO(5.0)), lambda q: q.set_parameters()).apply(stereo(e)), chorus=lambda e: FX.Chorus().apply(stereo(e)), chorus_p=lambda e: after(FX.Chorus(3, 9, None, 60), lambda q: q.set_parameters()).apply(stereo(e)),
    diff_r=lambda e: dsp.spectral_difference(e.ms, dsp.Spectrum(e.f, np.geomspace(1, 1e-8, len(e.f))[:, None] * np.ones((1, e.ms.number_of_channels)))), trim_l=lambda e: TF.trim_ir(late(e)), start_l=lambda e: RA.find_ir_start(late(e)),
    linmag_c=lambda e: raises(lambda: TF.lin_phase_from_mag(e.ms2, FS, 0.3)), pl_c=lambda e: pl(e, np.unwrap(-np.linspace(0, 30, 65) + 2 * np.sin(np.linspace(0, 9, 65)))), fd_c=lambda e: fd(e, 0.004 + 0.0013 * np.sin(np.linspace(0, 9, 65))),
    para_f=lambda e: after(FB.ParallelFilter(np.array([0.9 * np.exp(0.3j), 0.8 * np.exp(1j)]), 12, FS), lambda k: k.set_parameters(5)).fit_to_ir(e.ir1).get_ir(60), sv2=lambda e: (lambda q: [q.set_n_channels(2), two_states(q, e.x1), [q.process_sample(float(v), 1) for v in e.x1[:10]], two_states(q, e.x1)])(FB.StateVariableFilter(500, 1.0, FS)),
    arma_c=lambda e: FB.arma(late(e, 600), 6, 5), mel2=lambda e: fig(TR.log_mel_spectrogram(stereo(e)))[:3], mfcc2=lambda e: fig(TR.mfcc(stereo(e)))[:3], mel_p=lambda e: type(fig(TR.log_mel_spectrogram(stereo(e)))[-1]).__name__, mfcc_p=lambda e: type(fig(TR.mfcc(stereo(e)))[-1]).__name__,
    atf_p=lambda e: type(fig(room().get_analytical_transfer_function([1.0, 1, 1], [3.0, 2, 1.2], np.linspace(20, 300, 30)))[-1]).__name__, sub_s=lambda e: after(FX.SpectralSubtractor(False, -20.0, 0.016), lambda q: q.set_advanced_parameters()).apply(bursts(e)), sub_i=lambda e: FX.SpectralSubtractor(False, -20.0).apply(bursts(e)),
    comp_i=lambda e: FX.Compressor(-25.0).apply(bursts(e)), comp_q=lambda e: after(FX.Compressor(-25.0, 20, 90, 5, False), lambda q: q.set_parameters()).apply(bursts(e)), fw2=lambda e: D.fw_snr_seg(bursts(e), dsp.Signal(None, bursts(e).time_data + np.random.default_rng(9).standard_normal((9000, 2)) * 0.05, FS, constrain_amplitude=False), [100.0, 3900.0]),
    zi_bank2=lambda e: (lambda b: [b.initialize_zi(), [len(np.atleast_2d(z)) for f in b.filters for z in f.zi]])(e.fb.copy()), lfo_q=lambda e: after(FX.LFO(3.0, "square", False, 5), lambda q: q.set_parameters()).get_waveform(FS, 4000), istft_o=lambda e: TR.istft(stereo(e).get_spectrogram()[2], stereo(e)),
    iir_d=lambda e: [after(dsp.Filter.iir_filter(4, 1000.0, PT.Lowpass, FS, filter_design_method=m), lambda f: None) if m is dsp.IirDesignMethod.Butterworth else dsp.Filter.iir_filter(4, 1000.0, PT.Lowpass, FS, m) for m in (dsp.IirDesignMethod.Butterworth, dsp.IirDesignMethod.Bessel)], energy3=lambda e: [s.get_energy() for s in (e.ms2, dsp.Spectrum(e.f[1:], e.coh[1:]))],
    dd=lambda e: FX.DigitalDelay().apply(stereo(e)), dd_p=lambda e: after(FX.DigitalDelay(100, 0.3), lambda q: q.set_parameters()).apply(stereo(e)), dd_a=lambda e: after(FX.DigitalDelay(100, 0.6), lambda q: q.set_advanced_parameters()).apply(stereo(e)),
)
N2 = 1300


def late(e, n=16384):
    x = np.random.default_rng(3).standard_normal((n, 1)) * np.exp(-np.abs(np.arange(n) - n // 20) / n * 40)[:, None]
    x[: n // 20] *= np.geomspace(1e-4, 1, n // 20)[:, None]
    x[n // 20] = 4
    return dsp.ImpulseResponse(None, x / 5, FS)


def bursts(e):
    x = np.random.default_rng(4).standard_normal((9000, 2)) * 0.01
    for i in range(0, 9000, 1500):
        x[i : i + 500] *= np.linspace(2, 60, 500)[:, None]
    return dsp.Signal(None, np.clip(x, -1, 1), FS, constrain_amplitude=False)


def raises(f):
    try:
        return f()
    except Exception as err:
        return type(err).__name__


def pl(e, phase=None):
    p = FB.PhaseLinearizer(np.cumsum(np.full(65, -0.4)) if phase is None else phase, 128, FS)
    p.set_parameters()
    return p.get_filter()


def fd(e, delay=None):
    p = FB.GroupDelayDesigner(np.full(65, 0.004) if delay is None else delay, 128, FS) if hasattr(FB, "GroupDelayDesigner") else None
    p.set_parameters()
    return p.get_filter()


GROUPS = {g: dict(v) for g, v in c03.OPS.items() if g != "plots"}
PARTS = 6
for _i in range(PARTS):
    GROUPS[f"plain{_i}"] = {n: f for j, (n, f) in enumerate(sorted(MORE.items())) if j % PARTS == _i}


def strip(r):
    """Without figures (they only count by their presence)."""
    if isinstance(r, (list, tuple)):
        return [strip(v) for v in r]
    if isinstance(r, dict):
        return {k: strip(v) for k, v in r.items()}
    if type(r).__module__.startswith("matplotlib") or isinstance(r, np.ndarray) and r.dtype == object:
        return "figure"
    return r


def run_op(group, name, c):
    e = c03.env(c)
    if group == "beamforming":
        c03.beam(e)
    r, error = None, None
    with repeatable():
        try:
            r = GROUPS[group][name](e)
        except core.Violation:
            raise
        except Exception as err:
            error = type(err).__name__
        s = objects.state(strip(r))
    return error, s


def near(a, b, path=""):
    """Like objects.differ, up to the rounding of threaded libraries."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.dtype.kind in "fc":
        if np.array_equal(a, b, equal_nan=True):
            return None
        m = np.isfinite(a)
        if not np.array_equal(m, np.isfinite(b)):
            return f"{path}: values"
        s = np.max(np.abs(a[m]), initial=0)
        d = np.max(np.abs(a[m] - b[m]), initial=0)
        return f"{path}: values differ by {d} of {s}" if d > 1e-10 * s else None
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        return next((r for r in (near(a[k], b[k], f"{path}.{k}") for k in a) if r), None)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next((r for r in (near(x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a, b))) if r), None)
    if isinstance(a, float) and isinstance(b, float) and np.isfinite(a) and np.isfinite(b):
        return None if abs(a - b) <= 1e-10 * max(abs(a), abs(b)) else f"{path}: {a} / {b}"
    return objects.differ(a, b, path)


def same_call(c, group):
    names = sorted(GROUPS[group])
    kinds = []
    for i in c["ops"]:
        name = names[i % len(names)]
        want = run_op(group, name, c)
        f = Filler(c["mask"], c["share"])
        with f.active():
            got = run_op(group, name, c)
        who = f"{group}.{name} with {sorted('='.join(map(str, k)) for k in f.filled)}"
        core.check(want[0] == got[0], f"{who}: {want[0]} / {got[0]}", key=f"{group}.{name}")
        d = near(want[1], got[1], "result")
        core.check(d is None, f"{who}: {d}", key=f"{group}.{name}")
        kinds.append("filled" if f.filled else None)
    return "filled" if any(kinds) else None


def strategy(n):
    return gen.fd(seed=st.integers(0, 3), limit=st.booleans(), cache=st.booleans(), used=st.booleans(), cal=st.booleans(), zi=st.booleans(),
                  mask=gen.seeds(), share=st.sampled_from([1.0, 0.5]), ops=st.lists(st.integers(0, 499), min_size=1, max_size=n))


def _register(group, n, quick, thorough):
    def run(c):
        return same_call(c, group)

    run.__name__ = group
    sub(PID, strategy(n), quick=quick, thorough=thorough, cap=45)(run)


for _g, _n, _q, _t in [*((f"plain{_i}", 8, 40, 400) for _i in range(PARTS)), ("editing", 4, 15, 200), ("measures", 4, 15, 200), ("transfer", 4, 15, 200),
                       ("transforms", 4, 12, 200), ("rooms", 3, 12, 150), ("effects", 3, 10, 150), ("filters", 4, 15, 200),
                       ("objects", 4, 15, 200), ("arrays", 4, 15, 200), ("beamforming", 3, 6, 80)]:
    _register(_g, _n, _q, _t)
