"""C04: saved objects reload as they were; sample formats keep their values.

Oracles: the samples that were saved (within the step of the file format), an
independent reader for PCM files, the public state and the results of the
object before saving, and exact arithmetic for sample formats."""

import os
import struct
import tempfile
import warnings
import wave

import numpy as np
import soundfile as sf
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import core, gen, objects
from vt.core import close, raises, same, sub
from checks import c10

PID = "C04"
T = dsp.tools
warnings.simplefilter("ignore")


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def equal(got, want, msg):
    d = objects.differ(got, want)
    check(d is None, f"{msg}: {d}")


# ---------------------------------------------------------------- audio files
NAME = st.sampled_from(["take", "take.EXT", "dir.with.dots/take", "two words", "ünïcode.EXT", "flow", "drwav", "spark"])


def path_of(folder, name, ext):
    p = os.path.join(folder, name.replace("EXT", ext))
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p, p if p.endswith("." + ext) else p + "." + ext


def pcm(path):
    """Integer samples of a PCM wave file, read without soundfile."""
    with wave.open(path) as w:
        n, ch, width, fs = w.getnframes(), w.getnchannels(), w.getsampwidth(), w.getframerate()
        raw = w.readframes(n)
    if width == 2:
        v = np.array(struct.unpack(f"<{n * ch}h", raw))
    else:
        b = np.frombuffer(raw, np.uint8).reshape(-1, 3).astype(int)
        v = b[:, 0] + 256 * b[:, 1] + 65536 * b[:, 2]
        v = np.where(v >= 2**23, v - 2**24, v)
    return v.reshape(n, ch), fs


def stored(x, bits):
    """(value, tolerance) of samples in a file."""
    if bits == 64:
        return x, 0.0
    if bits == 32:
        return x.astype(np.float32).astype(float), 0.0
    step = 2.0 ** (1 - bits)
    return np.clip(x, -1, 1 - step), step


@sub(PID, gen.fd(s=gen.sig(min_n=8, max_n=300, max_ch=6, fs=[8000, 11025, 22050, 44100, 48000,
                                                             96000, 192000, 12345]),
                 mode=st.sampled_from(["wav", "wav", "flac", "WAV", "default"]),
                 bits=st.sampled_from([16, 24, 32, 64]), name=NAME,
                 cls=st.sampled_from(["sig", "ir"])), quick=150, thorough=4000)
def audio_files(c):
    cls = dsp.Signal if c["cls"] == "sig" else dsp.ImpulseResponse
    s = gen.mk(c["s"], cls)
    before = objects.state(s)
    mode = "wav" if c["mode"] == "default" else c["mode"].lower()
    bits = 32 if c["mode"] == "default" else c["bits"]
    with tempfile.TemporaryDirectory() as d:
        p, full = path_of(d, c["name"], mode)
        if mode == "flac" and bits > 24:
            raises(lambda: s.save_signal(p, mode, bits), "flac with floating-point samples")
            return "refused"
        r = s.save_signal(p) if c["mode"] == "default" else s.save_signal(p, c["mode"], bits)
        check(r is s, "returns the signal")
        check(os.path.isfile(full) and len([f for _, _, f in os.walk(d) for f in f]) == 1,
              "file name")
        info = sf.info(full)
        check(info.format == mode.upper(), "file format", info.format)
        check(info.subtype == {16: "PCM_16", 24: "PCM_24", 32: "FLOAT", 64: "DOUBLE"}[bits],
              "sample format", info.subtype)
        for back, kind in ((dsp.Signal(full), dsp.Signal), (dsp.Signal.from_file(full), dsp.Signal),
                           (dsp.ImpulseResponse.from_file(full), dsp.ImpulseResponse),
                           (dsp.ImpulseResponse(full, constrain_amplitude=False),
                            dsp.ImpulseResponse)):
            check(type(back) is kind, "type")
            check(back.sampling_rate_hz == s.sampling_rate_hz, "sampling rate")
            check(back.time_data.shape == s.time_data.shape, "shape", back.time_data.shape)
            check(not back.is_complex_signal, "real samples")
            want, tol = stored(s.time_data, bits)
            check(np.max(np.abs(back.time_data - want)) <= tol, "samples of the file",
                  np.max(np.abs(back.time_data - want)), tol)
        if mode == "wav" and bits in (16, 24):
            v, fs = pcm(full)
            check(fs == s.sampling_rate_hz, "rate in the file")
            check(np.max(np.abs(v / 2.0 ** (bits - 1) - want)) <= tol, "samples read independently")
        # loading and saving again changes nothing any more
        again = os.path.join(d, "again." + mode)
        back.save_signal(again, mode, bits)
        same(dsp.Signal(again).time_data, back.time_data, "second generation")
        # filters from files
        ch = c["s"]["seed"] % s.number_of_channels
        f = dsp.Filter.fir_from_file(full, ch)
        check(f.is_fir and f.sampling_rate_hz == s.sampling_rate_hz, "FIR from file")
        same(f.ba[0], back.time_data[:, ch], "taps from file")
        fb = dsp.FilterBank.firs_from_file(full)
        check(fb.number_of_filters == s.number_of_channels, "FIR bank from file")
        for i, f in enumerate(fb.filters):
            same(f.ba[0], back.time_data[:, i], "taps of the bank")
            check(f.sampling_rate_hz == s.sampling_rate_hz, "rate of the bank")
    equal(objects.state(s), before, "signal after saving")
    return f"{mode}-{bits}"


@sub(PID, gen.fd(s=gen.sig(min_n=8, max_n=60, max_ch=2), ext=st.sampled_from(["mp3", "flac", "pkl", "x"]),
                 bits=st.sampled_from([8, 0, 20, 128])), quick=30, thorough=300)
def refused_files(c):
    s = gen.mk(c["s"])
    with tempfile.TemporaryDirectory() as d:
        raises(lambda: s.save_signal(os.path.join(d, "a." + c["ext"]), "wav"), "wrong ending")
        raises(lambda: s.save_signal(os.path.join(d, "a"), "wav", c["bits"]), "bit depth")
        raises(lambda: s.save_signal(os.path.join(d, "a"), "mp3"), "mode")
        raises(lambda: dsp.load_pkl_object(os.path.join(d, "a.wav")), "not a pickle")
        raises(lambda: dsp.Signal(os.path.join(d, "missing.wav")), "missing file")
        raises(lambda: gen.mk(c["s"]).save_signal(os.path.join(d, "nodir", "a")), "missing folder")
        check(not os.listdir(d), "refused requests write nothing")
    return c["ext"]


# ------------------------------------------------------------ package's format
def settings(s, r):
    """Random analysis settings."""
    L = int(2 ** r.integers(4, 7))
    s.set_spectrum_parameters(
        method=r.choice([dsp.SpectrumMethod.FFT, dsp.SpectrumMethod.WelchPeriodogram]),
        smoothing=int(r.choice([0, 0, 3])), window_length_samples=L,
        window_type=r.choice([dsp.Window.Hann, dsp.Window.Blackman]),
        overlap_percent=int(r.choice([0, 50, 75])), detrend=bool(r.integers(2)),
        average=str(r.choice(["mean", "median"])),
        scaling=r.choice([dsp.SpectrumScaling.FFTBackward, dsp.SpectrumScaling.PowerSpectralDensity,
                          dsp.SpectrumScaling.AmplitudeSpectrum]))
    s.set_spectrogram_parameters(window_length_samples=L, overlap_percent=int(r.choice([0, 50])),
                                 window_type=dsp.Window.Hamming, detrend=bool(r.integers(2)),
                                 scaling=dsp.SpectrumScaling.PowerSpectrum)
    return s


def signal(c, cls=dsp.Signal):
    r = np.random.default_rng(c["s"]["seed"])
    s = gen.mk(c["s"], cls, constrain=c["limit"], cache=c["cache"])
    if c["cplx"]:
        s.time_data_imaginary = gen.imag(c["s"])
    s.calibrated_signal = bool(r.integers(2)) and not c["limit"]
    settings(s, r)
    if cls is dsp.ImpulseResponse and r.integers(2):
        s.set_window(r.uniform(0, 1, s.time_data.shape))
    if c["used"]:
        s.get_spectrum()
        s.get_spectrogram()
        s.time_vector_s
    return s


SIG = dict(s=gen.sig(min_n=70, max_n=200, max_ch=3, kinds=gen.RICH), limit=st.booleans(),
           cache=st.booleans(), used=st.booleans(), cplx=st.booleans(), name=NAME)


def reload(o, method, name):
    with tempfile.TemporaryDirectory() as d:
        p, full = path_of(d, name, "pkl")
        args = (p, "pkl") if type(o) in (dsp.Signal, dsp.ImpulseResponse) else (p,)
        r = getattr(o, method)(*args)
        check(r is o, "saving returns the object")
        check(os.path.isfile(full), "file name")
        a, b = dsp.load_pkl_object(full), dsp.load_pkl_object(p)
        check(type(a) is type(o) and a is not b, "type of the loaded object")
        check(not objects.shared(a, b) and not objects.shared(a, o), "loaded objects are independent")
        return a, b


@sub(PID, gen.fd(cls=st.sampled_from(["sig", "ir"]), **SIG), quick=80, thorough=2500)
def signals(c):
    s = signal(c, dsp.Signal if c["cls"] == "sig" else dsp.ImpulseResponse)
    before = objects.state(s)
    a, b = reload(s, "save_signal", c["name"])
    equal(objects.state(s), before, "signal after saving")
    equal(objects.state(a), before, "reloaded signal")
    # later results are the same
    if not c["cplx"]:
        for o in (a, b):
            for f in (lambda x: x.get_csm(), lambda x: dsp.rms(x), lambda x: x.time_vector_s,
                      lambda x: dsp.normalize(x, -3).time_data):
                try:
                    want = objects.state(f(s.copy()))
                except Exception:
                    continue
                equal(objects.state(f(o)), want, "later result")
    a.time_data = a.time_data * 0.5
    equal(objects.state(b), before, "other copy")
    return f"{c['cls']}{'-cplx' if c['cplx'] else ''}{'-cache' if c['cache'] else ''}"


@sub(PID, gen.fd(nb=st.integers(1, 4), multi=st.booleans(), **SIG), quick=50, thorough=1000)
def multibands(c):
    bands = []
    for i in range(c["nb"]):
        q = dict(c, s=dict(c["s"], seed=c["s"]["seed"] + i))
        if c["multi"]:
            q["s"].update(fs=[8000, 16000, 48000, 44100][i], n=70 + 20 * i)
        bands.append(signal(q))
    o = dsp.MultiBandSignal(bands, same_sampling_rate=not c["multi"], info={"what": "x", "n": 3})
    before = objects.state(o)
    a, b = reload(o, "save_signal", c["name"])
    equal(objects.state(o), before, "signal after saving")
    equal(objects.state(a), before, "reloaded multiband signal")
    equal(a.info, o.info, "information")
    if not c["multi"]:
        equal(objects.state(a.collapse()), objects.state(o.collapse()), "collapsed signal")
    a.bands[0].time_data = a.bands[0].time_data * 2
    equal(objects.state(b), before, "other copy")
    return "multirate" if c["multi"] else "one rate"


@sub(PID, gen.fd(n=st.integers(5, 80), ch=st.integers(1, 4), seed=gen.seeds(), cplx=st.booleans(),
                 coh=st.booleans(), grid=st.sampled_from(["lin", "log", "any"]), name=NAME,
                 dom=st.sampled_from(list(range(4))), sch=st.integers(0, 2), edge=st.integers(0, 4)),
     quick=80, thorough=2000)
def spectra(c):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    f = {"lin": np.linspace(0, 8000, n), "log": np.geomspace(20, 8000, n),
         "any": np.sort(r.uniform(10, 9000, n))}[c["grid"]]
    x = r.uniform(0.1, 2, (n, c["ch"])).astype(complex if c["cplx"] else float)
    if c["cplx"]:
        x = x * np.exp(1j * np.cumsum(r.uniform(-1, 1, x.shape), axis=0))
    o = dsp.Spectrum(f, x)
    if c["coh"]:
        o.set_coherence(r.uniform(0, 1, x.shape))
    doms = list(dsp.InterpolationDomain)
    dom = doms[c["dom"] % len(doms)]
    if not c["cplx"] and "Complex" in dom.name or not c["cplx"] and "Phase" in dom.name:
        dom = dsp.InterpolationDomain.Magnitude
    o.set_interpolator_parameters(
        dom, list(dsp.InterpolationScheme)[c["sch"] % len(dsp.InterpolationScheme)],
        list(dsp.InterpolationEdgeHandling)[c["edge"] % len(dsp.InterpolationEdgeHandling)])
    before = objects.state(o)
    a, b = reload(o, "save_spectrum", c["name"])
    equal(objects.state(o), before, "spectrum after saving")
    equal(objects.state(a), before, "reloaded spectrum")
    lo, hi = f[1], f[-2]
    if lo < hi:
        q = np.sort(r.uniform(lo, hi, 9))
        for kind in (dsp.SpectrumType.Magnitude, dsp.SpectrumType.Power):
            same(a.get_interpolated_spectrum(q, kind), o.get_interpolated_spectrum(q, kind),
                 "interpolation after reloading")
        wide = np.r_[max(f[0] * 0.5, 1e-3), q, f[-1] * 1.2]
        try:
            want = o.get_interpolated_spectrum(wide, dsp.SpectrumType.Magnitude)
        except Exception:
            want = None
        if want is not None:
            equal(np.array(a.get_interpolated_spectrum(wide, dsp.SpectrumType.Magnitude)),
                  np.array(want), "edge handling after reloading")
    same(a.get_energy(), o.get_energy(), "energy")
    a.apply_gain(6)
    equal(objects.state(b), before, "other copy")
    return f"{c['grid']}{'-complex' if c['cplx'] else ''}{'-coherence' if c['coh'] else ''}"


@sub(PID, gen.fd(f=c10.filt(), s=gen.sig(min_n=64, max_n=150, max_ch=3), cut=gen.floats(0.1, 0.9),
                 zi=st.booleans(), warn=st.booleans(), name=NAME), quick=100, thorough=2500)
def filters(c):
    f, *_ = c10.build(c["f"])
    s = gen.mk(dict(c["s"], fs=f.sampling_rate_hz))
    f.warning_if_complex = c["warn"]
    cplx = not np.isrealobj(f.ba[0]) if not f.has_sos else False
    x = s.time_data
    k = max(40, int(c["cut"] * len(x)))

    def part(v):
        return dsp.Signal(None, v, s.sampling_rate_hz)

    zi = c["zi"] and not cplx
    if zi:
        f.initialize_zi(s.number_of_channels)
        f.filter_signal(part(x[:k]), activate_zi=True)
    before = objects.state(f)
    a, b = reload(f, "save_filter", c["name"])
    equal(objects.state(f), before, "filter after saving")
    equal(objects.state(a), before, "reloaded filter")
    check(a.metadata == f.metadata, "metadata")
    for mode in (dsp.FilterCoefficientsType.Ba, dsp.FilterCoefficientsType.Zpk):
        equal(objects.state(a.get_coefficients(mode)), objects.state(f.get_coefficients(mode)),
              "coefficients")
    fr = np.linspace(0, f.sampling_rate_hz / 2, 17)
    same(a.get_transfer_function(fr), f.get_transfer_function(fr), "transfer function")
    if zi and len(x) - k > 3:  # the interrupted filtering goes on
        rest = part(x[k:])
        same(a.filter_signal(rest, activate_zi=True).time_data,
             f.filter_signal(rest, activate_zi=True).time_data, "continued filtering")
    else:
        same(a.filter_signal(s).time_data, f.filter_signal(s).time_data, "filtered signal")
    equal(objects.state(b), before, "other copy")
    return c["f"]["form"] + ("-zi" if zi else "")


@sub(PID, gen.fd(kind=st.sampled_from(["plain", "multirate", "lr", "qmf", "gammatone", "octave",
                                       "reconstructing"]), seed=gen.seeds(), n=st.integers(1, 4),
                 name=NAME, zi=st.booleans()), quick=40, thorough=800)
def banks(c):
    fb_, kind = dsp.filterbanks, c["kind"]
    fs = 16000
    if kind in ("plain", "multirate"):
        rates = [fs] * c["n"] if kind == "plain" else [16000, 8000, 48000, 44100][:c["n"]]
        o = dsp.FilterBank([dsp.Filter.from_sos(gen.stable_sos(c["seed"] + i, 2), q)
                            for i, q in enumerate(rates)], same_sampling_rate=kind == "plain",
                           info={"note": 1})
    elif kind == "lr":
        o = fb_.linkwitz_riley_crossovers([500, 2000][:1 + c["n"] % 2], [4, 2][:1 + c["n"] % 2],
                                          sampling_rate_hz=fs)
    elif kind == "qmf":
        o = fb_.qmf_crossover(dsp.Filter.fir_filter(
            order=31, frequency_hz=fs / 4, type_of_pass=dsp.FilterPassType.Lowpass,
            sampling_rate_hz=fs))
    elif kind == "gammatone":
        o = fb_.auditory_filters_gammatone([200, 2000], sampling_rate_hz=fs)
    elif kind == "octave":
        o = fb_.fractional_octave_bands([125, 2000], 1, 4, fs)
    else:
        o = fb_.reconstructing_fractional_octave_bands(frequency_range_hz=[125, 2000], n_samples=512,
                                                       sampling_rate_hz=fs)
    o = o[0] if isinstance(o, tuple) else o
    x = np.random.default_rng(c["seed"]).uniform(-1, 1, (400, 2))
    s = dsp.Signal(None, x, fs)
    mode = (dsp.FilterBankMode.Summed if kind not in ("multirate",) else None)
    zi = c["zi"] and kind in ("plain", "lr", "octave")

    def run(b, v):
        if kind == "multirate":
            return [f.filter_signal(dsp.Signal(None, v, f.sampling_rate_hz)).time_data
                    for f in b.filters]
        y = b.filter_signal(dsp.Signal(None, v, fs), dsp.FilterBankMode.Parallel, **(
            {"activate_zi": True} if zi else {}))
        return [q.time_data for q in y.bands]

    if zi:
        o.initialize_zi(2)
        run(o, x[:150])
    full = lambda b: objects.state(b) if isinstance(b, dsp.FilterBank) else objects.rest(b, True)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, c["name"].replace(".EXT", ""))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        o.save_filterbank(p)
        check(os.path.isfile(p + ".pkl"), "file name")
        a, b = dsp.load_pkl_object(p), dsp.load_pkl_object(p + ".pkl")
    check(type(a) is type(o), "type of the bank")
    equal(a.info, o.info, "information")
    equal(objects.state(getattr(a, "sampling_rate_hz")), objects.state(o.sampling_rate_hz), "rates")
    check(a.number_of_filters == o.number_of_filters if kind != "lr" else
          a.number_of_bands == o.number_of_bands, "size")
    if isinstance(o, dsp.FilterBank):
        equal(full(a), full(o), "reloaded bank")
    for v in (x[150:], x[:200]):
        want = run(o, v)
        for q in (a, b):
            got = run(q, v)
            check(len(got) == len(want), "bands after reloading")
            for g, w in zip(got, want):
                same(g, w, "band after reloading")
    if kind == "gammatone":
        same(a.reconstruct(a.filter_signal(s, dsp.FilterBankMode.Parallel)).time_data,
             o.reconstruct(o.filter_signal(s, dsp.FilterBankMode.Parallel)).time_data,
             "reconstruction")
    if kind == "qmf":
        same(a.reconstruct_signal(a.filter_signal(s, dsp.FilterBankMode.Parallel)).time_data,
             o.reconstruct_signal(o.filter_signal(s, dsp.FilterBankMode.Parallel)).time_data,
             "reconstruction")
    return kind + ("-zi" if zi else "")


# -------------------------------------------------------------- sample formats
FORMATS = ["f32", "f64", "i8", "i16", "i24", "i32", "u8", "u16", "u24", "u32"]
DTYPE = {"f32": np.float32, "f64": np.float64, "i8": np.int8, "i16": np.int16, "i24": np.int32,
         "i32": np.int32, "u8": np.uint8, "u16": np.uint16, "u24": np.uint32, "u32": np.uint32}


def top(fmt):
    return 1 if fmt[0] == "f" else 2 ** (int(fmt[1:]) - 1) - 1


def raw(fmt, v):
    """Bytes of integer or float samples, written without the package."""
    if fmt[1:] == "24":
        return b"".join(int(k).to_bytes(3, "little", signed=fmt[0] == "i") for k in v.ravel())
    return np.ascontiguousarray(v, DTYPE[fmt]).tobytes()


def unraw(fmt, b):
    if fmt[1:] == "24":
        return np.array([int.from_bytes(b[i:i + 3], "little", signed=fmt[0] == "i")
                         for i in range(0, len(b), 3)])
    return np.frombuffer(b, DTYPE[fmt])


def samples(fmt, c):
    """Samples of a format (its extremes and middle included)."""
    r = np.random.default_rng(c["seed"])
    n = c["n"] * c["ch"]
    m = top(fmt)
    if fmt[0] == "f":
        v = r.uniform(-1, 1, n) * 10.0 ** r.choice([0, 0, -3, 0.05], n)
        special = [0, 1, -1, 1.5, -7]
    elif fmt[0] == "i":
        v = r.integers(-m, m, n, endpoint=True)
        v = np.where(r.random(n) < 0.3, v // max(m // 100, 1), v)
        special = [0, m, -m, -m - 1, 1]
    else:
        v = r.integers(0, 2 * m, n, endpoint=True)
        special = [m, 2 * m, 0, 2 * m + 1, m + 1]
    k = min(n, len(special))
    v = np.asarray(v).copy()
    v[r.permutation(n)[:k]] = special[:k]
    return v.astype(DTYPE[fmt]).reshape(c["n"], c["ch"]) if c["ch"] > 1 else v.astype(DTYPE[fmt])


@sub(PID, gen.fd(src=st.sampled_from(FORMATS), dst=st.sampled_from(FORMATS), seed=gen.seeds(),
                 n=st.integers(1, 60), ch=st.integers(1, 3), as_bytes=st.booleans(),
                 to_bytes=st.booleans(), cast=st.booleans(), upper=st.booleans()),
     quick=400, thorough=12000)
def sample_formats(c):
    a, b = c["src"], c["dst"]
    v = samples(a, c)
    keep = v.copy()
    arg = raw(a, v) if c["as_bytes"] else v
    fa, fb_ = (a.upper(), b.upper()) if c["upper"] else (a, b)
    call = lambda: T.convert_sample_representation(arg, fa, fb_, c["cast"], c["to_bytes"])
    if a == b:
        raises(call, "no conversion")
        return "same"
    if b[1:] == "24" and c["cast"] and not c["to_bytes"]:
        raises(call, "no 24-bit type")
        return "no type"
    out, mid, span = call()
    same(v, keep, "input samples")
    # description of the range
    check(mid == (top(b) if b[0] == "u" else 0), "equilibrium", mid)
    check(span == top(b), "span", span)
    flat = v.ravel() if c["as_bytes"] else v
    if c["to_bytes"] and isinstance(out, np.ndarray) and b[0] == "f":
        got = out  # floating-point samples are delivered as an array
    elif c["to_bytes"]:
        check(type(out) is bytes, "bytes requested", type(out))
        got = unraw(b, out) if c["cast"] else np.frombuffer(out, np.float64)
        check(len(got) == v.size, "number of samples", len(got))
        got, flat = np.asarray(got), flat.ravel()
    else:
        check(isinstance(out, np.ndarray) and out.shape == flat.shape, "shape")
        check(out.dtype == (DTYPE[b] if c["cast"] or b == "f32" else np.float64), "data type", out.dtype)
        got = out
    # values: exact rational position within the range
    x = flat.astype(np.longdouble)
    if a[0] == "u":
        x = x - top(a)
    x = np.clip(x / np.longdouble(top(a)), -1, 1)
    y = got.astype(np.longdouble) - np.longdouble(mid)
    step = np.longdouble(1) if b[0] != "f" else 0
    want = x * np.longdouble(top(b))
    slack = np.longdouble(1e-9 if b[0] != "f" else 3e-16)
    if b == "f32":
        slack = np.abs(want) * 2.0**-24 + 2.0**-149
    check(np.all(np.abs(y - want) <= step + slack), "value within one step",
          float(np.max(np.abs(y - want))))
    if b[0] != "f":
        check(np.all(y == np.trunc(y)), "whole steps")
        check(np.all(np.abs(y) <= top(b)), "range")
    full = np.abs(x) == 1
    check(np.all(y[full] == x[full] * top(b)), "full scale")
    check(np.all(y[x == 0] == 0), "equilibrium stays")
    o = np.argsort(x.ravel(), kind="stable")
    check(np.all(np.diff(y.ravel()[o]) >= 0), "order of the samples")
    return f"{a[0]}-{b[0]}"


@sub(PID, gen.fd(fmt=st.sampled_from(FORMATS[2:]), flt=st.sampled_from(["f32", "f64"]),
                 seed=gen.seeds(), n=st.integers(1, 60), ch=st.just(1)), quick=80, thorough=2000)
def there_and_back(c):
    """Integer samples survive a way over floating point (one step at most)."""
    v = samples(c["fmt"], c)
    x, *_ = T.convert_sample_representation(v, c["fmt"], c["flt"])
    raw_, *_ = T.convert_sample_representation(x, c["flt"], c["fmt"], output_in_bytes=True)
    w = unraw(c["fmt"], raw_).astype(np.int64)
    m = top(c["fmt"])
    lo = 0 if c["fmt"][0] == "u" else -m
    ref = np.clip(v.astype(np.int64), lo, lo + 2 * m)
    tol = 1 if c["flt"] == "f64" else max(1, np.ceil(m * 2.0**-24) + 1)
    check(np.max(np.abs(w - ref)) <= tol, "way over floating point", np.max(np.abs(w - ref)))
    return c["fmt"]
