"""C16: a spectrum is its frequencies and values, interpolated as set.

Oracle: a plain model (frequency vector, value matrix, coherence matrix) to
which every operation is applied by definition; scipy's interpolants between
the bins; numpy's FFT for the way to signals and back."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.fft import next_fast_len
from scipy.interpolate import CubicSpline, PchipInterpolator

import dsptoolbox as dsp
from checks.c10 import build
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C16"
DOM, SCH, EDG, ST = dsp.InterpolationDomain, dsp.InterpolationScheme, dsp.InterpolationEdgeHandling, dsp.SpectrumType
FS = dsp.FrequencySpacing


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


SPEC = dict(
    seed=gen.seeds(),
    n=st.integers(4, 40),
    ch=st.integers(1, 4),
    cplx=st.booleans(),
    grid=st.sampled_from(["lin0", "lin", "log", "other", "other0"]),
    coh=st.booleans(),
)


def freqs(c, r):
    n = c["n"]
    g = c["grid"]
    if g == "lin0":
        return np.arange(n) * float(r.choice([1.0, 10.0, 23.4375, 100.0 / 3]))
    if g == "lin":
        return r.uniform(5, 900) + np.arange(n) * r.uniform(1, 100)
    if g == "log":
        return r.uniform(5, 100) * 2 ** (np.arange(n) * r.uniform(0.02, 0.4))
    f = np.cumsum(r.uniform(1, 200, n))
    if g == "other0":
        f = f - f[0]
    return f


def values(c, r, n=None):
    n = n or c["n"]
    m = np.exp(r.normal(0, 0.6, (n, c["ch"])))
    if c["cplx"]:
        # smooth phase, so that unwrapping is unambiguous
        ph = np.cumsum(r.uniform(-1.2, 0.6, (n, c["ch"])), axis=0)
        return m * np.exp(1j * ph)
    return m


class Model:
    def __init__(self, f, v, coh=None):
        self.f, self.v, self.coh = f, v, coh
        self.dom, self.sch, self.edg = DOM.Power, SCH.Linear, EDG.ZeroPad

    def copy(self):
        m = Model(self.f.copy(), self.v.copy(), None if self.coh is None else self.coh.copy())
        m.dom, m.sch, m.edg = self.dom, self.sch, self.edg
        return m

    @property
    def cplx(self):
        return np.iscomplexobj(self.v)

    def interp(self, fr, out):
        """Interpolation by its definition, in the output type."""
        fr = np.asarray(fr, float)
        dom = self.dom
        if out == ST.Complex and dom in (DOM.Power, DOM.Magnitude):
            dom = DOM.MagnitudePhase
        cl = np.clip(fr, self.f[0], self.f[-1])

        def go(y):
            if self.sch == SCH.Linear:
                return np.stack([np.interp(cl, self.f, y[:, k]) for k in range(y.shape[1])], axis=1)
            cls = CubicSpline if self.sch == SCH.Cubic else PchipInterpolator
            return cls(self.f, y, axis=0)(cl)

        if dom == DOM.Complex:
            y = go(self.v.real) + 1j * go(self.v.imag)
        elif dom == DOM.MagnitudePhase:
            y = go(np.abs(self.v)) * np.exp(1j * go(np.unwrap(np.angle(self.v), axis=0)))
        elif dom == DOM.Power:
            y = np.maximum(go(np.abs(self.v) ** 2), 0)
        else:
            y = np.maximum(go(np.abs(self.v)), 0)
        outside = (fr < self.f[0]) | (fr > self.f[-1])
        if self.edg == EDG.ZeroPad:
            y[outside] = 0
        elif self.edg == EDG.OnePad:
            y[outside] = 1
        if out == ST.Complex:
            return y
        if dom == DOM.Power:
            p = y
        else:
            p = np.abs(y) ** 2
        if out == ST.Power:
            return p
        if out == ST.Magnitude:
            return np.sqrt(p)
        return p  # dB is compared as power


def make(c):
    r = np.random.default_rng(c["seed"])
    f = freqs(c, r)
    v = values(c, r)
    s = dsp.Spectrum(f.copy(), v.copy())
    m = Model(f, v)
    if c["coh"]:
        m.coh = r.uniform(0, 1, v.shape)
        s.set_coherence(m.coh.copy())
    return s, m, r


def compare(s, m, msg):
    close(s.frequency_vector_hz, m.f, f"{msg}: frequencies", 1e-9)
    close(s.spectral_data, m.v, f"{msg}: values", 1e-7)
    check(s.number_frequency_bins == len(m.f) == len(s) == s.length_frequency_bins, f"{msg}: number of bins")
    check(s.number_of_channels == m.v.shape[1], f"{msg}: channels")
    check(s.is_magnitude == (not m.cplx) and s.is_complex == m.cplx, f"{msg}: type")
    check(s.spectrum_type == (ST.Complex if m.cplx else ST.Magnitude), f"{msg}: spectrum type")
    if m.coh is None:
        if s.has_coherence:  # only when it still fits
            check(s.coherence.shape == s.spectral_data.shape, f"{msg}: coherence does not fit the data")
    else:
        check(s.has_coherence, f"{msg}: coherence lost")
        close(s.coherence, m.coh, f"{msg}: coherence", 1e-9)
    if len(m.f) < 4:
        return
    # the interpolation stays as it was set
    req = m.f[0] + (m.f[-1] - m.f[0]) * np.array([0.137, 0.61])
    if m.edg != EDG.Error:
        req = np.r_[req, m.f[-1] * 1.3]
    else:
        raises(lambda: s.get_interpolated_spectrum(np.array([m.f[-1] * 1.3]), ST.Power), f"{msg}: outside with Error")
    close(s.get_interpolated_spectrum(req, ST.Magnitude), m.interp(req, ST.Magnitude), f"{msg}: interpolation {m.dom.name}/{m.sch.name}/{m.edg.name}", 1e-6)


def pick_params(r, cplx):
    doms = [DOM.Power, DOM.Magnitude] + ([DOM.Complex, DOM.MagnitudePhase] if cplx else [])
    return (
        doms[r.integers(len(doms))],
        list(SCH)[r.integers(3)],
        list(EDG)[r.integers(4)],
    )


# ----------------------------------------------------------- interpolation
@sub(PID, st.fixed_dictionaries(SPEC), quick=250, thorough=6000)
def interpolation(c):
    s, m, r = make(c)
    p = pick_params(r, c["cplx"])
    s.set_interpolator_parameters(*p)
    m.dom, m.sch, m.edg = p
    f = m.f
    inside = np.sort(r.uniform(f[0], f[-1], 7))
    req = np.r_[f[r.integers(len(f), size=3)], inside]
    lab = "inside"
    if r.integers(2) and p[2] != EDG.Error:
        req = np.r_[req, f[0] * 0.5 if f[0] > 0 else f[-1] * 1.1, f[-1] + 7.0, f[-1] * 2]
        lab = f"outside {p[2].name}"
    r.shuffle(req)
    keep = req.copy()
    kinds = [ST.Power, ST.Magnitude, ST.Db] + ([ST.Complex] if c["cplx"] else [])
    for k in kinds:
        got = s.get_interpolated_spectrum(req, k)
        check(got.shape == (len(req), c["ch"]), "shape", got.shape)
        want = m.interp(req, k)
        if k == ST.Db:
            fl = 1e-20
            got = np.maximum(10 ** (got / 10), fl)
            want = np.maximum(want, fl)
        close(got, want, f"{p[0].name}/{p[1].name}/{p[2].name} as {k.name}", 1e-7)
    same(req, keep, "requested frequencies changed")
    if p[2] == EDG.Error:
        raises(lambda: s.get_interpolated_spectrum(np.array([f[-1] + 1.0]), ST.Power), "outside with Error")
    if not c["cplx"]:
        raises(lambda: s.get_interpolated_spectrum(f[:2], ST.Complex), "complex of magnitude")
        raises(lambda: s.set_interpolator_parameters(DOM.Complex), "complex domain of magnitude")
        raises(lambda: s.set_interpolator_parameters(DOM.MagnitudePhase), "phase domain of magnitude")
    compare(s, m, "spectrum after interpolation")
    return lab


# ----------------------------------------------------------- histories
OPS = ["trim", "trim", "resample", "gain", "gain_ch", "norm", "norm_ch", "get", "remove", "swap",
       "copy", "warp", "append", "params", "sum_power", "sum", "smooth_const"]


@sub(PID, st.fixed_dictionaries(dict(SPEC, ops=st.lists(st.tuples(st.sampled_from(OPS), gen.seeds()), min_size=2, max_size=8))), quick=250, thorough=6000)
def histories(c):
    s, m, r = make(c)
    if r.integers(3):
        m.dom, m.sch, m.edg = pick_params(r, c["cplx"])
        s.set_interpolator_parameters(m.dom, m.sch, m.edg)
    done = 0
    for op, seed in c["ops"]:
        r = np.random.default_rng(seed)
        n, ch = m.v.shape
        if n < 4:
            break
        if op == "trim":
            lo = r.choice([np.nan, m.f[r.integers(0, n - 2)], r.uniform(m.f[0], m.f[-2])])
            lo = None if np.isnan(lo) else float(lo)
            i_lo = 0 if lo is None else np.searchsorted(m.f, lo)
            hi = r.choice([np.nan, m.f[r.integers(min(i_lo + 1, n - 1), n)],
                           r.uniform(m.f[min(i_lo + 1, n - 1)], m.f[-1] * 1.2)])
            hi = None if np.isnan(hi) else float(hi)
            inc = bool(r.integers(2))
            idx = np.arange(n)
            if inc:
                a = 0 if lo is None else max(np.max(idx[m.f <= lo], initial=0), 0)
                b = n - 1 if hi is None else np.min(idx[m.f >= hi], initial=n - 1)
                sel = idx[a : b + 1]
            else:
                sel = idx[(m.f > (-1 if lo is None else lo)) & (m.f < (np.inf if hi is None else hi))]
            if len(sel) < 1:
                raises(lambda: s.trim(lo, hi, inc), "empty trim")
                compare(s, m, "refused trim")
                continue
            got = s.trim(lo, hi, inc)
            check(got is s, "trim is in place")
            m.f, m.v = m.f[sel], m.v[sel]
            m.coh = None if m.coh is None else m.coh[sel]
        elif op == "resample":
            k = int(r.integers(1, 30))
            new = np.unique(np.r_[r.uniform(m.f[0], m.f[-1], k), m.f[r.integers(n)]])
            if r.integers(3) == 0 and m.edg != EDG.Error:
                new = np.r_[new, m.f[-1] + np.arange(1, 4) * 10.0]
            s.resample(new)
            v = m.interp(new, ST.Complex if m.cplx else ST.Magnitude)
            if m.coh is not None:
                m.coh = np.stack([np.interp(new, m.f, q) for q in m.coh.T], axis=1)
            m.f, m.v = new, v
        elif op == "gain":
            g = float(r.uniform(-30, 30))
            s.apply_gain(g)
            m.v = m.v * 10 ** (g / 20)
        elif op == "gain_ch":
            g = r.uniform(-30, 30, ch)
            s.apply_gain(g)
            m.v = m.v * 10 ** (g / 20)
            if ch > 1:
                raises(lambda: s.apply_gain(np.zeros(ch + 1)), "wrong number of gains")
        elif op in ("norm", "norm_ch"):
            fr = float(r.uniform(m.f[0], m.f[-1]))
            w = m.interp(np.array([fr]), ST.Magnitude)
            if np.min(w) < 1e-3:
                continue
            if op == "norm":
                s.normalize(fr)
                m.v = m.v / w
            else:
                k = int(r.integers(ch))
                s.normalize(fr, k)
                m.v = m.v / w[0, k]
        elif op == "get":
            k = r.integers(0, ch, size=int(r.integers(1, ch + 1)))
            s2 = s.get_channels(list(k) if r.integers(2) else k)
            compare(s, m, "source of get_channels")
            s, m.v = s2, m.v[:, k]
            m.coh = None if m.coh is None else m.coh[:, k]
        elif op == "remove":
            k = int(r.integers(-1, ch))
            if ch == 1:
                raises(lambda: s.remove_channel(k), "only channel")
                continue
            s.remove_channel(k)
            m.v = np.delete(m.v, k, axis=1)
            m.coh = None if m.coh is None else np.delete(m.coh, k, axis=1)
        elif op == "swap":
            k = r.permutation(ch)
            s.swap_channels(k)
            m.v = m.v[:, k]
            m.coh = None if m.coh is None else m.coh[:, k]
        elif op == "copy":
            old = s
            s = s.copy()
            old.spectral_data[...] = 1.0
            old.frequency_vector_hz[...] = np.arange(n)
            if old.has_coherence:
                old.coherence[...] = 0.5
        elif op == "warp":
            lam = float(r.uniform(-0.8, 0.8))
            fs = int(np.ceil(m.f[-1] * 2 * r.choice([1.0, 1.3]))) + 1
            s.warp(lam, fs)
            w = 2 * np.pi * m.f / fs
            # phase of the first-order all-pass with lambda
            z = np.exp(1j * w)
            ap = (z + lam) / (1 + lam * z)
            want = np.angle(ap) % (2 * np.pi)
            want = np.where(m.f == 0, 0.0, want) / 2 / np.pi * fs
            close(s.frequency_vector_hz, want, "warped frequencies", 1e-7)
            m.f = s.frequency_vector_hz.copy()
        elif op == "append":
            q, mq, _ = make(dict(c, seed=seed % 10000, cplx=m.cplx))
            # same range, so that no edges are involved
            fq = m.f[0] + (mq.f - mq.f[0]) / (mq.f[-1] - mq.f[0]) * (m.f[-1] - m.f[0])
            fq[0], fq[-1] = m.f[0], m.f[-1]
            mq.f = fq
            q = dsp.Spectrum(fq.copy(), mq.v.copy())
            as_c = bool(r.integers(2))
            out = ST.Complex if (m.cplx and as_c) else ST.Magnitude
            if m.v.shape[1] + mq.v.shape[1] > 8:
                continue
            mag = dsp.Spectrum(m.f.copy(), np.abs(m.v))
            if m.cplx and len(m.f) != m.v.shape[1]:
                raises(lambda: dsp.append_spectra([s, mag], True), "complex and magnitude spectra")
                a = dsp.append_spectra([mag, q, mag], as_c)
                check(a.is_magnitude, "first spectrum without phase")
                close(a.spectral_data, np.concatenate([np.abs(m.v), mq.interp(m.f, ST.Magnitude), np.abs(m.v)], axis=1), "appended to a magnitude spectrum", 1e-7)
            s2 = dsp.append_spectra([s, q], as_c)
            compare(s, m, "first appended spectrum")
            m2 = Model(m.f, np.concatenate([m.interp(m.f, out), mq.interp(m.f, out)], axis=1))
            s, m = s2, m2
        elif op == "params":
            p = pick_params(r, m.cplx)
            s.set_interpolator_parameters(*p)
            m.dom, m.sch, m.edg = p
        elif op == "sum_power":
            s2 = s.sum_channels(True)
            compare(s, m, "source of the power sum")
            s = s2
            m.v = np.sqrt(np.sum(np.abs(m.v) ** 2, axis=1, keepdims=True))
            if m.dom in (DOM.Complex, DOM.MagnitudePhase):
                m.dom = DOM.Power
            m.coh = None
        elif op == "sum":
            s2 = s.sum_channels(False)
            compare(s, m, "source of the sum")
            s = s2
            m.v = np.sum(m.v, axis=1, keepdims=True)
            m.coh = None
        else:
            q = dsp.Spectrum(m.f.copy(), np.ones((n, 2)) * 3.0)
            if m.f[-1] - m.f[0] > 5e4:
                continue
            q.set_interpolator_parameters(DOM.Magnitude)
            q.apply_octave_smoothing(float(r.choice([1, 3, 6, 12])))
            close(q.spectral_data, np.full(q.spectral_data.shape, 3.0), "smoothing of a constant", 1e-9)
            continue
        compare(s, m, op)
        done += 1
        if s.number_of_channels > s.number_frequency_bins:
            break
    return f"{min(done, 6)} steps"


# ----------------------------------------------------------- energy
@sub(PID, st.fixed_dictionaries(SPEC), quick=150, thorough=3000)
def energy(c):
    s, m, r = make(c)
    n = len(m.f)
    p = np.abs(m.v) ** 2

    def trap(a, b):
        return np.sum((p[a:b] + p[a + 1 : b + 1]) / 2 * np.diff(m.f[a : b + 1])[:, None], axis=0)

    close(s.get_energy(), trap(0, n - 1), "total energy")
    a, b = sorted(r.choice(n, 2, replace=False))
    lo, hi = m.f[a], m.f[b]
    close(s.get_energy(lo, hi), trap(a, b), "energy between bins")
    close(s.get_energy(lo, None), trap(a, n - 1), "energy from a bin")
    close(s.get_energy(None, hi), trap(0, b), "energy up to a bin")
    # limits between the bins are included
    if b < n - 1:
        d = (m.f[b + 1] - m.f[b]) * 0.3
        close(s.get_energy(lo, hi + d), trap(a, b + 1), "upper limit between bins")
    if a > 0:
        d = (m.f[a] - m.f[a - 1]) * 0.3
        close(s.get_energy(lo - d, hi), trap(a - 1, b), "lower limit between bins")
    close(s.get_energy(lo, hi) + s.get_energy(hi, None) + s.get_energy(None, lo), trap(0, n - 1), "energies add up")
    raises(lambda: s.get_energy(m.f[-1], m.f[0]), "reversed limits")
    return "complex" if m.cplx else "magnitude"


# ----------------------------------------------------------- construction
@sub(PID, st.fixed_dictionaries(SPEC), quick=120, thorough=2000)
def construction(c):
    r = np.random.default_rng(c["seed"])
    f = freqs(c, r)
    v = values(c, r)
    src_f, src_v = f.copy(), v.copy()
    s = dsp.Spectrum(src_f, src_v)
    src_f[...] = np.arange(len(f)) * 3.0
    src_v[...] = 7.0
    close(s.frequency_vector_hz, f, "frequencies are shared with the caller", 0)
    close(s.spectral_data, v, "values are shared with the caller", 0)
    if c["n"] != c["ch"]:
        close(dsp.Spectrum(f, v.T).spectral_data, v, "transposed data", 0)
    close(dsp.Spectrum(f, v[:, 0]).spectral_data, v[:, :1], "one-dimensional data", 0)
    kind = {"lin0": FS.Linear, "lin": FS.Linear, "log": FS.Logarithmic}.get(c["grid"], FS.Other)
    check(s.frequency_vector_type == kind, "spacing", s.frequency_vector_type, kind)
    raises(lambda: dsp.Spectrum(f, v[:-1]), "wrong number of bins") if c["n"] != c["ch"] else None
    raises(lambda: dsp.Spectrum(f[::-1], v), "descending frequencies")
    raises(lambda: dsp.Spectrum(f - f[-1], v), "negative frequencies")
    raises(lambda: dsp.Spectrum(np.r_[f[:2], f[1], f[3:]], v), "repeated frequencies")
    raises(lambda: dsp.Spectrum(f, -np.abs(v)), "negative magnitude")
    raises(lambda: s.set_coherence(np.ones((c["n"] + 1, c["ch"]))), "coherence of another shape")
    raises(lambda: s.set_coherence(np.ones(v.shape) * 1j), "complex coherence")
    check(not s.has_coherence, "refused coherence is stored")
    co = np.full(v.shape, 0.5)
    s.set_coherence(co)
    co[...] = 0
    close(s.coherence, np.full(v.shape, 0.5), "coherence is shared with the caller")
    return c["grid"]


@sub(PID, st.fixed_dictionaries(dict(
    seed=gen.seeds(), k=st.integers(1, 3), form=st.sampled_from(["ba", "sos", "zpk", "fir"]), odd=st.booleans(),
    taps=st.integers(1, 20), lead=st.just(0), fs=st.sampled_from(gen.FS), cplx=st.booleans(), n=st.integers(5, 60),
    nf=st.integers(1, 3))), quick=120, thorough=2000)
def from_filters(c):
    """Spectra of filters and banks are the polynomials on the unit circle."""
    r = np.random.default_rng(c["seed"])
    f = np.sort(r.uniform(1, 0.5 * c["fs"], c["n"]))
    flt, b, a = build(c)
    H = gen.freqz(b, a, f, c["fs"])
    s = dsp.Spectrum.from_filter(f, flt, c["cplx"])
    close(s.spectral_data[:, 0], H if c["cplx"] else np.abs(H), "from_filter", 1e-5, 1e-6)
    check(s.is_complex == c["cplx"], "type")
    parts = [build(dict(c, seed=c["seed"] + i)) for i in range(c["nf"])]
    bank = dsp.FilterBank([p[0] for p in parts])
    Hs = np.stack([gen.freqz(p[1], p[2], f, c["fs"]) for p in parts], axis=1)
    for mode, want in ((dsp.FilterBankMode.Parallel, Hs),
                       (dsp.FilterBankMode.Sequential, np.prod(Hs, axis=1, keepdims=True)),
                       (dsp.FilterBankMode.Summed, np.sum(Hs, axis=1, keepdims=True))):
        s = dsp.Spectrum.from_filterbank(f, bank, mode, c["cplx"])
        close(s.spectral_data, want if c["cplx"] else np.abs(want), f"from_filterbank {mode.name}", 1e-5, 1e-6)
    return c["form"]


SIG = dict(
    seed=gen.seeds(),
    n=st.integers(8, 300),
    ch=st.integers(1, 3),
    fs=st.sampled_from([1000, 8000, 44100, 48000]),
    amp=st.sampled_from([0.3, 5.0]),
    ir=st.booleans(),
    pad=st.booleans(),
)


def sig(c):
    x = np.random.default_rng(c["seed"]).standard_normal((c["n"], c["ch"])) * c["amp"]
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    return cls(None, x.copy(), c["fs"], constrain_amplitude=False), x


@sub(PID, st.fixed_dictionaries(SIG), quick=150, thorough=3000)
def round_trip(c):
    """Signal to spectrum and back; scalings; lengths."""
    s, x = sig(c)
    s.set_spectrum_parameters(dsp.SpectrumMethod.FFT, scaling=dsp.SpectrumScaling.FFTBackward, pad_to_fast_length=c["pad"])
    if c["pad"]:
        x = np.pad(x, ((0, next_fast_len(len(x), True) - len(x)), (0, 0)))
    n, fs = x.shape[0], c["fs"]
    sp = dsp.Spectrum.from_signal(s, True)
    X = np.fft.rfft(x, axis=0)
    close(sp.frequency_vector_hz, np.fft.rfftfreq(n, 1 / fs), "frequencies")
    close(sp.spectral_data, X, "values", 1e-9)
    sp.set_interpolator_parameters(DOM.Complex, SCH.Linear, EDG.OnePad)
    back = sp.to_signal(fs)
    check(back.sampling_rate_hz == fs, "sampling rate")
    close(back.time_data, x, "signal after the round trip", 1e-9)
    # the spectrum and its settings are unchanged
    close(sp.spectral_data, X, "values after to_signal", 1e-12)
    close(sp.get_interpolated_spectrum(np.array([fs * 0.7]), ST.Magnitude), np.ones((1, c["ch"])), "settings after to_signal")
    # requested length
    for L in (n + 7, max(n - 3, 1)):
        t = sp.to_signal(fs, L / fs)
        want = np.zeros((L, c["ch"]))
        want[: min(L, n)] = x[:L]
        close(t.time_data, want, f"length {L} requested", 1e-9)
    mag = dsp.Spectrum.from_signal(s, False)
    close(mag.spectral_data, np.abs(X), "magnitudes", 1e-9)
    raises(lambda: mag.to_signal(fs), "signal of magnitudes")
    # power scalings give the magnitude as well
    s.spectrum_scaling = dsp.SpectrumScaling.PowerSpectralDensity
    a = dsp.Spectrum.from_signal(s, False).spectral_data
    close(a**2, s.get_spectrum()[1].reshape(a.shape), "root of the power", 1e-9)
    raises(lambda: dsp.Spectrum.from_signal(s, True), "complex of powers")
    return "odd" if n % 2 else "even"


@sub(PID, st.fixed_dictionaries(dict(seed=gen.seeds(), n=st.integers(200, 600), fs=st.sampled_from([8000, 44100, 48000]),
                                     ratio=st.sampled_from([0.5, 0.75, 1.5, 2.0, 0.91875]), mode=st.sampled_from(["rate", "log", "cut"]),
                                     odd=st.booleans())), quick=60, thorough=1000)
def to_other_rates(c):
    """A short, smooth response keeps its shape through interpolation."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    n = 2 * c["n"] + int(c["odd"])
    # band-limited, quickly decaying response
    fc, tau = fs * r.uniform(0.05, 0.1), 30.0 / fs
    resp = lambda f: 1 / (1 + 1j * 2 * np.pi * (f - fc) * tau / 4) ** 4 + 1 / (1 + 1j * 2 * np.pi * (f + fc) * tau / 4) ** 4
    new = int(round(fs * c["ratio"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["mode"] == "log":
            f = np.r_[np.geomspace(fs / n / 4, fs / 2, 3 * n)]
            t = dsp.Spectrum(f, resp(f)).to_signal(new, n / new)
            check(t.length_samples == n, "length", t.length_samples, n)
        else:
            f = np.fft.rfftfreq(n, 1 / fs)
            if c["mode"] == "cut":
                f = f[1:]  # no DC
            t = dsp.Spectrum(f, resp(f)).to_signal(new)
            check(abs(t.length_samples - n * new / fs) <= 1, "length", t.length_samples, n * new / fs)
    q = np.linspace(fc * 0.5, min(fc * 1.8, 0.45 * new, 0.45 * fs), 25)
    k = np.arange(t.length_samples)
    H = np.exp(-2j * np.pi * np.outer(q, k) / new) @ t.time_data[:, 0]
    close(H, resp(q), "response at the new rate", 0.03)
    return c["mode"]


# ----------------------------------------------------------- smoothing
@sub(PID, st.fixed_dictionaries(dict(seed=gen.seeds(), n=st.integers(60, 400), ch=st.integers(1, 3), frac=st.sampled_from([1, 2, 3, 6, 12]),
                                     grid=st.sampled_from(["log", "lin0", "lin", "other"]), start=st.integers(0, 40), cplx=st.booleans(),
                                     win=st.sampled_from(["Hann", "Boxcar", "Blackman"]))), quick=120, thorough=2500)
def smoothing(c):
    """A weighted average over the stated fraction of an octave."""
    r = np.random.default_rng(c["seed"])
    n, frac = c["n"], c["frac"]
    win = getattr(dsp.Window, c["win"])
    if c["grid"] == "log":
        oct_step = r.uniform(0.01, 0.1)
        f = 20 * 2 ** (np.arange(n) * oct_step)
    elif c["grid"] == "other":
        f = 100.0 + np.cumsum(r.uniform(0.5, 1.5, n))
    else:
        f = (np.arange(n) + (c["start"] if c["grid"] == "lin" else 0)) * 10.0
    base = 1.0 + r.uniform(0, 1, (1, c["ch"]))
    pos = int(r.integers(n // 3, n - 3))
    mag = np.tile(base, (n, 1))
    if c["grid"] == "log":
        mag[pos] += 5.0
    else:
        mag[pos:] += 5.0
    start = mag.copy()
    rnd = np.exp(r.normal(0, 1, (n, c["ch"])))
    ph = np.exp(1j * 0.3) if c["cplx"] else 1.0
    # averages stay within the range
    s = dsp.Spectrum(f.copy(), rnd * ph)
    s.set_interpolator_parameters(DOM.MagnitudePhase if c["cplx"] else DOM.Magnitude)
    check(s.apply_octave_smoothing(frac, win) is s, "in place")
    v = s.spectral_data
    g = s.frequency_vector_hz
    check(v.shape == (len(g), c["ch"]), "shape")
    check(np.iscomplexobj(v) == c["cplx"], "type")
    check(np.all(np.abs(v) <= rnd.max(axis=0) * (1 + 1e-9)) and np.all(np.abs(v) >= rnd.min(axis=0) * (1 - 1e-9)), "smoothed values leave the range of the data")
    if c["cplx"]:
        close(np.angle(v), np.full(v.shape, 0.3), "constant phase", 1e-7)
    if c["grid"] == "other":
        check(np.allclose(np.diff(g), g[1] - g[0]) and abs(g[1] - g[0] - 1.0) < 0.2, "frequency vector after smoothing")
        check(g[0] == f[0] and abs(g[-1] - f[-1]) < 1e-9, "range of the frequency vector")
        return "other"
    same(g, f, "frequencies")
    # magnitude and continuous phase are smoothed, each by itself
    if c["cplx"]:
        phi = np.cumsum(r.uniform(-2.8, 2.8, (n, c["ch"])), axis=0)
        parts = []
        for q in (rnd, phi - phi.min() + 1.0):
            u = dsp.Spectrum(f.copy(), q)
            u.apply_octave_smoothing(frac, win)
            parts.append(u.spectral_data)
        u = dsp.Spectrum(f.copy(), rnd * np.exp(1j * phi))
        u.apply_octave_smoothing(frac, win)
        close(u.spectral_data, parts[0] * np.exp(1j * (parts[1] + phi.min() - 1.0)), "smoothing of magnitude and phase", 1e-7)
    # data which starts later is smoothed like the same part of a whole one
    if c["grid"] == "lin" and c["start"]:
        st0 = c["start"]
        whole = np.r_[np.exp(r.normal(0, 1, (st0, c["ch"]))), rnd]
        u = dsp.Spectrum(np.arange(st0 + n) * 10.0, whole)
        u.apply_octave_smoothing(frac, win)
        low = (st0 + 2) * 2 ** (0.5 / frac + 4 * np.log2(st0 + n) / (st0 + n - 1)) + 1
        keep = np.arange(st0, st0 + n) > low
        p = dsp.Spectrum(f.copy(), rnd)
        p.apply_octave_smoothing(frac, win)
        close(p.spectral_data[keep], u.spectral_data[st0:][keep], "smoothing of a part", 1e-7)
    # a line or step: affects half the width to either side and nothing else
    s = dsp.Spectrum(f.copy(), mag.copy())
    s.apply_octave_smoothing(frac, win)
    d = np.abs(s.spectral_data - start).max(axis=1)
    if c["grid"] == "log":
        w = int(1 / frac / oct_step + 0.5)
        w += 1 - w % 2
        import scipy.signal as sps

        k = sps.get_window(win.to_scipy_format(), w, fftbins=False)
        k = k / k.sum()
        pad = np.pad(mag, ((w // 2, w // 2), (0, 0)), mode="edge")
        want = np.stack([np.convolve(pad[:, i], k, "valid") for i in range(c["ch"])], axis=1)
        close(s.spectral_data, want, "convolution on the logarithmic axis", 1e-7)
        return "log"
    # linear axis: resolution of the inner logarithmic axis adds some bins
    idx = np.arange(n) + (c["start"] if c["grid"] == "lin" else 0) + 1.0
    N = idx[-1]
    beta = np.log2(N) / (N - 1)  # octaves per step
    half = 0.5 / frac + 2 * beta
    ratio = np.abs(np.log2(idx / idx[pos]))
    slack = 2.0 / idx[pos]
    far = ratio > half + slack * 2
    check(np.all(d[far] < 1e-6), "a step is smeared beyond its octave fraction", d[far].max() if far.any() else 0)
    if c["win"] == "Boxcar" and 0.5 / frac > 4 * beta:
        near = (ratio < 0.5 / frac - 2 * beta - slack) & (np.log2(N / idx) > 2 * beta)
        check(np.all(d[near] > 1e-6), "a step is not averaged over its octave fraction")
    return c["grid"]


@sub(PID, gen.fd(seed=gen.seeds(), n=st.integers(4, 200), m=st.integers(4, 400), fs=st.sampled_from(gen.FS)), quick=100, thorough=2000)
def band_edges(c):
    """Bins of a transform of any other length lie inside the range of a whole
    spectrum, Nyquist included, whatever the edges are set to."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    n = 2 * c["n"]
    v = 1 + r.random((n // 2 + 1, 2))
    req = np.fft.rfftfreq(c["m"], 1 / fs)
    want = np.stack([np.interp(np.minimum(req, fs / 2), np.arange(n // 2 + 1) * (fs / n), v[:, k]) for k in range(2)], 1)
    for edge in EDG:
        s = dsp.Spectrum(np.linspace(0, fs / 2, n // 2 + 1), v.copy())
        s.set_interpolator_parameters(DOM.Magnitude, list(dsp.InterpolationScheme)[0], edge)
        s.set_interpolator_parameters(DOM.Magnitude, dsp.InterpolationScheme.Linear, edge)
        close(s.get_interpolated_spectrum(req, ST.Magnitude), want, f"all bins with {edge.name}", 1e-7)
    return "even" if c["m"] % 2 == 0 else "odd"


@sub(PID, st.fixed_dictionaries(dict(SPEC, n2=st.integers(6, 60), kinds=st.sampled_from(["spsp", "spsp", "sigsp", "sigsig", "spsig"]),
                                     smooth=st.sampled_from([0.0, 0.0, 1.0, 3.0]), energy=st.booleans(), want_cplx=st.booleans(),
                                     dr=st.sampled_from([None, 100.0, 30.0, -30.0, 6.0]))), quick=200, thorough=4000)
def differences(c):
    """Spectral difference: the quotient of both, the second one interpolated
    onto the bins of the first and limited to its dynamic range."""
    r = np.random.default_rng(c["seed"] + 11)
    objs, mods = [], []
    cplx = c["want_cplx"]
    for i in range(2):
        if c["kinds"].startswith("sig") if i == 0 else c["kinds"].endswith("sig"):
            n = c["n2"] * 2 + i
            x = r.standard_normal((n, c["ch"])) * 0.3
            q = dsp.Signal(None, x, 2000, constrain_amplitude=False)
            q.set_spectrum_parameters(dsp.SpectrumMethod.FFT, scaling=dsp.SpectrumScaling.FFTBackward, pad_to_fast_length=False)
            X = np.fft.rfft(x, axis=0)
            m = Model(np.fft.rfftfreq(n, 1 / 2000), X if cplx else np.abs(X))
        else:
            q, m, _ = make(dict(c, seed=c["seed"] + 7 * i, n=c["n"] if i == 0 else c["n2"], coh=False, cplx=c["cplx"] or cplx))
            if i and r.integers(2):
                # the same bins as the first one
                m = Model(mods[0].f, (values(dict(c, n=len(mods[0].f), cplx=m.cplx), r)))
                q = dsp.Spectrum(m.f.copy(), m.v.copy())
            m.v = m.v if cplx else np.abs(m.v)
        objs.append(q)
        mods.append(m)
    if any(m.v.shape[1] > m.v.shape[0] for m in mods):
        return None
    keep = [o.copy() for o in objs]
    m1, m2 = mods
    lin = all(q.frequency_vector_type == FS.Linear if isinstance(q, dsp.Spectrum) else True for q in objs)
    frac = c["smooth"] if lin else 0.0
    for m in mods:
        if c["energy"]:
            p = np.abs(m.v) ** 2
            m.v = m.v / np.sqrt(np.sum((p[1:] + p[:-1]) / 2 * np.diff(m.f)[:, None], axis=0))
        if frac:
            t = dsp.Spectrum(m.f.copy(), m.v.copy())
            t.apply_octave_smoothing(frac)
            m.v = t.spectral_data.copy()
    m2.dom, m2.sch, m2.edg = DOM.MagnitudePhase if cplx else DOM.Power, SCH.Linear, EDG.ZeroPad
    den = m2.interp(m1.f, ST.Complex if cplx else ST.Magnitude)
    if c["dr"] is not None:
        a = np.abs(den)
        fl = np.max(a, axis=0) * 10 ** (-abs(c["dr"]) / 20)
        if np.any(np.max(a, axis=0) == 0):
            return None
        den = np.maximum(a, fl) * (np.exp(1j * np.angle(den)) if cplx else 1.0)
    ok = np.abs(den) > 1e-6 * np.max(np.abs(den))
    if not np.any(ok):
        return None
    with np.errstate(all="ignore"):
        want = m1.v / den
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = dsp.spectral_difference(objs[0], objs[1], frac, c["energy"], cplx, c["dr"])
    check(out.is_complex == cplx, "type of the difference")
    close(out.frequency_vector_hz, m1.f, "frequencies", 1e-9)
    close(np.where(ok, out.spectral_data, 0), np.where(ok, want, 0), f"difference {c['kinds']} {c['dr']}", 1e-6)
    for a, b in zip(objs, keep):
        if isinstance(a, dsp.Spectrum):
            same(a.spectral_data, b.spectral_data, "input changed")
    # refusals
    if not cplx and isinstance(objs[0], dsp.Spectrum) and objs[0].is_magnitude:
        raises(lambda: dsp.spectral_difference(objs[0], objs[1], 0.0, c["energy"], True, c["dr"]), "complex difference of magnitudes")
    more = dsp.Spectrum(m1.f.copy(), np.ones((len(m1.f), c["ch"] + 1))) if len(m1.f) != c["ch"] + 1 else None
    if more is not None:
        raises(lambda: dsp.spectral_difference(objs[0], more), "other number of channels")
    return c["kinds"] + ("-cplx" if cplx else "")
