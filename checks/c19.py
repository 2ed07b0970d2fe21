"""C19: phase tools keep the magnitude and deliver the promised phase.

Oracles: responses built from known zeros and poles (their minimum-phase
equivalent is the same system with all the zeros reflected into the unit
circle), closed-form group delays, plain numpy spectra, round trips."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.signal import lfilter

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C19"
TF = dsp.transfer_functions
SC = dsp.SpectrumScaling
ME = dsp.SpectrumMethod


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def zeros(r, pairs, lo=0.2, hi=0.9):
    z = r.uniform(lo, hi, pairs) * np.exp(1j * np.pi * r.uniform(0.02, 0.98, pairs))
    real = r.uniform(-hi, hi, int(r.integers(0, 3)))
    return z, real


def fir(z, real, outside=None):
    """FIR filter with these zeros; `outside` are the indices of those
    reflected outside of the circle (same magnitude)."""
    b = np.array([1.0])
    for i, q in enumerate(z):
        p = np.array([1, -2 * q.real, abs(q) ** 2])
        b = np.convolve(b, p[::-1] if outside is not None and outside[i] else p)
    for i, q in enumerate(real):
        p = np.array([1, -q])
        b = np.convolve(b, p[::-1] if outside is not None and outside[len(z) + i] else p)
    return b


def systems(c):
    """Per channel: the minimum-phase response, a version of it with some zeros
    outside, delay, polarity and gain."""
    r = np.random.default_rng(c["seed"])
    n, mins, gots, dl = c["n"], [], [], []
    for _ in range(c["ch"]):
        z, real = zeros(r, c["pairs"], hi=c.get("hi", 0.85))
        k = len(z) + len(real)
        out = r.random(k) < 0.5 if c["mixed"] else np.zeros(k, bool)
        a = np.array([1.0])
        if c["poles"]:
            zp, _ = zeros(r, 1, hi=0.8)
            a = fir(zp, [])
        x = np.zeros(n)
        x[0] = c["gain"]
        mins.append(lfilter(fir(z, real), a, x))
        d = int(r.integers(0, n // 6)) if c["delay"] else 0
        y = np.zeros(n)
        y[d] = c["gain"] * (r.choice([-1, 1]) if c["mixed"] else 1)
        gots.append(lfilter(fir(z, real, out), a, y))
        dl.append(d)
    return np.stack(mins, 1), np.stack(gots, 1), np.array(dl)


def ir(x, c, **kw):
    s = dsp.ImpulseResponse(None, x, c["fs"], constrain_amplitude=False)
    r = np.random.default_rng(c["seed"] + 1)
    s.set_spectrum_parameters(
        method=[ME.FFT, ME.WelchPeriodogram][r.integers(2)],
        smoothing=int(r.choice([0, 0, 3])),
        pad_to_fast_length=bool(r.integers(2)),
        window_length_samples=64,
        scaling=list(SC)[r.integers(len(list(SC)))],
    )
    return s


SYS = dict(
    seed=gen.seeds(),
    n=st.integers(120, 300),
    ch=st.integers(1, 3),
    pairs=st.integers(0, 4),
    mixed=st.booleans(),
    poles=st.booleans(),
    delay=st.booleans(),
    gain=st.sampled_from([1.0, 0.05, 3.0]),
    fs=st.sampled_from(gen.FS),
)


def label(c):
    return ("mixed" if c["mixed"] else "minimum") + (" delayed" if c["delay"] else "")


# ------------------------------------------------------------- minimum phase
@sub(PID, gen.fd(**SYS, pad=st.sampled_from([2, 3, 8]), alpha=st.sampled_from([1.0, 1.0, 1 - 1e-8, 0.999, 0.99])), quick=120, thorough=3000)
def minimum_phase_responses(c):
    """min_phase_ir is the system with all zeros inside: same magnitude, and at
    no time less energy than the source. Same for the phase alone."""
    alpha = c["alpha"] if not c["mixed"] or c["alpha"] > 0.9999 else 1.0
    want, x, d = systems(c)
    s = ir(x, c)
    h = TF.min_phase_ir(s, padding_factor=c["pad"], alpha=alpha)
    if alpha < 0.9999:
        # the weights of the delay remain
        close(h.time_data, want * alpha**d, "minimum-phase response with weights", rtol=1e-5, scale=np.max(np.abs(want)))
        return "weighted"
    check(type(h) is dsp.ImpulseResponse and h.sampling_rate_hz == c["fs"], "kind")
    same(s.time_data, x, "input changed")
    sc = np.max(np.abs(want))
    got = h.time_data
    check(got.shape == want.shape, "shape", got.shape)
    close(got, want, "minimum-phase response", rtol=1e-6, scale=sc)
    early = np.cumsum(got**2, 0) - np.cumsum(x**2, 0)
    check(np.min(early) >= -1e-6 * sc**2 * len(x), "energy is not as early as possible", np.min(early))
    N = 4 * len(x)
    A, B = np.abs(np.fft.rfft(got, N, axis=0)), np.abs(np.fft.rfft(x, N, axis=0))
    close(A, B, "magnitude", rtol=2e-5, scale=np.max(B))
    f, ph = TF.minimum_phase(s, padding_factor=c["pad"])
    check(ph.shape == (len(f), c["ch"]), "shape of phases", ph.shape)
    check(f[0] == 0 and np.all(np.diff(f) > 0) and f[-1] <= c["fs"] / 2 * (1 + 1e-12), "frequencies")
    w = np.exp(-2j * np.pi * np.outer(f / c["fs"], np.arange(len(x)))) @ want
    err = np.angle(np.exp(1j * ph) * np.conj(w))
    check(np.max(np.abs(err)) < 1e-4, "phase of the minimum-phase system", np.max(np.abs(err)))
    return label(c)


@sub(PID, gen.fd(**SYS, cep=st.booleans(), pad=st.sampled_from([2, 3, 8, 12])), quick=80, thorough=1500)
def symmetric_responses(c):
    """Linear-phase (symmetric) responses by either method: same length and
    magnitude, minimum phase of the reflected zeros."""
    r = np.random.default_rng(c["seed"])
    cols, wants = [], []
    for _ in range(c["ch"]):
        z, real = zeros(r, c["pairs"], hi=0.8)
        b = fir(z, real)
        cols.append(np.convolve(b, b[::-1]) * c["gain"])
        wants.append(np.convolve(b, b) * c["gain"])
    L = max(len(b) for b in cols) + (1 if c["delay"] else 0)
    L = max(L, 60, c["ch"] + 1)
    pad = lambda v: np.pad(v, (0, L - len(v)))
    x, want = np.stack([pad(v) for v in cols], 1), np.stack([pad(v) for v in wants], 1)
    s = ir(x, c)
    h = TF.min_phase_ir(s, c["cep"], c["pad"])
    check(h.time_data.shape == x.shape, "shape", h.time_data.shape)
    close(h.time_data, want, "minimum-phase response", rtol=1e-5, scale=np.max(np.abs(want)))
    f, ph = TF.minimum_phase(s, c["cep"], c["pad"])
    w = np.exp(-2j * np.pi * np.outer(f / c["fs"], np.arange(L))) @ want
    err = np.angle(np.exp(1j * ph) * np.conj(w))
    check(np.max(np.abs(err)) < 1e-3, "phase", np.max(np.abs(err)))
    return "cepstrum" if c["cep"] else "symmetric method"


@sub(
    PID,
    gen.fd(seed=gen.seeds(), n=st.integers(4, 200), kind=st.sampled_from(["dc", "nyquist", "silent", "comb", "dirac"]), fs=st.sampled_from(gen.FS)),
    quick=40,
)
def spectral_zeros(c):
    """Responses without energy at some frequencies (or at all) give finite
    minimum-phase versions of about the same magnitude elsewhere."""
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    x = np.zeros(n)
    k = int(r.integers(0, n - 2))
    x[k] = 1.0
    if c["kind"] == "dc":
        x[k + 1] = -1.0
    elif c["kind"] == "nyquist":
        x[k + 1] = 1.0
    elif c["kind"] == "comb":
        x[k + 2] = -1.0
    elif c["kind"] == "silent":
        x[:] = 0.0
    s = ir(x[:, None], c)
    h = TF.min_phase_ir(s).time_data
    check(np.all(np.isfinite(h)), "not finite")
    f, p = TF.minimum_phase(s)
    check(np.all(np.isfinite(p)), "phase not finite")
    f, g = TF.minimum_group_delay(s)
    check(np.all(np.isfinite(g)), "group delay not finite")
    if c["kind"] == "silent":
        check(np.max(np.abs(h)) < 1e-100, "silence")
    if c["kind"] == "dirac":
        close(h[:, 0], np.eye(n)[0], "impulse", atol=1e-9)
    return c["kind"]


# ---------------------------------------------------------- from magnitudes
@sub(
    PID,
    gen.fd(**SYS, length=st.integers(64, 300), db=st.booleans(), own=st.booleans()),
    quick=100,
    thorough=2000,
)
def minimum_from_magnitude(c):
    """min_phase_from_mag of a finely sampled magnitude is the minimum-phase
    system, of exactly the requested length, at any level."""
    want, x, d = systems(dict(c, n=400))
    fs, L = c["fs"], c["length"]
    N = L if c["own"] else 4096
    f = np.linspace(0, (N // 2) * fs / N, N // 2 + 1)
    H = np.exp(-2j * np.pi * np.outer(f / fs, np.arange(len(x)))) @ x
    spec = dsp.Spectrum(f, np.abs(H) if c["db"] else H)
    if not c["own"]:
        spec.set_interpolator_parameters(dsp.InterpolationDomain.Magnitude, dsp.InterpolationScheme.Cubic, dsp.InterpolationEdgeHandling.Extend)
    keep = np.array(spec.spectral_data)
    h = TF.min_phase_from_mag(spec, fs, L)
    same(np.array(spec.spectral_data), keep, "spectrum changed")
    check(h.time_data.shape == (L, c["ch"]) and h.sampling_rate_hz == fs, "shape", h.time_data.shape)
    w = want[: min(L, 400)].copy()
    w = np.pad(w, ((0, L - len(w)), (0, 0)))
    close(h.time_data, w, "minimum-phase response", rtol=3e-3, scale=np.max(np.abs(want)))
    if c["own"]:
        m = np.abs(H)
        close(np.abs(np.fft.rfft(h.time_data, axis=0)), m, "magnitude at the bins", rtol=1e-2, scale=np.max(m))
    return "own bins" if c["own"] else "interpolated"


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        ch=st.integers(1, 3),
        pairs=st.integers(0, 3),
        gain=st.sampled_from([1.0, 0.05, 3.0]),
        fs=st.sampled_from([8000, 16000, 44100, 48000]),
        mode=st.sampled_from(["samples", "free", "minimum", "checked"]),
        delay=st.integers(60, 400),
        frac=gen.floats(0.02, 0.98, 2),
        factor=st.sampled_from([1.0, 1.5, 4.0]),
    ),
    quick=60,
    thorough=800,
)
def linear_phase(c):
    """lin_phase_from_mag: symmetric around the requested delay (whole samples
    exactly, others at most one sample off), magnitude kept, twice as long as
    the delay; the automatic delay lies above the minimum group delay by the
    stated margin; delays below it are refused."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    cols, gd = [], []
    N = 8192
    f = np.linspace(0, fs / 2, N // 2 + 1)
    for _ in range(c["ch"]):
        z, real = zeros(r, c["pairs"], hi=0.7)
        b = fir(z, real) * c["gain"]
        B = np.fft.rfft(b, N)
        cols.append(np.abs(B))
        gd.append(np.max(np.real(np.fft.rfft(b * np.arange(len(b)), N) / B)))
    gd = np.array(gd) / fs
    m = np.stack(cols, 1)
    spec = dsp.Spectrum(f, m)
    spec.set_interpolator_parameters(dsp.InterpolationDomain.Magnitude, dsp.InterpolationScheme.Cubic, dsp.InterpolationEdgeHandling.Extend)
    if c["mode"] == "minimum":
        h = TF.lin_phase_from_mag(spec, fs, None, True, c["factor"])
        want = c["factor"] * (gd + 1e-3)
        total = want.max()
    else:
        d = c["delay"] + (c["frac"] if c["mode"] == "free" else 0)
        if c["mode"] == "checked":
            d += int(np.max(gd) * fs) + int(2e-3 * fs)
            low = np.max(gd) - 0.5 / fs
            if low > 0.5 / fs:
                raises(lambda: TF.lin_phase_from_mag(spec, fs, low * 1e3, True), "too short delay")
        h = TF.lin_phase_from_mag(spec, fs, d / fs * 1e3, c["mode"] == "checked")
        want = np.full(c["ch"], d / fs)
        total = d / fs
    x = h.time_data
    check(abs(len(x) - 2 * total * fs) <= 1 + 1e-6 * fs * (c["mode"] == "minimum"), "length", len(x), 2 * total * fs)
    check(x.shape[1] == c["ch"], "channels")
    tol = 0.02 if c["mode"] == "minimum" and fs < 20000 else 5e-4
    for k in range(c["ch"]):
        D = int(np.argmax(np.abs(x[:, k])))
        if c["mode"] in ("samples", "checked"):
            check(D == d, "delay", D, d)
        else:
            check(-0.02 <= D - want[k] * fs <= 1.02, "delay", D, want[k] * fs)
        half = min(D, len(x) - 1 - D)
        seg = x[D - half : D + half + 1, k]
        close(seg, seg[::-1], "symmetry", atol=2e-4 * np.max(m))
        X = np.fft.rfft(x[:, k], N)
        close(np.abs(X), m[:, k], "magnitude", rtol=tol, scale=np.max(m[:, k]))
    return c["mode"]


# --------------------------------------------------------------- group delay
def true_delay(x, n):
    X = np.fft.rfft(x, n, axis=0)
    R = np.fft.rfft(x * np.arange(len(x))[:, None], n, axis=0)
    return np.real(R / X), X


@sub(PID, gen.fd(**SYS, n2=st.integers(60, 301), analytic=st.booleans(), cls=st.booleans(), unit=st.sampled_from([0, 0, 0, 1, 2])), quick=120, thorough=3000)
def group_delays(c):
    """group_delay is the negative derivative of the phase at the returned
    frequencies, for any length and channel count."""
    c = dict(c, n=c["n2"])
    if c["unit"]:
        # frequency steps of exactly (half of) 1 Hz
        c["fs"] = c["n"] // c["unit"]
    _, x, d = systems(c)
    s = ir(x, c)
    if c["cls"]:
        s = dsp.Signal(None, x, c["fs"], constrain_amplitude=False)
    before = dict(getattr(s, "_spectrum_parameters", {}))
    f, g = TF.group_delay(s, c["analytic"])
    check(dict(getattr(s, "_spectrum_parameters", {})) == before, "settings changed")
    same(s.time_data, x, "signal changed")
    n = len(x)
    close(f, np.fft.rfftfreq(n, 1 / c["fs"]), "frequencies", rtol=1e-12)
    check(g.shape == (len(f), c["ch"]), "shape", g.shape)
    want, X = true_delay(x, n)
    if c["analytic"]:
        ok = np.abs(X) > 1e-4 * np.max(np.abs(X))
        close((g * c["fs"])[ok], want[ok], "group delay", rtol=1e-6, atol=1e-6)
    else:
        ph = np.unwrap(np.angle(X), axis=0)
        w = -np.gradient(ph, 2 * np.pi / n, axis=0)
        jump = np.min(np.abs(np.abs(np.diff(np.angle(X), axis=0)) - np.pi), axis=0) > 1e-6
        close((g * c["fs"])[:, jump], w[:, jump], "numeric group delay", rtol=1e-6, atol=1e-6)
        # and close to the derivative itself where the bins are dense enough
        fine = np.fft.rfftfreq(n)
    return "analytic" if c["analytic"] else "numeric"


@sub(PID, gen.fd(**SYS, move=st.integers(0, 40), analytic=st.booleans(), frac=st.sampled_from([0, 0, 1, 3, 12])), quick=100, thorough=2000)
def delays_without_latency(c):
    """With the latency removed the group delay of a minimum-phase system is
    its minimum group delay wherever the response starts; excess is total minus
    minimum: the added delay for delayed minimum-phase systems (zero with the
    latency removed), smoothed or not."""
    c = dict(c, mixed=False, delay=False, hi=0.6)
    x, _, _ = systems(c)
    n, fs, D = len(x), c["fs"], c["move"]
    y = np.zeros_like(x)
    y[D:] = x[: n - D]
    s = ir(y, c)
    f, g = TF.group_delay(s, c["analytic"], 0, True)
    check(g.shape == (len(f), c["ch"]) and abs(f[-1] - fs / 2) <= fs / n, "shape", g.shape)
    N = 2 * (len(f) - 1)
    w = np.exp(-2j * np.pi * np.outer(f / fs, np.arange(n)))
    true = np.real((w @ (x * np.arange(n)[:, None])) / (w @ x))
    inner = slice(2, -2)
    close(g[inner] * fs, true[inner], "group delay without latency", rtol=2e-3, atol=0.02)
    fm, gm = TF.minimum_group_delay(s)
    w = np.exp(-2j * np.pi * np.outer(fm / fs, np.arange(n)))
    true = np.real((w @ (x * np.arange(n)[:, None])) / (w @ x))
    close(gm[inner] * fs, true[inner], "minimum group delay", rtol=2e-3, atol=5e-3)
    fe, e = TF.excess_group_delay(s, c["frac"], False, c["analytic"])
    check(e.shape == (len(fe), c["ch"]), "shape of excess", e.shape)
    k = max(2, len(fe) // 8) if c["frac"] else 2
    close(e[k:-k] * fs, np.full_like(e[k:-k], D), "excess group delay", atol=0.2 if c["frac"] == 0 else 0.3)
    fe, e = TF.excess_group_delay(s, c["frac"], True, c["analytic"])
    close(e[k:-k] * fs, np.zeros_like(e[k:-k]), "excess without latency", atol=0.2 if c["frac"] == 0 else 0.3)
    return "analytic" if c["analytic"] else "numeric"


@sub(PID, gen.fd(**SYS, frac=st.sampled_from([1, 2, 3, 6, 12, 24]), pure=st.booleans()), quick=80, thorough=1500)
def smoothed_delays(c):
    """Smoothing is an average: constant group delays stay, others stay within
    their own range, wider smoothing never roughens, and it is linear."""
    _, x, d = systems(c)
    fs = c["fs"]
    if c["pure"]:
        x = np.zeros_like(x)
        x[d, np.arange(c["ch"])] = c["gain"]
    s = ir(x, c)
    f, g0 = TF.group_delay(s)
    f1, g1 = TF.group_delay(s, smoothing=c["frac"])
    same(f, f1, "frequencies")
    check(g1.shape == g0.shape, "shape")
    tol = 1e-6 * (np.max(np.abs(g0), axis=0) + 1 / fs)
    check(np.all(g1 <= np.max(g0, axis=0) + tol) and np.all(g1 >= np.min(g0, axis=0) - tol), "outside of the range of the values")
    rough = lambda v: np.sum(np.abs(np.diff(v, axis=0)), axis=0)
    check(np.all(rough(g1) <= rough(g0) * (1 + 1e-6) + tol), "rougher than before")
    sm = dsp.tools.fractional_octave_smoothing
    close(g1, sm(g0, None, c["frac"]), "smoothed group delay", rtol=1e-9, scale=np.max(np.abs(g0)) + 1 / fs)
    if c["pure"]:
        close(g1 * fs, np.repeat(d[None, :].astype(float), len(f), 0), "constant delay", atol=1e-6, rtol=1e-6)
    fm, m0 = TF.minimum_group_delay(s)
    fm, m1 = TF.minimum_group_delay(s, c["frac"])
    close(m1, sm(m0, None, c["frac"]), "smoothed minimum group delay", rtol=1e-9, scale=np.max(np.abs(m0)) + 1 / fs)
    fe, e0 = TF.excess_group_delay(s)
    fe, e1 = TF.excess_group_delay(s, c["frac"])
    close(e1, sm(e0, None, c["frac"]), "smoothed excess group delay", rtol=1e-9, scale=np.max(np.abs(e0)) + 1 / fs)
    check(np.all(m1 <= np.max(m0, 0) + tol) and np.all(m1 >= np.min(m0, 0) - tol), "minimum group delay outside of its range")
    return "pure" if c["pure"] else label(c)


# ------------------------------------------------------ filters and responses
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        n=st.integers(4, 120),
        ch=st.integers(1, 3),
        gain=st.sampled_from([1.0, 0.01, 5.0]),
        fs=st.sampled_from(gen.FS),
        all=st.booleans(),
    ),
    quick=100,
    thorough=2000,
)
def conversions(c):
    """Response to filter and back gives the same samples, per channel, at any
    level; the filter's response is the response's."""
    r = np.random.default_rng(c["seed"])
    x = r.standard_normal((c["n"], c["ch"])) * c["gain"]
    if c["n"] < c["ch"]:
        return None
    s = ir(x, c)
    if c["all"]:
        fb = TF.ir_to_filter(s, None)
        check(isinstance(fb, dsp.FilterBank) and len(fb) == c["ch"], "bank")
        back = TF.filter_to_ir(fb)
        check(back.sampling_rate_hz == c["fs"], "rate")
        same(back.time_data, x, "round trip of all channels")
    for k in range(c["ch"]):
        f = TF.ir_to_filter(s, k)
        check(isinstance(f, dsp.Filter) and f.sampling_rate_hz == c["fs"] and not f.is_iir, "filter")
        b, a = f.get_coefficients(dsp.FilterCoefficientsType.Ba)
        close(b / np.atleast_1d(a)[0], x[:, k], "coefficients", rtol=1e-12)
        back = TF.filter_to_ir(f)
        check(type(back) is dsp.ImpulseResponse and back.sampling_rate_hz == c["fs"], "kind")
        same(back.time_data[:, 0], x[:, k], "round trip")
        u = dsp.Signal(None, r.standard_normal((60, 1)), c["fs"], constrain_amplitude=False)
        y = f.filter_signal(u).time_data[:, 0]
        close(y, np.convolve(u.time_data[:, 0], x[:, k])[:60], "filtering", rtol=1e-9, scale=np.max(np.abs(x)) * 5)
    same(s.time_data, x, "response changed")
    # banks of different lengths
    L = [int(q) for q in r.integers(2, 40, 3)]
    hs = [r.standard_normal(q) for q in L]
    fb = dsp.FilterBank([dsp.Filter.from_ba(h, [1.0], c["fs"]) for h in hs])
    t = TF.filter_to_ir(fb).time_data
    check(t.shape == (max(max(L), 3), 3), "length of the longest", t.shape)
    for k, h in enumerate(hs):
        same(t[: len(h), k], h, "taps")
        check(np.all(t[len(h) :, k] == 0), "padding")
    return "all" if c["all"] else "single"


@sub(PID, gen.fd(**SYS, mode=st.sampled_from(["min", "lin"]), all=st.booleans()), quick=60, thorough=600)
def conversions_with_phase(c):
    """ir_to_filter with minimum or minimum linear phase keeps the magnitude
    and has that phase, whatever the spectrum settings of the response."""
    c = dict(c, hi=0.7)
    want, x, d = systems(c)
    s = ir(x, c)
    fs = c["fs"]
    res = TF.ir_to_filter(s, None if c["all"] else c["ch"] - 1, c["mode"])
    res = list(res) if c["all"] else [res]
    chans = range(c["ch"]) if c["all"] else [c["ch"] - 1]
    check(len(res) == len(list(chans)), "number of filters")
    N = 8192
    for k, f in zip(chans, res):
        b, a = f.get_coefficients(dsp.FilterCoefficientsType.Ba)
        b = np.asarray(b) / np.atleast_1d(a)[0]
        M = np.abs(np.fft.rfft(x[:, k], N))
        lin_short = c["mode"] == "lin"
        close(np.abs(np.fft.rfft(b, max(N, len(b)))) if len(b) <= N else M, M, "magnitude", rtol=(0.1 if fs < 20000 else 0.03) if lin_short else 1e-4, scale=np.max(M))
        if c["mode"] == "min":
            close(np.pad(b, (0, max(0, len(x) - len(b))))[: len(x)], want[:, k], "minimum phase", rtol=1e-5, scale=np.max(np.abs(want)))
        else:
            p = int(np.argmax(np.abs(b)))
            q = min(p, len(b) - 1 - p, 200)
            close(b[p - q : p + q + 1], b[p - q : p + q + 1][::-1], "symmetry", atol=2e-3 * np.max(np.abs(b)))
            check(p < 0.02 * fs, "delay is not minimal", p)
    return c["mode"]


# --------------------------------------------------------------- combination
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        ch=st.integers(1, 3),
        fs=st.sampled_from([16000, 48000]),
        fc=st.sampled_from([0.04, 0.07, 0.1]),
        lower=st.booleans(),
        order=st.sampled_from([8, 12]),
        norm=st.sampled_from([None, "energy", "peak", 0.0, -6.0, 3]),
        sub=st.booleans(),
    ),
    quick=40,
    thorough=400,
)
def impulse_combinations(c):
    """combine_ir_with_dirac: beyond the crossover the response is that of an
    impulse at the response's own peak with its polarity, on the other side it
    is the response itself; per channel, with the level asked for."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    n = 4096
    x = np.zeros((n, c["ch"]))
    pos = np.zeros(c["ch"])
    hs = []
    for k in range(c["ch"]):
        d = 1200 + int(r.integers(0, 500))
        h = np.array([0.15, 1.0, 0.15]) * r.choice([-1, 1]) * r.uniform(0.3, 1)
        x[d - 1 : d + 2, k] = h
        pos[k] = d
    x /= np.max(np.abs(x))
    s = ir(x, c)
    fc = c["fc"] * fs
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = TF.combine_ir_with_dirac(s, fc, c["lower"], c["order"], c["norm"])
    same(s.time_data, x, "response changed")
    check(out.time_data.shape == x.shape, "shape")
    check(abs(np.max(np.abs(out.time_data)) - 1) < 1e-9, "not normalised")
    f = np.fft.rfftfreq(n, 1 / fs)
    pas = lambda lo: (f < fc * 0.25) & (f > fs * 0.005) if lo else (f > fc * 3.2) & (f < fs * 0.45)
    Y = np.fft.rfft(out.time_data, axis=0)
    X = np.fft.rfft(x, axis=0)
    own, imp = pas(c["lower"]), pas(not c["lower"])
    g = []
    for k in range(c["ch"]):
        q = Y[own, k] / X[own, k]
        close(q, np.full(len(q), np.mean(q).real + 0j), "band of the response", rtol=0.02)
        ph = np.exp(-2j * np.pi * f[imp] / fs * pos[k])
        p = Y[imp, k] / ph
        close(p, np.full(len(p), np.mean(p).real + 0j), "band of the impulse", rtol=0.02)
        check(np.sign(np.mean(p).real) == np.sign(x[int(pos[k]), k]), "polarity", k)
        g.append((np.mean(q).real, abs(np.mean(p).real)))
    g = np.array(g)
    close(g[:, 0], np.full(c["ch"], g[0, 0]), "common gain", rtol=0.01)
    if c["norm"] is None or not isinstance(c["norm"], str):
        want = 10 ** ((c["norm"] or 0) / 20)
        close(g[:, 1] / g[:, 0], np.full(c["ch"], want), "level of the impulse", rtol=0.03)
    else:
        # the band of the impulse is as strong as that of the response
        fb = dsp.filterbanks.linkwitz_riley_crossovers([fc], c["order"], fs)
        one = dsp.Signal(None, np.eye(1, n, 1400).T, fs)
        band = lambda q, k: fb.filter_signal(q, zero_phase=True).bands[k].time_data
        a, b = band(s, 0 if c["lower"] else 1), band(one, 1 if c["lower"] else 0)
        size = (lambda v: np.sqrt(np.mean(v**2, axis=0))) if c["norm"] == "energy" else (lambda v: np.max(np.abs(v), axis=0))
        close(g[:, 1] / g[:, 0], size(a) / size(b), f"{c['norm']} of the impulse", rtol=0.03)
    return f"{c['norm']} {'lower' if c['lower'] else 'upper'}"
