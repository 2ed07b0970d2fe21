"""C25: distances behave as distances between signals.

Oracles: definitions on independently computed spectra, gain, level and
permutation relations, and a reference of the segmental measure."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import simpson

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C25"
D = dsp.distances
SM = dsp.SpectrumMethod
warnings.simplefilter("ignore")


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def from_array(x, fs):
    return dsp.Signal.from_time_data(x, fs, False)


def noisy(x, seed, level):
    r = np.random.default_rng(seed + 5)
    return x + level * np.abs(x).max() * r.standard_normal(x.shape)


def state(*signals):
    return [
        (s.time_data.copy(), s.spectrum_method, s.spectrum_scaling) for s in signals
    ] + [s.get_spectrum()[1].copy() for s in signals]


def compare(a, b):
    for u, v in zip(a, b):
        if isinstance(u, tuple):
            same(u[0], v[0], "time data unchanged")
            check(u[1:] == v[1:], "spectrum settings unchanged", u[1:], v[1:])
        else:
            same(u, v, "spectrum unchanged")


# -------------------------------------------------------- spectral distances
def power(x, fs, method, params):
    """Power spectrum, Welch's with a Hann window and half overlap."""
    if method == "FFT":
        return np.fft.rfftfreq(len(x), 1 / fs), np.abs(np.fft.rfft(x, axis=0)) ** 2
    n = params["window_length_samples"]
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)
    pad = np.concatenate([x, np.zeros((n, x.shape[1]))])
    frames = int(np.ceil(len(x) / (n // 2)))
    p = [
        np.abs(np.fft.rfft(pad[k * n // 2 : k * n // 2 + n] * w[:, None], axis=0)) ** 2
        for k in range(frames)
    ]
    return np.fft.rfftfreq(n, 1 / fs), np.mean(p, axis=0)


@sub(
    PID,
    gen.fd(
        s=gen.sig(64, 600, 3, kinds=["noise", "sines", "decay"]),
        level=gen.logfloats(1e-3, 3.0),
        method=st.sampled_from(["FFT", "Welch"]),
        window=st.sampled_from([16, 64]),
        default=st.booleans(),
        rng=st.one_of(st.none(), st.tuples(gen.floats(0.05, 1), gen.floats(0.05, 1))),
        norm=st.booleans(),
        gain=gen.floats(-40, 40, 1),
        scaling=st.sampled_from(["FFTBackward", "PowerSpectralDensity", "AmplitudeSpectrum"]),
    ),
    quick=200,
    thorough=8000,
)
def spectral(c):
    s1 = gen.mk(c["s"])
    x, fs = s1.time_data.copy(), s1.sampling_rate_hz
    y = noisy(x, c["s"]["seed"], c["level"])
    s2 = from_array(y, fs)
    s1.set_spectrum_parameters(method=SM.FFT)
    s2.set_spectrum_parameters(method=SM.FFT)
    params = dict(pad_to_fast_length=False)
    if c["method"] == "Welch":
        params = dict(window_length_samples=c["window"], detrend=False)
    reach = [0, fs // 2]
    kw = dict(energy_normalization=c["norm"], f_range_hz=None)
    if c["rng"] is not None:
        # Limits at bins, in any order
        f = power(x, fs, c["method"], params)[0]
        f = f[f <= fs // 2]
        ids = sorted(int(round(v * (len(f) - 1))) for v in c["rng"])
        if ids[1] - ids[0] < 3:
            return None
        reach = [f[ids[0]], f[ids[1]]]
        kw["f_range_hz"] = reach[::-1] if c["s"]["seed"] % 2 else reach
    full = dict(params)
    if c["norm"]:
        full["scaling"] = dsp.SpectrumScaling[c["scaling"]]
    if not (c["default"] and c["method"] == "Welch"):
        kw["method"] = SM.FFT if c["method"] == "FFT" else SM.WelchPeriodogram
    kw["spectrum_parameters"] = full if full else None
    given = dict(full)
    before = state(s1, s2)
    got = {
        "log": D.log_spectral(s1, s2, **kw),
        "is": D.itakura_saito(s1, s2, **kw),
    }
    compare(before, state(s1, s2))
    check(full == given, "parameters unchanged")
    f, p = power(x, fs, c["method"], params)
    q = power(y, fs, c["method"], params)[1]
    if c["norm"] and c["scaling"] != "FFTBackward":
        # One-sided spectra
        for m in (p, q):
            m[1:] *= 2
            if (len(x) if c["method"] == "FFT" else c["window"]) % 2 == 0 or c["method"] == "Welch":
                m[-1] /= 2
    a = int(np.argmin(np.abs(f - reach[0])))
    b = int(np.argmin(np.abs(f - reach[1])))
    f, p, q = f[a : b + 1], p[a : b + 1], q[a : b + 1]
    if min(p.min(), q.min()) < 1e-12 * max(p.max(), q.max()):
        return None
    if c["norm"]:
        p, q = p / p.sum(axis=0), q / q.sum(axis=0)
    r = p / q
    want = {
        "log": np.sqrt(simpson((10 * np.log10(r)) ** 2, x=f, axis=0)),
        "is": simpson(r - np.log(r) - 1, x=f, axis=0),
    }
    for k in want:
        check(got[k].shape == (x.shape[1],), "one value per channel")
        check(np.all(got[k] >= 0), "not negative", k, got[k])
        close(got[k], want[k], f"definition of {k}", rtol=1e-6, atol=1e-9)
    # Relations
    close(D.log_spectral(s2, s1, **kw), got["log"], "symmetric", rtol=1e-9)
    for fn in (D.log_spectral, D.itakura_saito):
        same_ = fn(s1, s1.copy(), **kw)
        close(same_, np.zeros(x.shape[1]), "equal signals", atol=1e-9)
        if c["norm"]:
            s3 = from_array(y * 10 ** (c["gain"] / 20), fs)
            close(fn(s1, s3, **kw), fn(s1, s2, **kw), "gain", rtol=1e-6, atol=1e-9)
    raises(lambda: D.log_spectral(s1, from_array(y, fs + 1)), "sampling rates")
    raises(lambda: D.itakura_saito(s1, s2, f_range_hz=[10, fs]), "beyond nyquist")
    raises(lambda: D.log_spectral(s1, s2, f_range_hz=[-10, fs / 4]), "negative")
    if x.shape[1] > 1:
        raises(lambda: D.itakura_saito(s1, s2.get_channels(0)), "channels")
    return c["method"] + (" normalised" if c["norm"] else "")


# -------------------------------------------------------------- time domain
@sub(
    PID,
    gen.fd(
        s=gen.sig(2, 300, 3, kinds=gen.RICH + ["ramp"]),
        m=st.integers(1, 300),
        one=st.booleans(),
        level=gen.floats(-60, 40, 1),
    ),
    quick=200,
    thorough=8000,
)
def ratio(c):
    s = gen.mk(c["s"])
    x, fs, ch = s.time_data.copy(), s.sampling_rate_hz, s.number_of_channels
    k = 1 if c["one"] else ch
    n = np.random.default_rng(c["s"]["seed"]).standard_normal((max(c["m"], k), k))
    noise = from_array(n, fs)
    got = D.snr(s, noise)
    check(got.shape == (ch,), "one value per channel")
    want = 10 * np.log10(np.mean(x**2, axis=0) / np.mean(n**2, axis=0))
    close(got, want, "definition", atol=1e-9)
    g = 10 ** (c["level"] / 20)
    close(D.snr(from_array(x * g, fs), noise), got + c["level"], "level of the signal", atol=1e-9)
    close(D.snr(s, from_array(n * g, fs)), got - c["level"], "level of the noise", atol=1e-9)
    same(s.time_data, x, "unchanged")
    same(noise.time_data, n, "unchanged")
    raises(lambda: D.snr(s, from_array(n, fs + 1)), "sampling rates")
    if ch > 1:
        raises(lambda: D.snr(from_array(n[:, :1], fs), s), "channels")
    return "single noise" if c["one"] and ch > 1 else "snr"


@sub(
    PID,
    gen.fd(
        s=gen.sig(4, 300, 3, kinds=gen.RICH + ["ramp"]),
        one=st.booleans(),
        level=gen.logfloats(1e-3, 10.0),
        gain=gen.floats(-60, 60, 1),
        flip=st.booleans(),
        order=st.booleans(),
    ),
    quick=200,
    thorough=8000,
)
def scale_invariant(c):
    s = gen.mk(c["s"])
    x, fs, ch = s.time_data.copy(), s.sampling_rate_hz, s.number_of_channels
    y = noisy(x, c["s"]["seed"], c["level"])
    est = from_array(y, fs)
    target = s.get_channels(0) if c["one"] else s
    t = target.time_data
    got = D.si_sdr(target, est)
    check(got.shape == (ch,), "one value per channel")
    want = np.zeros(ch)
    for k in range(ch):
        u = t[:, 0 if c["one"] else k]
        # Projection of the estimate on the target
        fit = np.linalg.lstsq(u[:, None], y[:, k], rcond=None)[0][0] * u
        rest = y[:, k] - fit
        if rest @ rest < 1e-20 * (fit @ fit) or fit @ fit < 1e-16 * (y[:, k] @ y[:, k]):
            return None
        want[k] = 10 * np.log10((fit @ fit) / (rest @ rest))
    close(got, want, "definition", rtol=1e-6, atol=1e-6)
    g = 10 ** (c["gain"] / 20) * (-1 if c["flip"] else 1)
    close(D.si_sdr(target, from_array(y * g, fs)), got, "gain of the estimate", atol=1e-6)
    close(D.si_sdr(from_array(t * g, fs), est), got, "gain of the target", atol=1e-6)
    if ch > 1 and not c["one"]:
        p = np.arange(ch)[::-1]
        close(
            D.si_sdr(from_array(t[:, p], fs), from_array(y[:, p], fs)), got[p], "order", atol=1e-9
        )
    # Orthogonal distortion of known size
    r = np.random.default_rng(c["s"]["seed"]).standard_normal(len(x))
    u = t[:, 0]
    r -= (r @ u) / (u @ u) * u
    if r @ r > 1e-6 and len(x) > 3:
        r *= np.sqrt((u @ u) / (r @ r)) * c["level"]
        z = D.si_sdr(from_array(u[:, None], fs), from_array((u + r)[:, None], fs))
        close(z, [-20 * np.log10(c["level"])], "known distortion", atol=1e-6)
    same(est.time_data, y, "unchanged")
    raises(lambda: D.si_sdr(target, from_array(y[:-1], fs)), "lengths")
    if ch > 1 and not c["one"]:
        raises(lambda: D.si_sdr(target, est.get_channels([0] * (ch + 1))), "channels")
    return "single target" if c["one"] and ch > 1 else "si-sdr"


# ---------------------------------------------------------------- segmental
def segmental(x, y, limits, gamma, n):
    """Reference for one channel given as (samples, bands)."""
    w = 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(n) / n)
    step = n // 2
    frames = int(np.ceil(len(x) / step))
    pad = ((0, frames * step + n), (0, 0))
    x, y = np.pad(x, pad), np.pad(y, pad)
    values = []
    for k in range(frames):
        i = slice(k * step, k * step + n)
        X = np.abs(np.fft.rfft(x[i] * w[:, None], axis=0))
        Y = np.abs(np.fft.rfft(y[i] * w[:, None], axis=0))
        if not np.any(X):
            continue
        W = X**gamma
        A = X / np.maximum(X.sum(axis=0), 1e-30)
        B = Y / np.maximum(Y.sum(axis=0), 1e-30)
        snr = 20 * np.log10((A + 1e-30) / np.abs(A - B + 1e-30))
        use = W.sum(axis=1) > 0
        v = np.mean((W * snr).sum(axis=1)[use] / W.sum(axis=1)[use])
        values.append(min(max(v, limits[0]), limits[1]))
    return np.mean(values)


@sub(
    PID,
    gen.fd(
        n=st.integers(700, 2500),
        ch=st.integers(1, 3),
        kind=st.sampled_from(["noise", "sines", "decay"]),
        fs=st.sampled_from([4000, 5400, 8000]),
        seed=gen.seeds(),
        level=gen.logfloats(1e-3, 3.0),
        one=st.booleans(),
        lo=gen.floats(50, 300, 0),
        width=gen.floats(0.3, 0.9, 2),
        limits=st.tuples(gen.floats(-40, 0, 0), gen.floats(5, 60, 0)),
        default=st.booleans(),
        flip=st.booleans(),
        gamma=st.one_of(st.none(), gen.floats(0.1, 2, 2)),
        silence=st.integers(0, 900),
        gain=gen.floats(-40, 40, 1),
    ),
    quick=40,
    thorough=1200,
)
def segments(c):
    fs = c["fs"]
    x = gen.data(dict(c, amp=1.0))
    y = noisy(x, c["seed"], c["level"])
    x, y = (np.pad(v, ((c["silence"], 0), (0, 0))) for v in (x, y))
    target = x[:, :1] if c["one"] else x
    sx, sy = from_array(target, fs), from_array(y, fs)
    reach = np.array([c["lo"], c["lo"] + c["width"] * (fs // 2 - 1 - c["lo"])])
    limits = np.array([-10.0, 35.0] if c["default"] else list(c["limits"]))
    gr, gl = (reach[::-1].copy(), limits[::-1].copy()) if c["flip"] else (reach.copy(), limits.copy())
    kw = {} if c["default"] else dict(snr_range_db=gl)
    if c["gamma"] is not None:
        kw["gamma"] = c["gamma"]
    keep = gr.copy(), gl.copy()
    run = lambda a, b: D.fw_snr_seg(a, b, f_range_hz=gr, **kw)
    got = run(sx, sy)
    same(gr, keep[0], "range unchanged")
    same(gl, keep[1], "limits unchanged")
    same(sx.time_data, target, "unchanged")
    same(sy.time_data, y, "unchanged")
    check(got.shape == (c["ch"],), "one value per channel")
    check(np.all(got >= limits[0] - 1e-9) and np.all(got <= limits[1] + 1e-9), "limits", got)
    fb = dsp.filterbanks.auditory_filters_gammatone(list(reach), 1, fs)
    bx = fb.filter_signal(sx, dsp.FilterBankMode.Parallel)
    by = fb.filter_signal(sy, dsp.FilterBankMode.Parallel)
    n = int(75e-3 * fs)
    n += n % 2
    want = [
        segmental(
            np.array([b.time_data[:, 0 if c["one"] else k] for b in bx.bands]).T,
            np.array([b.time_data[:, k] for b in by.bands]).T,
            limits,
            0.2 if c["gamma"] is None else c["gamma"],
            n,
        )
        for k in range(c["ch"])
    ]
    close(got, want, "definition", atol=1e-6)
    close(run(sx, from_array(y * 10 ** (c["gain"] / 20), fs)), got, "gain", atol=1e-4)
    # Equal signals are at the upper limit, more noise lowers the ratio
    close(run(sy, sy.copy()), np.full(c["ch"], limits[1]), "equal signals", atol=1e-9)
    if not c["one"] and c["level"] < 0.05:
        z = x.copy()
        z[c["silence"] :] = noisy(x[c["silence"] :], c["seed"], 30 * c["level"])
        check(np.all(run(sx, from_array(z, fs)) <= got + 1e-9), "more noise")
    raises(lambda: D.fw_snr_seg(sx, from_array(y[:-1], fs), gr), "lengths")
    raises(lambda: D.fw_snr_seg(sx, sy, [20, fs]), "range")
    raises(lambda: D.fw_snr_seg(sx, sy, gr, gamma=3), "gamma")
    return c["kind"]
