"""C17: transforms equal their definitions and invert where they can.

Oracles: direct evaluation of each definition in numpy (DFT sums, analytic
spectra, normal equations, triangular mel weights, semitone sums, Morlet
convolutions, windowed exponentials), round trips, and the frequency mapping of
the all-pass substitution."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.fft import dct
from scipy.linalg import solve_toeplitz
from scipy.signal import butter, get_window, sosfilt, sosfiltfilt

import dsptoolbox as dsp
from checks.c10 import build
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C17"
T = dsp.transforms
W = dsp.Window
SCAL = dsp.SpectrumScaling


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def quiet(fn, *a, **k):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


# ------------------------------------------------------------------ cepstrum
@sub(PID, gen.fd(s=gen.sig(min_n=2, max_n=300, kinds=gen.RICH)), quick=60)
def cepstra(c):
    """Complex cepstrum = IDFT of the log spectrum and returns to the signal
    at its level; real cepstrum = IDFT of the log magnitude."""
    x = gen.data(c["s"])
    if x.shape[0] < x.shape[1]:
        return None
    X = np.fft.fft(x, axis=0)
    if np.min(np.abs(X)) < 1e-9 * np.max(np.abs(X)):
        return None
    s = gen.mk(c["s"])
    cc = T.cepstrum(s, complex=True)
    check(cc.shape == x.shape, "cepstrum shape", cc.shape)
    close(np.exp(np.fft.fft(cc, axis=0)), X, "spectrum of the complex cepstrum", rtol=1e-8, scale=np.max(np.abs(X)))
    back = T.from_complex_cepstrum(cc, s.sampling_rate_hz)
    check(back.sampling_rate_hz == s.sampling_rate_hz, "rate")
    close(back.time_data, x, "inverse cepstrum", rtol=1e-8, scale=np.max(np.abs(x)))
    rc = T.cepstrum(s, complex=False)
    close(rc, np.fft.ifft(np.log(np.abs(X)), axis=0).real, "real cepstrum", rtol=1e-8, scale=1.0)
    same(s.time_data, x, "input")
    return "multi" if x.shape[1] > 1 else "mono"


# ------------------------------------------------------------------ analytic
@sub(
    PID,
    gen.fd(s=gen.sig(min_n=2, max_n=200), cls=st.sampled_from(["signal", "ir", "mb"])),
    quick=60,
)
def analytic(c):
    """Real part = input, spectrum without negative frequencies; at every
    positive frequency twice the input."""
    x = gen.data(c["s"])
    if x.shape[0] < x.shape[1]:
        return None
    if c["cls"] == "mb":
        b2 = dict(c["s"], seed=c["s"]["seed"] + 1)
        mb = dsp.MultiBandSignal([gen.mk(c["s"]), gen.mk(b2)])
        out = T.hilbert(mb)
        check(out.number_of_bands == 2, "bands")
        pairs = [(x, out.bands[0]), (gen.data(b2), out.bands[1])]
        same(mb.bands[0].time_data, x, "input bands")
    else:
        s = gen.mk(c["s"], dsp.ImpulseResponse if c["cls"] == "ir" else None)
        out = T.hilbert(s)
        pairs = [(x, out)]
        same(s.time_data, x, "input")
        check(not s.is_complex_signal, "input became complex")
    for x_, o in pairs:
        check(o.is_complex_signal, "not complex")
        sc = np.max(np.abs(x_)) + 1e-300
        close(o.time_data, x_, "real part", rtol=1e-10, scale=sc)
        n = len(x_)
        Z = np.fft.fft(o.time_data + 1j * o.time_data_imaginary, axis=0)
        X = np.fft.fft(x_, axis=0)
        k = np.fft.fftfreq(n, 1 / n).round() / n
        S = np.max(np.abs(X)) + 1e-300
        neg = (k < 0) & (k > -0.5)
        pos = (k > 0) & (k < 0.5)
        close(Z[neg], 0 * Z[neg], "negative frequencies", rtol=1e-10, scale=S)
        close(Z[pos], 2 * X[pos], "positive frequencies", rtol=1e-10, scale=S)
        close(Z[0], X[0], "DC", rtol=1e-10, scale=S)
    return c["cls"]


# ------------------------------------------------------------------ mid side
@sub(
    PID,
    gen.fd(s=gen.sig(min_n=2, max_n=100, min_ch=2, max_ch=2), cplx=st.booleans()),
    quick=40,
)
def mid_side(c):
    """Mid = half the sum, side = half the difference, and back."""
    s = gen.mkc(c["s"], c["cplx"])
    x = gen.full(s).copy()
    ms = T.stereo_mid_side(s, True)
    m = gen.full(ms)
    sc = np.max(np.abs(x))
    close(m[:, 0], (x[:, 0] + x[:, 1]) / 2, "mid", rtol=1e-12, scale=sc)
    close(m[:, 1], (x[:, 0] - x[:, 1]) / 2, "side", rtol=1e-12, scale=sc)
    lr = T.stereo_mid_side(ms, False)
    close(gen.full(lr), x, "back to left-right", rtol=1e-12, scale=sc)
    same(gen.full(s), x, "input")
    bad = gen.mk(dict(c["s"], ch=1))
    raises(lambda: T.stereo_mid_side(bad, True), "one channel")
    return "complex" if c["cplx"] else "real"


# ------------------------------------------------------------------ laguerre
def theta(lam, w):
    """Frequency of the source which appears at w of the warped signal: minus
    the phase of the all-pass (z^-1 - lam)/(1 - lam z^-1)."""
    z = np.exp(-1j * w)
    return -np.unwrap(np.angle((z - lam) / (1 - lam * z)))


def spectrum_at(x, w):
    return np.exp(-1j * np.outer(w, np.arange(len(x)))) @ x


LAM = gen.floats(-0.75, 0.75, 2)


@sub(PID, gen.fd(seed=gen.seeds(), m=st.integers(1, 16), ch=st.integers(1, 3), lam=LAM, cplx=st.booleans()), quick=30)
def laguerre_transform(c):
    """Equals the warped spectrum with the orthonormal Laguerre factor, keeps
    the energy, and -lambda returns to the input."""
    lam = c["lam"]
    r = np.random.default_rng(c["seed"])
    n = int(c["m"] * (1 + abs(lam)) / (1 - abs(lam)) * 1.4 + 30 / (1 - abs(lam)) + 20)
    x = np.zeros((n, c["ch"]), complex if c["cplx"] else float)
    x[: c["m"]] = r.standard_normal((c["m"], c["ch"]))
    if c["cplx"]:
        x[: c["m"]] += 1j * r.standard_normal((c["m"], c["ch"]))
    s = dsp.Signal(None, x, 48000, constrain_amplitude=False)
    y = T.laguerre(s, lam)
    yy = gen.full(y)
    check(yy.shape == x.shape, "shape", yy.shape)
    E = np.sum(np.abs(x) ** 2, axis=0)
    close(np.sum(np.abs(yy) ** 2, axis=0), E, "energy", rtol=2e-4)
    back = gen.full(T.laguerre(y, -lam))
    close(back, x, "inverse", rtol=3e-3, scale=np.max(np.abs(x)))
    # mapping: y is the laguerre spectrum of x
    w = np.linspace(0.05, 3.0, 12)
    ww = theta(-lam, w)
    lhs = spectrum_at(yy, ww) * (np.sqrt(1 - lam**2) / (1 + lam * np.exp(-1j * w)))[:, None]
    rhs = spectrum_at(x, w)
    close(lhs, rhs, "laguerre series", rtol=2e-2, scale=np.max(np.abs(rhs)))
    return "complex" if c["cplx"] else "real"


# ---------------------------------------------------------------------- warp
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        m=st.integers(1, 24),
        ch=st.integers(1, 3),
        lam=LAM,
        npf=st.booleans(),
        shift=st.booleans(),
        pad=st.booleans(),
    ),
    quick=30,
)
def warping(c):
    """Spectrum of the warped signal = spectrum of the source at the mapped
    frequencies; the opposite factor returns to the source."""
    lam = c["lam"]
    r = np.random.default_rng(c["seed"])
    m = c["m"]
    n = int(m * (1 + abs(lam)) / (1 - abs(lam)) * 1.4 + 30 / (1 - abs(lam)) + 20)
    short = max(m, c["ch"]) + 1
    x = np.zeros((n, c["ch"]))
    x[:m] = r.standard_normal((m, c["ch"]))
    lead = 0
    if c["shift"]:
        x[0] = 4.0 * r.choice([-1, 1], c["ch"])
        lead = int(r.integers(0, 5) if c["npf"] else r.integers(0, n - m))
    xin = np.roll(x, lead, axis=0) if lead else x
    if c["pad"] and not lead:
        s = dsp.ImpulseResponse(None, x[:short], 48000, constrain_amplitude=False)
        y = quiet(T.warp, s, np.float64(lam) if c["npf"] else lam, c["shift"], n)
    else:
        s = dsp.ImpulseResponse(None, xin, 48000, constrain_amplitude=False)
        y = quiet(T.warp, s, np.float64(lam) if c["npf"] else lam, c["shift"])
        same(s.time_data, xin, "input")
    check(y.time_data.shape == x.shape, "shape", y.time_data.shape)
    w = np.linspace(0.05, 3.0, 15)
    rhs = spectrum_at(x, theta(lam, w))
    close(spectrum_at(y.time_data, w), rhs, "warped spectrum", rtol=2e-2, scale=np.max(np.abs(rhs)))
    back = quiet(T.warp, y, -lam, False)
    close(back.time_data, x, "dewarped", rtol=5e-3, scale=np.max(np.abs(x)))
    cut = max(n // 2, c["ch"] + 1)
    z = quiet(T.warp, dsp.ImpulseResponse(None, x, 48000, constrain_amplitude=False), lam, False, cut)
    close(z.time_data, y.time_data[:cut], "shorter output", rtol=1e-7 if cut >= m else 1e9, scale=np.max(np.abs(x)))
    check(len(z) == cut, "total_length")
    return ("shift" if c["shift"] else "plain") + ("+pad" if c["pad"] else "")


@sub(PID, gen.fd(fs=st.sampled_from([8000, 16000, 22050, 32000, 44100, 48000, 54000]), scale=st.sampled_from(["bark", "erb", "Bark", "ERB"])), quick=10)
def auditory_warping_factor(c):
    """The factors follow Smith and Abel's fits, which make the warped axis
    close to the auditory scale; "-" gives the way back."""
    fs = c["fs"]
    k = fs / 1000
    if c["scale"].lower() == "bark":
        ref = 1.0674 * np.sqrt(2 / np.pi * np.arctan(0.06583 * k)) - 0.1916
    else:
        ref = 0.7446 * np.sqrt(2 / np.pi * np.arctan(0.1418 * k)) + 0.03237
    x = np.zeros((64, 1))
    x[:3, 0] = [1, 0.4, -0.2]
    s = dsp.ImpulseResponse(None, x, fs, constrain_amplitude=False)
    y, f1 = quiet(T.warp, s, c["scale"], False)
    y2, f2 = quiet(T.warp, s, c["scale"] + "-", False)
    close(f1, -ref, "factor", rtol=1e-6)
    close(f2, ref, "inverse factor", rtol=1e-6)
    close(y.time_data, quiet(T.warp, s, float(f1), False).time_data, "warped", rtol=1e-12, scale=1.0)
    close(y2.time_data, quiet(T.warp, s, float(f2), False).time_data, "dewarped", rtol=1e-12, scale=1.0)
    raises(lambda: quiet(T.warp, s, "mels", False), "unknown scale")
    raises(lambda: quiet(T.warp, s, 1.0, False), "factor of one")
    return c["scale"].lower()


@sub(
    PID,
    gen.fd(
        f=gen.fd(
            seed=gen.seeds(),
            k=st.integers(1, 3),
            form=st.sampled_from(["ba", "sos", "zpk", "fir", "first"]),
            odd=st.booleans(),
            taps=st.integers(2, 12),
            lead=st.just(0),
            fs=st.sampled_from([16000, 48000]),
            rmax=st.just(0.85),
        ),
        lam=gen.floats(-0.8, 0.8, 2),
    ),
    quick=40,
)
def warped_filter(c):
    """Warping a filter maps its response along the frequency axis, up to a
    gain; poles stay inside the unit circle."""
    flt, b, a = build(c["f"])
    lam = c["lam"]
    fs = flt.sampling_rate_hz
    out = T.warp_filter(flt, lam)
    check(out.sampling_rate_hz == fs, "rate")
    w = np.linspace(0.1, 3.0, 25)
    got = np.asarray(out.get_transfer_function(w * fs / 2 / np.pi)).squeeze()
    ref = gen.freqz(b, a, theta(lam, w), 2 * np.pi)
    if np.min(np.abs(ref)) < 1e-6 * np.max(np.abs(ref)):
        return None
    ratio = np.abs(got) / np.abs(ref)
    close(ratio, np.full_like(ratio, np.median(ratio)), "mapped magnitude", rtol=1e-4)
    z, p, k = out.get_coefficients(dsp.FilterCoefficientsType.Zpk)
    check(np.all(np.abs(p) < 1), "unstable", p)
    if len(b) == len(a) and b[0] != 0:
        rr = got / ref
        close(rr, np.full_like(rr, rr[0]), "mapped response", rtol=1e-3)
    raises(lambda: T.warp_filter(flt, 1.2), "factor")
    return c["f"]["form"]


# ----------------------------------------------------------------------- dft
@sub(
    PID,
    gen.fd(
        s=gen.sig(min_n=2, max_n=200),
        cplx=st.booleans(),
        nf=st.integers(1, 40),
        grid=st.sampled_from(["random", "bins", "log"]),
        fseed=gen.seeds(),
    ),
    quick=60,
)
def dft_anywhere(c):
    """X(f) = sum x[n] exp(-2 pi j f n / fs) at every requested frequency."""
    if c["s"]["n"] < c["s"]["ch"]:
        return None
    s = gen.mkc(c["s"], c["cplx"])
    x = gen.full(s)
    fs, n = s.sampling_rate_hz, len(x)
    r = np.random.default_rng(c["fseed"])
    f = {
        "random": r.uniform(0, fs / 2, c["nf"]),
        "bins": np.arange(n // 2 + 1) * fs / n,
        "log": np.geomspace(20, fs / 2, c["nf"]),
    }[c["grid"]]
    got = T.dft(s, f)
    check(got.shape == (len(f), x.shape[1]), "shape", got.shape)
    ref = np.exp(-2j * np.pi * np.outer(f, np.arange(n)) / fs) @ x
    sc = np.sum(np.abs(x)) + 1e-300
    close(got, ref, "dft", rtol=1e-9, scale=sc)
    if c["grid"] == "bins" and not c["cplx"]:
        close(got, np.fft.rfft(x, axis=0), "dft on the FFT bins", rtol=1e-9, scale=sc)
    return c["grid"]


# ----------------------------------------------------------------------- lpc
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        n=st.integers(60, 400),
        ch=st.integers(1, 3),
        order=st.integers(1, 8),
        win=st.integers(16, 60),
        hop=st.sampled_from([None, 0.25, 0.5, 0.75, 1.0]),
        burg=st.booleans(),
        window=st.sampled_from(["Hann", "Hamming", "Boxcar"]),
        silent=st.booleans(),
        lvl=st.sampled_from([1.0, 1e-3, 20.0]),
    ),
    quick=60,
)
def linear_prediction(c):
    """Coefficients solve the normal equations (Yule-Walker: biased
    autocorrelation of each windowed frame; Burg: lattice recursion), and the
    variance is the remaining prediction error."""
    r = np.random.default_rng(c["seed"])
    n, ch, p, L = c["n"], c["ch"], c["order"], c["win"]
    x = r.standard_normal((n, ch))
    b = gen.stable_sos(c["seed"], 1, 0.9)[0]
    x = np.stack([sosfilt(np.r_[1, 0, 0, b[3:]][None], x[:, i]) for i in range(ch)], 1)
    if c["silent"]:
        x[: L + 3] = 0.0
    x *= c["lvl"]
    hop = None if c["hop"] is None else max(1, int(L * c["hop"]))
    wt = getattr(W, c["window"])
    s = dsp.Signal(None, x, 16000, constrain_amplitude=False)
    a, var = T.lpc(s, p, L, False, c["burg"], hop, wt)
    h = L // 2 if hop is None else hop
    same(s.time_data, x, "input")
    win = get_window(wt.to_scipy_format(), L, fftbins=True)
    nf = a.shape[1]
    check(a.shape[0] == p + 1 and a.shape[2] == ch, "shape", a.shape)
    check(var.shape == (nf, ch), "variances", var.shape)
    check((nf - 1) * h + L >= n and (nf - 1) * h < n, "frames", nf)
    xp = np.pad(x, ((0, nf * h + L), (0, 0)))
    for k in range(nf):
        for i in range(ch):
            fr = xp[k * h : k * h + L, i] * win
            e = np.mean(fr**2)
            g, v = a[:, k, i], var[k, i]
            if e < 1e-20 * c["lvl"] ** 2:
                check(np.all(np.isfinite(g)) and abs(v) <= 1e-18, "silent frame", g, v)
                continue
            check(g[0] == 1.0, "leading coefficient")
            if np.count_nonzero(fr) < 2 * p + 2:
                continue
            if c["burg"]:
                ref, rv = burg(fr, p)
            else:
                ac = np.array([fr[: L - m] @ fr[m:] for m in range(p + 1)]) / L
                sol = solve_toeplitz(ac[:-1], -ac[1:])
                ref = np.r_[1, sol]
                rv = ac[0] + sol @ ac[1:]
            if rv < 1e-9 * e:
                continue
            tol = 1e-6 if c["lvl"] >= 1 else 1e-4
            close(g, ref, f"coefficients frame {k}", rtol=tol, scale=np.max(np.abs(ref)))
            close(v, rv, f"variance frame {k}", rtol=10 * tol)
    return ("burg" if c["burg"] else "yw") + ("+silence" if c["silent"] else "")


def burg(x, p):
    f, b = x[1:].copy(), x[:-1].copy()
    a = np.array([1.0])
    v = np.mean(x**2)
    for _ in range(p):
        k = -2 * np.dot(f, b) / (np.dot(f, f) + np.dot(b, b))
        a = np.r_[a, 0] + k * np.r_[a, 0][::-1]
        f, b = (f + k * b)[1:], (b + k * f)[:-1]
        v *= 1 - k**2
    return a, v


@sub(
    PID,
    gen.fd(seed=gen.seeds(), burg=st.booleans(), ch=st.integers(1, 2), lvl=st.sampled_from([0.05, 1.0, 8.0]), sd=st.floats(0.2, 0.45)),
    quick=6,
)
def lpc_resynthesis(c):
    """The synthesized signal has the input's length, rate, channels, and
    (with a rectangular window) its power and spectral tilt, without
    normalisation."""
    r = np.random.default_rng(c["seed"])
    n = 8000
    x = c["lvl"] * r.standard_normal((n, c["ch"]))
    x = sosfilt([[1, 0, 0, 1, -0.8, 0]], x, axis=0)
    s = dsp.Signal(None, x, 16000, constrain_amplitude=False)
    np.random.seed(c["seed"] % 2**31)
    out = T.lpc(s, 4, 500, True, c["burg"], 500, W.Boxcar)
    check(isinstance(out, tuple) and len(out) == 3, "three results")
    a, v, y = out
    check(isinstance(y, dsp.Signal) and y.time_data.shape == x.shape and y.sampling_rate_hz == 16000, "signal")
    q = np.mean(y.time_data**2, 0) / np.mean(x**2, 0)
    check(np.all((q > 0.6) & (q < 1.6)), "power", q)
    rho = np.sum(y.time_data[1:] * y.time_data[:-1], 0) / np.sum(y.time_data**2, 0)
    check(np.all(np.abs(rho - 0.8) < 0.1), "correlation", rho)
    return "burg" if c["burg"] else "yw"


# ----------------------------------------------------------------------- mel
def hz2mel(f):
    return 2595 * np.log10(1 + np.asarray(f) / 700)


def mel2hz(m):
    return 700 * (10 ** (np.asarray(m) / 2595) - 1)


@sub(
    PID,
    gen.fd(
        fs=st.sampled_from(gen.FS),
        nfft=st.sampled_from([32, 64, 256, 512, 1024, 2048, 1000]),
        nb=st.integers(1, 60),
        rng=st.sampled_from([None, "mid", "rev", "low"]),
        norm=st.booleans(),
        first=st.sampled_from([0, 0, 1, 3]),
    ),
    quick=60,
)
def mel_filters(c):
    """Triangles between neighbouring mel-equidistant frequencies with their
    top at the centre bin; normalised to unit sum; never NaN."""
    f = np.fft.rfftfreq(c["nfft"], 1 / c["fs"])[c["first"] :]
    rng = {None: None, "mid": [300.0, 3000.0], "rev": [3500.0, 100.0], "low": [0.0, 1500.0]}[c["rng"]]
    keep = f.copy()
    m, fc = T.mel_filterbank(f, rng, c["nb"], c["norm"])
    same(f, keep, "frequency vector")
    lo, hi = (f[0], f[-1]) if rng is None else (min(rng), max(rng))
    edges = np.linspace(hz2mel(lo), hz2mel(hi), c["nb"] + 2)
    close(fc, edges[1:-1], "mel centres", rtol=1e-9)
    check(m.shape == (c["nb"], len(f)), "shape", m.shape)
    check(np.all(np.isfinite(m)) and np.all(m >= 0), "finite, non-negative")
    hz = mel2hz(edges)
    df = f[1] - f[0]
    bins = np.argmin(np.abs(hz[:, None] - f), axis=1)
    wide = 0
    for k in range(c["nb"]):
        row = m[k]
        if c["norm"]:
            close(row.sum(), 1.0, "area", rtol=1e-9)
            row = row / row.max()
        else:
            close(row.max(), 1.0, "top", rtol=1e-9)
        l, p, r = bins[k : k + 3]
        check(np.argmax(row) == p or row[p] == row.max(), "centre", k)
        outside = (np.arange(len(f)) < l) | (np.arange(len(f)) > r)
        check(np.all(row[outside] == 0), "support", k)
        if l < p < r:
            wide += 1
            tri = np.interp(np.arange(len(f)), [l, p, r], [0, 1, 0])
            close(row, tri, f"triangle {k}", rtol=1e-9, scale=1.0)
    return "wide" if wide == c["nb"] else "narrow"


STFT = gen.fd(
    window_length_samples=st.sampled_from([64, 128, 256, 512]),
    window_type=st.sampled_from(["Hann", "Hamming", "Blackman"]),
    overlap_percent=st.sampled_from([0.0, 50.0, 75.0]),
    padding=st.booleans(),
    detrend=st.booleans(),
    scaling=st.sampled_from(["FFTBackward", "AmplitudeSpectrum", "PowerSpectrum"]),
)


def stft_params(c):
    d = dict(c)
    d["window_type"] = getattr(W, c["window_type"])
    d["scaling"] = getattr(SCAL, c["scaling"])
    return d


@sub(
    PID,
    gen.fd(
        s=gen.sig(min_n=700, max_n=1500, max_ch=3, kinds=["noise", "sines", "decay"], fs=[8000, 16000, 48000]),
        p=STFT,
        how=st.sampled_from(["dict", "set"]),
        nb=st.integers(3, 40),
        rng=st.sampled_from([None, "mid"]),
        plot=st.integers(0, 9),
    ),
    quick=25,
)
def mel_spectrogram_and_mfcc(c):
    """Log mel spectrogram = 10 lg of the mel-weighted squared STFT; MFCC = its
    DCT-II; the given parameters are used, but not stored in the signal."""
    s = gen.mk(c["s"])
    ref = gen.mk(c["s"])
    p = stft_params(c["p"])
    ref.set_spectrogram_parameters(**p)
    before = dict(getattr(s, "_spectrogram_parameters", {}))
    if c["how"] == "set":
        s.set_spectrogram_parameters(**p)
        before = dict(getattr(s, "_spectrogram_parameters", {}))
        arg = None
    else:
        arg = p
    t0, f0, sp = ref.get_spectrogram()
    rng = None if c["rng"] is None else [200.0, 3000.0]
    plot = c["plot"] == 0
    ch = s.number_of_channels - 1
    out = T.log_mel_spectrogram(s, ch, rng, c["nb"], plot, arg)
    t, fm, lm = out[:3]
    mf, fm0 = T.mel_filterbank(f0, rng, c["nb"], True)
    power = np.tensordot(mf, np.abs(sp) ** 2, axes=(1, 0))
    same(t, t0, "time vector")
    close(fm, fm0, "mel vector", rtol=1e-12)
    ref_db = 10 * np.log10(np.maximum(power, np.finfo(float).smallest_normal))
    close(lm, ref_db, "log mel", rtol=1e-9, scale=1.0)
    out2 = T.mfcc(s, ch, None, plot, arg)
    mf40, fm40 = T.mel_filterbank(f0, None, 40, True)
    l40 = 10 * np.log10(np.maximum(np.tensordot(mf40, np.abs(sp) ** 2, axes=(1, 0)), np.finfo(float).smallest_normal))
    close(np.abs(out2[2]), np.abs(dct(l40, type=2, axis=0)), "mfcc", rtol=1e-8, scale=np.max(np.abs(l40)))
    close(out2[1], fm40, "mel vector of mfcc", rtol=1e-12)
    out3 = T.mfcc(s, 0, mf, False, arg)
    close(np.abs(out3[2]), np.abs(dct(ref_db, type=2, axis=0)), "mfcc with own filters", rtol=1e-8, scale=np.max(np.abs(ref_db)))
    if plot:
        import matplotlib.pyplot as plt

        T.plot_waterfall(s, ch, None if c["nb"] % 2 else 30, arg)
        plt.close("all")
    after = dict(getattr(s, "_spectrogram_parameters", {}))
    check(before == after, "parameters of the signal changed")
    same(s.time_data, gen.data(c["s"]), "input")
    return c["how"] + ("+plot" if plot else "")


# -------------------------------------------------------------------- chroma
@sub(
    PID,
    gen.fd(
        s=gen.sig(min_n=2500, max_n=5000, max_ch=3, kinds=["noise", "sines"], fs=[8000, 16000, 48000]),
        midi=st.integers(69, 100),
        tuning=st.sampled_from([440.0, 442.0, 415.0, 432.5]),
        comp=st.sampled_from([0.5, 1.0, 20.0]),
        tone=st.booleans(),
        plot=st.integers(0, 9),
    ),
    quick=25,
)
def chroma(c):
    """Pitch rows sum the squared bins of their semitone, chroma rows the
    octaves of their note, both as ln(1 + c x); a tone sits in its note."""
    fs = c["s"]["fs"]
    x = gen.data(c["s"])
    f_t = c["tuning"] * 2 ** ((c["midi"] - 69) / 12)
    if c["tone"]:
        if f_t > fs / 2.2:
            return None
        x = np.sin(2 * np.pi * f_t / fs * np.arange(len(x)))[:, None] * (1 + np.arange(x.shape[1]))
    s = dsp.Signal(None, x, fs, constrain_amplitude=False)
    s.set_spectrogram_parameters(window_length_samples=2048, fft_length_samples=8192)
    t0, f, sp = s.get_spectrogram()
    out = T.chroma_stft(s, c["tuning"], c["comp"], x.shape[1] - 1 if c["plot"] == 0 else -1)
    t, ch, pi = out[:3]
    same(t, t0, "time vector")
    P = np.abs(sp) ** 2
    note = 12 * np.log2(np.maximum(f, 1e-9) / c["tuning"]) + 69
    edge = np.abs(note - np.floor(note) - 0.5) < 1e-9
    idx = np.floor(note + 0.5).astype(int)
    ref = np.zeros((128,) + P.shape[1:])
    for k in range(128):
        ref[k] = P[idx == k].sum(axis=0)
    if np.any(edge):
        return None
    check(pi.shape == ref.shape and ch.shape == (12,) + P.shape[1:], "shapes")
    close(pi, np.log(1 + c["comp"] * ref), "pitch", rtol=1e-9, scale=1.0)
    cref = np.stack([ref[k::12].sum(axis=0) for k in range(12)])
    close(ch, np.log(1 + c["comp"] * cref), "chroma", rtol=1e-9, scale=1.0)
    if c["tone"]:
        mid = P.shape[1] // 2
        check(np.all(ch[:, mid].argmax(0) == c["midi"] % 12), "note of the tone", ch[:, mid, 0])
    if c["plot"] == 0:
        import matplotlib.pyplot as plt

        plt.close("all")
    return "tone" if c["tone"] else "mix"


# ------------------------------------------------------------------ wavelets
@sub(
    PID,
    gen.fd(
        fs=st.sampled_from([8000, 16000, 48000]),
        rel=st.floats(0.004, 0.2).map(lambda v: round(v, 4)),
        h=st.sampled_from([1.0, 2.0, 3.5]),
        scale=st.sampled_from([1.0, 0.5, 2.0]),
        use_b=st.booleans(),
        interp=st.booleans(),
        n2=st.integers(1, 3),
    ),
    quick=40,
)
def morlet(c):
    """The sampled wavelet is the complex Morlet at the requested frequency:
    Gaussian of the given width times exp(2 pi j f t)."""
    fs = c["fs"]
    f = c["rel"] * fs
    b = c["h"] ** 2 / 4 / np.log(2)
    kw = dict(b=b) if c["use_b"] else dict(h=c["h"])
    wv = T.MorletWavelet(**kw, scale=c["scale"], interpolation=c["interp"], step=2e-3)
    close(wv.get_center_frequency(), 1 / c["scale"], "centre frequency", rtol=1e-9)
    got = np.asarray(wv.get_wavelet(f, fs))
    x0 = np.sqrt(b * np.log(1e5))
    sc = fs / (f * c["scale"])
    x = -x0 + np.arange(len(got)) / sc
    ref = np.exp(-(x**2) / b + 2j * np.pi * x / c["scale"]) / np.sqrt(np.pi * b)
    tol = 2e-3 if c["interp"] else 2.5 * 2 * np.pi * 2e-3 / c["scale"] + 0.01
    close(got, ref, "morlet", rtol=tol, scale=np.max(np.abs(ref)))
    check(abs(len(got) - (2 * x0 * sc + 1)) <= 2 + 2e-3 * sc, "length", len(got))
    if c["n2"] > 1:
        fl = f * (1 + np.arange(c["n2"]) / 4)
        many = wv.get_wavelet(fl, fs)
        check(len(many) == c["n2"], "list of wavelets")
        for a, ff in zip(many, fl):
            close(a, wv.get_wavelet(float(ff), fs), "vector call", rtol=1e-12, scale=1.0)
    return "interp" if c["interp"] else "floor"


@sub(
    PID,
    gen.fd(
        s=gen.sig(min_n=300, max_n=900, max_ch=3, kinds=["noise", "sines", "impulse"], fs=[8000, 16000]),
        nf=st.integers(1, 6),
        chan=st.sampled_from([None, "int", "list"]),
        h=st.sampled_from([1.0, 2.0]),
    ),
    quick=30,
)
def continuous_wavelet_transform(c):
    """Each row is the signal convolved with the unit-sum wavelet of its
    frequency, centred; linear; only the chosen channels."""
    s = gen.mk(c["s"])
    x = gen.data(c["s"])
    fs = s.sampling_rate_hz
    f = np.geomspace(fs / 40, fs / 5, c["nf"])
    wv = T.MorletWavelet(h=c["h"], step=1e-2)
    chan = {None: None, "int": x.shape[1] - 1, "list": np.array([x.shape[1] - 1, 0])}[c["chan"]]
    sel = list(range(x.shape[1])) if chan is None else np.atleast_1d(chan)
    got = T.cwt(s, f, wv, chan)
    check(got.shape == (len(f), len(x), len(sel)), "shape", got.shape)
    for k, ff in enumerate(f):
        w = np.asarray(wv.get_wavelet(float(ff), fs))
        w = w / np.sum(np.abs(w))
        for i, chn in enumerate(sel):
            full = np.convolve(x[:, chn], w)
            o = (len(full) - len(x)) // 2
            close(got[k, :, i], full[o : o + len(x)], "cwt row", rtol=1e-9, scale=np.max(np.abs(x)))
    same(s.time_data, x, "input")
    return str(c["chan"])


@sub(
    PID,
    gen.fd(
        fs=st.sampled_from([8000, 16000]),
        k=st.integers(2, 9),
        amp=gen.floats(0.1, 3.0, 2),
        sync=st.booleans(),
        norm=st.booleans(),
        ph=gen.floats(0, 6, 2),
    ),
    quick=14,
)
def tone_in_scalogram(c):
    """A tone of amplitude A has |W| = A/2 in its row, away from the edges,
    and after synchrosqueezing everything sits in that row."""
    fs = c["fs"]
    f = np.geomspace(fs / 150, fs / 30, 12)
    f0 = f[c["k"]]
    n = 1500
    x = c["amp"] * np.cos(2 * np.pi * f0 / fs * np.arange(n) + c["ph"])
    s = dsp.Signal(None, x, fs, constrain_amplitude=False)
    wv = T.MorletWavelet(h=3.0, step=1e-2)
    plain = T.cwt(s, f, wv)
    mid = n // 2
    col = np.abs(plain[:, mid, 0])
    check(col.argmax() == c["k"], "row of the tone", col)
    close(col[c["k"]], c["amp"] / 2, "amplitude of the tone", rtol=5e-3)
    if c["sync"]:
        sq = T.cwt(s, f, wv, None, True, c["norm"])[:, mid, 0]
        others = np.delete(np.abs(sq), c["k"])
        check(np.all(others < 2e-2 * np.abs(sq[c["k"]])), "leak", np.abs(sq))
        wgt = (f / fs) ** 1.5 if c["norm"] else np.ones(len(f))
        tot = np.sum(plain[:, mid, 0] * wgt)
        close(sq[c["k"]], tot, "sum of the scales", rtol=0.06)
    return "sync" if c["sync"] else "plain"


@sub(
    PID,
    gen.fd(
        fs=st.sampled_from([8000, 11025, 16000]),
        bpo=st.sampled_from([12, 24, 36, 7]),
        oct=st.sampled_from([(3, 4), (4, 4), (4, 5), (3, 5)]),
        pos=st.floats(0.02, 0.98).map(lambda v: round(v, 3)),
        q=st.sampled_from([0.5, 1.0]),
        tun=st.sampled_from([440, 442]),
        ch=st.integers(1, 3),
        chan=st.sampled_from([None, "last", "two"]),
        gamma=st.sampled_from([0, 0, 10]),
        win=st.sampled_from(["hann", "hamming"]),
    ),
    quick=6,
    cap=25.0,
)
def variable_q(c):
    """Rows are labelled with their frequencies; a tone of amplitude A gives
    in every row A/2 times the window response of the constant-Q atom."""
    fs, B = c["fs"], c["bpo"]
    o = list(c["oct"])
    hi = c["tun"] * 2 ** (o[1] - 4 + 2 / 12)
    if hi * 1.1 > fs / 2:
        return None
    nrow = B * (o[1] - o[0] + 1)
    fr = hi * 2 ** (-np.arange(nrow)[::-1] / B)
    f0 = fr[0] * (fr[-1] / fr[0]) ** c["pos"]
    n = 6000
    amp = 1 + np.arange(c["ch"])
    x = np.cos(2 * np.pi * f0 / fs * np.arange(n) + 0.4)[:, None] * amp
    s = dsp.Signal(None, x, fs, constrain_amplitude=False)
    chan = {None: None, "last": c["ch"] - 1, "two": np.array([c["ch"] - 1, 0])}[c["chan"]]
    sel = np.arange(c["ch"]) if chan is None else np.atleast_1d(chan)
    f, v = T.vqt(s, chan, c["q"], c["gamma"], o, B, c["tun"], c["win"])
    check(v.shape == (nrow, n, len(sel)), "shape", v.shape)
    close(f, fr, "frequencies", rtol=1e-6)
    m = n // 2
    alpha = 2 ** (1 / B) - 1
    ok = 0
    for k, ff in enumerate(fr):
        L = int(round(c["q"] * fs / (ff * alpha)))
        if L > 0.8 * n:
            continue
        w = get_window(c["win"], L, fftbins=False)
        w = w / w.sum()
        ref = abs(np.sum(w * np.exp(2j * np.pi * (f0 - ff) / fs * np.arange(L)))) / 2
        # the anti-aliasing filters of the octave-wise decimation
        nyq = fs / 2 / int(fs // 2 / (hi * 1.1)) / 2 ** ((nrow - 1 - k) // B)
        if 0.78 * nyq < f0 < 1.25 * nyq:
            continue
        ok += 1
        if c["gamma"] == 0:
            for i, chn in enumerate(sel):
                close(abs(v[k, m, i]), ref * amp[chn], f"row {k}", rtol=0.09, scale=0.5 * amp[chn])
    if c["gamma"]:
        mx = np.abs(v[:, m, :]).max(axis=0)
        q = mx / (amp[sel] / 2)
        check(np.all((q > 0.6) & (q < 1.05)), "amplitude", q)
        kk = np.abs(v[:, m, 0]).argmax()
        check(abs(np.log2(fr[kk] / f0)) * B <= 1.2, "row of the tone", fr[kk], f0)
    return f"gamma{c['gamma']}" if ok else None


@core.finding(PID, "vqt-gamma")
def vqt_gamma():
    """The bandwidth extension gamma is not constant in Hz: it is divided by
    the decimation, and halves from octave to octave."""
    fs = 16000
    f0 = 160.0
    x = np.cos(2 * np.pi * f0 / fs * np.arange(16000))
    s = dsp.Signal(None, x, fs, constrain_amplitude=False)
    f, v = T.vqt(s, None, 1.0, 20, [2, 5], 12)
    k = np.argmin(np.abs(f - 150))
    L = int(round(fs / (f[k] * (2 ** (1 / 12) - 1) + 20)))
    w = get_window("hann", L, fftbins=False)
    w /= w.sum()
    ref = abs(np.sum(w * np.exp(2j * np.pi * (f0 - f[k]) / fs * np.arange(L)))) / 2
    if abs(abs(v[k, 8000, 0]) - ref) > 0.05:
        core.fail(f"vqt gamma: {abs(v[k, 8000, 0])} for {ref}", "vqt-gamma")


# ------------------------------------------------------------ filterbank rms
@sub(
    PID,
    gen.fd(
        s=gen.sig(min_n=300, max_n=1500, max_ch=3, kinds=["noise", "sines"], fs=[8000, 48000]),
        nf=st.integers(1, 6),
        bw=st.sampled_from([("o", 0.34), ("o", 1.0), ("h", 150.0), ("h", 300.0)]),
        order=st.sampled_from([2, 4, 8]),
        zp=st.booleans(),
    ),
    quick=30,
)
def spectrum_of_a_filterbank(c):
    """Each value is the RMS of the signal behind a Butterworth band-pass with
    the given width around its frequency."""
    s = gen.mk(c["s"])
    x = gen.data(c["s"])
    fs = s.sampling_rate_hz
    f = np.geomspace(fs / 30, fs / 4, c["nf"])
    kind, bw = c["bw"]
    kw = dict(bandwidth_octaves=bw) if kind == "o" else dict(bandwidth_hz=bw)
    if kind == "h" and bw / 2 >= f[0]:
        return None
    out = T.spectrum_via_filterbank(s, f, **kw, order=c["order"], zero_phase=c["zp"])
    check(isinstance(out, dsp.Spectrum), "type")
    same(out.frequency_vector_hz, f, "frequencies")
    ref = np.zeros((len(f), x.shape[1]))
    for k, ff in enumerate(f):
        lim = [ff / 2 ** (bw / 2), ff * 2 ** (bw / 2)] if kind == "o" else [ff - bw / 2, ff + bw / 2]
        # the order counts both edges of a band-pass (see Filter.iir_filter)
        sos = butter(c["order"], lim, "bandpass", fs=fs, output="sos")
        y = (sosfiltfilt if c["zp"] else sosfilt)(sos, x, axis=0)
        ref[k] = np.sqrt(np.mean(y**2, axis=0))
    got = np.asarray(out.spectral_data)
    check(got.shape == ref.shape, "shape", got.shape)
    close(got, ref, "rms per band", rtol=1e-6, scale=np.max(ref))
    raises(lambda: T.spectrum_via_filterbank(s, f), "no bandwidth")
    same(s.time_data, x, "input")
    return kind + ("+zp" if c["zp"] else "")
