"""C05: spectra and cross-spectra follow their definitions.

Oracles: the definitions written out with loops over frames and an explicit
DFT matrix (numpy fft only for long signals), closed forms for tones, Parseval
sums, algebraic properties of the cross-spectral matrix."""

import copy
import pickle
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.fft import next_fast_len
from scipy.signal.windows import get_window

import dsptoolbox as dsp
from vt import gen
from vt.core import check, close, raises, same, sub

PID = "C05"
warnings.simplefilter("ignore")
SC = dsp.SpectrumScaling
SM = dsp.SpectrumMethod
SCALINGS = list(SC)
WIN = ["boxcar", "hann", "hamming", "blackman", "flattop", "bartlett", "cosine", "kaiser", "tukey"]
WSPEC = {
    "boxcar": (dsp.Window.Boxcar, "boxcar"),
    "hann": (dsp.Window.Hann, "hann"),
    "hamming": (dsp.Window.Hamming, "hamming"),
    "blackman": (dsp.Window.Blackman, "blackman"),
    "flattop": (dsp.Window.Flattop, "flattop"),
    "bartlett": (dsp.Window.Bartlett, "bartlett"),
    "cosine": (dsp.Window.Cosine, "cosine"),
    "tukey": (dsp.Window.Tukey, "tukey"),
}


def window_of(name, n):
    if name == "kaiser":
        return dsp.Window.Kaiser.with_extra_parameter(6.5), get_window(("kaiser", 6.5), n)
    e, s = WSPEC[name]
    return e, get_window(s, n)


WOTHER = {"GeneralGaussian": (2.0, 3.0), "GeneralCosine": [1.0, 0.3], "GeneralHamming": 0.77, "Dpss": 1.0}
WPAR = {
    "Kaiser": st.floats(0, 20), "KaiserBesselDerived": st.floats(0.1, 20), "Gaussian": st.floats(0.5, 50),
    "GeneralHamming": st.floats(0.1, 0.9), "Dpss": st.floats(0.5, 4), "Chebwin": st.floats(45, 120),
    "GeneralGaussian": st.tuples(st.floats(0.5, 3), st.floats(1, 40)),
    "GeneralCosine": st.lists(st.floats(0.1, 1), min_size=1, max_size=4),
}


def snake(name):
    return "".join("_" + x.lower() if x.isupper() else x for x in name).lstrip("_")


@sub(PID, st.lists(st.sampled_from(sorted(WPAR)).flatmap(lambda k: st.tuples(st.just(k), WPAR[k])), min_size=1, max_size=5).flatmap(
     lambda w: gen.fd(w=st.just(w), n=st.integers(10, 40), sym=st.booleans())), quick=60, thorough=1500)
def window_parameters(c):
    """Windows with a parameter are those of scipy, whichever others were
    made before or after them, and after storing and copying them."""
    W = dsp.Window
    made = [W[k].with_extra_parameter(tuple(p) if k == "GeneralGaussian" else p) for k, p in c["w"]]
    n = c["n"] + c["n"] % 2
    for again in range(3):
        for w, (k, p) in zip(made, c["w"]):
            p = tuple(p) if k == "GeneralGaussian" else (p,)
            sym = c["sym"] or k == "KaiserBesselDerived"
            want = get_window((snake(k), *p), n, fftbins=not sym)
            same(w(n, sym), want, f"{k} {p}")
            check(w.needs_extra_parameter() and w.name == k and w.value == W[k].value and isinstance(w, W), "kind of window")
        stored = pickle.dumps(made)
        for k, p in c["w"]:
            W[k].with_extra_parameter(WOTHER.get(k, 46.0))
        made = [copy.deepcopy(made), pickle.loads(stored), made][again]
    for i, (k, p) in enumerate(c["w"]):
        for j, (l, q) in enumerate(c["w"]):
            check((made[i] == made[j]) == (k == l and p == q), f"equality of {k} {p} and {l} {q}")
            check(made[i] != made[j] or hash(made[i]) == hash(made[j]), "hash")
    for k in ("Hann", "Boxcar", "Tukey", "Nuttall"):
        same(W[k](n, c["sym"]), get_window(k.lower(), n, fftbins=not c["sym"]), k)
        check(pickle.loads(pickle.dumps(W[k])) == W[k] and copy.deepcopy(W[k]) == W[k], "copied")
    return "several" if len(set(k for k, _ in c["w"])) < len(c["w"]) else "one of each"


def physical(sc):
    return sc in (SC.AmplitudeSpectrum, SC.AmplitudeSpectralDensity, SC.PowerSpectrum,
                  SC.PowerSpectralDensity)


def is_power(sc):
    return sc in (SC.PowerSpectrum, SC.PowerSpectralDensity)


def rdft(x, nfft):
    """One-sided DFT along axis 0, by definition."""
    n = x.shape[0]
    k, t = np.arange(nfft // 2 + 1)[:, None], np.arange(n)[None, :]
    return np.exp(-2j * np.pi * k * t / nfft) @ x


def sides(nfft):
    """2 for bins with a mirror image, 1 for DC and Nyquist."""
    w = 2.0 * np.ones(nfft // 2 + 1)
    w[0] = 1
    if nfft % 2 == 0:
        w[-1] = 1
    return w


def power_factor(sc, w, nfft, fs):
    """Factor on |X|^2 (two-sided unscaled DFT of the windowed data)."""
    if sc in (SC.AmplitudeSpectrum, SC.PowerSpectrum):
        return sides(nfft) / np.sum(w) ** 2
    if sc in (SC.AmplitudeSpectralDensity, SC.PowerSpectralDensity):
        return sides(nfft) / (fs * np.sum(w**2))
    one = np.ones(nfft // 2 + 1)
    if sc == SC.FFTBackward:
        return one
    return one / (nfft**2 if sc == SC.FFTForward else nfft)


def frames_of(x, wl, step, detrend):
    """Frames at every multiple of the step inside of the signal; beyond its
    end there are zeros."""
    out = []
    for k in range(0, len(x), step):
        f = np.zeros((wl, x.shape[1]))
        seg = x[k : k + wl]
        f[: len(seg)] = seg
        if detrend:
            f = f - f.mean(axis=0)
        out.append(f)
    return out


def median_bias(n):
    n = n if n % 2 else n - 1
    return sum((-1.0) ** (i + 1) / i for i in range(1, n + 1))


def welch_csm(x, fs, wname, wl, ov, detrend, average, sc):
    """(f, i, j): average of X_i conj(X_j)."""
    _, w = window_of(wname, wl)
    step = wl - int(ov / 100 * wl)
    S = [rdft(f * w[:, None], wl) for f in frames_of(x, wl, step, detrend)]
    P = np.array([s[:, :, None] * s[:, None, :].conj() for s in S])
    if average == "mean":
        c = P.mean(axis=0)
    else:
        c = (np.median(P.real, axis=0) + 1j * np.median(P.imag, axis=0)) / median_bias(len(S))
    return c * power_factor(sc, w, wl, fs)[:, None, None]


def fftscaled(sc):
    return not is_power(sc)


WP = gen.fd(
    s=gen.sig(20, 600, 3, kinds=["noise", "sines", "decay", "dc", "ramp"]),
    wl=st.integers(3, 7),
    win=st.sampled_from(WIN),
    ov=st.sampled_from([0, 25, 33.3, 50, 60, 75, 90]),
    det=st.booleans(),
    avg=st.sampled_from(["mean", "median"]),
    sc=st.integers(0, len(SCALINGS) - 1),
)


def setup_welch(c):
    s = gen.mk(c["s"])
    wl = 2 ** c["wl"]
    s.set_spectrum_parameters(
        SM.WelchPeriodogram,
        window_length_samples=wl,
        window_type=window_of(c["win"], wl)[0],
        overlap_percent=c["ov"],
        detrend=c["det"],
        average=c["avg"],
        scaling=SCALINGS[c["sc"]],
    )
    return s, wl, SCALINGS[c["sc"]]


def nframes(c):
    wl = 2 ** c["wl"]
    return -(-c["s"]["n"] // (wl - int(c["ov"] / 100 * wl)))


@sub(PID, WP, quick=250, cap=22)
def welch_definition(c):
    """Welch's spectrum: average of the squared DFT of detrended, windowed
    frames; the amplitude representation is its root."""
    s, wl, sc = setup_welch(c)
    f, sp = s.get_spectrum()
    close(f, np.arange(wl // 2 + 1) * c["s"]["fs"] / wl, "frequencies")
    P = welch_csm(gen.data(c["s"]), c["s"]["fs"], c["win"], wl, c["ov"], c["det"], c["avg"], sc)
    want = np.real(np.einsum("fii->fi", P))
    check(sp.shape == want.shape, f"shape {sp.shape}")
    check(np.max(np.abs(np.imag(sp))) == 0, "Welch spectrum is not real")
    sp = np.real(sp)
    check(np.all(sp >= 0), "negative power")
    p = sp if is_power(sc) else sp**2
    close(p, want, f"{sc.name}", 1e-9, 1e-25)
    return f"{sc.name}" if nframes(c) > 2 else None


@sub(PID, WP, quick=200, cap=22)
def welch_csm_definition(c):
    """Welch's cross-spectral matrix, Hermitian, spectra on its diagonal,
    non-negative for the mean."""
    if c["s"]["ch"] < 2:
        c["s"]["ch"] = 2
    s, wl, sc = setup_welch(c)
    f, csm = s.get_csm()
    close(f, np.arange(wl // 2 + 1) * c["s"]["fs"] / wl, "frequencies")
    P = welch_csm(gen.data(c["s"]), c["s"]["fs"], c["win"], wl, c["ov"], c["det"], c["avg"], sc)
    check(csm.shape == P.shape, f"shape {csm.shape}")
    close(csm, np.conj(np.swapaxes(csm, 1, 2)), "Hermitian", 1e-12)
    _, sp = s.get_spectrum()
    close(np.einsum("fii->fi", csm), sp, "diagonal", 1e-9, 1e-20)
    p = csm if is_power(sc) else csm**2
    # principal root: the square of an element is the cross power
    low = np.tril_indices(P.shape[1], -1)
    tol = np.max(np.abs(P))
    close(p[:, low[0], low[1]], P[:, low[0], low[1]], f"cross spectra {sc.name}", 1e-9, 1e-9 * tol)
    if is_power(sc) and c["avg"] == "mean":
        ev = np.linalg.eigvalsh(csm)
        check(np.min(ev) >= -1e-9 * np.max(np.abs(csm)), "negative eigenvalue")
    return sc.name if nframes(c) > 2 else None


@sub(
    PID,
    gen.fd(
        s=gen.sig(5, 300, 4, kinds=gen.KINDS),
        pad=st.booleans(),
        sc=st.integers(0, len(SCALINGS) - 1),
        ir=st.booleans(),
        win=st.booleans(),
    ),
    quick=400,
    cap=20,
)
def fft_definition(c):
    """Spectrum and cross-spectral matrix with the FFT method."""
    x, fs, n = gen.data(c["s"]), c["s"]["fs"], c["s"]["n"]
    sc = SCALINGS[c["sc"]]
    win = c["ir"] and c["win"]
    s = gen.mk(c["s"], dsp.ImpulseResponse if c["ir"] else dsp.Signal)
    w = np.ones(x.shape)
    if win:
        w = 0.2 + np.random.default_rng(c["s"]["seed"]).random(x.shape)
        s.set_window(w.copy())
    s.set_spectrum_parameters(SM.FFT, scaling=sc, pad_to_fast_length=c["pad"])
    nfft = next_fast_len(n, True) if c["pad"] else n
    f, sp = s.get_spectrum()
    close(f, np.arange(nfft // 2 + 1) * fs / nfft, "frequencies")
    X = rdft(x, nfft)
    pf = np.stack([power_factor(sc, w[:, i], nfft, fs) for i in range(x.shape[1])], 1)
    want = np.abs(X) ** 2 * pf if is_power(sc) else X * np.sqrt(pf)
    close(sp, want, sc.name, 1e-9, 1e-14)
    if sc == SC.FFTBackward:
        close(np.fft.irfft(sp, nfft, axis=0)[:n], x, "inverse", 1e-9)
    if sc in (SC.PowerSpectralDensity, SC.AmplitudeSpectralDensity) and not win:
        e = np.sum(np.abs(sp) ** (1 if is_power(sc) else 2), axis=0) * fs / nfft
        close(e, np.mean(x**2, axis=0), "integral of the density", 1e-9)
    if x.shape[1] > 1:
        f2, csm = s.get_csm()
        same(f2, f, "frequencies of the CSM")
        lin = X * np.sqrt(pf)
        P = lin[:, :, None] * lin[:, None, :].conj()
        close(csm, np.conj(np.swapaxes(csm, 1, 2)), "Hermitian", 1e-12)
        if sc in (SC.AmplitudeSpectrum, SC.AmplitudeSpectralDensity):
            low = np.tril_indices(P.shape[1])
            close((csm**2)[:, low[0], low[1]], P[:, low[0], low[1]], f"CSM {sc.name}", 1e-9, 1e-20)
            close(np.einsum("fii->fi", csm), np.abs(sp), "diagonal", 1e-8, 1e-14)
        else:
            close(csm, P, f"CSM {sc.name}", 1e-9, 1e-20)
            close(np.einsum("fii->fi", csm), np.abs(sp) if is_power(sc) else np.abs(sp) ** 2,
                  "diagonal", 1e-9, 1e-20)
        check(s.spectrum_scaling == sc, "scaling changed by get_csm")
        same(s.get_spectrum()[1], sp, "spectrum after get_csm")
    return f"{sc.name}{'-win' if win else ''}{'-pad' if nfft != n else ''}"


@sub(
    PID,
    gen.fd(
        wl=st.integers(6, 10),
        nfr=st.integers(1, 5),
        k=st.floats(0.1, 0.9),
        amp=st.sampled_from([1.0, 0.25, 3.0]),
        ph=st.floats(0, 6.2).map(lambda v: round(v, 2)),
        fs=st.sampled_from(gen.FS),
        win=st.sampled_from(["boxcar", "hann", "hamming", "blackman", "flattop"]),
        welch=st.booleans(),
        power=st.booleans(),
        ch=st.integers(1, 3),
        amps=st.lists(st.sampled_from([1.0, 0.5, 2.0]), min_size=3, max_size=3),
    ),
    quick=150,
)
def tone_level(c):
    """A tone on a bin shows its RMS value in the amplitude spectrum and its
    mean square in the power spectrum and, integrated, in the density."""
    wl = 2 ** c["wl"]
    n = wl * c["nfr"]
    k = 5 + int(c["k"] * (wl // 2 - 10))
    t = np.arange(n)
    amps = np.array([c["amp"] * c["amps"][i] for i in range(c["ch"])])
    x = np.sin(2 * np.pi * k * t / wl + c["ph"])[:, None] * amps
    s = dsp.Signal(None, x, c["fs"], constrain_amplitude=False)
    par = dict(scaling=SC.PowerSpectrum if c["power"] else SC.AmplitudeSpectrum)
    if c["welch"]:
        s.set_spectrum_parameters(
            SM.WelchPeriodogram, window_length_samples=wl,
            window_type=window_of(c["win"], wl)[0], overlap_percent=0, detrend=False, **par)
        idx = k
    else:
        s.set_spectrum_parameters(SM.FFT, pad_to_fast_length=False, **par)
        idx = k * c["nfr"]
    f, sp = s.get_spectrum()
    close(f[idx], k * c["fs"] / wl, "frequency", 1e-9)
    got = np.abs(sp[idx])
    want = amps**2 / 2 if c["power"] else amps / np.sqrt(2)
    close(got, want, "level of the tone", 1e-6)
    m = np.abs(sp)
    check(np.all(np.argmax(m, axis=0) == idx), "not at its bin")
    # density
    s.spectrum_scaling = SC.PowerSpectralDensity
    f, sp = s.get_spectrum()
    close(np.sum(np.abs(sp), axis=0) * (f[1] - f[0]), amps**2 / 2, "integrated density", 2e-2
          if c["welch"] and c["win"] != "boxcar" else 1e-9)
    return ("welch-" + c["win"]) if c["welch"] else "fft"


@sub(
    PID,
    gen.fd(
        s=gen.sig(8, 200, 3, kinds=gen.RICH),
        a=st.integers(0, len(SCALINGS) - 1),
        b=st.integers(0, len(SCALINGS) - 1),
        win=st.sampled_from([None, "hann", "kaiser", "blackman"]),
        one_d=st.booleans(),
    ),
    quick=250,
)
def scaling_functions(c):
    """tools.scale_spectrum and the scaling and conversion factors."""
    x, fs, n = gen.data(c["s"]), c["s"]["fs"], c["s"]["n"]
    if c["one_d"]:
        x = x[:, 0]
    w = None if c["win"] is None else window_of(c["win"], n)[1]
    wv = np.ones(n) if w is None else w
    a, b = SCALINGS[c["a"]], SCALINGS[c["b"]]
    X = rdft(x * (wv if x.ndim == 1 else wv[:, None]), n)
    col = (lambda v: v) if x.ndim == 1 else (lambda v: v[:, None])

    def want(sc):
        pf = col(power_factor(sc, wv, n, fs))
        return np.abs(X) ** 2 * pf if is_power(sc) else X * np.sqrt(pf)

    if physical(a):
        got = dsp.tools.scale_spectrum(X.copy(), a, n, fs, None if w is None else w.copy())
        close(got, want(a), f"scale_spectrum {a.name}", 1e-9, 1e-18)
    # factors on the one-sided data (DC and Nyquist apart)
    mid = slice(1, (n - 1) // 2 + 1)

    def rep(sc):
        v = power_factor(sc, wv, n, fs)[mid] * 1.0
        return v if is_power(sc) else np.sqrt(v)

    if len(rep(a)) == 0:
        return None
    fa = np.asarray(a.get_scaling_factor(n, fs, None if w is None else w.copy()), float).ravel()
    close(fa, rep(a)[:1], f"factor {a.name}", 1e-12)
    cf = np.asarray(a.conversion_factor(b, n, fs, None if w is None else w.copy()), float).ravel()
    pa, pb = rep(a)[:1], rep(b)[:1]
    if is_power(a) != is_power(b):
        pa, pb = (pa if is_power(a) else pa**2), (pb if is_power(b) else pb**2)
    close(cf, pb / pa, f"conversion {a.name} to {b.name}", 1e-9)
    back = np.asarray(b.conversion_factor(a, n, fs, None if w is None else w.copy()), float).ravel()
    close(cf * back, np.ones_like(cf), "conversion and back", 1e-9)
    return f"{a.name}"


@sub(
    PID,
    gen.fd(
        s=gen.sig(100, 400, 2, kinds=["noise"]),
        welch=st.booleans(),
        sc=st.integers(0, len(SCALINGS) - 1),
        g=st.sampled_from([0.1, 2.0, 10.0, -1.0]),
        perm=st.booleans(),
        det=st.booleans(),
    ),
    quick=120,
)
def gain_and_channels(c):
    """A gain scales the spectrum (its square the power), channels are
    independent, a constant is removed by detrending."""
    sc = SCALINGS[c["sc"]]
    x = gen.data(c["s"])
    x = np.concatenate([x, x[::-1] * 0.5], axis=1)

    def spec(y):
        s = dsp.Signal(None, y, c["s"]["fs"], constrain_amplitude=False)
        s.set_spectrum_parameters(
            SM.WelchPeriodogram if c["welch"] else SM.FFT, scaling=sc,
            window_length_samples=64, detrend=c["det"])
        return s.get_spectrum()[1]

    base = spec(x)
    e = abs(c["g"]) ** 2 if is_power(sc) else (abs(c["g"]) if c["welch"] else c["g"])
    close(spec(x * c["g"]), base * e, "gain", 1e-9)
    close(spec(x[:, ::-1]), base[:, ::-1], "channel order", 1e-12)
    close(spec(x[:, :1]), base[:, :1], "single channel", 1e-12)
    if c["welch"] and c["det"]:
        n = 32 * (len(x) // 32)
        y = x[:n]
        # the last frame carries padding: compare frames which are complete
        a, b = spec(np.r_[y]), None
        s = dsp.Signal(None, y + 3.0, c["s"]["fs"], constrain_amplitude=False)
        s.set_spectrogram_parameters(64, overlap_percent=50, detrend=True, padding=False)
        s2 = dsp.Signal(None, y, c["s"]["fs"], constrain_amplitude=False)
        s2.set_spectrogram_parameters(64, overlap_percent=50, detrend=True, padding=False)
        k = (n - 64) // 32 + 1
        g1, g2 = s.get_spectrogram()[2][:, :k], s2.get_spectrogram()[2][:, :k]
        close(g1, g2, "constant under detrending", 1e-9, 1e-11)
    return sc.name


MN = dsp.MagnitudeNormalization


@sub(
    PID,
    gen.fd(
        s=gen.sig(400, 900, 3, kinds=["noise", "decay"], fs=[8000, 16000, 2000]),
        mode=st.integers(0, len(list(MN)) - 1),
        sc=st.integers(0, len(SCALINGS) - 1),
        welch=st.booleans(),
        r=st.sampled_from([None, [200, 3000], [900, 1100], [3000, 200]]),
        cal=st.booleans(),
    ),
    quick=150,
)
def normalized_spectrum(c):
    """plot_magnitude shows 20 or 10 log10 of the spectrum, normalised as
    asked, on the chosen range."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    mode, sc = list(MN)[c["mode"]], SCALINGS[c["sc"]]
    s = gen.mk(c["s"])
    s.calibrated_signal = c["cal"]
    s.set_spectrum_parameters(
        SM.WelchPeriodogram if c["welch"] else SM.FFT, scaling=sc, window_length_samples=256)
    f, sp = s.get_spectrum()
    if f[-1] < 1000 and mode.name.startswith("OneKhz"):
        return None
    try:
        fig, ax = s.plot_magnitude(range_hz=c["r"], normalize=mode, show_info_box=False)
        lines = [np.array(l.get_data()) for l in ax.get_lines()]
    finally:
        plt.close("all")
    check(len(lines) == sp.shape[1], f"{len(lines)} lines")
    if c["r"] is not None:
        lo, hi = sorted(c["r"])
        i1, i2 = np.argmin(np.abs(f - lo)), np.argmin(np.abs(f - hi))
    else:
        i1, i2 = 0, len(f) - 1
    f, m = f[i1 : i2 + 1], np.abs(sp[i1 : i2 + 1])
    p0 = 20e-6 if c["cal"] and mode == MN.NoNormalization else 1.0
    pw = (m if is_power(sc) else m**2) / p0**2
    with np.errstate(divide="ignore"):
        db = 10 * np.log10(pw)
    db = np.clip(db, -500, None)

    def at1k(v):
        return np.interp(1000.0, f, v)

    for i, (xf, y) in enumerate(lines):
        close(xf, f, "frequency range", 1e-9)
        j = 0 if mode.name.endswith("FirstChannel") else i
        base = mode.name.replace("FirstChannel", "")
        ref = dict(
            NoNormalization=lambda: 0.0,
            OneKhz=lambda: at1k(db[:, j]),
            Max=lambda: np.max(db[:, j]),
            Energy=lambda: 10 * np.log10(np.mean(pw[:, j])),
        )[base]()
        sel = db[:, i] > -250
        close(y[sel], db[sel, i] - ref, f"{mode.name} {sc.name}", 0, 1e-6)
    return mode.name


@sub(
    PID,
    gen.fd(
        ch=st.integers(1, 3),
        wl=st.sampled_from([24, 100, 7]),
        what=st.sampled_from(["window", "overlap", "average", "csm1"]),
    ),
    quick=20,
)
def refused(c):
    """Parameters outside of the documented ranges are refused."""
    s = dsp.Signal(None, np.random.default_rng(0).standard_normal((300, c["ch"])), 8000)

    def run():
        kw = dict(window_length_samples=64)
        if c["what"] == "window":
            kw = dict(window_length_samples=c["wl"])
        elif c["what"] == "overlap":
            kw["overlap_percent"] = 100
        elif c["what"] == "average":
            kw["average"] = "mode"
        if c["what"] == "csm1":
            s.get_channels([0]).get_csm()
            return
        s.set_spectrum_parameters(SM.WelchPeriodogram, **kw)
        s.get_spectrum()

    raises(run, c["what"])
    return c["what"]
