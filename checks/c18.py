"""C18: system identification recovers the system.

Oracles: known impulse responses behind which the outputs are made (circular
or linear convolution), Welch estimates in plain numpy, the closed-form arrival
times of harmonics, polynomial distortion with known Chebyshev content."""

import numpy as np
from hypothesis import strategies as st
from scipy.signal import fftconvolve, get_window

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C18"
TF = dsp.transfer_functions
TT = TF.TransferFunctionType
W = dsp.Window
SC = dsp.SpectrumScaling
ME = dsp.SpectrumMethod


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def settings(s, seed):
    """Any spectrum settings: they must not matter for a deconvolution."""
    r = np.random.default_rng(seed)
    s.set_spectrum_parameters(
        method=[ME.FFT, ME.WelchPeriodogram][r.integers(2)],
        smoothing=int(r.choice([0, 3])),
        pad_to_fast_length=bool(r.integers(2)),
        window_length_samples=64,
        scaling=list(SC)[r.integers(len(list(SC)))],
    )
    return s


def sig(x, fs, seed=None, cls=None):
    s = (cls or dsp.Signal)(None, x, fs, constrain_amplitude=False)
    return s if seed is None else settings(s, seed)


# ------------------------------------------------------------- deconvolution
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        n=st.integers(8, 300),
        ch=st.integers(1, 3),
        one=st.booleans(),
        pad=st.booleans(),
        keep=st.booleans(),
        lvl=st.sampled_from([1.0, 1e-3, 50.0]),
        fs=st.sampled_from(gen.FS),
    ),
    quick=60,
)
def division(c):
    """Without regularisation the response is exactly the one the output was
    made with (circular without, linear with padding), per channel, at its
    level, whatever the settings of the signals."""
    r = np.random.default_rng(c["seed"])
    n, ch = c["n"], c["ch"]
    inch = 1 if c["one"] else ch
    if ch > n // 2:
        return None
    m = n // 2 if c["pad"] else n
    x = np.zeros((n, inch))
    x[: m if c["pad"] else n] = r.standard_normal((m if c["pad"] else n, inch))
    x[0] += 4.0 * np.sqrt(n) * (1 if n % 2 else 1)
    h = np.zeros((n, ch))
    L = max(1, n - m) if c["pad"] else n
    h[:L] = r.standard_normal((L, ch)) * c["lvl"]
    N = 2 * n if c["pad"] else n
    X = np.fft.rfft(x, N, axis=0)
    if np.min(np.abs(X)) < 0.05 * np.max(np.abs(X)):
        return None
    y = np.fft.irfft(X * np.fft.rfft(h, N, axis=0), N, axis=0)[:n]
    si, so = sig(x, c["fs"], c["seed"]), sig(y, c["fs"], c["seed"] + 1)
    out = TF.spectral_deconvolve(so, si, False, None, -30.0, c["pad"], c["keep"])
    check(isinstance(out, dsp.ImpulseResponse), "type")
    check(out.sampling_rate_hz == c["fs"], "rate")
    want = n if not c["pad"] or c["keep"] else 2 * n
    check(out.time_data.shape == (want, ch), "shape", out.time_data.shape)
    ref = np.zeros((want, ch))
    ref[:n] = h
    close(out.time_data, ref, "response", rtol=1e-9, scale=np.max(np.abs(h)) * 10)
    same(si.time_data, x, "input")
    same(so.time_data, y, "output")
    return ("pad" if c["pad"] else "circular") + ("+one" if c["one"] and ch > 1 else "")


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        n=st.integers(200, 900),
        ch=st.integers(1, 3),
        one=st.booleans(),
        how=st.sampled_from(["auto", "two", "four"]),
        fs=st.sampled_from([8000, 48000]),
        lo=gen.floats(0.03, 0.1, 3),
        hi=gen.floats(0.2, 0.38, 3),
    ),
    quick=60,
)
def regularised_division(c):
    """In the given (or found) band the result has exactly the system's
    response; outside it is that response times a real factor between
    |X|^2/(|X|^2+eps) and one, per channel with its own band."""
    r = np.random.default_rng(c["seed"])
    n, ch, fs = c["n"], c["ch"], c["fs"]
    inch = 1 if c["one"] else ch
    f = np.fft.rfftfreq(n, 1 / fs)
    edges = []
    X = np.zeros((len(f), inch), complex)
    for i in range(inch):
        sh = r.uniform(0.8, 1.2)
        a, b = c["lo"] * fs * sh, c["hi"] * fs * sh
        edges.append((a, b))
        mag = np.where((f >= a) & (f <= b), 30.0, 1e-2)
        X[:, i] = mag * np.exp(1j * r.uniform(0, 2 * np.pi, len(f)))
    X[0] = X[0].real
    if n % 2 == 0:
        X[-1] = X[-1].real
    x = np.fft.irfft(X, n, axis=0)
    X = np.fft.rfft(x, axis=0)
    h = r.standard_normal((n, ch)) * np.exp(-np.arange(n) / n * 6)[:, None]
    H = np.fft.rfft(h, axis=0)
    y = np.fft.irfft(X * H, n, axis=0)
    si, so = sig(x, fs, c["seed"]), sig(y, fs, c["seed"] + 1)
    a, b = edges[0]
    band = {"auto": None, "two": [a, b], "four": [a * 0.8, a, b, min(b * 1.2, fs / 2)]}[c["how"]]
    keep = None if band is None else list(band)
    out = TF.spectral_deconvolve(so, si, True, band)
    check(band is None or list(band) == keep, "band list changed")
    check(out.time_data.shape == (n, ch), "shape")
    G = np.fft.rfft(out.time_data, axis=0)
    df = fs / n
    for i in range(ch):
        k = 0 if inch == 1 else i
        a, b = edges[k] if c["how"] == "auto" else edges[0]
        Xi = np.abs(X[:, k])
        ins = (f >= a + df) & (f <= b - df)
        close(G[ins, i], H[ins, i], f"band of channel {i}", rtol=1e-8, scale=np.max(np.abs(H[:, i])))
        ratio = G[:, i] / H[:, i]
        mid = slice(1, len(f) - 1)
        check(np.max(np.abs(ratio[mid].imag)) < 1e-6, "phase outside the band")
        low = Xi**2 / (Xi**2 + 10**1.5 + 1e-9)
        check(np.all(ratio.real[mid] <= 1 + 1e-6) and np.all(ratio.real[mid] >= low[mid] - 1e-6), "factor")
        far = (f < a / 1.5 - 2 * df) | (f > b * 1.5 + 2 * df)
        if c["how"] != "four":
            far &= True
            if np.any(far[mid]):
                close(ratio.real[mid][far[mid]], low[mid][far[mid]], "full regularisation", rtol=1e-3, atol=1e-6)
    return c["how"] + ("" if inch == 1 else "+own")


@sub(PID, gen.fd(seed=gen.seeds(), n=st.integers(20, 60)), quick=10)
def refusals(c):
    """Signals which do not belong together are refused."""
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    a = sig(r.standard_normal((n, 2)), 8000)
    raises(lambda: TF.spectral_deconvolve(a, sig(r.standard_normal((n + 1, 1)), 8000)), "length")
    raises(lambda: TF.spectral_deconvolve(a, sig(r.standard_normal((n, 1)), 16000)), "rate")
    raises(lambda: TF.spectral_deconvolve(a, sig(r.standard_normal((n, 3)), 8000)), "channels")
    raises(lambda: TF.spectral_deconvolve(a, a, True, [1.0, 2.0, 3.0]), "band")
    raises(lambda: TF.compute_transfer_function(a, sig(r.standard_normal((n, 1)), 16000), 16), "rate")
    raises(lambda: TF.compute_transfer_function(a, sig(r.standard_normal((n, 3)), 8000), 16), "channels")
    raises(lambda: TF.compute_transfer_function(a, sig(r.standard_normal((n + 2, 1)), 8000), 16), "length")
    return "refused"


# ---------------------------------------------------------------- estimators
WSPEC = dict(
    seed=gen.seeds(),
    L=st.sampled_from([16, 32, 64, 128]),
    ch=st.integers(1, 3),
    one=st.booleans(),
    mode=st.sampled_from(["H1", "H2", "H3"]),
    win=st.sampled_from(["Hann", "Hamming", "Blackman", "Boxcar"]),
    ov=st.sampled_from([0.0, 50.0, 75.0]),
    det=st.booleans(),
    scaling=st.integers(0, 20),
    avg=st.sampled_from(["mean", "mean", "median"]),
)


def welch(x, y, L, win, ov, det, avg):
    step = L - int(ov / 100 * L)
    nf = -(-len(x) // step)
    xp, yp = np.pad(x, (0, L + step)), np.pad(y, (0, L + step))
    w = get_window(win, L)
    P = []
    for k in range(nf):
        a, b = xp[k * step : k * step + L], yp[k * step : k * step + L]
        if det:
            a, b = a - a.mean(), b - b.mean()
        P.append(np.conj(np.fft.rfft(a * w)) * np.fft.rfft(b * w))
    P = np.array(P)
    if avg == "mean":
        return P.mean(0)
    return np.median(P.real, 0) + 1j * np.median(P.imag, 0)


def set_welch(s, c):
    s.set_spectrum_parameters(
        method=ME.WelchPeriodogram,
        window_length_samples=256,
        window_type=getattr(W, c["win"]),
        overlap_percent=c["ov"],
        detrend=c["det"],
        average=c["avg"],
        scaling=list(SC)[c["scaling"] % len(list(SC))],
    )


@sub(PID, gen.fd(**WSPEC, snr=st.sampled_from([0.0, 0.3, 1.0])), quick=60)
def estimators(c):
    """H1 = Gxy/Gxx, H2 = Gyy/Gyx, H3 = their geometric mean; coherence =
    |Gxy|^2/(Gxx Gyy), with the input's Welch settings, for every scaling."""
    r = np.random.default_rng(c["seed"])
    L, ch = c["L"], c["ch"]
    inch = 1 if c["one"] else ch
    n = int(r.integers(6, 12)) * L + int(r.integers(0, L))
    x = r.standard_normal((n, inch))
    y = np.stack(
        [np.convolve(x[:, 0 if inch == 1 else i], r.standard_normal(5))[:n] for i in range(ch)], 1
    ) + c["snr"] * r.standard_normal((n, ch))
    si, so = sig(x, 16000), sig(y, 16000, c["seed"])
    set_welch(si, c)
    out = TF.compute_transfer_function(so, si, L, getattr(TT, c["mode"]))
    check(isinstance(out, dsp.Spectrum), "type")
    close(out.frequency_vector_hz, np.fft.rfftfreq(L, 1 / 16000), "frequencies", rtol=1e-12)
    T = np.asarray(out.spectral_data)
    C = np.asarray(out.coherence)
    check(T.shape == (L // 2 + 1, ch) and C.shape == T.shape, "shapes", T.shape, C.shape)
    wt = getattr(W, c["win"]).to_scipy_format()
    # detrended bins at DC hold nothing but rounding
    lo = 2 if c["det"] else 0
    for i in range(ch):
        a, b = x[:, 0 if inch == 1 else i], y[:, i]
        args = (L, wt, c["ov"], c["det"], c["avg"])
        gxx, gyy, gxy = (welch(p, q, *args) for p, q in ((a, a), (b, b), (a, b)))
        gxx, gyy = gxx.real, gyy.real
        ref = {"H1": gxy / gxx, "H2": gyy / np.conj(gxy), "H3": gxy / np.abs(gxy) * np.sqrt(gyy / gxx)}[c["mode"]]
        close(T[lo:, i], ref[lo:], f"{c['mode']} of channel {i}", rtol=1e-7, scale=None)
        coh = np.abs(gxy) ** 2 / gxx / gyy
        close(C[lo:, i], coh[lo:], f"coherence of channel {i}", rtol=1e-7, scale=1.0)
        if c["avg"] == "mean":
            check(np.all(C[lo:, i] <= 1 + 1e-9) and np.all(C[lo:, i] >= 0), "coherence within zero and one")
    same(si.time_data, x, "input")
    same(so.time_data, y, "output")
    return c["mode"] + ("+noise" if c["snr"] else "")


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        ch=st.integers(1, 3),
        one=st.booleans(),
        mode=st.sampled_from(["H1", "H2", "H3"]),
        k=st.integers(1, 6),
        gain=st.sampled_from([1.0, 0.01, 30.0]),
        scaling=st.integers(0, 20),
        delay=st.integers(0, 3),
    ),
    quick=40,
)
def noise_free_system(c):
    """A periodic input seen through a whole number of periods delivers the
    exact response of a linear system; coherence is one."""
    r = np.random.default_rng(c["seed"])
    L, ch = 64, c["ch"]
    inch = 1 if c["one"] else ch
    per = r.standard_normal((L, inch))
    X = np.fft.rfft(per, axis=0)
    if np.min(np.abs(X)) < 0.02 * np.max(np.abs(X)):
        return None
    h = np.zeros((L, ch))
    h[c["delay"] : c["delay"] + c["k"]] = r.standard_normal((c["k"], ch)) * c["gain"]
    H = np.fft.rfft(h, axis=0)
    if np.min(np.abs(H)) < 1e-4 * np.max(np.abs(H)):
        return None
    py = np.fft.irfft(X * H, L, axis=0)
    x, y = np.tile(per, (5, 1)), np.tile(py, (5, 1))
    si, so = sig(x, 48000), sig(y, 48000)
    si.set_spectrum_parameters(
        window_type=W.Boxcar, overlap_percent=0.0, detrend=False, scaling=list(SC)[c["scaling"] % len(list(SC))]
    )
    out = TF.compute_transfer_function(so, si, L, getattr(TT, c["mode"]))
    close(np.asarray(out.spectral_data), H, "response", rtol=1e-6, scale=np.max(np.abs(H)))
    close(np.asarray(out.coherence), np.ones_like(np.abs(H)), "coherence", rtol=1e-6)
    return c["mode"]


@sub(
    PID,
    gen.fd(seed=gen.seeds(), snr=st.sampled_from([0.1, 0.5, 1.0, 3.0, 10.0]), gain=st.sampled_from([0.2, 1.0, 5.0]), out=st.booleans()),
    quick=12,
)
def independent_noise(c):
    """With independent noise of signal-to-noise power ratio r at the output
    (or input), coherence averages r/(1+r), H1 (H2) stays unbiased and
    |H1| <= |H3| <= |H2|."""
    r = np.random.default_rng(c["seed"])
    n = 40000
    x = r.standard_normal((n, 1))
    y = c["gain"] * x
    e = r.standard_normal((n, 1)) / np.sqrt(c["snr"])
    xm, ym = (x, y + c["gain"] * e) if c["out"] else (x + e, y)
    si, so = sig(xm, 48000), sig(ym, 48000)
    sp = {k: TF.compute_transfer_function(so, si, 128, getattr(TT, k)) for k in ("H1", "H2", "H3")}
    m = {k: np.abs(np.asarray(v.spectral_data))[2:-1, 0] for k, v in sp.items()}
    coh = np.asarray(sp["H1"].coherence)[2:-1, 0]
    close(coh.mean(), c["snr"] / (1 + c["snr"]), "coherence", rtol=0.05, atol=0.01)
    check(np.all(m["H1"] <= m["H3"] * (1 + 1e-9)) and np.all(m["H3"] <= m["H2"] * (1 + 1e-9)), "order of the estimates")
    close(np.mean(m["H1" if c["out"] else "H2"]), c["gain"], "unbiased estimate", rtol=0.12)
    bias = np.mean(m["H2" if c["out"] else "H1"]) / c["gain"]
    ref = 1 + 1 / c["snr"]
    close(bias, ref if c["out"] else 1 / ref, "biased estimate", rtol=0.2)
    return "output" if c["out"] else "input"


# ----------------------------------------------------------------- harmonics
def sweep(fs, f1, f2, T):
    t = np.arange(int(fs * T)) / fs
    k = T / np.log(f2 / f1)
    return np.sin(2 * np.pi * f1 * k * (np.exp(t / k) - 1))


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        fs=st.sampled_from([8000, 16000, 48000]),
        T=gen.floats(0.3, 1.5, 2),
        f1=gen.floats(20, 100, 0),
        octs=gen.floats(4.0, 8.0, 2),
        nh=st.integers(1, 7),
        off=st.sampled_from([0.0, 0.01, 0.05, 0.3]),
        pos=st.integers(0, 400),
        rev=st.booleans(),
    ),
    quick=50,
)
def harmonic_arrival(c):
    """The k-th harmonic is found log2(k)/rate before the fundamental; the
    pieces follow each other without gap or overlap."""
    fs = c["fs"]
    f2 = c["f1"] * 2 ** c["octs"]
    rate = c["octs"] / c["T"]
    n = 2 * int(fs * c["T"]) + 3
    r = np.random.default_rng(c["seed"])
    td = r.standard_normal(n) * 1e-4
    t = np.array([np.log2(k) / rate for k in range(1, c["nh"] + 4)]) * fs
    if t[c["nh"] + 1] - t[c["nh"]] < 12 or t[-1] > n - 5:
        return None
    td[c["pos"]] = 1.0
    for k in range(2, c["nh"] + 2):
        td[(c["pos"] - int(round(t[k - 1]))) % n] = 0.5 / k
    ir = sig(td, fs, cls=dsp.ImpulseResponse)
    out = TF.harmonics_from_chirp_ir(ir, [f2, c["f1"]] if c["rev"] else [c["f1"], f2], c["T"], c["nh"], c["off"])
    check(isinstance(out, list) and len(out) == c["nh"], "number of harmonics")
    same(ir.time_data[:, 0], td, "input")
    rolled = np.roll(td, -c["pos"])
    end = None
    for k, h in enumerate(out, start=2):
        check(isinstance(h, dsp.ImpulseResponse) and h.sampling_rate_hz == fs, "type")
        x = h.time_data[:, 0]
        i = int(np.argmax(np.abs(x)))
        close(x[i], 0.5 / k, f"peak of harmonic {k}", rtol=1e-9)
        gap = t[k] - t[k - 1]
        if c["off"] * gap > 3:
            check(abs(i - c["off"] * gap) <= 3, "offset", k, i, c["off"] * gap)
        else:
            check(i <= c["off"] * gap + 3, "offset", k, i)
        # absolute position of the snippet in the response
        a = (n - int(round(t[k - 1]))) - i
        same(x, np.take(rolled, np.arange(a, a + len(x)), mode="wrap"), f"samples of harmonic {k}")
        if end is not None:
            check(a + len(x) == end, "gap or overlap", k, a + len(x), end)
        end = a
    return f"{c['nh']}"


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        fs=st.sampled_from([8000, 16000]),
        nh=st.integers(1, 4),
        scaling=st.sampled_from(["FFTBackward", "AmplitudeSpectrum", "PowerSpectrum", "PowerSpectralDensity"]),
        rng=st.booleans(),
        lvl=st.sampled_from([0.1, 1.0, 4.0]),
        sm=st.sampled_from([0, 0, 3]),
        plot=st.integers(0, 9),
    ),
    quick=30,
)
def distortion_of_given_responses(c):
    """Fundamental and harmonic spectra at the exciting frequencies, THD = root
    of the summed powers, percent = ratio to the fundamental, THD+N from all
    the samples; nothing passed is changed."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    irs = []
    for k in range(c["nh"] + 1):
        n = int(r.integers(300, 2500)) if k == 0 else int(r.integers(100, 900))
        x = r.standard_normal(n) * np.exp(-np.arange(n) / n * 8) * c["lvl"] / (1 + 3 * k)
        x[0] = c["lvl"]
        s = sig(x, fs, cls=dsp.ImpulseResponse)
        s.set_spectrum_parameters(method=ME.FFT, scaling=getattr(SC, c["scaling"]), pad_to_fast_length=False)
        irs.append(s)
    lst = list(irs)
    hold = [s.time_data.copy() for s in irs]
    pars = [dict(getattr(s, "_spectrum_parameters", {})) for s in irs]
    rng = [20.0, fs * 0.3] if c["rng"] else None
    plot = c["plot"] == 0
    d = TF.harmonic_distortion_analysis(lst, rng, None, None, c["sm"], plot)
    if plot:
        import matplotlib.pyplot as plt

        plt.close("all")
    check(len(lst) == len(irs) and all(a is b for a, b in zip(lst, irs)), "list changed")
    for s, h, p in zip(irs, hold, pars):
        same(s.time_data, h, "response changed")
        check(dict(getattr(s, "_spectrum_parameters", {})) == p, "settings changed")
    hi = rng[1] if c["rng"] else fs // 2

    def spec(x):
        s = sig(x, fs, cls=dsp.ImpulseResponse)
        s.set_spectrum_parameters(
            method=ME.FFT, scaling=getattr(SC, c["scaling"]), smoothing=c["sm"], pad_to_fast_length=False
        )
        f, v = s.get_spectrum()
        v = v[:, 0]
        return f, (np.sqrt(np.abs(v)) if "Power" in c["scaling"] else np.abs(v))

    base = np.pad(hold[0][:, 0], (0, max(fs // 5 - len(hold[0]), 0)))
    f0, b0 = spec(base)
    mag = lambda s: np.abs(np.asarray(s.spectral_data)).squeeze()
    close(d["1"].frequency_vector_hz, f0, "frequencies of the fundamental", rtol=1e-12)
    close(mag(d["1"]), b0, "fundamental", rtol=1e-9, scale=np.max(b0))
    power = np.zeros(len(f0))
    for k in range(2, c["nh"] + 2):
        f, v = spec(hold[k - 1][:, 0])
        sel = f < hi
        close(d[str(k)].frequency_vector_hz, f[sel] / k, f"frequencies of harmonic {k}", rtol=1e-12)
        close(mag(d[str(k)]), v[sel], f"harmonic {k}", rtol=1e-9, scale=np.max(v))
        power += np.interp(f0, f[sel] / k, v[sel] ** 2, left=0, right=0)
    ft = d["thd"].frequency_vector_hz
    close(ft, f0[: len(ft)], "frequencies of THD", rtol=1e-12)
    check(abs(ft[-1] - hi / 2) <= 2 * f0[1], "end of THD", ft[-1], hi / 2)
    thd = np.sqrt(power[: len(ft)])
    close(mag(d["thd"]), thd, "THD", rtol=1e-9, scale=np.max(thd))
    pc = 100 * thd / b0[: len(ft)]
    close(mag(d["thd_percent"]), pc, "THD in percent", rtol=1e-6, scale=np.max(pc))
    full = np.concatenate([h[:, 0] for h in hold[:0:-1]])
    fn, vn = spec(full)
    close(d["thd_n"].frequency_vector_hz, fn, "frequencies of THD+N", rtol=1e-12)
    close(mag(d["thd_n"]), vn, "THD+N", rtol=1e-9, scale=np.max(vn))
    return c["scaling"]


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        fs=st.sampled_from([8000, 16000, 44100]),
        T=gen.floats(1.0, 3.0, 1),
        f1=st.sampled_from([20.0, 50.0, 100.0]),
        nh=st.integers(1, 4),
        p0=st.integers(0, 4000),
        gain=st.sampled_from([1.0, 0.3, 2.0, -1.0]),
        pad=st.integers(0, 3000),
    ),
    quick=25,
)
def measured_distortion(c):
    """The response of a swept-sine measurement with known pulses at the
    theoretical harmonic times: each harmonic spectrum shows its own pulse
    (around the flat part of its window), THD and percent follow."""
    fs, T, nh, g = c["fs"], c["T"], c["nh"], c["gain"]
    r = np.random.default_rng(c["seed"])
    f2 = fs * 0.4
    N = int(2 * T * fs) + c["pad"]
    amp = np.round(r.uniform(0.02, 0.3, nh + 3), 3)
    x = r.standard_normal(N) * 1e-7
    x[c["p0"]] += g
    k = T / np.log(f2 / c["f1"])
    for h in range(2, nh + 2):
        x[(c["p0"] - int(np.round(k * np.log(h) * fs))) % N] += g * amp[h]
    d = TF.harmonic_distortion_analysis(sig(x, fs, cls=dsp.ImpulseResponse), [c["f1"], f2], T, nh, 0, False)
    fu = np.linspace(fs * 0.02, fs * 0.4 / (nh + 1) * 0.95, 7)

    def S(key):
        f, v = d[key].frequency_vector_hz, np.abs(np.asarray(d[key].spectral_data)).squeeze()
        check(f[0] <= fu[0] and f[-1] >= fu[-1], "range", key, f[0], f[-1])
        return np.interp(fu, f, v)

    check(set(d) >= {str(h) for h in range(1, nh + 2)} and str(nh + 2) not in d, "keys", sorted(d))
    g = abs(g)
    close(S("1"), np.full(7, g), "fundamental", rtol=0.02)
    total = 0.0
    for h in range(2, nh + 2):
        close(S(str(h)), np.full(7, g * amp[h]), f"harmonic {h}", rtol=0.05)
        total += (g * amp[h]) ** 2
    close(S("thd"), np.full(7, np.sqrt(total)), "THD", rtol=0.05)
    close(S("thd_percent"), np.full(7, 100 * np.sqrt(total) / g), "THD in percent", rtol=0.05)
    return f"{nh} harmonics"
