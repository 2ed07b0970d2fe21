"""C20: windowing and averaging of impulse responses follow their description.

Oracles: the response itself at the reported position times the reported
window, window flanks from scipy, responses built with known delays, gains and
decays, direct sums for frequency-dependent windows, bounds of averages."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.signal import get_window

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C20"
TF = dsp.transfer_functions
W = dsp.Window
SC = dsp.SpectrumScaling
ME = dsp.SpectrumMethod
SD = TF.SmoothingDomain
WINS = {"Hann": "hann", "Hamming": "hamming", "Blackman": "blackman", "Cosine": "cosine", "Triangular": "triang", "Bartlett": "bartlett"}
NAMES = [n for n in WINS if hasattr(W, n)]


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def ir(x, fs, seed=None):
    s = dsp.ImpulseResponse(None, x, fs, constrain_amplitude=False)
    if seed is not None:
        r = np.random.default_rng(seed)
        s.set_spectrum_parameters(
            method=[ME.FFT, ME.WelchPeriodogram][r.integers(2)],
            smoothing=int(r.choice([0, 3])),
            window_length_samples=64,
            scaling=list(SC)[r.integers(len(list(SC)))],
        )
    return s


def responses(c):
    """Noise with one clear peak per channel at the drawn relative places."""
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    x = np.round(r.uniform(-0.5, 0.5, (n, c["ch"])), 6)
    p = np.clip((np.array(c["peaks"][: c["ch"]]) * n).astype(int), 0, n - 1)
    x[p, np.arange(c["ch"])] = r.choice([-1.0, 1.0], c["ch"])
    return x * c["gain"], p


def place(x, start, L):
    """L samples of the response beginning at `start` (zeros outside)."""
    y = np.zeros(L)
    i = np.arange(L) + start
    ok = (i >= 0) & (i < len(x))
    y[ok] = x[i[ok]]
    return y


REL = st.one_of(st.floats(0, 1).map(lambda v: round(v, 3)), st.sampled_from([0.0, 0.02, 0.5, 0.98, 1.0]))
BASE = dict(
    seed=gen.seeds(),
    n=st.integers(5, 300),
    ch=st.integers(1, 3),
    peaks=st.lists(REL, min_size=3, max_size=3),
    gain=st.sampled_from([1.0, 0.01, 4.0]),
    fs=st.sampled_from(gen.FS),
)


# ------------------------------------------------------------- tukey windows
@sub(
    PID,
    gen.fd(
        **BASE,
        L=st.integers(8, 400),
        adaptive=st.booleans(),
        const=st.sampled_from([0.75, 0.5, 0.25, 0.9, 0.0, 0.6]),
        ratio=st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.1, 3.0, 0.0]),
        at_start=st.booleans(),
        offset=st.sampled_from([0, 0, 0.1, 0.5, 1.0]),
        wins=st.lists(st.sampled_from(NAMES), min_size=1, max_size=2),
    ),
    quick=400,
    thorough=10000,
)
def aligned_windows(c):
    """window_ir: requested length, output = response from the reported start
    times the reported window, peak under the top at the requested offset,
    flanks of the requested kind, length and ratio."""
    x, p = responses(c)
    if c["n"] < c["ch"]:
        return None
    L, n = c["L"], c["n"]
    off = int(c["offset"] * c["const"] * L)
    kinds = [getattr(W, k) for k in c["wins"]]
    s = ir(x, c["fs"])
    total = int((1 - c["const"]) * L)
    exact = total * c["ratio"] / (1 + c["ratio"])
    if c["adaptive"] and np.any(p < off):
        return None  # the offset cannot be maintained
    out, start = TF.window_ir(
        s, L, c["adaptive"], c["const"], kinds[0] if len(kinds) == 1 else kinds, c["at_start"], off, c["ratio"]
    )
    same(s.time_data, x, "response changed")
    check(type(out) is dsp.ImpulseResponse and out.sampling_rate_hz == c["fs"], "kind")
    check(out.time_data.shape == (L, c["ch"]) and out.window.shape == (L, c["ch"]), "shape", out.time_data.shape)
    check(len(start) == c["ch"], "starts")
    lab = set()
    for k in range(c["ch"]):
        y, w = out.time_data[:, k], out.window[:, k]
        check(np.all(w >= -1e-12) and np.all(w <= 1 + 1e-12), "window outside of 0..1")
        q = int(start[k])
        # position of the peak in the result
        cands = [m for m in (q, -q) if np.allclose(place(x[:, k], m, L) * w, y, rtol=1e-12, atol=1e-13 * c["gain"])]
        check(cands, "output is not the response from the start times the window", k, q)
        m = q if q in cands else -q
        at = p[k] - m
        check(0 <= at < L, "peak lost", k, at)
        check(abs(w[at] - 1) < 1e-12, "window at the peak", w[at])
        close(y[at], x[p[k], k], "value of the peak", rtol=1e-12)
        left = at - off
        if c["adaptive"]:
            check(m >= 0, "padded at the beginning", m)
            want_left = min(int(exact + 1e-9), p[k] - off) if exact > 0 else 0
            check(abs(left - want_left) <= 1 and left >= 0, "length of the left flank", left, want_left)
            check(m == p[k] - off - left, "start", m)
        else:
            check(abs(left - exact) <= 1, "length of the left flank", left, exact)
            check(m == p[k] - off - left, "start", m)
        # flanks
        have = np.arange(L) + m
        inside = (have >= 0) & (have < n)
        check(np.all(w[~inside] == 0) or c["adaptive"] and np.all(w[have >= n] == 0), "window over added zeros")
        lw = get_window(WINS[c["wins"][0]], 2 * left)[:left] if c["at_start"] and left else np.ones(left)
        lw = np.where(inside[:left], lw, 0)
        close(w[:left], lw, "left flank", atol=1e-12)
        right = total - int(exact + 1e-9)
        size = L if not c["adaptive"] else min(L, n - m)
        if not c["adaptive"] or left + off <= size - right:
            for rl in (right, right + 1, right - 1):
                if rl < 0:
                    continue
                rw = get_window(WINS[c["wins"][-1]], 2 * rl)[rl:] if rl > 1 else np.ones(max(rl, 0))
                full = np.concatenate([np.ones(size - rl), rw])[left:]
                full = np.where(inside[left:size], full, 0)
                if len(full) == size - left and np.allclose(full, w[left:size], atol=1e-12):
                    break
            else:
                check(False, "constant part and right flank", right, size)
            lab.add("whole")
        else:
            check(np.all(np.diff(w[left:]) <= 1e-12), "right part rises")
            lab.add("squeezed")
    return ("adaptive " if c["adaptive"] else "fixed ") + ",".join(sorted(lab))


@sub(
    PID,
    gen.fd(
        **BASE,
        left=st.sampled_from([None, 0.0, 0.1, 0.3, 0.5]),
        right=st.sampled_from([None, 0.0, 0.1, 0.3, 0.5]),
        win=st.sampled_from(NAMES),
        over=st.booleans(),
    ),
    quick=150,
    thorough=3000,
)
def tukey_windows(c):
    """window_ir_tukey multiplies every channel by the same window: flanks of
    the given durations, ones between."""
    x, p = responses(c)
    n, fs = c["n"], c["fs"]
    if n < c["ch"]:
        return None
    s = ir(x, fs)
    f = lambda v: None if v is None else int(v * n) / fs
    l, r = f(c["left"]), f(c["right"])
    if l is None and r is None:
        raises(lambda: TF.window_ir_tukey(s, None, None), "no flanks")
        return "refused"
    if c["over"]:
        raises(lambda: TF.window_ir_tukey(s, n / fs * 0.75, n / fs * 0.75), "overlapping flanks")
    raises(lambda: TF.window_ir_tukey(s, l, r, W.Tukey), "Tukey flanks")
    out = TF.window_ir_tukey(s, l, r, getattr(W, c["win"]))
    a = 0 if l is None else int(c["left"] * n)
    b = 0 if r is None else int(c["right"] * n)
    w = np.ones(n)
    w[:a] = get_window(WINS[c["win"]], 2 * a)[:a] if a else 1
    w[n - b :] = get_window(WINS[c["win"]], 2 * b)[b:] if b else 1
    close(out.window, np.repeat(w[:, None], c["ch"], 1), "window", atol=1e-12)
    close(out.time_data, x * w[:, None], "windowed response", rtol=1e-12)
    same(s.time_data, x, "response changed")
    check(out.sampling_rate_hz == fs and type(out) is dsp.ImpulseResponse, "kind")
    return "both" if a and b else "one"


@sub(PID, gen.fd(**BASE, L=st.integers(4, 400), win=st.sampled_from(NAMES)), quick=300, thorough=8000)
def centred_windows(c):
    """window_centered_ir: requested length, output = response from the
    reported start times the window, whose top lies on the peak; same length in
    and out leaves the response in place."""
    x, p = responses(c)
    n, L = c["n"], c["L"]
    if n < c["ch"]:
        return None
    s = ir(x, c["fs"])
    out, start = TF.window_centered_ir(s, L, getattr(W, c["win"]))
    same(s.time_data, x, "response changed")
    check(out.time_data.shape == (L, c["ch"]) and out.window.shape == (L, c["ch"]), "shape", out.time_data.shape)
    half = L // 2
    full = get_window(WINS[c["win"]], 2 * half + 1, False)
    for k in range(c["ch"]):
        m = int(start[k])
        y, w = out.time_data[:, k], out.window[:, k]
        close(y, place(x[:, k], m, L) * w, "output against the response from the start", rtol=1e-12, atol=1e-13)
        at = p[k] - m
        check(0 <= at < L, "peak lost", at)
        close(y[at], x[p[k], k], "value of the peak", rtol=1e-9)
        check(abs(w[at] - np.max(w)) < 1e-12 and abs(w[at] - 1) < 1e-9, "top of the window", at)
        # the window is the requested one around the peak
        want = np.zeros(L)
        i = np.arange(L) - at + half
        ok = (i >= 0) & (i <= 2 * half)
        want[ok] = full[i[ok]]
        have = np.arange(L) + m
        inside = (have >= 0) & (have < n)
        close(w[inside], want[inside], "window", atol=1e-12)
        if L == n:
            check(m == 0, "moved", m)
        elif L > n:
            check(np.sum(inside) == n, "samples lost although it fits", np.sum(inside))
        elif half < p[k] < n - half - 1:
            check(abs(at - (L - 1) / 2) <= 0.5, "peak is not in the middle", at)
    return "shorter" if L < n else ("longer" if L > n else "same")


# ------------------------------------------------------------------- trimming
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        fs=st.sampled_from([8000, 16000]),
        ch=st.integers(1, 3),
        t60=st.sampled_from([0.15, 0.3, 0.6]),
        noise=st.sampled_from([-50, -60, -70]),
        start=gen.floats(0.0, 0.3, 3),
        offset=st.sampled_from([20e-3, 0.0, 5e-3, None, 10.0]),
        gain=st.sampled_from([1.0, 0.01, 4.0]),
        one=st.booleans(),
    ),
    quick=40,
    thorough=600,
)
def trimming(c):
    """trim_ir returns exactly the samples between the indices it reports,
    begins the offset before the peak, keeps the decay down to the noise and
    does not care for gain."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    n = int((c["start"] + 2.5) * fs)
    x = r.standard_normal((n, c["ch"])) * 10 ** (c["noise"] / 20)
    peaks = []
    for k in range(c["ch"]):
        d = int(c["start"] * fs) + int(r.integers(0, 200))
        m = n - d
        t = np.arange(m) / fs
        x[d:, k] += 0.3 * r.standard_normal(m) * 10 ** (-3 * t / c["t60"])
        x[d, k] = 2.0
        peaks.append(d)
    s = ir(x, fs)
    chan = c["ch"] - 1 if c["one"] else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out, a, b = TF.trim_ir(s, chan, c["offset"])
        g, a2, b2 = TF.trim_ir(ir(x * c["gain"], fs), chan, c["offset"])
    same(s.time_data, x, "response changed")
    ref = x[:, [chan]] if c["one"] else x
    same(out.time_data, ref[a:b], "samples between the indices")
    check(0 <= a < b <= n, "indices", a, b)
    off = n if c["offset"] is None else int(c["offset"] * fs + 0.5)
    pk = [peaks[chan]] if c["one"] else peaks
    want = max(0, min(pk) - 1 - off)
    check(abs(a - want) <= 1, "start", a, want)
    check(b > max(pk), "peak cut")
    # time until the decay reaches the noise (level of the tail -10.5 dB)
    T = (-c["noise"] - 10.5) / 60 * c["t60"]
    dur = [(b - p) / fs for p in pk]
    check(max(dur) > 0.15 * T and max(dur) < 3 * T + 0.2, "end", dur, T)
    check(a2 == a and abs(b2 - b) <= 2, "trimming depends on the gain", (a, b), (a2, b2))
    if not c["one"] and c["ch"] > 1:
        each = [TF.trim_ir(s, k, c["offset"])[1:] for k in range(c["ch"])]
        check(a == min(e[0] for e in each) and b == max(e[1] for e in each), "largest boundaries of all channels", each, a, b)
    return "one" if c["one"] else "all"


# ------------------------------------------------------------------ averaging
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        ch=st.integers(2, 4),
        n=st.integers(300, 600),
        time=st.booleans(),
        norm=st.booleans(),
        gains=st.booleans(),
        quiet=st.booleans(),
        noise=st.booleans(),
        fs=st.sampled_from(gen.FS),
    ),
    quick=100,
    thorough=2000,
)
def averages(c):
    """average_irs: aligned to the latest channel and averaged in time, or
    magnitudes and phases averaged, with energies equal to the first channel's
    when asked; the spectrum settings do not matter."""
    r = np.random.default_rng(c["seed"])
    n, fs = c["n"], c["fs"]
    h = r.standard_normal(12) * 0.5 ** np.arange(12) * 0.1
    h[0] = 0.5
    g = np.round(r.uniform(0.2, 1.5, c["ch"]), 3) if c["gains"] else np.ones(c["ch"])
    d = r.integers(0, 80, c["ch"])
    if c["quiet"] and not c["noise"]:
        g[r.integers(1, c["ch"])] = 2e-4
    if not c["time"]:
        d = np.full(c["ch"], d[0] // 10) if c["noise"] else d // 4
    x = np.zeros((n, c["ch"]))
    for k in range(c["ch"]):
        x[d[k] : d[k] + 12, k] = g[k] * h
    if not c["time"] and c["noise"]:
        x[d[0] + 1 : d[0] + 12] += r.uniform(-1, 1, (11, c["ch"])) * 0.02
    s = ir(x, fs, c["seed"])
    out = TF.average_irs(s, c["time"], c["norm"])
    same(s.time_data, x, "response changed")
    check(out.number_of_channels == 1 and len(out) == n and out.sampling_rate_hz == fs, "shape", out.time_data.shape)
    y = out.time_data[:, 0]
    e = np.sqrt(np.sum(x**2, 0))
    f = e[0] / e if c["norm"] else np.ones(c["ch"])
    if c["time"]:
        want = np.zeros(n)
        m = int(d.max())
        want[m : m + 12] = np.mean(f * g) * h
        close(y, want, "average of the aligned responses", atol=5e-3 * np.max(np.abs(want)))
    else:
        X = np.fft.rfft(x * f, axis=0)
        want = np.mean(np.abs(X), 1) * np.exp(1j * np.mean(np.unwrap(np.angle(X), axis=0), 1))
        close(np.fft.rfft(y)[:-1], want[:-1], "mean magnitude and phase", rtol=1e-9, scale=np.max(np.abs(want)))
    one = ir(x[:, :1], fs)
    raises(lambda: TF.average_irs(one), "single channel")
    return ("time" if c["time"] else "spectrum") + (" normalised" if c["norm"] else "")


# ------------------------------------------------- frequency-dependent window
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        n=st.integers(16, 200),
        ch=st.integers(1, 3),
        cycles=st.integers(1, 20),
        end=st.sampled_from([-50.0, -10.0, -3.0, -120.0]),
        kind=st.sampled_from(["dirac", "noise"]),
        fs=st.sampled_from(gen.FS),
    ),
    quick=120,
    thorough=2000,
)
def frequency_dependent_windows(c):
    """Each bin is the transform of the response under a Gaussian window which
    reaches the given level after the given number of periods from the peak;
    impulses stay flat with their own delay."""
    r = np.random.default_rng(c["seed"])
    n, fs = c["n"], c["fs"]
    p = r.integers(0, n, c["ch"])
    x = np.zeros((n, c["ch"])) if c["kind"] == "dirac" else r.uniform(-0.5, 0.5, (n, c["ch"]))
    x[p, np.arange(c["ch"])] = 1.0
    s = ir(x, fs, c["seed"])
    sp = TF.window_frequency_dependent(s, c["cycles"], c["end"])
    same(s.time_data, x, "response changed")
    f = np.fft.rfftfreq(n, 1 / fs)
    close(sp.frequency_vector_hz, f, "frequencies", rtol=1e-12)
    got = np.asarray(sp.spectral_data)
    t = np.arange(n)
    for k in range(c["ch"]):
        width = np.round(c["cycles"] * fs / f[1:])
        win = 10 ** (c["end"] / 20 * ((t[None, :] - p[k]) / width[:, None]) ** 2)
        want = np.sum(win * x[None, :, k] * np.exp(-2j * np.pi * np.outer(f[1:], t) / fs), 1)
        sure = np.abs((c["cycles"] * fs / f[1:]) % 1 - 0.5) > 1e-6  # not a tie of the rounding
        close(got[1:, k][sure], want[sure], "windowed spectrum", rtol=1e-7, scale=np.sum(np.abs(x[:, k])))
        if c["kind"] == "dirac":
            close(np.abs(got[1:, k]), np.ones(len(f) - 1), "impulse is not flat", rtol=1e-9)
    return c["kind"]


# ------------------------------------------------------------------ smoothing
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        n=st.integers(20, 400),
        ch=st.integers(1, 2),
        frac=st.sampled_from([0.5, 1, 3, 6, 12]),
        win=st.sampled_from(["Hann", "Triangular", "Hamming"]),
        dom=st.sampled_from([d.name for d in SD]),
        kind=st.sampled_from(["dirac", "decay", "decay", "noise"]),
        scaling=st.sampled_from(["FFTBackward", "FFTOrthogonal", "AmplitudeSpectrum"]),
        fs=st.sampled_from(gen.FS),
        gain=st.sampled_from([1.0, 0.01, 5.0]),
    ),
    quick=250,
    thorough=5000,
)
def complex_smoothings(c):
    """Smoothing averages within the given width: flat responses stay flat,
    results lie within the values of the range around each frequency, gain
    passes through, the frequencies far away do not matter and phases are kept
    where the domain says so."""
    if c["win"] not in NAMES:
        return None
    r = np.random.default_rng(c["seed"])
    n, fs = c["n"], c["fs"]
    x = np.zeros((n, c["ch"]))
    if c["kind"] == "dirac":
        x[0] = r.choice([-1, 1], c["ch"])
    elif c["kind"] == "decay":
        x[:] = r.standard_normal(x.shape) * np.exp(-np.arange(n) / n * 10)[:, None]
        x[0] = 2.0
    else:
        x[:] = r.standard_normal(x.shape)
    s = ir(x * c["gain"], fs)
    s.set_spectrum_parameters(method=ME.FFT, scaling=getattr(SC, c["scaling"]), pad_to_fast_length=False)
    f, X = s.get_spectrum()
    dom = getattr(SD, c["dom"])
    do = lambda q: np.asarray(TF.complex_smoothing(q, c["frac"], dom, getattr(W, c["win"])).spectral_data)
    sp = TF.complex_smoothing(s, c["frac"], dom, getattr(W, c["win"]))
    Y = np.asarray(sp.spectral_data)
    close(sp.frequency_vector_hz, f, "frequencies", rtol=1e-12)
    check(Y.shape == X.shape, "shape", Y.shape)
    same(s.time_data, x * c["gain"], "response changed")
    top = np.max(np.abs(X))
    if c["kind"] == "dirac" and c["scaling"] != "AmplitudeSpectrum":
        close(Y, X, "flat response", rtol=1e-9)
    # bounds by the values around each frequency
    half = 2 ** (0.5 / c["frac"])
    df = f[1]
    A = np.abs(X)
    for i in range(len(f)):
        lo, hi = max(0, int(np.floor(f[i] / half / df - 0.5))), min(len(f) - 1, int(np.ceil(f[i] * half / df + 0.5)))
        a = A[lo : hi + 1]
        check(np.all(np.abs(Y[i]) <= a.max(0) + 1e-9 * top), "above the values of its range", i)
        if c["dom"] in ("MagnitudePhase", "PowerPhase", "Power", "Magnitude", "EquivalentComplex"):
            check(np.all(np.abs(Y[i]) >= a.min(0) - 1e-9 * top), "below the values of its range", i)
        if c["dom"] == "RealImaginary":
            z = X[lo : hi + 1]
            check(
                np.all(Y[i].real <= z.real.max(0) + 1e-9 * top) and np.all(Y[i].real >= z.real.min(0) - 1e-9 * top)
                and np.all(Y[i].imag <= z.imag.max(0) + 1e-9 * top) and np.all(Y[i].imag >= z.imag.min(0) - 1e-9 * top),
                "parts outside of their range",
                i,
            )
        wide = f[i] * (half - 1 / half) / df
        if c["kind"] != "dirac" and wide > 8 and hi < len(f) - 1 and c["dom"] in ("Magnitude", "Power") and c["win"] == "Hann":
            check(np.all(np.abs(np.abs(Y[i]) - A[i]) > 0), "not smoothed", i)
    if c["dom"] in ("Power", "Magnitude"):
        big = np.abs(Y) > 1e-9 * top
        close(np.exp(1j * np.angle(Y))[big], np.exp(1j * np.angle(X))[big], "phase is not kept", atol=1e-9)
    if c["dom"] in ("MagnitudePhase", "PowerPhase", "EquivalentComplex"):
        # both parts are smoothed by the operator of the complex domain
        def L(v):
            q = ir(np.fft.irfft(v, n, axis=0), fs)
            q.set_spectrum_parameters(method=ME.FFT, scaling=SC.FFTBackward, pad_to_fast_length=False)
            return np.asarray(TF.complex_smoothing(q, c["frac"], SD.RealImaginary, getattr(W, c["win"])).spectral_data)

        P = 2 if c["dom"] != "MagnitudePhase" else 1
        mag = np.maximum(L(A**P).real, 0) ** (1 / P)
        if c["dom"] == "EquivalentComplex":
            z = L(X)
            sure = np.abs(z) > 1e-6 * top
            pha = np.where(sure, np.angle(z), np.angle(Y))
        else:
            pha = L(np.unwrap(np.angle(X), axis=0)).real
        close(Y, mag * np.exp(1j * pha), "parts of the smoothed spectrum", rtol=1e-7, scale=top)
    # gain and channels pass through
    s2 = s.copy()
    s2.time_data = x * c["gain"] * 0.5
    close(do(s2), Y * 0.5, "gain", rtol=1e-7, scale=top)
    if c["ch"] == 2:
        close(do(s.get_channels(1))[:, 0], Y[:, 1], "second channel", rtol=1e-9, scale=top)
    return f"{c['dom']} {c['kind']}"


# ------------------------------------------------------------------- latency
@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        ch=st.integers(1, 3),
        n=st.integers(400, 700),
        move=st.integers(1, 150),
        gain=st.sampled_from([1.0, 0.01, -3.0]),
        fs=st.sampled_from(gen.FS),
        mode=st.booleans(),
        frac=st.sampled_from([0.0, 0.25, 0.5, 0.8]),
    ),
    quick=120,
    thorough=2500,
)
def latencies(c):
    """find_ir_latency: the delay of delayed minimum-phase responses, moves with
    the response (fractional delays too), independent of gain and polarity."""
    r = np.random.default_rng(c["seed"])
    n, fs = c["n"], c["fs"]
    D = r.integers(40, 120, c["ch"])
    x = np.zeros((n, c["ch"]))
    for k in range(c["ch"]):
        h = r.standard_normal(10) * 0.4 ** np.arange(10) * 0.2
        h[0] = 1.0
        x[D[k] : D[k] + 10, k] = h
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = TF.find_ir_latency(ir(x, fs), c["mode"])
        check(base.shape == (c["ch"],), "shape", base.shape)
        close(base, D, "latency", atol=0.02 if c["mode"] else 0.5, rtol=0)
        y = np.zeros_like(x)
        y[c["move"] :] = x[: n - c["move"]]
        moved = TF.find_ir_latency(ir(y * c["gain"], fs), c["mode"])
        close(moved, base + c["move"], "moved response", atol=0.03, rtol=0)
        if c["frac"]:
            z = dsp.fractional_delay(ir(x, fs), c["frac"] / fs, keep_length=True)
            zz = TF.find_ir_latency(z, c["mode"])
            close(zz, base + c["frac"], "fractional delay", atol=0.35, rtol=0)
        # onset
        start = dsp.room_acoustics.find_ir_start(ir(x, fs), -20)
        check(np.all(start == D - 1), "start", start, D)
        start2 = dsp.room_acoustics.find_ir_start(ir(y * c["gain"], fs), -20)
        check(np.all(start2 == D - 1 + c["move"]), "moved start", start2)
    return "minimum phase" if c["mode"] else "peak"
