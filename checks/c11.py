"""C11: designed filters have the response their parameters ask for.

Oracles: analog prototypes at the bilinear-warped frequency, closed-form
values at the frequencies that define a design, the definition of the
impulse response to be approximated."""

import warnings

import numpy as np
import scipy.integrate
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import gen
from vt.core import check, close, fail, raises, same, sub

PID = "C11"
E = dsp.BiquadEqType
PT = dsp.FilterPassType
FB = dsp.filterbanks
BIQ = {
    "Lowpass": lambda s, A, Q: A / (s**2 + s / Q + 1),
    "Highpass": lambda s, A, Q: A * s**2 / (s**2 + s / Q + 1),
    "BandpassSkirt": lambda s, A, Q: A * s / (s**2 + s / Q + 1),
    "BandpassPeak": lambda s, A, Q: A * (s / Q) / (s**2 + s / Q + 1),
    "Notch": lambda s, A, Q: A * (s**2 + 1) / (s**2 + s / Q + 1),
    "Allpass": lambda s, A, Q: A * (s**2 - s / Q + 1) / (s**2 + s / Q + 1),
    "Peaking": lambda s, A, Q: (s**2 + s * A / Q + 1) / (s**2 + s / (A * Q) + 1),
    "Lowshelf": lambda s, A, Q: A
    * (s**2 + np.sqrt(A) / Q * s + A)
    / (A * s**2 + np.sqrt(A) / Q * s + 1),
    "Highshelf": lambda s, A, Q: A
    * (A * s**2 + np.sqrt(A) / Q * s + 1)
    / (s**2 + np.sqrt(A) / Q * s + A),
    "LowpassFirstOrder": lambda s, A, Q: A / (s + 1),
    "HighpassFirstOrder": lambda s, A, Q: A * s / (s + 1),
    "AllpassFirstOrder": lambda s, A, Q: A * (1 - s) / (1 + s),
}
EQ_GAIN = ("Peaking", "Lowshelf", "Highshelf")


def grid(fs, n=64):
    """From very low up to close to half the sampling rate."""
    return np.r_[np.geomspace(fs * 1e-4, fs * 0.1, n // 2), np.linspace(fs * 0.11, fs * 0.4999, n // 2)]


def stable(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = f.get_coefficients(dsp.FilterCoefficientsType.Zpk)[1]
    check(len(p) == 0 or np.max(np.abs(p)) < 1.0, f"unstable design, largest pole {np.max(np.abs(p)) if len(p) else 0}")


def tf(f, freqs):
    return np.asarray(f.get_transfer_function(np.asarray(freqs, float)))


def db(h):
    return 20 * np.log10(np.maximum(np.abs(h), 1e-300))


@sub(
    PID,
    gen.fd(
        eq=st.sampled_from(sorted(BIQ)),
        fs=st.sampled_from(gen.FS),
        rel=gen.logfloats(0.0005, 0.49),
        g=gen.floats(-30, 30, 1),
        q=gen.logfloats(0.1, 20),
    ),
    quick=400,
)
def biquad(c):
    """Complex response of every equaliser type is the one of the analog
    prototype at the warped frequency."""
    f0 = c["rel"] * c["fs"]
    f = dsp.Filter.biquad(E[c["eq"]], f0, c["g"], c["q"], c["fs"])
    fr = np.r_[grid(c["fs"]), f0]
    s = 1j * np.tan(np.pi * fr / c["fs"]) / np.tan(np.pi * f0 / c["fs"])
    A = 10 ** (c["g"] / (40 if c["eq"] in EQ_GAIN else 20))
    want = BIQ[c["eq"]](s, A, c["q"])
    got = tf(f, fr)
    close(got, want, c["eq"], 1e-7)
    if c["eq"] in EQ_GAIN:
        # relative accuracy everywhere
        close(got / want, np.ones(len(fr)), c["eq"] + " relative", 1e-6)
    if c["eq"] == "Peaking":
        close(db(got[-1]), c["g"], "gain at the centre", 0, 1e-6)
    if c["eq"] in ("Lowshelf", "Highshelf"):
        # half of the gain in dB at the corner
        close(db(got[-1]), c["g"] / 2, "gain at the shelf frequency", 0, 1e-6)
    stable(f)
    check(f.sampling_rate_hz == c["fs"], "rate")
    return c["eq"]


@sub(
    PID,
    gen.fd(fs=st.sampled_from(gen.FS), g=gen.floats(-20, 20, 1), x=gen.sig(4, 60, 2)),
    quick=20,
)
def inverter(c):
    """The inverter has the same gain at all frequencies."""
    f = dsp.Filter.biquad(E.Inverter, 1000, c["g"], 1, c["x"]["fs"])
    s = gen.mk(c["x"])
    y = f.filter_signal(s).time_data
    close(np.abs(y), np.abs(s.time_data) * 10 ** (c["g"] / 20), "level", 1e-12)
    return True


@sub(
    PID,
    gen.fd(
        m=st.sampled_from([m.name for m in dsp.IirDesignMethod]),
        p=st.sampled_from([p.name for p in PT]),
        order=st.integers(1, 8),
        fs=st.sampled_from(gen.FS),
        f1=gen.floats(0.02, 0.2, 3),
        width=gen.floats(0.05, 0.25, 3),
        rp=gen.floats(0.1, 3, 1),
        rs=gen.floats(20, 80, 0),
    ),
    quick=300,
)
def iir(c):
    """Cutoffs, ripple, attenuation, monotony, order and kind of the IIR
    designs."""
    m, p, fs, n = c["m"], c["p"], c["fs"], c["order"]
    band = p in ("Bandpass", "Bandstop")
    lo, hi = c["f1"] * fs, (c["f1"] + c["width"]) * fs
    edges = np.array([lo, hi]) if band else np.array([lo])
    if m in ("Bessel", "Elliptic", "Chebyshev1", "Chebyshev2") and n > 5 and band:
        n = 5
    f = dsp.Filter.iir_filter(
        n, edges if band else float(edges[0]), PT[p], fs, dsp.IirDesignMethod[m],
        c["rp"] if m in ("Chebyshev1", "Elliptic") else None,
        c["rs"] if m in ("Chebyshev2", "Elliptic") else None,
    )
    check(f.is_iir and not f.is_fir, "kind")
    check(f.order == (2 * n if band else n), f"order {f.order} for {n} {p}")
    stable(f)
    fr = np.linspace(0, fs / 2, 513)[1:-1]
    H = db(tf(f, fr))
    e = db(tf(f, edges))
    inside = {
        "Lowpass": fr <= lo, "Highpass": fr >= lo,
        "Bandpass": (fr >= lo) & (fr <= hi), "Bandstop": (fr <= lo) | (fr >= hi),
    }[p]
    tol = 0.01
    rp, rs = c["rp"], c["rs"]
    if m == "Butterworth":
        close(e, np.full(len(e), 10 * np.log10(0.5)), "-3 dB at the cutoff", 0, tol)
        check(np.all(H[inside] >= -3.02) and np.all(H[~inside] <= -3.0), "pass and stop side")
        if not band:
            w = np.tan(np.pi * fr / fs) / np.tan(np.pi * lo / fs)
            w = w if p == "Lowpass" else 1 / w
            ref = -10 * np.log10(1 + w ** (2.0 * n))
            ok = ref > -120
            close(H[ok], ref[ok], "Butterworth magnitude", 0, tol)
        d = {"Lowpass": 0.0, "Highpass": fs / 2, "Bandstop": 0.0,
             "Bandpass": fs / np.pi * np.arctan(np.sqrt(np.tan(np.pi * lo / fs) * np.tan(np.pi * hi / fs)))}[p]
        close(db(tf(f, [d])), np.zeros(1), "gain in the middle of the passband", 0, tol)
    elif m == "Chebyshev1":
        close(e, np.full(len(e), -rp), "ripple at the edge", 0, tol)
        check(np.all(H[inside] >= -rp - tol) and np.all(H <= tol), "passband within the ripple")
        check(np.all(H[~inside] <= -rp + tol), "below the ripple outside")
    elif m == "Chebyshev2":
        close(e, np.full(len(e), -rs), "attenuation at the edge", 0, 0.05)
        check(np.all(H[~inside] <= -rs + 0.05) and np.all(H <= tol), "stopband attenuation")
    elif m == "Elliptic":
        close(e, np.full(len(e), -rp), "ripple at the edge", 0, tol)
        check(np.all(H[inside] >= -rp - tol) and np.all(H <= tol), "passband within the ripple")
        # the transition ends at the first point of the stopband
        if n > 1:
            deep = np.sort(H[~inside])[: max(1, np.sum(~inside) // 20)]
            check(np.all(deep <= -rp), "stopband")
        last = {"Lowpass": H[-1], "Highpass": H[0], "Bandpass": max(H[0], H[-1])}.get(p)
        w = np.tan(np.pi * hi / fs) / np.tan(np.pi * lo / fs)
        if last is not None and n >= 4 and not band and rs <= 40:
            check(last <= -rs + 0.1, f"stopband attenuation {last} for {rs}")
    else:
        check(np.all(H <= tol), "Bessel has no gain")
        check(np.all(np.diff(H[inside]) <= 1e-6) if p == "Lowpass" else True, "monotonic")
    if m in ("Bessel", "Elliptic"):
        import scipy.signal as sps

        sos = sps.iirfilter(
            n, edges if band else lo, rp if m == "Elliptic" else None, rs if m == "Elliptic" else None,
            p.lower(), False, {"Bessel": "bessel", "Elliptic": "ellip"}[m], "sos", fs,
        )
        close(np.abs(tf(f, fr)), np.abs(gen.sosfreq(sos, fr, fs)), "reference design", 1e-6)
    return f"{m}-{p}"


@sub(
    PID,
    gen.fd(
        p=st.sampled_from([p.name for p in PT]),
        order=st.integers(40, 160),
        fs=st.sampled_from(gen.FS),
        f1=gen.floats(0.1, 0.2, 3),
        width=gen.floats(0.1, 0.2, 3),
        w=st.sampled_from(["Hamming", "Hann", "Blackman", "Boxcar", "default"]),
    ),
    quick=100,
)
def fir(c):
    """Window-method designs: number of taps, linear phase, -6 dB at the
    edges and unit gain in the passband."""
    p, fs = c["p"], c["fs"]
    n = c["order"]
    band = p in ("Bandpass", "Bandstop")
    if p in ("Highpass", "Bandstop"):
        n += n % 2
    lo, hi = c["f1"] * fs, (c["f1"] + c["width"]) * fs
    edges = np.array([lo, hi]) if band else np.array([lo])
    kw = {} if c["w"] == "default" else dict(window=dsp.Window[c["w"]])
    f = dsp.Filter.fir_filter(n, edges if band else lo, PT[p], fs, **kw)
    b = np.asarray(f.ba[0])
    check(f.is_fir and len(b) == n + 1 and f.order == n, "taps")
    close(b, b[::-1], "linear phase", 1e-9)
    at = {"Lowpass": 0, "Highpass": fs / 2, "Bandpass": (lo + hi) / 2, "Bandstop": 0}[p]
    close(np.abs(tf(f, [at])), np.ones(1), "unit gain", 0, 1e-6)
    # outside of the transition: the window's main lobe
    lobe = {"Boxcar": 1.0, "Hann": 2.0, "Hamming": 2.0, "default": 2.0, "Blackman": 3.0}[c["w"]] * 2 * fs / (n + 1)
    fr = np.linspace(0, fs / 2, 301)
    H = np.abs(tf(f, fr))
    far = np.all(np.abs(fr[:, None] - edges) > lobe, axis=1)
    inside = {
        "Lowpass": fr <= lo, "Highpass": fr >= lo,
        "Bandpass": (fr >= lo) & (fr <= hi), "Bandstop": (fr <= lo) | (fr >= hi),
    }[p]
    dev = dict(Boxcar=0.16).get(c["w"], 0.02)
    check(np.all(np.abs(H[far & inside] - 1) < dev), f"passband {H[far & inside]}")
    check(np.all(H[far & ~inside] < dev), "stopband")
    if c["width"] * fs / 2 > lobe or not band:
        g = np.abs(tf(f, edges))
        close(g, np.full(len(g), 0.5), "-6 dB at the edges", 0, 0.04 + (0.06 if c["w"] == "Boxcar" else 0))
    # the default is Hamming
    if c["w"] == "default":
        same(b, dsp.Filter.fir_filter(n, edges if band else lo, PT[p], fs, dsp.Window.Hamming).ba[0], "default window")
    return p


F1, F2, F3, F4 = 20.598997, 107.65265, 737.86223, 12194.217


def weight(f, a):
    f = np.asarray(f, float)
    c = F4**2 * f**2 / ((f**2 + F1**2) * (f**2 + F4**2))
    return c * f**2 / np.sqrt((f**2 + F2**2) * (f**2 + F3**2)) if a else c


@sub(
    PID,
    gen.fd(a=st.booleans(), fs=st.sampled_from([8000, 16000, 22050, 44100, 48000, 96000, 192000])),
    quick=20,
)
def weighting(c):
    """A and C weighting of IEC 61672 (through the bilinear transform)."""
    fs = c["fs"]
    f = FB.weighting_filter(c["a"], fs)
    fr = np.geomspace(10, fs * 0.49, 60)
    ana = fs / np.pi * np.tan(np.pi * fr / fs)
    ref = weight(ana, c["a"]) / weight(1000.0, c["a"])
    close(db(tf(f, fr)), db(ref), "weighting in dB", 0, 0.06)
    if fs >= 96000:
        close(db(tf(f, [1000.0])), np.zeros(1), "0 dB at 1 kHz", 0, 0.06)
        lo = np.geomspace(10, 5000, 30)
        close(db(tf(f, lo)), db(weight(lo, c["a"]) / weight(1000.0, c["a"])), "analog weighting", 0, 0.2)
    stable(f)
    check(f.sampling_rate_hz == fs, "rate")
    return "A" if c["a"] else "C"


@sub(PID, gen.fd(fs=st.sampled_from(gen.FS), rel=gen.logfloats(0.001, 0.45)), quick=40)
def pinking(c):
    """0 dB at the requested frequency and -3 dB per octave."""
    fs = c["fs"]
    f0 = c["rel"] * fs
    f = FB.pinking_filter(f0, fs)
    close(db(tf(f, [f0])), np.zeros(1), "0 dB frequency", 0, 1e-6)
    fr = np.geomspace(0.001 * fs, 0.4 * fs, 60)
    H = db(tf(f, fr))
    dev = H + 10 * np.log10(fr)
    check(np.max(dev) - np.min(dev) < 1.5, f"slope, deviation {np.max(dev) - np.min(dev)} dB")
    stable(f)
    raises(lambda: FB.pinking_filter(fs / 2 + 10.0, fs), "frequency above nyquist")
    return True


@sub(
    PID,
    gen.fd(
        eq=st.sampled_from(
            ["Peaking", "Lowpass", "Highpass", "BandpassPeak", "BandpassSkirt", "Lowshelf", "Highshelf"]
        ),
        fs=st.sampled_from(gen.FS),
        rel=gen.logfloats(0.002, 0.45),
        g=gen.floats(-20, 20, 1),
        q=gen.logfloats(0.3, 8),
        qf=st.sampled_from([None, 1.0, 0.7, 2.0]),
    ),
    quick=300,
)
def matched(c):
    """Matched equalisers meet the analog prototype at the frequencies they
    are matched at."""
    fs, eq, q = c["fs"], c["eq"], c["q"]
    f0 = c["rel"] * fs
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = FB.matched_biquad(E[eq], f0, c["g"], q, fs, c["qf"])
    b, a = [np.asarray(x) for x in f.ba]
    check(np.all(np.isfinite(b)) and np.all(np.isfinite(a)), f"coefficients not finite {b} {a}")
    stable(f)
    G = 10 ** (c["g"] / 20)
    dc, mid, ny = np.abs(tf(f, [0.0, f0, fs / 2]))
    if "shelf" not in eq and (eq != "Peaking" or c["qf"] is not None):
        # the poles are those of the analog prototype, sampled
        w, Q = 2 * np.pi * c["rel"], q * c["qf"] if eq == "Peaking" else q
        pole = np.exp(np.roots([1.0, w / Q, w**2]))
        close(a / a[0], np.real(np.poly(pole)), "denominator", 0, 1e-9)
    if eq == "Peaking":
        close([dc, mid], [1.0, G], "gain at 0 and at the centre", 1e-4)
        if c["qf"] is None and abs(c["g"]) >= 1 and 0.003 < c["rel"] < 0.1:
            # the width is about that of the standard equaliser
            s = dsp.Filter.biquad(E[eq], f0, c["g"], q, fs)
            fr = np.geomspace(0.001 * f0, fs / 2.001, 6000)
            w = []
            for o in (f, s):
                i = np.nonzero(np.abs(db(tf(o, fr))) >= abs(c["g"]) / 2)[0]
                w.append(np.log2(fr[i[-1]] / fr[i[0]]))
            check(0.5 < w[0] / w[1] < 1.4, f"bandwidths in octaves: {w[0]}, standard {w[1]}")
        if c["g"] > 3:
            fr = grid(fs)
            check(np.all(np.abs(tf(f, fr)) <= G * 1.02), "largest at the centre")
        elif c["g"] < -3:
            fr = grid(fs)
            check(np.all(np.abs(tf(f, fr)) <= 1.1), "no boost")
    elif eq == "Lowpass":
        close([dc, mid], [G, G * q], "gain at 0 and at the cutoff", 1e-5)
    elif eq == "Highpass":
        close([dc, mid], [0.0, G * q], "gain at 0 and at the cutoff", 1e-5)
    elif eq.startswith("Bandpass"):
        close([dc, mid], [0.0, G], "gain at 0 and at the centre", 1e-5)
        check(np.all(np.abs(tf(f, grid(fs))) <= G * 1.02), "largest at the centre")
    else:
        # fc^4 + f^4 G over fc^4 + f^4 / G
        g = 1 / G if eq == "Lowshelf" else G
        n = 2 * c["rel"]
        f1, f2 = n / np.sqrt(0.16 + 1.543 * n**2), n / np.sqrt(0.947 + 3.806 * n**2)
        x = np.array([0.0, f1, f2, 1.0])
        h2 = (n**4 + x**4 * g) / (n**4 + x**4 / g)
        want = np.sqrt(h2) * (G if eq == "Lowshelf" else 1.0)
        close(db(tf(f, x * fs / 2)), db(want), "shelf magnitude", 0, 0.02)
        if c["rel"] < 0.05:
            close(db(dc), c["g"] if eq == "Lowshelf" else 0.0, "shelf at 0 Hz", 0, 0.01)
            close(db(tf(f, [f0])[0]), c["g"] / 2, "half of the gain in dB at the corner", 0, 0.6)
    return eq


@sub(
    PID,
    gen.fd(
        fs=st.sampled_from(gen.FS),
        n=gen.floats(4, 400, 1),
        bound=st.sampled_from([0.5, 0.1, 1e-2, 1e-3]),
        order=st.integers(1, 12),
    ),
    quick=60,
)
def gaussian(c):
    """Zero-phase response: unit gain at 0 Hz and the variance of the asked
    bell; close to the Gaussian for high orders."""
    fs, order = c["fs"], 2 * c["order"]
    T = c["n"] / fs
    f = FB.gaussian_kernel(T, c["bound"], order, fs)
    sigma = T / np.sqrt(2 * np.log(1 / c["bound"]))
    g = lambda fr: np.abs(tf(f, fr)) ** 2
    close(g([0.0]), np.ones(1), "gain at 0 Hz", 1e-8)
    w = 2 * np.pi * 0.02 / (2 * np.pi * sigma)
    # -d2G/dw2 at 0 is the variance
    v = (1 - g([w])[0]) * 2 / (2 * np.pi * w) ** 2
    close(v, sigma**2, "variance of the kernel", 0.02)
    fr = np.linspace(0, min(fs / 2, 0.6 / sigma), 40)
    ref = np.exp(-0.5 * (2 * np.pi * fr * sigma) ** 2)
    if c["order"] >= 5 and sigma * fs > 4:
        close(g(fr), ref, "gaussian", 0.06)
    H = g(np.linspace(0, fs / 2, 50))
    check(np.all(np.diff(H) <= 1e-12), "monotonic")
    stable(f)
    check(f.order == c["order"], f"order {f.order}")
    raises(lambda: FB.gaussian_kernel(T, c["bound"], order + 1, fs), "odd order")
    return True


@sub(
    PID,
    gen.fd(fs=st.sampled_from(gen.FS), d=gen.floats(0.01, 0.99, 2), order=st.integers(1, 12)),
    quick=80,
)
def thiran(c):
    """All-pass with the delay order + fraction at low frequencies."""
    f = FB.fractional_delay(c["d"], c["order"], c["fs"])
    fs = c["fs"]
    fr = np.linspace(0, fs / 2, 60)
    close(np.abs(tf(f, fr)), np.ones(60), "all-pass", 1e-8)
    low = np.array([1e-3, 5e-3, 0.02]) * fs
    ph = np.unwrap(np.angle(tf(f, np.r_[0.0, low])))[1:]
    tau = -ph / (2 * np.pi * low) * fs
    want = c["order"] + c["d"]
    close(tau, np.full(3, want), "delay", 0, 2e-2 if c["order"] == 1 else 2e-3)
    # maximally flat: higher orders are flat up to a quarter of the rate
    if c["order"] >= 6:
        fr = np.linspace(0, fs * 0.2, 40)
        ph = np.unwrap(np.angle(tf(f, fr)))[1:]
        close(-ph / (2 * np.pi * fr[1:]) * fs, np.full(39, want), "flat delay", 0, 0.02)
    check(f.order == c["order"], "order")
    stable(f)
    for bad in (0.0, 1.0, -0.1, 1.5):
        raises(lambda: FB.fractional_delay(bad, c["order"], fs), f"fraction {bad}")
    return True


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        k=st.integers(1, 3),
        nb=st.integers(0, 4),
        extra=st.integers(0, 1),
        fs=st.sampled_from(gen.FS),
        burg=st.booleans(),
        g=gen.floats(0.05, 2, 2),
    ),
    quick=120,
)
def parametric(c):
    """Auto-regressive estimate recovers an all-pole system; the moving
    average part is the least-squares fit, so an ARMA model with true poles
    is found, and adding coefficients never makes the fit worse."""
    r = np.random.default_rng(c["seed"])
    sos = gen.stable_sos(c["seed"], c["k"], 0.85)
    a = np.ones(1)
    for s in sos:
        a = np.convolve(a, s[3:])
    p = len(a) - 1
    n = 600 + c["extra"]
    x = np.zeros(n)
    x[0] = c["g"]
    import scipy.signal as sps

    h = sps.lfilter([1.0], a, x)
    ir = dsp.ImpulseResponse(None, h, c["fs"], constrain_amplitude=False)
    if not c["burg"]:
        f = FB.arma(ir, p, 0, "yule-walker")
        close(f.ba[1], a, "poles by Yule-Walker", 1e-5)
        close(f.ba[0], np.ones(1), "pure AR numerator", 1e-12)
        stable(f)
    else:
        f = FB.arma(ir, p, 0, "burg")
        check(len(f.ba[1]) == p + 1 and f.ba[1][0] == 1, "order of the denominator")
        stable(f)
        # least squares of forward and backward prediction, order by order
        def burg(x):
            want, fw, bw = np.ones(1), x[1:], x[:-1]
            for i in range(p):
                k = -2 * np.sum(fw * bw) / np.sum(fw**2 + bw**2)
                want = np.r_[want, 0.0] + k * np.r_[want, 0.0][::-1]
                fw, bw = (fw + k * bw)[1:], (bw + k * fw)[:-1]
            return want

        close(f.ba[1], burg(h), "poles by Burg", 1e-6)
        short = h[: p + 3 + c["seed"] % 20] + r.normal(0, 0.05, len(h[: p + 3 + c["seed"] % 20]))
        f = FB.arma(dsp.ImpulseResponse(None, short, c["fs"], constrain_amplitude=False), p, 0, "burg")
        close(f.ba[1], burg(short), "poles of a short response by Burg", 1e-5)
    check(f.sampling_rate_hz == c["fs"], "rate")
    if c["nb"]:
        f = FB.arma(ir, p, c["nb"], "burg" if c["burg"] else "yule-walker")
        b, aa = f.ba
        check(len(b) == c["nb"] + 1 and len(aa) == p + 1, "orders")
        # least squares in the whole circle, in numpy
        N = n
        z = np.exp(-2j * np.pi * np.arange(N // 2 + 1) / N)
        M = z[:, None] ** np.arange(c["nb"] + 1) / np.polyval(aa[::-1], z)[:, None]
        H = np.fft.rfft(h)
        ls = lambda q: np.sum(np.abs(M @ q - H) ** 2)
        best = np.linalg.lstsq(np.r_[M.real, M.imag], np.r_[H.real, H.imag], rcond=None)[0]
        check(ls(b) <= ls(best) * (1 + 1e-6) + 1e-12 * np.sum(np.abs(H) ** 2),
              f"numerator not the least-squares fit: {ls(b)} instead of {ls(best)}")
        if not c["burg"]:
            close(b, np.r_[c["g"], np.zeros(c["nb"])], "gain found by the numerator", 1e-4)
    raises(lambda: FB.arma(dsp.ImpulseResponse(None, np.c_[h, h], c["fs"]), p), "two channels")
    raises(lambda: FB.arma(ir, p, 0, "nope"), "method")
    return "burg" if c["burg"] else "yule-walker"


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        n=st.integers(256, 700),
        fs=st.sampled_from(gen.FS),
        gd=st.one_of(gen.floats(4, 15, 1), gen.floats(15, 90, 1)),
        var=gen.floats(0, 3, 1),
        more=gen.floats(0, 0.3, 2),
        rough=st.booleans(),
        simpson=st.booleans(),
        mag=st.sampled_from([False, True, True, "falling"]),
        integer=st.booleans(),
        trim=st.sampled_from([None, None, 0, 30]),
    ),
    quick=120,
)
def fir_designer(c):
    """Magnitude and group delay of the designed FIR filter are the targets
    on the grid of the design."""
    r = np.random.default_rng(c["seed"])
    n, fs = c["n"], c["fs"]
    F = np.fft.rfftfreq(n, 1 / fs)
    u = np.linspace(0, 1, len(F))
    gd = (c["gd"] + c["var"] * (1 - np.cos(2 * np.pi * u)) / 2) / fs
    mag = np.ones(len(F))
    if c["mag"]:
        mag = 1 + 0.5 * np.cos(np.pi * u * r.integers(1, 4))
        if c["mag"] == "falling":
            mag = np.sqrt(1 - u)
    total = gd + c["more"] / 1e3
    longest = np.max(total) * fs
    fits = not (int(longest + 1) * 10 > n)
    if c["rough"] and fits:
        gd = gd * r.uniform(0.2, 1, len(gd))
        total = gd + c["more"] / 1e3
        longest = np.max(total) * fs
    if abs(longest - np.round(longest)) < 1e-6:
        return None
    d = FB.FirDesigner(mag, gd, n, fs) if c["mag"] else FB.GroupDelayDesigner(gd, n, fs)
    g0, m0 = gd.copy(), mag.copy()

    def design(trim):
        d.set_parameters(c["more"], trim, not c["simpson"], c["integer"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f = d.get_filter()
            i = d.get_filter_as_ir()
        check(f.is_fir and f.sampling_rate_hz == fs, "kind")
        same(i.time_data[:, 0], np.asarray(f.ba[0]), "as impulse response")
        check(i.sampling_rate_hz == fs, "rate of the response")
        return np.asarray(f.ba[0])

    b = design(c["trim"])
    same(gd, g0, "target delay changed")
    same(mag, m0, "target magnitude changed")
    whole = b if c["trim"] is None else design(None)
    N = len(whole)
    check(N == n if fits else (N % 2 == 0 and 10 * longest <= N <= 10 * longest + 14), f"length {N}")
    if not fits:
        # interpolated targets (smooth)
        G = np.fft.rfftfreq(N, 1 / fs)
        mag, total = np.interp(G, F, mag), np.interp(G, F, total)
    check(np.all(np.isfinite(whole)), "response is not finite")
    H = np.fft.rfft(whole)
    inner = slice(1, len(H) - 1)
    if c["mag"] == "falling":
        inner = slice(1, int(len(H) * 0.9))
    close(np.abs(H)[inner], mag[inner], "magnitude", 1e-6 if fits else 5e-3)
    y = total * 2 * np.pi * fs / N
    ph = -(scipy.integrate.cumulative_simpson(y, initial=0) if c["simpson"] else np.r_[0, np.cumsum((y[1:] + y[:-1]) / 2)])
    extra = 0.0
    if c["integer"] and N % 2 == 0:
        # delayed further, by less than a sample, so that the whole delay is
        # an integer number of samples
        extra = ph[-1] / np.pi % 1.0
        turns = np.unwrap(np.angle(H))[-1] / np.pi
        if c["mag"] != "falling":
            close(turns, np.round(turns), "integer delay", 0, 1e-6)
        if not fits:
            got = np.angle(H[len(H) // 2] / np.exp(1j * ph[len(H) // 2])) / np.pi * -2
            check(-0.05 < got < 1.05, f"integer delay adds {got} samples")
            extra = got
        elif extra > 1 - 1e-6:
            return None
        ph = ph - np.linspace(0, 1, len(ph)) * np.pi * extra
    if fits and np.all(mag[inner] > 0):
        close((H / mag)[inner], np.exp(1j * ph)[inner], "phase", 0, 1e-6)
    e = np.angle(H[inner] / np.exp(1j * ph[inner]))
    close(np.diff(e) * N / 2 / np.pi, np.zeros(len(e) - 1), "group delay in samples", 0, 1e-4 if fits else 0.02)
    if c["trim"] is not None:
        need = int(longest) + 2 + c["trim"]
        if fits and abs(extra - 0.5) > 1e-6:
            check(len(b) == need + (extra > 0.5), f"length {len(b)}, expected {need} (+1 for {extra:.2f} samples)")
        check(need <= len(b) <= need + 1, f"length {len(b)}, expected {need}")
        close(b, np.r_[whole, np.zeros(max(0, len(b) - N))][: len(b)], "trimmed response", 1e-12)
    return ("trim" if c["trim"] is not None else "full") + ("" if fits else "-finer")


@sub(
    PID,
    gen.fd(
        n=st.integers(500, 900),
        fs=st.sampled_from(gen.FS),
        r=gen.floats(0.2, 0.7, 2),
        ang=gen.floats(0.3, 2.8, 2),
        inc=st.sampled_from([20.0, 50.0, 100.0, 200.0]),
        delay=st.integers(0, 3),
        as_ir=st.booleans(),
    ),
    quick=60,
)
def linearizer(c):
    """An all-pass followed by the filter that linearises its phase has a
    constant group delay, the largest one of the all-pass times the increase,
    and the filter has unit magnitude."""
    n, fs = c["n"], c["fs"]
    w = 2 * np.pi * np.arange(n // 2 + 1) / n
    a = np.array([1, -2 * c["r"] * np.cos(c["ang"]), c["r"] ** 2])
    b = np.r_[np.zeros(c["delay"]), a[::-1]]
    H = gen.freqz(b, a, w, 2 * np.pi)
    d = FB.PhaseLinearizer(np.angle(H), n, fs).set_parameters(c["inc"], None)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h = np.asarray(d.get_filter().ba[0])
        if c["as_ir"]:
            ir = d.get_filter_as_ir()
            check(ir.sampling_rate_hz == fs and ir.number_of_channels == 1, "impulse response")
            i = ir.time_data[:, 0]
            close(i / np.max(np.abs(i)), h / np.max(np.abs(h)), "as impulse response", 1e-12)
    z = 1e-4
    top = -np.diff(np.unwrap(np.angle(gen.freqz(b, a, np.linspace(0, np.pi, 4001), 2 * np.pi)))) / (np.pi / 4000)
    want = np.max(top) * (1 + c["inc"] / 100)
    if int(want + 1) * 10 > n:
        return None
    check(len(h) == n, f"length {len(h)}")
    P = np.fft.rfft(h)
    close(np.abs(P)[:-1], np.ones(len(w) - 1), "all-pass", 1e-6)
    ph = np.unwrap(np.angle(P * H))[:-1]
    got = -np.diff(ph) / (2 * np.pi / n)
    close(got, np.full(len(got), want), "total group delay in samples", 0, 0.02 * want)
    return True
