"""C23: generated test signals are what was ordered.

Oracles: analytic phase laws of the sweeps, Fourier series of the wave forms,
power laws in the spectrum of noise, fade envelopes obtained by comparing with
the same signal without fade."""

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C23"
G = dsp.generators
NT, CT, WF = G.NoiseType, G.ChirpType, G.WaveForm
FT = dsp.FadeType
FADES = ["Linear", "Logarithmic", "Exponential", "NoFade", None, "default"]
SLOPE = dict(White=0.0, Pink=1.0, Red=2.0, Blue=-1.0, Violet=-2.0)


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def common(fs_max=48000):
    return dict(
        fs=st.sampled_from([f for f in (2000, 8000, 11025, 44100, 48000) if f <= fs_max]),
        dur=gen.floats(0.05, 0.4, 4),
        pad=st.one_of(st.just(0.0), gen.floats(0.001, 0.3, 4)),
        ch=st.integers(1, 3),
        level=st.sampled_from([None, 0.0, -3.0, -17.5, -60.0]),
        fade=st.sampled_from(FADES),
        seed=gen.seeds(),
    )


def options(c):
    kw = dict(padding_end_seconds=c["pad"], number_of_channels=c["ch"])
    if c["level"] is not None:
        kw["peak_level_dbfs"] = c["level"]
    if c["fade"] is None:
        kw["fade"] = None
    elif c["fade"] != "default":
        kw["fade"] = FT[c["fade"]]
    return kw


def tie(c):
    """Length or padding (nearly) half-way between two numbers of samples, or
    a fade length nearly at a whole number."""
    for k, v in enumerate((c["dur"], c["pad"])):
        if abs(v * c["fs"] % 1 - 0.5) < 1e-6:
            return True
    x = 0.05 * c["dur"] * c["fs"]
    return abs(x - round(x)) < 1e-6 and int(x) != round(x)


def rounding(x):
    return {int(np.floor(x + 0.5 - 1e-6)), int(np.floor(x + 0.5 + 1e-6))}


def basics(s, c, n_active=None, cls=dsp.Signal):
    """Length, rate, channels, level and padding; returns the active part."""
    x = s.time_data
    check(type(s) is cls, "type")
    check(s.sampling_rate_hz == c["fs"], "rate")
    check(s.number_of_channels == c["ch"], "channels")
    check(np.isrealobj(x) and np.all(np.isfinite(x)), "finite")
    n = rounding(c["dur"] * c["fs"]) if n_active is None else {n_active}
    p = rounding(c["pad"] * c["fs"])
    both = {i + j for i in n for j in p}
    check(len(s) in both, "length", len(s), both)
    k = max(n)
    same(x[k:], np.zeros_like(x[k:]), "padding")
    level = -10.0 if c["level"] is None else c["level"]
    close(np.abs(x).max(axis=0), np.full(c["ch"], 10 ** (level / 20)), "peak", rtol=1e-9)
    return x[: min(n)] if n_active is None else x[:n_active]


def faded(x, plain, c):
    """x equals the plain signal times a symmetric fade and one factor."""
    n = len(x)
    kind = "Logarithmic" if c["fade"] == "default" else c["fade"]
    length = int(0.05 * c["dur"] * c["fs"])
    mid = slice(length + 1, n - length - 1)
    for k in range(x.shape[1]):
        p = plain[mid, k]
        g = np.dot(x[mid, k], p) / np.dot(p, p)
        close(x[mid, k], g * p, "middle part", rtol=1e-8, atol=1e-10 * np.abs(p).max())
        if kind in (None, "NoFade"):
            close(x[:, k], g * plain[:, k], "no fade", rtol=1e-9, atol=1e-12)
            continue
        if length < 3:
            continue
        t = np.linspace(0, 1, length)
        env = {
            "Linear": t,
            "Exponential": 10 ** (5 * (t - 1)),
            "Logarithmic": np.log10(1 + t * (50 * 10**0.5 - 1)) / np.log10(50 * 10**0.5),
        }[kind]
        tol = 1e-8 * np.abs(plain[:, k]).max() * g
        close(x[:length, k], g * plain[:length, k] * env, f"fade in {kind}", atol=tol)
        close(
            x[n - length :, k],
            g * plain[n - length :, k] * env[::-1],
            f"fade out {kind}",
            atol=tol,
        )


# --------------------------------------------------------------------- noise
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            common(),
            kind=st.one_of(
                st.sampled_from([m.name for m in NT]),
                gen.floats(-2.5, 2.5, 2),
            ),
        )
    ),
    quick=120,
    thorough=4000,
)
def noise(c):
    if tie(c):
        return None
    kind = c["kind"] if isinstance(c["kind"], float) else NT[c["kind"]]
    kw = options(c)
    np.random.seed(c["seed"])
    s = G.noise(c["dur"], c["fs"], kind, **kw)
    x = basics(s, c)
    np.random.seed(c["seed"])
    plain = G.noise(c["dur"], c["fs"], kind, **dict(kw, fade=None, padding_end_seconds=0))
    y = plain.time_data
    faded(x, y, c)
    # Spectrum of the noise without fade
    n = len(y)
    f = np.fft.rfftfreq(n, 1 / c["fs"])
    Y = np.fft.rfft(y, axis=0)
    use = f >= 20.0
    if kind == NT.Grey:
        w = (12194.0**2 * f**4) / (
            (f**2 + 20.6**2)
            * np.sqrt((f**2 + 107.7**2) * (f**2 + 737.9**2))
            * (f**2 + 12194.0**2)
        )
        model = np.zeros(len(f))
        model[1:] = 1 / w[1:]
    else:
        beta = kind if isinstance(kind, float) else SLOPE[kind.name]
        model = np.zeros(len(f))
        model[1:] = f[1:] ** (-beta / 2)
        if beta == 0:
            use = f > 0
    use[-1] = False
    if use.sum() < 8:
        return "short"
    for k in range(c["ch"]):
        db = 20 * np.log10(np.abs(Y[use, k]) / model[use] + 1e-300)
        parts = [np.mean(v) for v in np.array_split(db, 4)]
        check(max(parts) - min(parts) < 1.0, "spectral slope", kind, parts)
    check(np.all(np.abs(Y[0]) <= 1e-9 * np.abs(Y).max()), "no mean value")
    if kind not in (NT.White, 0.0):
        # Nothing below the audible range, which would dominate the level
        low = f < 15.0 - f[1]
        check(np.all(np.abs(Y[low]) <= 1e-6 * np.abs(Y).max()), "infrasound")
    # Channels are independent, also of other calls
    if c["ch"] > 1:
        P = Y[use] / np.abs(Y[use])
        for k in range(1, c["ch"]):
            r = abs(np.mean(P[:, 0] * P[:, k].conj()))
            check(r < 5.5 / np.sqrt(use.sum()), "independent channels", r)
    z = G.noise(c["dur"], c["fs"], kind, fade=None).time_data[:, 0]
    P = np.fft.rfft(z)[use]
    r = abs(np.mean(P / np.abs(P) * (Y[use, 0] / np.abs(Y[use, 0])).conj()))
    check(r < 5.5 / np.sqrt(use.sum()), "new noise in every call", r)
    raises(
        lambda: G.noise(c["dur"], c["fs"], kind, peak_level_dbfs=0.1), "above full scale"
    )
    raises(lambda: G.noise(-c["dur"], c["fs"], kind), "negative length")
    raises(lambda: G.noise(c["dur"], c["fs"], kind, number_of_channels=0), "channels")
    return "beta" if isinstance(kind, float) else kind.name


# -------------------------------------------------------------------- sweeps
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            common(),
            kind=st.sampled_from(["Linear", "Logarithmic"]),
            rng=st.one_of(st.none(), st.tuples(gen.floats(0.002, 1.0), gen.floats(0.002, 1.0))),
            phase=st.sampled_from([None, 0.0, 0.7, -2.0, np.pi / 2]),
        )
    ),
    quick=120,
    thorough=4000,
)
def sweep(c):
    if tie(c):
        return None
    fs = c["fs"]
    kw = options(c)
    if c["rng"] is None:
        f = [15, fs // 2]
    else:
        f = [v * (fs // 2) for v in c["rng"]]
        if abs(f[0] - f[1]) < 0.05 * max(f):
            return None
        kw["range_hz"] = list(f)
    given = list(f)
    if c["phase"] is not None:
        kw["phase_offset"] = c["phase"]
    if c["kind"] != "Logarithmic" or c["seed"] % 2:
        kw["type_of_chirp"] = CT[c["kind"]]
    s = G.chirp(fs, length_seconds=c["dur"], **kw)
    if c["rng"] is not None:
        check(kw["range_hz"] == given, "passed range unchanged")
    x = basics(s, c)
    for k in range(1, c["ch"]):
        same(x[:, k], x[:, 0], "same sweep in all channels")
    f1, f2 = sorted(f)
    n = len(x)
    t = np.linspace(0, 1, n)
    T = c["dur"]
    if c["kind"] == "Linear":
        cycles = T * (f1 * t + (f2 - f1) / 2 * t**2)
    else:
        r = np.log(f2 / f1)
        cycles = T * f1 / r * (np.exp(r * t) - 1)
    plain = np.sin(2 * np.pi * cycles + (c["phase"] or 0.0))
    faded(x, np.repeat(plain[:, None], c["ch"], axis=1), c)
    raises(lambda: G.chirp(fs, range_hz=[10, fs // 2 + 1]), "beyond nyquist")
    raises(lambda: G.chirp(fs, range_hz=[0, fs // 4]), "from zero")
    raises(lambda: G.chirp(fs, padding_end_seconds=-0.1), "negative padding")
    return c["kind"]


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            common(),
            lo=gen.floats(15, 200),
            hi=gen.floats(0.3, 1.0),
        )
    ),
    quick=60,
    thorough=2000,
)
def synchronized(c):
    """Novak's sweep: the product of start frequency and rate is an integer."""
    c = dict(c, dur=c["dur"] * 4)
    if tie(c):
        return None
    fs = c["fs"]
    f1, f2 = c["lo"], c["hi"] * (fs // 2)
    r = np.log(f2 / f1)
    if f1 * c["dur"] / r < 0.6:
        return None
    kw = options(c)
    s, T = G.chirp(fs, CT.SyncLog, [f1, f2], c["dur"], **kw)
    k = f1 * T / r
    check(abs(k - round(k)) < 1e-9 * max(k, 1) and k > 0.5, "synchronized", k)
    check(abs(T - c["dur"]) <= 0.5 * r / f1 * (1 + 1e-9), "duration", T, c["dur"])
    n = int(T * fs + 0.5)
    if abs(T * fs % 1 - 0.5) < 1e-6:
        return None
    active = max(n, max(rounding(c["dur"] * fs)))
    x = basics(s, c, active)
    same(x[n:], np.zeros_like(x[n:]), "silence after the sweep")
    t = np.linspace(0, T, n)
    L = round(k) / f1
    plain = np.sin(2 * np.pi * f1 * L * (np.exp(t / L) - 1))
    faded(x[:n], np.repeat(plain[:, None], c["ch"], axis=1), dict(c))
    return "sync"


# --------------------------------------------------------------- oscillators
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            common(11025),
            mode=st.sampled_from([m.name for m in WF]),
            f=gen.logfloats(0.01, 0.98),
            cut=st.one_of(st.none(), gen.floats(0.02, 1.0)),
            uncorrelated=st.booleans(),
        )
    ),
    quick=120,
    thorough=4000,
)
def oscillator(c):
    if tie(c):
        return None
    fs, mode = c["fs"], c["mode"]
    kw = options(c)
    f = c["f"] * (fs // 2)
    cut = fs // 2
    if c["cut"] is not None:
        cut = c["cut"] * (fs // 2)
        kw["harmonic_cutoff_hz"] = cut
    if mode != "Harmonic":
        if f >= cut:
            s = G.oscillator(f, fs, c["dur"], WF[mode], **kw)
            check(np.all(s.time_data == 0), "no harmonic below the cutoff")
            return "silent"
        if np.min(np.abs(np.arange(1, 500) * f / cut - 1)) < 1e-9:
            return None
    s = G.oscillator(f, fs, c["dur"], WF[mode], uncorrelated=c["uncorrelated"], **kw)
    x = basics(s, c)
    n = len(x)
    h = np.arange(1, int(np.ceil(cut / f)) + 1)
    h = h[h * f < cut]
    if mode == "Harmonic":
        h, a = np.array([1]), np.ones(1)
    elif mode == "Sawtooth":
        a = 2 / np.pi * (-1.0) ** (h + 1) / h
    else:
        h = h[h % 2 == 1]
        a = 1 / h if mode == "Square" else (-1.0) ** ((h - 1) // 2) / h**2
    w = 2 * np.pi * f / fs * np.arange(n)
    length = int(0.05 * c["dur"] * fs)
    mid = slice(length + 1, n - length - 1)
    if c["uncorrelated"] and f * c["dur"] < 3:
        return None
    shifts = []
    for k in range(c["ch"]):
        if not c["uncorrelated"]:
            phi = 0.0
        else:
            # Phase of the fundamental from a fit of all harmonics
            m = np.concatenate([np.sin(np.outer(w, h)), np.cos(np.outer(w, h))], axis=1)
            if np.linalg.cond(m[mid]) > 1e4:
                return None
            v = np.linalg.lstsq(m[mid], x[mid, k], rcond=None)[0]
            phi = np.arctan2(v[len(h)], v[0])
        plain = np.sin(np.outer(w + phi, h)) @ a
        if np.abs(plain).max() < 1e-3:
            return None
        faded(x[:, [k]], plain[:, None], c)
        shifts.append(phi)
    if c["uncorrelated"] and c["ch"] > 1:
        d = np.abs(np.exp(1j * np.diff(shifts)) - 1)
        check(np.all(d > 1e-9), "different phases", shifts)
    raises(lambda: G.oscillator(fs / 2 + 1, fs), "beyond nyquist")
    raises(lambda: G.oscillator(-5, fs), "negative frequency")
    raises(lambda: G.oscillator(f, fs, harmonic_cutoff_hz=fs), "cutoff")
    raises(lambda: G.oscillator(f, fs, padding_end_seconds=-1.0), "negative padding")
    return mode


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            n=st.integers(1, 300),
            d=st.integers(0, 320),
            ch=st.integers(1, 4),
            fs=st.sampled_from(gen.FS if isinstance(gen.FS, list) else [8000, 44100]),
        )
    ),
    quick=100,
    thorough=3000,
)
def dirac(c):
    make = lambda: G.dirac(c["n"], c["fs"], c["d"], c["ch"])
    if c["d"] >= c["n"]:
        raises(make, "delay beyond the length")
        raises(lambda: G.dirac(c["n"], c["fs"], -1), "negative delay")
        raises(lambda: G.dirac(0, c["fs"]), "no length")
        return "refused"
    if c["ch"] > c["n"]:
        return None
    s = make()
    check(type(s) is dsp.ImpulseResponse, "type")
    check(s.sampling_rate_hz == c["fs"], "rate")
    want = np.zeros((c["n"], c["ch"]))
    want[c["d"]] = 1.0
    same(s.time_data, want, "impulse")
    same(G.dirac(c["n"], c["fs"]).time_data[0, 0], 1.0, "no delay")
    return "impulse"
