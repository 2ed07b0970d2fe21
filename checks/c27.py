"""C27: numeric helpers equal their mathematical definitions.

Oracles: definitions evaluated directly (sums, closed forms, exact integer
arithmetic), inverse pairs, and invariance of constants."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline, PchipInterpolator

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C27"
T = dsp.tools
warnings.simplefilter("ignore")


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def vec(seed, *shape):
    return np.random.default_rng(seed).standard_normal(shape)


# ------------------------------------------------------------------ smoothing
def smooth_log(x, n, window):
    """Weighted mean around every point; edge values continue."""
    w = window / np.sum(window)
    h = n // 2
    out = np.zeros_like(x)
    for i in range(len(x)):
        for j in range(n):
            out[i] += w[n - 1 - j] * x[min(max(i + j - h, 0), len(x) - 1)]
    return out


def hann(n):
    return np.array([1.0]) if n == 1 else 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1))


def window_length(fractions, beta):
    n = int(1 / (fractions * beta) + 0.5)
    return n + 1 - n % 2


@sub(PID, gen.fd(n=st.integers(2, 150), ch=st.integers(0, 3), seed=gen.seeds(),
                 fr=st.sampled_from([1, 2, 3, 6, 12, 1.5]), lin=st.booleans(),
                 beta=st.sampled_from([0.5, 0.1, 0.04, 1 / 24]), const=gen.floats(-5, 5),
                 win=st.sampled_from(["hann", "boxcar", "vector", "gaussian"]),
                 m=st.integers(2, 13), clip=st.booleans()),
     quick=150, thorough=4000)
def smoothing(c):
    n, lin = c["n"], c["lin"]
    x = vec(c["seed"], n) if c["ch"] == 0 else vec(c["seed"], n, c["ch"])
    beta = np.log2(n ** (1 / (n - 1))) if lin else c["beta"]
    raw = 1 / (c["fr"] * beta)
    if abs(raw + 0.5 - round(raw + 0.5)) < 1e-9:
        return None
    m = window_length(c["fr"], beta)
    kw = {}
    if c["win"] == "hann":
        w = hann(m)
    elif c["win"] == "boxcar":
        w, kw = np.ones(m), dict(window_type="boxcar")
    elif c["win"] == "gaussian":
        # alpha is the inverse of the standard deviation in half lengths
        u = (np.arange(m) - (m - 1) / 2) / ((m - 1) / 2 if m > 1 else 1.0)
        w, kw = np.exp(-0.5 * (2.5 * u) ** 2), dict(window_type=("gaussian", 2.5))
    else:
        m = c["m"]
        w = np.abs(vec(c["seed"] + 1, m)) + 0.1
        kw = dict(window_type=None, window_vec=w.copy())
    if w.sum() == 0:
        return None
    given, before = kw.get("window_vec"), x.copy()
    y = T.fractional_octave_smoothing(x, None if lin else beta, c["fr"], clip_values=c["clip"], **kw)
    same(x, before, "input unchanged")
    if given is not None:
        same(given, w, "window unchanged")
    check(y.shape == x.shape, "shape", y.shape)
    x2 = x[:, None] if x.ndim == 1 else x
    if lin:
        k = np.arange(1.0, n + 1)
        kl = n ** (np.arange(n) / (n - 1))
        z = smooth_log(PchipInterpolator(k, x2, axis=0)(kl), m, w)
        want = np.stack([np.interp(k, kl, q) for q in z.T], axis=1)
    else:
        want = smooth_log(x2, m, w)
    if c["clip"]:
        want = np.maximum(want, 0)
    close(y.reshape(want.shape), want, "smoothed vector", rtol=1e-9, scale=np.abs(x).max())
    k = T.fractional_octave_smoothing(np.full(n, c["const"]), None if lin else beta, c["fr"],
                                      **{**kw, **({"window_vec": w.copy()} if given is not None else {})})
    close(k, np.full(n, c["const"]), "constants stay constant", rtol=1e-9, scale=1.0)
    return f"{'lin' if lin else 'log'} {c['win']}"


@sub(PID, gen.fd(t=gen.logfloats(1e-4, 2), fs=st.sampled_from([200, 8000, 48000]),
                 acc=gen.floats(0.05, 0.99)), quick=60, thorough=1000)
def smoothing_factor(c):
    n = c["t"] * c["fs"]
    if n < 1:
        return None
    a = T.get_smoothing_factor_ema(c["t"], c["fs"], c["acc"])
    close((1 - a) ** n, 1 - c["acc"], "step response after the relaxation time", atol=1e-5)
    close(T.get_smoothing_factor_ema(c["t"], c["fs"]), 1 - 0.05 ** (1 / n), "default accuracy",
          rtol=1e-9)
    return "ema"


@sub(PID, gen.fd(n=st.integers(1, 120), ch=st.integers(0, 3), seed=gen.seeds(),
                 up=st.sampled_from([0.0, 0.01, 0.1, 1.0]),
                 down=st.sampled_from([None, 0.0, 0.02, 0.3]),
                 fs=st.sampled_from([50, 200]), integer=st.booleans(), rows=st.booleans()),
     quick=120, thorough=3000)
def smoothing_in_time(c):
    up, down, fs = c["up"], c["down"], c["fs"]
    x = vec(c["seed"], c["n"]) if c["ch"] == 0 else vec(c["seed"], c["n"], c["ch"])
    if c["integer"]:
        x = np.round(x * 20).astype(int)
    if up == 0 and down == 0:
        raises(lambda: T.time_smoothing(x, fs, up, down), "no smoothing at all")
        return "refused"
    if c["ch"] > 0 and c["n"] <= c["ch"]:
        return None
    rows = c["rows"] and x.ndim == 2
    arg = x.T.copy() if rows else x.copy()
    before = arg.copy()
    y = T.time_smoothing(arg, fs, up, down)
    same(arg, before, "input unchanged")
    check(y.shape == arg.shape, "shape", y.shape, arg.shape)
    y = y.T if rows else y
    a = 1.0 if up == 0 else 1 - 0.05 ** (1 / (up * fs))
    d = a if down is None else 1.0 if down == 0 else 1 - 0.05 ** (1 / (down * fs))
    x2 = (x[:, None] if x.ndim == 1 else x).astype(float)
    want = np.zeros(x2.shape)
    for k in range(x2.shape[1]):
        v = x2[0, k]
        for i in range(len(x2)):
            f = a if x2[i, k] > v else d
            v = f * x2[i, k] + (1 - f) * v
            want[i, k] = v
    close(np.asarray(y, float).reshape(want.shape), want, "smoothed series", rtol=1e-9,
          scale=np.abs(x2).max())
    const = np.full(9, 3.25)
    close(T.time_smoothing(const, fs, up, down), const, "constants stay constant")
    return f"{'same' if down is None else 'both'}"


# ---------------------------------------------------------- phase and decibel
@sub(PID, gen.fd(n=st.integers(1, 60), ch=st.integers(0, 2), seed=gen.seeds(),
                 scale=st.sampled_from([0.5, 3.0, 100.0])), quick=60, thorough=1000)
def wrapping(c):
    x = vec(c["seed"], c["n"]) if c["ch"] == 0 else vec(c["seed"], c["n"], c["ch"])
    x = x * c["scale"]
    before = x.copy()
    y = T.wrap_phase(x)
    same(x, before, "input unchanged")
    close(np.exp(1j * y), np.exp(1j * x), "same angle", rtol=1e-9, scale=1.0)
    check(bool(np.all((y >= -np.pi - 1e-12) & (y <= np.pi + 1e-12))), "range of the phase")
    close(T.wrap_phase(y), y, "wrapped phase stays", rtol=1e-9, scale=1.0)
    p = np.pi * np.array([-3.0, -1.0, 1.0, 3.0])
    close(np.abs(T.wrap_phase(p)), np.full(4, np.pi), "multiples of pi", rtol=1e-9)
    if c["scale"] < 1:
        steps = np.cumsum(np.clip(x, -3, 3), axis=0)
        w = T.wrap_phase(steps)
        u = np.unwrap(w, axis=0)
        close(u - u[:1], steps - steps[:1], "unwrapping reverts wrapping", rtol=1e-9, scale=10.0)
    return "wrap"


@sub(PID, gen.fd(n=st.integers(1, 40), seed=gen.seeds(), amp=st.booleans(),
                 dyn=st.sampled_from([None, 20.0, -60.0, 3.0]),
                 low=st.sampled_from(["default", None, 1e-3]), zeros=st.booleans(),
                 cplx=st.booleans()), quick=80, thorough=1500)
def decibels(c):
    x = vec(c["seed"], c["n"]) * 10 ** vec(c["seed"] + 1, c["n"])
    if c["cplx"]:
        x = x + 1j * vec(c["seed"] + 2, c["n"])
    if c["zeros"] and c["n"] > 1:
        x[0] = 0
    f = 20.0 if c["amp"] else 10.0
    kw = {} if c["low"] == "default" else dict(min_value=c["low"])
    if c["low"] is None and c["zeros"] and c["dyn"] is None:
        return None
    if not np.any(x):
        return None
    before = x.copy()
    y = T.to_db(x, c["amp"], c["dyn"], **kw)
    same(x, before, "input unchanged")
    a = np.abs(x)
    if c["dyn"] is not None:
        a = np.maximum(a, a.max() * 10 ** (-abs(c["dyn"]) / f))
        check(y.max() - y.min() <= abs(c["dyn"]) + 1e-9, "dynamic range")
    elif c["low"] != "default" and c["low"] is not None:
        a = np.maximum(a, c["low"])
    else:
        a = np.maximum(a, np.finfo(float).smallest_normal)
    close(y, f * np.log10(a), "decibels", rtol=1e-9, scale=100.0)
    close(T.from_db(y, c["amp"]), a, "back from decibels", rtol=1e-9)
    close(T.from_db(6.0, True), 10**0.3, "six decibels of amplitude")
    close(T.from_db(6.0, False), 10**0.6, "six decibels of power")
    return f"{c['amp']} {c['dyn'] is None}"


# -------------------------------------------------------- frequencies, values
@sub(PID, gen.fd(lo=gen.logfloats(1, 2000), octaves=gen.floats(0.05, 8),
                 b=st.integers(1, 60)), quick=80, thorough=1500)
def log_frequencies(c):
    hi = c["lo"] * 2 ** c["octaves"]
    f = T.log_frequency_vector([c["lo"], hi], c["b"])
    close(f[0], c["lo"], "first frequency")
    close(f, c["lo"] * 2.0 ** (np.arange(len(f)) / c["b"]), "bins per octave", rtol=1e-9)
    check(f[-1] <= hi * (1 + 1e-9), "within the range")
    check(f[-1] * 2 ** (1 / c["b"]) >= hi * (1 - 1e-9), "range is filled")
    raises(lambda: T.log_frequency_vector([0, hi], c["b"]), "from 0 Hz")
    return "log"


@sub(PID, gen.fd(n=st.integers(2, 50), ch=st.integers(0, 2), seed=gen.seeds(), pick=gen.floats(0, 1, 6),
                 node=st.booleans(), cplx=st.booleans()), quick=80, thorough=1500)
def value_at_frequency(c):
    r = np.random.default_rng(c["seed"])
    f = np.cumsum(r.uniform(0.5, 50, c["n"]))
    y = vec(c["seed"] + 1, c["n"]) if c["ch"] == 0 else vec(c["seed"] + 1, c["n"], c["ch"])
    if c["cplx"]:
        y = y + 1j * vec(c["seed"] + 2, *y.shape)
    if c["node"]:
        i = min(int(c["pick"] * c["n"]), c["n"] - 1)
        q, want = f[i], y[i]
    else:
        q = f[0] + c["pick"] * (f[-1] - f[0])
        i = min(max(int(np.sum(f <= q)) - 1, 0), c["n"] - 2)
        g = (q - f[i]) / (f[i + 1] - f[i])
        want = (1 - g) * y[i] + g * y[i + 1]
    close(T.get_exact_value_at_frequency(f, y, q), want, "interpolated value", rtol=1e-9, scale=1.0)
    raises(lambda: T.get_exact_value_at_frequency(f, y, f[-1] + 1), "beyond the vector")
    raises(lambda: T.get_exact_value_at_frequency(f, y, f[0] - 0.1), "below the vector")
    return "node" if c["node"] else "between"


@sub(PID, gen.fd(n=st.integers(1, 80), ch=st.integers(1, 4), seed=gen.seeds(), axis=st.sampled_from([0, 1, -1]),
                 vector=st.booleans()), quick=60, thorough=1000)
def logarithmic_mean(c):
    x = vec(c["seed"], c["n"], c["ch"])
    x = x[:, 0] if c["vector"] else (x if c["axis"] == 0 else x.T.copy())
    axis = 0 if c["vector"] else c["axis"]
    before = x.copy()
    m = T.log_mean(x, axis)
    same(x, before, "input unchanged")
    n = x.shape[axis]
    at = n ** (np.arange(n) / max(n - 1, 1)) - 1.0
    cols = np.moveaxis(x, axis, 0).reshape(n, -1)
    want = np.array([np.mean(np.interp(at, np.arange(n), q)) for q in cols.T])
    close(np.asarray(m).reshape(-1), want, "mean over a logarithmic axis", rtol=1e-9, scale=1.0)
    close(T.log_mean(np.full(n, 1.5)), 1.5, "mean of a constant")
    return "mean" if n > 1 else "single"


@sub(PID, gen.fd(lo=gen.logfloats(20, 5000), width=gen.logfloats(1.005, 20), log=st.booleans(),
                 seed=gen.seeds()), quick=60, thorough=1000)
def crossover(c):
    lo, hi = c["lo"], c["lo"] * c["width"]
    w = T.frequency_crossover([lo, hi], c["log"])
    r = np.random.default_rng(c["seed"])
    pos = np.sort(r.uniform(0, 1, 40))
    f = lo * c["width"] ** pos if c["log"] else lo + pos * (hi - lo)
    v = np.asarray(w(f))
    close(v, 0.5 - 0.5 * np.cos(np.pi * pos), "raised cosine", rtol=2e-2, scale=1.0)
    check(bool(np.all(np.diff(v) >= -1e-6)), "rises from 0 to 1")
    check(bool(np.all((v >= -1e-6) & (v <= 1 + 1e-6))), "between 0 and 1")
    close(w(np.array([lo * 0.5, lo * 0.999])), [0.0, 0.0], "below the region", atol=1e-9)
    close(w(np.array([hi * 1.001, hi * 3])), [1.0, 1.0], "above the region", atol=1e-9)
    close(float(w(hi)), 1.0, "upper limit", atol=1e-3)
    close(float(w(lo)), 0.0, "lower limit", atol=1e-9)
    return "log" if c["log"] else "lin"


@sub(PID, gen.fd(b=st.sampled_from([1, 3, 2, 4, 6, 12, 24]), lo=gen.logfloats(20, 900),
                 hi=gen.logfloats(1100, 20000), cut=st.booleans(), near=st.sampled_from([None, 1.0, 0.995, 1.005, 0.99])), quick=60, thorough=1000)
def octave_frequencies(c):
    b = c["b"]
    if b in (1, 3) and c["near"]:
        # ends next to a nominal frequency
        full = T.fractional_octave_frequencies(b, (20, 20000))[0]
        c = dict(c, lo=full[np.argmin(np.abs(full - c["lo"]))] * c["near"], hi=full[np.argmin(np.abs(full - c["hi"]))] * c["near"])
    out = T.fractional_octave_frequencies(b, (c["lo"], c["hi"]), c["cut"])
    nominal, exact = out[0], out[1]
    if b in (1, 3):
        check(len(nominal) == len(exact), "one exact for every nominal frequency")
        check(bool(np.all((nominal >= c["lo"]) & (nominal <= c["hi"]))), "within the range")
        close(nominal / exact, np.ones(len(exact)), "nominal next to exact", rtol=0.03)
        k = b * np.log10(exact / 1000) / 0.3
        close(k, np.round(k), "exact frequencies on the IEC grid", rtol=1e-6, scale=1.0)
        check(bool(np.all(np.diff(np.round(k)) == 1)), "no band missing", np.round(k).tolist())
        full = T.fractional_octave_frequencies(b, (20, 20000))[0]
        check(list(nominal) == [v for v in full if c["lo"] <= v <= c["hi"]], "all bands in the range")
    else:
        check(len(nominal) == 0, "no nominal frequencies")
        k = b * np.log2(exact / 1000)
        close(k, np.round(k), "exact frequencies around 1 kHz", rtol=1e-6, scale=1.0)
        check(bool(np.all(np.diff(np.round(k)) == 1)), "no band missing")
        half = 2 ** (0.5 / b) * (1 + 1e-6)
        check(exact[0] >= c["lo"] / half and exact[-1] <= c["hi"] * half, "within the range")
        check(exact[0] <= c["lo"] * half and exact[-1] >= c["hi"] / half, "range is filled")
    if c["cut"]:
        lo, hi = out[2]
        g = 10 ** (0.15 / b)
        close(hi, exact * g, "upper cutoff")
        close(lo, exact / g, "lower cutoff")
    raises(lambda: T.fractional_octave_frequencies(b, (c["hi"], c["lo"])), "reversed range")
    return f"{b}"


def erb(f):
    return 9.2645 * np.log(1 + 0.00437 * np.asarray(f))


@sub(PID, gen.fd(lo=gen.logfloats(10, 900), hi=gen.logfloats(901, 24000), res=st.sampled_from([1, 0.5, 0.3, 2.5]),
                 ref=gen.logfloats(5, 30000), swap=st.booleans()), quick=60, thorough=1000)
def erb_scale(c):
    rng = [c["hi"], c["lo"]] if c["swap"] else [c["lo"], c["hi"]]
    given = list(rng)
    f = T.erb_frequencies(rng, c["res"], c["ref"])
    check(rng == given, "range unchanged")
    steps = (erb(f) - erb(c["ref"])) / c["res"]
    close(steps, np.round(steps), "on the grid of the reference", rtol=1e-6, scale=1.0)
    check(bool(np.all(np.diff(np.round(steps)) == 1)), "spacing of the grid")
    tol = 1e-9
    if len(f):
        check(f[0] >= c["lo"] * (1 - tol) and f[-1] <= c["hi"] * (1 + tol), "within the range", f[0], f[-1])
        check(erb(f[0]) - c["res"] < erb(c["lo"]) + tol, "lower end filled")
        check(erb(f[-1]) + c["res"] > erb(c["hi"]) - tol, "upper end filled")
    else:
        check(erb(c["hi"]) - erb(c["lo"]) < c["res"], "empty only without a grid point")
    raises(lambda: T.erb_frequencies(rng, 0), "resolution of 0")
    return "erb"


@sub(PID, gen.fd(n=st.one_of(st.integers(1, 5000), st.integers(1, 2**40)), k=st.integers(0, 40),
                 d=st.sampled_from([-1, 0, 1, 0.5, -0.25])), quick=80, thorough=2000)
def powers_of_two(c):
    for v in (c["n"], 2 ** c["k"] + c["d"]):
        if v < 0.75:
            continue
        fl, ce = 1, 1
        if v >= 1:
            while fl * 2 <= v:
                fl *= 2
            check(T.next_power_2(v, "floor") == fl, "power of two below", v)
        while ce < v:
            ce *= 2
        check(T.next_power_2(v, "ceil") == ce, "power of two above", v)
        got = T.next_power_2(v, "Closest")
        if v < 1:
            check(got == 1, "closest power of two", v)
            continue
        # Between both means (geometric and arithmetic) the rule is open
        if v < fl * 1.414:
            check(got == fl, "closest power of two", v, got)
        elif v > fl * 1.5:
            check(got == ce, "closest power of two", v, got)
        else:
            check(got in (fl, ce), "closest power of two", v, got)
    raises(lambda: T.next_power_2(0), "power of two of 0")
    return "power"


@sub(PID, gen.fd(n=st.integers(2, 60), lam=gen.floats(-0.95, 0.95), fs=st.sampled_from([8000, 48000])),
     quick=60, thorough=1000)
def warping_of_frequencies(c):
    f = np.linspace(0, c["fs"] / 2, c["n"])
    before = f.copy()
    w = T.warp_frequency(f, c["fs"], c["lam"])
    same(f, before, "input unchanged")
    # Phase of the all-pass (z^-1 + lambda) / (1 + lambda z^-1)
    z = np.exp(-2j * np.pi * f / c["fs"])
    a = (z + c["lam"]) / (1 + c["lam"] * z)
    close(np.exp(-2j * np.pi * w / c["fs"]), a, "phase of the all-pass", rtol=1e-7, scale=1.0)
    close([w[0], w[-1]], [0, c["fs"] / 2], "ends of the axis", atol=1e-6)
    check(bool(np.all(np.diff(w) > 0)), "monotone")
    close(T.warp_frequency(w, c["fs"], -c["lam"]), f, "inverse warping", rtol=1e-7, scale=c["fs"])
    raises(lambda: T.warp_frequency(f, c["fs"], 1.0), "warping factor of 1")
    return "warp"


# -------------------------------------------------------------- interpolation
MODES = [None, "db2amplitude", "amplitude2db", "power2db", "db2power", "power2amplitude",
         "amplitude2power"]


@sub(PID, gen.fd(n=st.integers(4, 40), ch=st.integers(0, 2), seed=gen.seeds(), mode=st.sampled_from(MODES),
                 scheme=st.sampled_from(["linear", "linear", "cubic", "quadratic"]), integer=st.booleans(),
                 m=st.integers(1, 30)), quick=150, thorough=3000)
def interpolation(c):
    r = np.random.default_rng(c["seed"])
    n, mode = c["n"], c["mode"]
    f = np.cumsum(r.uniform(1, 20, n))
    shape = (n,) if c["ch"] == 0 else (n, c["ch"])
    y = r.uniform(0.5, 3, shape)
    if mode and mode.startswith("db2"):
        y = r.uniform(-20, 6, shape)
    if c["integer"]:
        y = np.round(y * 3).astype(int)
        if mode and not mode.startswith("db2"):
            y = np.abs(y) + 1
    t = np.sort(r.uniform(f[0] - 10, f[-1] + 10, c["m"]))
    before, fb = y.copy(), f.copy()
    got = T.interpolate_fr(f, y, t, mode, c["scheme"])
    same(y, before, "input unchanged")
    same(f, fb, "frequency vector unchanged")
    fwd = {
        None: lambda v: v, "db2amplitude": lambda v: 10 ** (v / 20), "db2power": lambda v: 10 ** (v / 10),
        "amplitude2db": lambda v: 20 * np.log10(v), "power2db": lambda v: 10 * np.log10(v),
        "power2amplitude": np.sqrt, "amplitude2power": np.square,
    }[mode]
    bwd = {
        None: lambda v: v, "db2amplitude": lambda v: 20 * np.log10(np.maximum(np.abs(v), 1e-300)),
        "db2power": lambda v: 10 * np.log10(np.maximum(np.abs(v), 1e-300)),
        "amplitude2db": lambda v: 10 ** (v / 20), "power2db": lambda v: 10 ** (v / 10),
        "power2amplitude": np.square, "amplitude2power": np.sqrt,
    }[mode]
    check(got.shape == (len(t),) + shape[1:], "shape", got.shape)
    inside = (t >= f[0]) & (t <= f[-1])
    v = fwd(y.astype(float)).reshape(n, -1)
    g = got.reshape(len(t), -1)
    if c["scheme"] == "linear":
        want = np.stack([np.interp(t[inside], f, q) for q in v.T], axis=1)
        close(g[inside], bwd(want), "interpolated response", rtol=1e-9, scale=1.0)
    elif c["scheme"] == "cubic":
        want = CubicSpline(f, v, axis=0)(t[inside])
        ok = np.all(want > 1e-3, axis=1) if mode else np.ones(len(want), bool)
        close(g[inside][ok], bwd(want[ok]), "spline through the response", rtol=1e-6, scale=np.abs(v).max())
    exact = T.interpolate_fr(f, y, f, mode, c["scheme"]).reshape(n, -1)
    close(exact, y.reshape(n, -1), "given points are kept", rtol=1e-7, scale=np.abs(y).max() + 1)
    out = ~inside
    if out.any() and mode in (None, "power2amplitude", "amplitude2power"):
        close(g[out], np.zeros_like(g[out]), "zero beyond the response", atol=1e-12)
    if out.any() and mode in ("amplitude2db", "power2db"):
        want = np.where((t[out] < f[0])[:, None], y.reshape(n, -1)[0], y.reshape(n, -1)[-1])
        close(g[out], want, "edges beyond the response", rtol=1e-9)
    return f"{mode}"
