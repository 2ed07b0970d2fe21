"""C21: room-acoustic descriptors equal their formulas.

Oracles: exponential decays with known reverberation times, the Schroeder
integral of the undisturbed decay with a straight-line fit, direct energy sums
from the onset, scipy's full convolution, damped modes at known frequencies,
octave bands with known decays."""

import warnings

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import core, gen
from vt.core import close, raises, same, sub

PID = "C21"
RA = dsp.room_acoustics
RT = RA.ReverbTime
RD = RA.RoomAcousticsDescriptor
RANGES = {RT.EDT: (0, -10), RT.T20: (-5, -25), RT.T30: (-5, -35), RT.T60: (-5, -65)}
METHODS = list(dsp.SpectrumMethod)


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def ir(x, fs):
    return dsp.ImpulseResponse(None, np.asarray(x), fs, constrain_amplitude=False)


def decay(T, n, fs, carrier, r):
    t = np.arange(n) / fs
    if carrier == "noise":
        c = r.standard_normal(n)
        c[0] = np.max(np.abs(c))  # direct sound
    elif carrier == "pure":
        c = np.ones(n)
    else:  # dense alternating pulses
        c = np.where(np.arange(n) % 2, -1.0, 0.9)
    h = c * np.exp(-np.log(1e3) * t / T)
    return h / np.max(np.abs(h))


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return fn(*a, **k)


def reference(h, fs, start, mode):
    """Straight-line fit to the Schroeder integral of a clean response."""
    e = h[start:] ** 2
    edc = np.cumsum(e[::-1])[::-1]
    edc = 10 * np.log10(np.maximum(edc / edc[0], 1e-30))
    hi, lo = RANGES[mode]
    i = (edc <= hi) & (edc >= lo)
    t = np.arange(len(edc))[i] / fs
    s = np.polyfit(t, edc[i], 1)[0]
    return -(10 if mode == RT.EDT else 60) / s


def onset(h, db=-20.0):
    a = np.abs(h)
    return max(int(np.argmax(a >= a.max() * 10 ** (-abs(db) / 20))) - 1, 0)


# ------------------------------------------------------------ reverberation
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([4000, 8000, 11025, 16000]),
            T=st.lists(gen.floats(0.25, 1.5), min_size=1, max_size=2),
            carrier=st.sampled_from(["noise", "pure", "pulses"]),
            snr=st.sampled_from([None, None, 65, 75, 90]),
            gain=st.sampled_from([1.0, 1e-4, 0.02, 0.5, 3.0, 100.0]),
            lead=st.sampled_from([0, 1, 30, 700]),
            trim=st.booleans(),
            mode=st.sampled_from([m.name for m in RT]),
            seed=gen.seeds(),
        )
    ),
    quick=60,
    thorough=1500,
)
def reverb(c):
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    noise = c["snr"]
    n = int((2.0 if noise else 2.4) * max(c["T"]) * fs) + 500
    clean = np.stack([decay(T, n, fs, c["carrier"], r) for T in c["T"]], axis=1)
    clean = np.vstack([np.zeros((c["lead"], clean.shape[1])), clean])
    h = clean.copy()
    trim = c["trim"]
    if noise:
        h += r.standard_normal(h.shape) * 10 ** (-noise / 20)
        trim = True
    s = ir(h * c["gain"], fs)
    mode = RT[c["mode"]]
    got, corr = quiet(RA.reverb_time, s, mode, automatic_trimming=trim)
    check(got.shape == corr.shape == (len(c["T"]),), "shapes", got.shape)
    for k, T in enumerate(c["T"]):
        if mode == RT.T60 and noise is not None and noise < 90:
            continue
        if mode == RT.Adaptive:
            want, tol = T, 0.03 if c["carrier"] == "noise" else 0.015
        else:
            want = reference(clean[:, k], fs, onset(clean[:, k]), mode)
            tol = 0.01
        if trim and c["carrier"] == "noise":
            # The end may be taken for found where the level rises by chance
            stop = quiet(dsp.transfer_functions.trim_ir, s, k, 1e-3)[2] - c["lead"]
            low = {RT.EDT: 10, RT.T20: 25, RT.T30: 35, RT.T60: 65, RT.Adaptive: 45}[mode]
            if stop < (low + 10) / 60 * T * fs:
                continue
            # The end might be found early
            tol += 0.06 if mode == RT.Adaptive else 0.03
        if noise:
            # The decay is drowned before the end of the evaluation range
            need = {RT.EDT: 30, RT.T20: 45, RT.T30: 55, RT.T60: 85, RT.Adaptive: 50}
            level = 10 * np.log10(np.mean(clean[c["lead"] : c["lead"] + fs // 20, k] ** 2))
            if noise + level < need[mode]:
                continue
            if c["carrier"] == "noise":
                tol += 0.05 if mode == RT.T60 else 0.02
        check(abs(got[k] / want - 1) < tol, "reverberation time", got[k], want, T)
        check(-1 - 1e-12 <= corr[k] < -0.9, "correlation", corr[k])
    return f"{mode.name} {c['carrier']}"


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([4000, 8000]),
            ch=st.integers(2, 3),
            bands=st.integers(1, 2),
            lead=st.integers(1, 300),
            more=st.integers(1, 500),
            snr=st.sampled_from([None, 50, 70]),
            gain=st.sampled_from([1e-3, 0.3, -1.0, 7.0, 1000.0]),
            trim=st.booleans(),
            mode=st.sampled_from([m.name for m in RT]),
            seed=gen.seeds(),
        )
    ),
    quick=8,
    thorough=400,
)
def invariance(c):
    """Gain, leading silence, channels and bands."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    T = r.uniform(0.2, 0.6, (c["bands"], c["ch"]))
    n = int(1.5 * fs)
    x = np.zeros((c["bands"], c["lead"] + n, c["ch"]))
    for b in range(c["bands"]):
        for k in range(c["ch"]):
            x[b, c["lead"] :, k] = decay(T[b, k], n, fs, "noise", r)
    if c["snr"]:
        x += r.standard_normal(x.shape) * 10 ** (-c["snr"] / 20)
    kw = dict(mode=RT[c["mode"]], automatic_trimming=c["trim"])

    def both(y):
        s = ir(y, fs)
        return quiet(RA.reverb_time, s, **kw)

    base = [both(b) for b in x]
    for b in range(c["bands"]):
        got = both(x[b] * c["gain"])
        close(got[0], base[b][0], "gain", rtol=2e-3)
        close(got[1], base[b][1], "gain, correlation", rtol=2e-3)
        for k in range(c["ch"]):
            one = both(x[b][:, [k]])
            same(one[0][0], base[b][0][k], "single channel")
            same(one[1][0], base[b][1][k], "single channel correlation")
        perm = r.permutation(c["ch"])
        same(both(x[b][:, perm])[0], base[b][0][perm], "channel order")
    if c["trim"] or c["snr"] is None:
        y = np.concatenate([np.zeros((c["more"], c["ch"])), x[0]])
        got = both(y)
        close(got[0], base[0][0], "leading silence", rtol=2e-3)
    mb = dsp.MultiBandSignal([ir(b, fs) for b in x])
    got = quiet(RA.reverb_time, mb, **kw)
    check(got[0].shape == (c["bands"], c["ch"]), "shape of bands", got[0].shape)
    same(got[0], np.array([b[0] for b in base]), "bands")
    same(got[1], np.array([b[1] for b in base]), "bands, correlation")
    for d in (RD.D50, RD.C80, RD.CenterTime):
        want = []
        for b in x:
            s = ir(b, fs)
            v = quiet(RA.descriptors, s, d, c["trim"])
            check(v.shape == (c["ch"],), "descriptor shape", v.shape)
            g = quiet(RA.descriptors, ir(b * c["gain"], fs), d, c["trim"])
            close(g, v, f"gain {d.name}", rtol=1e-6, atol=1e-9)
            one = quiet(RA.descriptors, ir(b[:, [0]], fs), d, c["trim"])
            same(one[0], v[0], f"single channel {d.name}")
            z = np.concatenate([np.zeros((c["more"], c["ch"])), b])
            z = quiet(RA.descriptors, ir(z, fs), d, c["trim"])
            close(z, v, f"leading silence {d.name}", rtol=1e-9)
            want.append(v)
        same(quiet(RA.descriptors, mb, d, c["trim"]), np.array(want), f"bands {d.name}")
    return c["mode"]


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([4000, 8000, 16000]),
            T=st.tuples(gen.floats(0.2, 0.5), gen.floats(0.8, 1.5)),
            level=gen.floats(-30, -10),
            lead=st.integers(1, 300),
            shift=st.integers(0, 3000),
            form=st.sampled_from(["int", "list", "array", "float array", "band"]),
            mode=st.sampled_from(["EDT", "T20", "T30"]),
            trim=st.booleans(),
            seed=gen.seeds(),
        )
    ),
    quick=40,
    thorough=800,
)
def given_start(c):
    """Evaluation begins at the passed sample: two-slope decays."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    n = int(2.2 * c["T"][1] * fs)
    h = np.zeros((c["lead"] + n, 2))
    for k in range(2):
        h[c["lead"] :, k] = decay(c["T"][0], n, fs, "pulses", r)
        h[c["lead"] :, k] += 10 ** (c["level"] / 20) * decay(
            c["T"][1], n, fs, "pulses", r
        )
    h[:, 1] *= 0.1
    start = np.array([c["lead"] + c["shift"] % (fs // 4), c["lead"]])
    one = c["form"] == "int"
    arg = {
        "int": int(start[0]),
        "list": [int(k) for k in start],
        "array": start,
        "float array": start.astype(float),
        "band": np.stack([start, start[::-1]]),
    }[c["form"]]
    s = ir(h, fs)
    kw = dict(mode=RT[c["mode"]], automatic_trimming=c["trim"])
    if c["form"] == "band":
        mb = dsp.MultiBandSignal([s.copy(), s.copy()])
        got = quiet(RA.reverb_time, mb, ir_start=arg, **kw)[0]
        for b in range(2):
            for k in range(2):
                want = reference(h[:, k], fs, arg[b, k], RT[c["mode"]])
                check(abs(got[b, k] / want - 1) < 0.02, "band start", got[b, k], want)
        return c["form"]
    got = quiet(RA.reverb_time, s, ir_start=arg, **kw)[0]
    for k in range(2):
        at = start[0] if one else start[k]
        want = reference(h[:, k], fs, at, RT[c["mode"]])
        check(abs(got[k] / want - 1) < 0.02, "start", k, got[k], want)
    auto = quiet(RA.reverb_time, s, **kw)[0]
    found = RA.find_ir_start(s)
    same(quiet(RA.reverb_time, s, ir_start=found, **kw)[0], auto, "detected start")
    return c["form"]


# --------------------------------------------------------------- descriptors
def energies(h, fs, d, w_shift=0):
    e = h[onset(h) :] ** 2
    if d == RD.CenterTime:
        return np.sum(e * np.arange(len(e))) / fs / np.sum(e)
    w = int(np.floor((0.05 if d == RD.D50 else 0.08) * fs)) + w_shift
    if d == RD.D50:
        return np.sum(e[:w]) / np.sum(e)
    return 10 * np.log10(np.sum(e[:w]) / np.sum(e[w:]))


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([4000, 8000, 11025, 16000, 44100]),
            ch=st.integers(1, 3),
            T=st.one_of(gen.floats(0.15, 1.2), gen.floats(0.02, 0.15)),
            early=st.integers(0, 6),
            d=st.sampled_from(["D50", "C80", "CenterTime"]),
            lead=st.integers(0, 400),
            gain=st.sampled_from([1e-3, 1.0, 20.0]),
            seed=gen.seeds(),
        )
    ),
    quick=60,
    thorough=2000,
)
def energy_ratios(c):
    r = np.random.default_rng(c["seed"])
    fs, d = c["fs"], RD[c["d"]]
    if d == RD.C80 and c["T"] < 0.15:
        c = dict(c, T=c["T"] + 0.2)
    n = int(2 * c["T"] * fs)
    h = np.zeros((c["lead"] + n, c["ch"]))
    for k in range(c["ch"]):
        h[c["lead"] :, k] = decay(c["T"] * (1 + 0.2 * k), n, fs, "noise", r)
        for _ in range(c["early"]):
            i = c["lead"] + int(r.uniform(0, 0.12) * fs)
            if i < len(h):
                h[i, k] += r.uniform(-5, 5)
    h *= c["gain"]
    before = h.copy()
    s = ir(h, fs)
    got = quiet(RA.descriptors, s, d, False)
    trimmed = quiet(RA.descriptors, s, d, True)
    same(s.time_data, before, "input unchanged")
    for k in range(c["ch"]):
        want = [energies(h[:, k], fs, d, w) for w in (0, 1)]
        lo, hi = min(want), max(want)
        tol = 1e-9 * max(1.0, abs(hi))
        check(lo - tol <= got[k] <= hi + tol, d.name, got[k], lo, hi)
        # The end found by the trimming is far below the beginning
        slack = {RD.D50: 0.02, RD.C80: 0.6, RD.CenterTime: 0.06 * c["T"]}[d]
        if d == RD.D50:
            check(0 <= trimmed[k] <= 1 + 1e-12, "range of D50 after trimming", trimmed[k])
        if c["early"] == 0 and (c["T"] >= 0.15 or d == RD.D50):
            check(abs(trimmed[k] - got[k]) < slack, "trimmed", d.name, trimmed[k], got[k])
    if d == RD.D50:
        check(np.all((got >= 0) & (got <= 1)), "range of D50", got)
    return d.name


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([8000, 16000]),
            T=st.lists(gen.floats(0.4, 1.2), min_size=2, max_size=2),
            gain=st.sampled_from([0.01, 1.0, 10.0]),
            ch=st.integers(1, 2),
            seed=gen.seeds(),
        )
    ),
    quick=16,
    thorough=200,
)
def bass(c):
    """Low octaves with one decay, high octaves with another one."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    n = int(2.5 * fs)
    h = np.zeros((n + 200, c["ch"]))
    t = np.arange(n) / fs
    for k in range(c["ch"]):
        T = c["T"] if k == 0 else c["T"][::-1]
        for b, f in enumerate([125, 250, 500, 1000]):
            x = np.sin(2 * np.pi * f * t + r.uniform(0, 6)) * r.uniform(0.3, 1)
            h[200:, k] += x * np.exp(-np.log(1e3) * t / T[b // 2])
    got = quiet(
        RA.descriptors, ir(h * c["gain"], fs), RD.BassRatio
    )
    check(got.shape == (c["ch"],), "shape", got.shape)
    # Definition from the public parts: T20 in the four octaves
    fb = dsp.filterbanks.fractional_octave_bands(
        [125, 1000], filter_order=10, sampling_rate_hz=fs
    )[0]
    mb = fb.filter_signal(
        ir(h * c["gain"], fs), dsp.FilterBankMode.Parallel, zero_phase=True
    )
    rt = quiet(RA.reverb_time, mb, RT.T20)[0]
    close(got, (rt[0] + rt[1]) / (rt[2] + rt[3]), "ratio of T20", rtol=1e-9)
    for k in range(c["ch"]):
        T = c["T"] if k == 0 else c["T"][::-1]
        check(abs(got[k] / (T[0] / T[1]) - 1) < 0.1, "bass ratio", got[k], T)
    return "bass"


# ------------------------------------------------------------------- onsets
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            s=gen.sig(min_n=5, max_n=400, max_ch=3, kinds=gen.RICH),
            lead=st.integers(0, 50),
            env=st.sampled_from(["flat", "grow", "burst"]),
            db=st.one_of(st.just(None), st.sampled_from([-60.0, -20.0, -6.0, -1.0, 0.0])),
            gain=st.sampled_from([1e-3, 1.0, 50.0]),
        )
    ),
    quick=150,
    thorough=4000,
)
def start(c):
    x = gen.data(c["s"])
    if x.shape[1] > x.shape[0]:
        x = x.T
    n = len(x)
    if c["env"] == "grow":
        x = x * np.linspace(0, 1, n)[:, None] ** 2
    elif c["env"] == "burst":
        x = x * (0.02 + np.exp(-(((np.arange(n) - n / 2) / (n / 10 + 1)) ** 2)))[:, None]
    x = np.concatenate([np.zeros((c["lead"], x.shape[1])), x])
    if not np.all(np.any(x != 0, axis=0)) or len(x) < x.shape[1]:
        return None
    kw = {} if c["db"] is None else dict(threshold_dbfs=c["db"])
    got = RA.find_ir_start(ir(x, 8000), **kw)
    db = -20.0 if c["db"] is None else c["db"]
    a = np.abs(x)
    thr = a.max(axis=0) * 10 ** (db / 20)
    check(got.shape == (x.shape[1],), "shape")
    check(np.issubdtype(got.dtype, np.integer), "integer indices", got.dtype)
    if np.any(np.abs(a / thr - 1) < 1e-9) and db != 0:
        return None
    for k in range(x.shape[1]):
        i = int(got[k])
        check(0 <= i < len(x), "in range")
        first = int(np.argmax(a[:, k] >= thr[k] * (1 - 1e-12)))
        check(i == max(first - 1, 0), "sample before the threshold", i, first)
    same(RA.find_ir_start(ir(x * c["gain"], 8000), **kw), got, "gain")
    raises(lambda: RA.find_ir_start(ir(x, 8000), 3.0), "positive")
    return c["env"]


# -------------------------------------------------------------- convolution
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            s=gen.sig(min_n=8, max_n=700, max_ch=3, kinds=gen.KINDS),
            m=st.integers(1, 300),
            peak=st.booleans(),
            length=st.booleans(),
            as_ir=st.booleans(),
            seed=gen.seeds(),
        )
    ),
    quick=150,
    thorough=4000,
)
def convolution(c):
    s = gen.mk(c["s"])
    x = s.time_data.copy()
    h = np.random.default_rng(c["seed"]).uniform(-1, 1, c["m"])
    cls = dsp.ImpulseResponse if c["as_ir"] else dsp.Signal
    rir = cls(None, h, s.sampling_rate_hz, constrain_amplitude=False)
    got = RA.convolve_rir_on_signal(
        s, rir, keep_peak_level=c["peak"], keep_length=c["length"]
    )
    want = np.stack([np.convolve(x[:, k], h) for k in range(x.shape[1])], axis=1)
    if c["length"]:
        want = want[: len(x)]
    if c["peak"]:
        old, new = np.abs(x).max(axis=0), np.abs(want).max(axis=0)
        if np.any((new < 1e-9 * old * np.abs(h).sum()) & (old > 0)):
            return None  # response only begins after the end
        want = want * np.where(new > 0, old / np.where(new > 0, new, 1), 1)
    check(type(got) is type(s), "type")
    check(got.sampling_rate_hz == s.sampling_rate_hz, "rate")
    check(got.time_data.shape == want.shape, "shape", got.time_data.shape)
    scale = np.abs(x).max() * max(np.abs(h).sum(), 1) + 1e-300
    close(got.time_data, want, "convolution", rtol=1e-7, atol=1e-9 * scale)
    same(s.time_data, x, "input unchanged")
    same(rir.time_data[:, 0], h, "response unchanged")
    two = cls(None, np.stack([np.r_[h, 0, 0]] * 2, 1), s.sampling_rate_hz)
    raises(lambda: RA.convolve_rir_on_signal(s, two), "two channels")
    other = cls(None, h, s.sampling_rate_hz + 1)
    raises(lambda: RA.convolve_rir_on_signal(s, other), "other rate")
    return "peak" if c["peak"] else "plain"


# --------------------------------------------------------------------- modes
@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([1000, 2000, 4000]),
            n=st.integers(1, 6),
            ch=st.integers(1, 3),
            anti=st.booleans(),
            lo=st.integers(25, 60),
            long=st.sampled_from([1.0, 1.7]),
            method=st.integers(0, len(METHODS) - 1),
            gain=st.sampled_from([1e-3, 1.0, 30.0]),
            seed=gen.seeds(),
        )
    ),
    quick=60,
    thorough=1500,
)
def modes(c):
    """Damped resonances (or notches) at known, well separated frequencies."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    f0 = np.cumsum(r.integers(18, 30, c["n"])) + c["lo"]
    f0 = f0[f0 < 240]
    n = fs if not c["anti"] else fs
    h = np.zeros((n, c["ch"]))
    t = np.arange(n) / fs
    if c["anti"]:
        # Zeros close to the unit circle at the same place for every channel
        z = np.exp(-4.0 / fs + 2j * np.pi * f0 / fs)
        b = np.real(np.poly(np.r_[z, z.conj()]))
        for k in range(c["ch"]):
            h[: len(b), k] = b * r.uniform(0.5, 1.0)
    else:
        for k in range(c["ch"]):
            for f in f0:
                # Real modal residues with the same sign: no cancellation
                h[:, k] += np.exp(-8.0 * t) * np.sin(2 * np.pi * f * t) * r.uniform(0.6, 1)
    s = ir(h * c["gain"], fs)
    s.set_spectrum_parameters(method=METHODS[c["method"]])
    before = s.spectrum_method
    rng = [c["lo"], 260]
    got = quiet(RA.find_modes, s, rng, 6, 3.0, c["anti"])
    check(s.spectrum_method == before, "input keeps its spectrum method")
    same(s.time_data, h * c["gain"], "input unchanged")
    check(got.ndim == 1 and np.all(np.diff(got) >= 6), "distances", got)
    check(np.all((got >= rng[0]) & (got <= rng[1])), "range", got)
    check(len(got) == len(f0), "number of modes", got, f0)
    check(np.all(np.abs(got - f0) <= 1.5), "frequencies", got, f0)
    # Modes outside of the searched range are not reported
    if len(f0) > 2:
        part = quiet(RA.find_modes, s, [f0[0] + 9, f0[-1] - 9], 6, 3.0, c["anti"])
        check(len(part) == len(f0) - 2, "part of the range", part, f0)
    return f"{'anti' if c['anti'] else 'modes'} {c['ch']} ch"


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([500, 1000, 2000]),
            ch=st.integers(1, 4),
            n=st.sampled_from([200, 600, 2500]),
            lo=st.integers(20, 90),
            wide=st.integers(40, 140),
            dist=st.sampled_from([0.4, 3, 5, 7.5]),
            prom=st.sampled_from([None, 1.0, 3.0, 8.0]),
            anti=st.booleans(),
            copies=st.booleans(),
            gain=st.sampled_from([1e-3, 1.0, -30.0]),
            seed=gen.seeds(),
        )
    ),
    quick=60,
    thorough=1500,
)
def modes_of_any_response(c):
    """The peaks of the level of the mode indicator function with the distance
    and prominence asked for; the same response again changes nothing."""
    from scipy.signal import find_peaks

    r = np.random.default_rng(c["seed"])
    fs, n = c["fs"], c["n"]
    hi = min(c["lo"] + c["wide"], fs // 2 - 5)
    rng = [c["lo"], hi]
    h = r.standard_normal((n, c["ch"])) * np.exp(-np.arange(n)[:, None] / n * r.uniform(0, 6, c["ch"]))
    one = ir(h[:, [0]] * c["gain"], fs)
    if c["copies"]:
        h = np.repeat(h[:, [0]], c["ch"], 1)
    s = ir(h * c["gain"], fs)
    if r.integers(2):
        # the settings for spectra play no role
        s.set_spectrum_parameters(method=METHODS[c["n"] % 2], smoothing=int(r.choice([0, 3])), scaling=list(dsp.SpectrumScaling)[r.integers(len(dsp.SpectrumScaling))])
    got = quiet(RA.find_modes, s, rng, c["dist"], c["prom"], c["anti"])
    if c["copies"]:
        same(quiet(RA.find_modes, one, rng, c["dist"], c["prom"], c["anti"]), got, "the same response several times")
    H = np.fft.rfft(h, fs, axis=0) if n <= fs else np.fft.rfft(h[:fs], axis=0)
    H = 1 / H if c["anti"] else H
    if c["ch"] == 1:
        lev = np.abs(H[:, 0]) ** 2
    else:
        M = np.zeros((len(H), c["ch"], c["ch"]), complex)
        M[:, 0, :] = H
        M[:, :, 0] = H
        lev = np.linalg.svd(M, compute_uv=False)[:, 0] ** 2
    lev = 10 * np.log10(lev)
    # whether the bin at the upper end belongs to the range is open
    cands = []
    for k in (0, 1):
        p, _ = find_peaks(lev[rng[0] : rng[1] + k], distance=max(int(np.ceil(c["dist"])), 1), prominence=c["prom"])
        cands.append(p + rng[0])
    check(any(np.array_equal(np.round(got), p) for p in cands), "modes", got, cands)
    return f"{'anti ' if c['anti'] else ''}{c['ch']} ch" if len(got) else None


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([4000, 8000, 16000]),
            T=gen.floats(0.6, 1.5),
            ratio=gen.floats(0.01, 0.06),
            level=gen.floats(-22, -11),
            lead=st.integers(1, 300),
            gain=st.sampled_from([1e-3, 1.0, 20.0]),
            seed=gen.seeds(),
        )
    ),
    quick=30,
    thorough=600,
)
def early_drop(c):
    """The adaptive mode leaves out an early decay which is far shorter than
    the late one."""
    r = np.random.default_rng(c["seed"])
    fs, T = c["fs"], c["T"]
    n = int(2.2 * T * fs)
    h = np.zeros(c["lead"] + n)
    h[c["lead"] :] = decay(T * c["ratio"], n, fs, "pulses", r) + 10 ** (c["level"] / 20) * decay(T, n, fs, "pulses", r)
    got, corr = quiet(RA.reverb_time, ir(h[:, None] * c["gain"], fs), RT.Adaptive, automatic_trimming=False)
    check(abs(got[0] / T - 1) < 0.02, "late decay", got[0], T)
    check(-1 - 1e-12 <= corr[0] < -0.99, "correlation", corr[0])
    return "drop"


@sub(
    PID,
    st.fixed_dictionaries(
        dict(
            fs=st.sampled_from([4000, 8000]),
            T=gen.floats(0.25, 1.5),
            carrier=st.sampled_from(["pulses", "pure"]),
            gain=st.sampled_from([1e-3, 1.0, 30.0]),
            case=st.sampled_from([("T20", 10, 0.027), ("T30", 10, 0.0125), ("T60", 12, 0.0025), ("T60", 20, 0.0014)]),
            lead=st.integers(30, 400),
            seed=gen.seeds(),
        )
    ),
    quick=80,
    thorough=1500,
)
def noise_floor(c):
    """Stationary noise shortly below the evaluated range: its power is taken
    out and the decay beyond the end made up for (the tolerance is far below
    the error which either of them repairs)."""
    r = np.random.default_rng(c["seed"])
    fs, T = c["fs"], c["T"]
    mode, margin, tol = RT[c["case"][0]], c["case"][1], c["case"][2]
    n = int(2 * T * fs) + 500
    clean = np.concatenate([np.zeros(c["lead"]), decay(T, n, fs, c["carrier"], r)])
    level = 10 * np.log10(np.mean(clean[c["lead"] : c["lead"] + fs // 20] ** 2))
    snr = margin - RANGES[mode][1] - level
    got = []
    for _ in range(5):
        h = clean + r.standard_normal(len(clean)) * 10 ** (-snr / 20)
        got.append(quiet(RA.reverb_time, ir(h * c["gain"], fs), mode)[0][0])
    want = reference(clean, fs, onset(clean), mode)
    err = np.median(np.abs(np.array(got) / want - 1))
    check(err < tol, "reverberation times", got, want)
    return f"{mode.name} {margin}"
