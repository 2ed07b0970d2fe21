"""C08: levels and gains are consistent decibel arithmetic.

Oracles: the definitions on the plain array; exact shifts under gain."""

import warnings

import numpy as np
import scipy.fft as sfft
import scipy.signal as sps
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks.c07 import expect, make, parts
from vt import gen
from vt.core import check, close, fail, raises, same, sub

PID = "C08"


def db(v):
    with np.errstate(divide="ignore"):
        return 20 * np.log10(np.abs(v))


OBJ = gen.fd(
    s=gen.sig(20, 300, 3, kinds=["noise", "sines", "decay", "dc", "ramp", "sparse", "impulse"]),
    obj=st.sampled_from(["sig", "ir", "mb"]),
    nb=st.integers(1, 3),
    cplx=st.just(False),
)


def stack(v, c):
    return np.array(v) if c["obj"] == "mb" else np.asarray(v[0])


@sub(PID, gen.fd(c=OBJ), quick=200)
def rms_and_crest(k):
    c = k["c"]
    o, x = make(c)
    r = stack([np.sqrt(np.mean(v**2, axis=0)) for v in x], c)
    p = stack([np.max(np.abs(v), axis=0) for v in x], c)
    close(dsp.rms(o, False), r, "rms", 1e-12)
    close(dsp.rms(o), db(r), "rms in dB", 0, 1e-9)
    close(dsp.rms(o, True), db(r), "rms in dB", 0, 1e-9)
    close(dsp.crest_factor(o, False), p / r, "crest factor", 1e-9)
    close(dsp.crest_factor(o), db(p / r), "crest factor in dB", 0, 1e-8)
    tp, pk = dsp.true_peak_level(o)
    close(pk, db(p), "peak level", 0, 1e-8)
    check(np.shape(tp) == np.shape(pk), "shape of true peak")
    close(dsp.crest_factor(o, True, True), tp - db(r), "crest factor with true peak", 0, 1e-8)
    close(dsp.crest_factor(o, False, True), 10 ** (tp / 20) / r, "crest factor with true peak", 1e-8)
    return c["obj"]


@sub(
    PID,
    gen.fd(
        n=st.integers(200, 800),
        fs=st.sampled_from(gen.FS),
        ch=st.integers(1, 3),
        seed=gen.seeds(),
        f=st.floats(0.02, 0.36),
        amp=st.sampled_from([1.0, 0.02, 3.0]),
        constrain=st.booleans(),
    ),
    quick=120,
)
def true_peak(c):
    """True peak of windowed tones: the maximum of the band-limited
    interpolation, found with four times oversampling."""
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    t = np.arange(n)[:, None]
    f = c["f"] * r.uniform(0.5, 1, c["ch"])
    x = c["amp"] * np.hanning(n)[:, None] * np.sin(2 * np.pi * f * t + r.uniform(0, 6.3, c["ch"]))
    s = dsp.Signal(None, x, c["fs"], constrain_amplitude=c["constrain"])
    x = s.time_data
    up = np.fft.irfft(np.concatenate([np.fft.rfft(x, 2 * n, axis=0), np.zeros((63 * n, c["ch"]))]),
                      128 * n, axis=0) * 64
    want = db(np.max(np.abs(up), axis=0))
    tp, pk = dsp.true_peak_level(s)
    check(np.all(tp <= want + 0.15), f"true peak {tp} above {want}")
    # four samples per old sample: cosine of at most an eighth of f
    low = want + db(np.cos(np.pi * f / 4)) - 0.15
    check(np.all(tp >= low), f"true peak {tp} below {low}")
    close(pk, db(np.max(np.abs(x), axis=0)), "peak", 0, 1e-8)
    free = dsp.Signal(None, x.copy(), c["fs"], constrain_amplitude=False)
    over = dsp.resample(free, c["fs"] * 4).time_data
    close(tp, db(np.max(np.abs(over), axis=0)), "largest sample of the oversampled signal", 0, 1e-4)
    g = 10 ** (r.uniform(-40, -1) / 20)
    tp2 = dsp.true_peak_level(dsp.Signal(None, x * g, c["fs"], constrain_amplitude=False))[0]
    close(tp2, tp + db(g), "true peak under gain", 0, 1e-6)
    return "constrained" if c["constrain"] else "free"


@sub(
    PID,
    gen.fd(
        c=gen.fd(s=gen.sig(20, 300, 3, kinds=["noise", "sines", "decay", "dc", "ramp", "sparse", "impulse"]), obj=st.sampled_from(["sig", "ir", "mb"]), nb=st.integers(1, 3), cplx=st.booleans()),
        target=st.sampled_from([-0.5, -6.0, -20.0, 0.0, -60.0, 3.0]),
        peak=st.booleans(),
        each=st.booleans(),
        constrain=st.booleans(),
    ),
    quick=250,
)
def normalize(k):
    c = k["c"]
    o, x = make(c)
    con = k["constrain"] and c["obj"] != "mb"
    if con:
        o.constrain_amplitude = True
        x = [gen.full(o)]
    want = []
    for v in x:
        ax = 0 if k["each"] else None
        u = v.real
        if np.any(np.max(np.abs(u), axis=ax) == 0):
            return None
        lv = np.max(np.abs(u), axis=ax) if k["peak"] else np.sqrt(np.mean(u**2, axis=ax))
        w = v * (10 ** (k["target"] / 20) / lv)
        top = max(np.max(np.abs(w.real)), np.max(np.abs(w.imag)))
        if con and top > 1:
            w = w / top
        want.append(w)
    out = dsp.normalize(o, k["target"], k["peak"], k["each"])
    expect(out, o, want, "normalize", 1e-9)
    return f"{'peak' if k['peak'] else 'rms'}-{'each' if k['each'] else 'all'}"


@sub(
    PID,
    gen.fd(
        s=gen.sig(20, 200, 3),
        obj=st.sampled_from(["sig", "ir", "mb"]),
        nb=st.integers(1, 3),
        cplx=st.booleans(),
        g=st.lists(st.floats(-60, 40).map(lambda v: round(v, 1)), min_size=3, max_size=3),
        vec=st.booleans(),
        constrain=st.booleans(),
    ),
    quick=250,
)
def gain_on_signals(c):
    o, x = make(c)
    con = c["constrain"] and c["obj"] != "mb"
    if con:
        o.constrain_amplitude = True
        x = [gen.full(o)]
    ch = x[0].shape[1]
    g = np.array(c["g"][:ch]) if c["vec"] else c["g"][0]
    want = [v * 10 ** (np.asarray(g) / 20) for v in x]
    if con:
        p = max(np.max(np.abs(want[0].real)), np.max(np.abs(want[0].imag)))
        want[0] = want[0] / max(p, 1.0)
    out = dsp.apply_gain(o, g)
    expect(out, o, want, f"apply_gain {g}", 1e-9)
    return f"{c['obj']}{'-vec' if c['vec'] else ''}{'-cplx' if c['cplx'] else ''}"


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        k=st.integers(1, 3),
        form=st.sampled_from(["fir", "ba", "sos", "zpk", "fb", "fbvec"]),
        g=st.lists(st.floats(-40, 30).map(lambda v: round(v, 1)), min_size=3, max_size=3),
        fs=st.sampled_from(gen.FS),
    ),
    quick=200,
)
def gain_on_filters(c):
    """The transfer function is scaled, nothing else."""
    r = np.random.default_rng(c["seed"])
    fs = c["fs"]
    sos = gen.stable_sos(c["seed"], c["k"], 0.9)
    z, p, kk = sps.sos2zpk(sos)
    b, a = sps.sos2tf(sos)
    f = np.linspace(0, fs / 2, 33)

    def one(form, seed):
        if form == "fir":
            return dsp.Filter.from_ba(np.random.default_rng(seed).standard_normal(7), [1.0], fs)
        if form == "ba":
            return dsp.Filter.from_ba(b.copy(), a.copy(), fs)
        if form == "sos":
            return dsp.Filter.from_sos(sos.copy(), fs)
        return dsp.Filter.from_zpk(z.copy(), p.copy(), kk, fs)

    def tf(flt):
        return np.squeeze(np.asarray(flt.get_transfer_function(f)))

    if c["form"] in ("fb", "fbvec"):
        filts = [one(t, c["seed"] + i) for i, t in enumerate(["fir", "sos", "ba"])]
        fb = dsp.FilterBank([x.copy() for x in filts])
        g = np.array(c["g"]) if c["form"] == "fbvec" else np.full(3, c["g"][0])
        out = dsp.apply_gain(fb, g if c["form"] == "fbvec" else c["g"][0])
        check(out.number_of_filters == 3, "number of filters")
        pairs = [(out.filters[i], filts[i], g[i]) for i in range(3)]
        raises(lambda: dsp.apply_gain(fb, np.zeros(2)), "wrong number of gains")
    else:
        flt = one(c["form"], c["seed"])
        pairs = [(dsp.apply_gain(flt, c["g"][0]), flt, c["g"][0])]
    for out, flt, g in pairs:
        ref = tf(flt)
        lin = 10 ** (g / 20)
        close(tf(out), ref * lin, "transfer function", 1e-8)
        check(out.is_fir == flt.is_fir and out.sampling_rate_hz == fs, "kind of filter")
        T = dsp.FilterCoefficientsType
        oz, op, ok = out.get_coefficients(T.Zpk)
        close(np.poly(np.atleast_1d(op)) if len(op) else np.ones(1),
              np.poly(flt.get_coefficients(T.Zpk)[1]) if len(op) else np.ones(1), "poles", 1e-6)
        bb, aa = out.get_coefficients(T.Ba)
        close(gen.freqz(bb, aa, f, fs), ref * lin, "coefficients", 1e-5)
        x = r.standard_normal((80, 2))
        s = dsp.Signal(None, x, fs, constrain_amplitude=False)
        close(out.filter_signal(s).time_data, flt.filter_signal(s).time_data * lin, "filtering", 1e-7)
        if not flt.is_fir:
            so = out.get_coefficients(T.Sos)
            close(gen.sosfreq(so, f, fs), ref * lin, "sections", 1e-5)
    return c["form"]


@sub(
    PID,
    gen.fd(
        shape=st.sampled_from([(5,), (4, 3), (1,)]),
        seed=gen.seeds(),
        amp=st.booleans(),
        zero=st.booleans(),
        dyn=st.sampled_from([None, None, 30.0, -30.0, 100.0]),
        minv=st.sampled_from(["default", None, 1e-3]),
    ),
    quick=200,
)
def decibels(c):
    r = np.random.default_rng(c["seed"])
    x = 10 ** r.uniform(-6, 4, c["shape"]) * r.choice([-1, 1], c["shape"])
    k = 20.0 if c["amp"] else 10.0
    d = k * np.log10(np.abs(x))
    t = dsp.tools
    close(t.from_db(d, c["amp"]), np.abs(x), "from_db", 1e-9)
    close(t.to_db(x, c["amp"]), d, "to_db", 0, 1e-9)
    close(t.to_db(t.from_db(d, c["amp"]), c["amp"]), d, "there and back", 0, 1e-8)
    if c["zero"]:
        x.flat[0] = 0.0
    kw = {} if c["minv"] == "default" else dict(min_value=c["minv"])
    m = np.finfo(float).smallest_normal if c["minv"] == "default" else c["minv"]
    if c["dyn"] is not None:
        m = np.max(np.abs(x)) * 10 ** (-abs(c["dyn"]) / k)
    y = t.to_db(x, c["amp"], c["dyn"], **kw)
    with np.errstate(divide="ignore"):
        want = k * np.log10(np.abs(x) if m is None else np.maximum(np.abs(x), m))
    close(y, want, "to_db with clipping", 0, 1e-8, nan_ok=True)
    return f"{c['dyn']}-{c['minv']}"


@sub(
    PID,
    gen.fd(
        s=gen.sig(1000, 3000, 3, kinds=["noise", "sines", "dc"]),
        tri=st.booleans(),
        eps=st.sampled_from([None, 1e-3, 0.1]),
        shape=st.booleans(),
        trunc=st.booleans(),
    ),
    quick=100,
)
def dithering(c):
    s = gen.mk(c["s"])
    x = s.time_data.copy()
    eps = c["eps"] if c["eps"] is not None else 5.960464477539063e-08
    kw = {} if c["eps"] is None else dict(epsilon=c["eps"])
    fb = None
    if c["shape"]:
        h = [0.5, -0.25]
        fb = dsp.FilterBank([dsp.Filter.from_ba(h, [1.0], s.sampling_rate_hz)] * 1)
    out = dsp.dither(s, c["tri"], noise_shaping_filterbank=fb, truncate=c["trunc"], **kw)
    check(out.time_data.shape == x.shape and out.sampling_rate_hz == s.sampling_rate_hz, "shape")
    y = out.time_data
    if c["trunc"]:
        same(y, y.astype(np.float16).astype(float), "not at 16 bits")
        # within half a step of the 16-bit floats plus the noise
        step = np.maximum(np.abs(x) * 2.0**-10, 2.0**-24)
        check(np.all(np.abs(y - x) <= step + (0.75 if fb else 1) * eps * 1.01), "truncation too coarse")
        return "truncated"
    d = y - x
    res = 4e-16 * np.max(np.abs(x))
    bound = eps if c["tri"] else eps / 2
    if fb:
        bound *= 0.75
    check(np.max(np.abs(d)) <= bound + res, f"noise {np.max(np.abs(d))} beyond {bound}")
    if eps > 1e-4:
        n = d.size
        var = eps**2 / 12 * (2 if c["tri"] else 1) * (0.3125 if fb else 1)
        check(abs(np.var(d) / var - 1) < 15 / np.sqrt(n), f"variance {np.var(d) / var}")
        check(abs(np.mean(d)) < 8 * np.sqrt(var / n), "mean of the noise")
        for i in range(d.shape[1]):
            for j in range(i):
                check(abs(np.corrcoef(d[:, i], d[:, j])[0, 1]) < 9 / np.sqrt(len(d)), "same noise in channels")
    return f"tri{c['tri']}"


@sub(
    PID,
    gen.fd(
        s=gen.sig(60, 400, 3, kinds=["noise", "sines", "decay", "ramp"]),
        obj=st.sampled_from(["sig", "mb"]),
        nb=st.integers(1, 2),
        cplx=st.just(False),
        analytic=st.booleans(),
        w=st.sampled_from([1, 2, 16, 33]),
    ),
    quick=120,
)
def envelopes(c):
    o, x = make(c)
    n = len(x[0])
    out = dsp.envelope(o, c["analytic"], None if c["analytic"] else c["w"])
    t = np.arange(n)
    want = []
    for v in x:
        v = v - np.stack([np.polyval(np.polyfit(t, v[:, i], 1), t) for i in range(v.shape[1])], 1)
        if c["analytic"]:
            X = np.fft.fft(v, axis=0)
            h = np.zeros(n)
            h[0] = 1
            h[1 : (n + 1) // 2] = 2
            if n % 2 == 0:
                h[n // 2] = 1
            want.append(np.abs(np.fft.ifft(X * h[:, None], axis=0)))
        else:
            p = np.concatenate([np.zeros((c["w"], v.shape[1])), np.cumsum(v**2, axis=0)])
            want.append(np.sqrt(np.maximum(p[c["w"] :] - p[: -c["w"]], 0) / c["w"]))
    want = np.stack(want, 1) if c["obj"] == "mb" else want[0]
    top = max(np.max(np.abs(v)) for v in x)
    if c["analytic"]:
        close(out, want, "envelope", 1e-8, 1e-11 * top)
    else:
        check(np.all(np.isfinite(out)), "not finite", None)
        close(out**2, want**2, "RMS envelope", 1e-9, 1e-11 * top**2)
    raises(lambda: dsp.envelope(o, False, None), "no window length")
    return f"analytic{c['analytic']}"


@sub(
    PID,
    gen.fd(
        fs=st.sampled_from([16000, 32000, 48000]),
        n=st.integers(20, 60),
        ch=st.integers(1, 3),
        cch=st.sampled_from([1, 1, 3, 2]),
        spl=st.sampled_from([94.0, 114.0, 100.0]),
        lev=st.lists(st.sampled_from([0.5, 0.05, 0.9]), min_size=3, max_size=3),
        snr=st.booleans(),
        mb=st.booleans(),
        add=st.booleans(),
        seed=gen.seeds(),
    ),
    quick=120,
)
def calibration(c):
    """The calibration tone itself gets the stated sound pressure level."""
    fs = c["fs"]
    per = fs // 1000
    n = per * c["n"]
    # whole periods and no zero-padding: the tone is in one bin
    while sfft.next_fast_len(n, True) != n or sfft.next_fast_len(n) != n:
        n += per
    t = np.arange(n) / fs
    lev = np.array(c["lev"][: c["cch"]])
    tone = np.sin(2 * np.pi * 1000 * t)[:, None] * lev
    r = np.random.default_rng(c["seed"])
    if not c["snr"]:
        tone = tone + 0.1 * lev * np.sin(2 * np.pi * 3000 * t)[:, None]
    sig = dsp.Signal(None, tone, fs)
    if c["cch"] > 1 and c["add"]:
        cal = dsp.CalibrationData(sig.get_channels(0), c["spl"], c["snr"])
        if c["seed"] % 2:
            # in use before it is complete
            cal.calibrate_signal(sig)
        for i in range(1, c["cch"]):
            cal.add_calibration_channel(sig.get_channels(i))
    else:
        cal = dsp.CalibrationData(sig.copy(), c["spl"], c["snr"])
    ch = c["ch"] if c["cch"] == 1 else c["cch"]
    x = 0.3 * r.standard_normal((50, ch))
    x = x / max(1.0, np.max(np.abs(x)))
    # a sound pressure above 1 Pa is no clipping
    s = dsp.Signal(None, x, fs, constrain_amplitude=bool(c["seed"] // 2 % 2))
    pa = 20e-6 * 10 ** (c["spl"] / 20)
    fac = pa / (lev / np.sqrt(2))
    tgt = dsp.MultiBandSignal([s, s.copy()]) if c["mb"] else s
    out = cal.calibrate_signal(tgt)
    for o in parts(out):
        close(o.time_data, x * fac, "calibrated samples", 1e-6)
        check(o.calibrated_signal and not o.constrain_amplitude, "flags")
    close(s.time_data, x, "input", 0)
    back = cal.calibrate_signal(dsp.Signal(None, tone[:, :1] if c["cch"] == 1 else tone, fs))
    if c["snr"]:
        close(20 * np.log10(dsp.rms(back, False) / 20e-6), np.full(c["cch"], c["spl"]), "level", 0, 1e-6)
    if c["cch"] > 1:
        raises(lambda: cal.calibrate_signal(dsp.Signal(None, np.ones((50, c["cch"] + 1)), fs)),
               "wrong number of channels")
    return f"snr{c['snr']}-{'mb' if c['mb'] else 'sig'}"


def k_weight(x):
    """Filters of ITU-R BS.1770 for 48 kHz."""
    x = sps.lfilter([1.53512485958697, -2.69169618940638, 1.19839281085285],
                    [1.0, -1.69065929318241, 0.73248077421585], x, axis=0)
    return sps.lfilter([1.0, -2.0, 1.0], [1.0, -1.99004745483398, 0.99007225036621], x, axis=0)


@sub(
    PID,
    gen.fd(
        ch=st.integers(1, 5),
        seed=gen.seeds(),
        f=gen.logfloats(60, 12000),
        kind=st.sampled_from(["tone", "noise", "gated", "steps", "steps"]),
        seg=st.lists(st.sampled_from([0, 0, -4, -8, -10, -12, -14, -17, -25, -90, -300]), min_size=8, max_size=8)
        # mostly silence, one loud part, one part around the relative gate
        | st.tuples(st.sampled_from([-4, -8, -14, -15, -17]), st.integers(1, 3)).flatmap(
            lambda v: st.permutations([0] + [v[0]] * v[1] + [-300] * (7 - v[1]))
        ),
        quiet=st.sampled_from([0.0, 0.0, -38.0, -44.0, -50.0]),
        g=st.floats(-30, 20).map(lambda v: round(v, 1)),
        lev=st.lists(st.sampled_from([0.3, 0.1, 0.03]), min_size=5, max_size=5),
        constrain=st.booleans(),
    ),
    quick=60,
)
def loudness(c):
    """Integrated loudness: the recommendation's filters and gates (48 kHz),
    exact shift under gain, weights of the channels."""
    fs, sec = 48000, 1.6
    n = int(fs * sec)
    r = np.random.default_rng(c["seed"])
    t = np.arange(n)[:, None] / fs
    lev = np.array(c["lev"][: c["ch"]])
    if c["kind"] == "noise":
        x = r.standard_normal((n, c["ch"])) * 0.3
    else:
        x = np.sin(2 * np.pi * c["f"] * t + r.uniform(0, 6, c["ch"]))
    x = x * lev
    if c["kind"] == "gated":
        x[n // 2 :] *= 10 ** (-35 / 20)
    elif c["kind"] == "steps":
        # long enough for whole blocks inside of each segment
        n = int(fs * 0.45) * 8
        x = r.standard_normal((n, c["ch"])) * lev * np.repeat(10 ** (np.array(c["seg"]) / 20), n // 8)[:, None]
        x *= 10 ** (c["quiet"] / 20)
    s = dsp.Signal(None, x, fs, constrain_amplitude=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = float(np.squeeze(dsp.lufs_integrated(s)))
    y = k_weight(x)
    T, st_ = int(0.4 * fs), int(0.1 * fs)
    G = np.array([1, 1, 1, 1.41, 1.41])[: c["ch"]]

    def integrated(frames):
        z = np.array([np.mean(y[k : k + T] ** 2, axis=0) for k in frames])
        l = -0.691 + 10 * np.log10(z @ G)
        if not np.any(l > -70):
            return np.nan
        gr = -0.691 + 10 * np.log10(np.mean(z[l > -70], axis=0) @ G) - 10
        # too close to a gate
        if np.any(np.abs(l - gr) < 0.3) or np.any(np.abs(l + 70) < 0.3):
            return np.nan
        return -0.691 + 10 * np.log10(np.mean(z[l > max(gr, -70)], axis=0) @ G)

    fr = list(range(0, n - T + 1, st_))
    with np.errstate(all="ignore"):
        cands = [integrated(fr), integrated(fr[:-1])]
    if c["kind"] == "steps":
        if np.any(np.isnan(cands)):
            return None
        check(min(cands) - 0.45 <= got <= max(cands) + 0.45, f"loudness {got}, expected {cands}")
        return "steps" + ("-quiet" if c["quiet"] else "")
    cands = [integrated(fr), integrated(fr[:-1])] if not np.any(np.isnan(cands)) else [got]
    check(min(cands) - 0.45 <= got <= max(cands) + 0.45, f"loudness {got}, expected {cands}")
    g = c["g"]
    s2 = dsp.Signal(None, x * 10 ** (g / 20), fs, constrain_amplitude=False)
    close(float(np.squeeze(dsp.lufs_integrated(s2))), got + g, "loudness under gain", 0, 1e-6)
    # weight of a channel: every channel alone
    if c["kind"] == "tone":
        one = x[:, :1]
        base = float(np.squeeze(dsp.lufs_integrated(dsp.Signal(None, one, fs, constrain_amplitude=False))))
        for i in range(1, c["ch"]):
            e = np.full((n, i + 1), 1e-12)
            e[:, i : i + 1] = one
            v = float(np.squeeze(dsp.lufs_integrated(dsp.Signal(None, e, fs, constrain_amplitude=False))))
            close(v, base + 10 * np.log10(G[i]), f"weight of channel {i}", 0, 1e-5)
    raises(lambda: dsp.lufs_integrated(dsp.Signal(None, np.ones((n, 6)) * 0.1, fs)), "six channels")
    return c["kind"]
