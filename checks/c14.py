"""C14: splitting filter banks put the signal back together.

Oracles: closed-form Butterworth magnitudes on the warped frequency axis, the
sum of all bands against (delayed) input or a flat magnitude, and direct
polynomial arithmetic for the two-band crossovers."""

import warnings

import numpy as np
import scipy.signal as sps
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks.c10 import build
from vt import gen
from vt import core
from vt.core import close, raises, same, sub
from vt.gen import full

PID = "C14"
M = dsp.FilterBankMode
T = dsp.FilterCoefficientsType
FB = dsp.filterbanks


def check(cond, msg, *extra):
    core.check(cond, f"{msg} {extra}" if extra else msg)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


# ------------------------------------------------------------ crossovers
@st.composite
def cross(draw, orders=(1, 2, 3, 4, 5, 7, 8, 12)):
    n = draw(st.integers(1, 4))
    fs = draw(st.sampled_from([1000, 8000, 16000, 44100, 48000, 96000]))
    lo = draw(gen.floats(0.004, 0.05, 4))
    gaps = draw(st.lists(gen.floats(1.3, 4.0, 2), min_size=n - 1, max_size=n - 1))
    f = lo * np.cumprod([1.0] + gaps)
    if f[-1] > 0.45:
        f = f * 0.45 / f[-1]
    o = draw(st.lists(st.sampled_from(orders), min_size=n, max_size=n))
    return dict(
        freqs=[round(float(v) * fs, 3) for v in f],
        orders=o,
        same=draw(st.booleans()),
        perm=draw(st.permutations(range(n))),
        fs=fs,
        ch=draw(st.integers(1, 3)),
        seed=draw(gen.seeds()),
        cplx=draw(st.booleans()),
        ir=draw(st.booleans()),
        zero=draw(st.sampled_from([False, False, True])),
    )


def _bank(c):
    fr = np.array(c["freqs"])
    o = np.array([c["orders"][0]] * len(fr) if c["same"] else c["orders"])
    p = np.array(c["perm"])
    arg = int(o[0]) if c["same"] else list(o[p])
    return quiet(FB.linkwitz_riley_crossovers, list(fr[p]), arg, c["fs"]), fr, o


def _mags(f, fs, fc, o, zero):
    """Magnitudes of low and high side of one crossover."""
    r = np.tan(np.pi * f / fs) / np.tan(np.pi * fc / fs)
    with np.errstate(over="ignore"):
        e = r ** (o if o % 2 == 0 else 2 * o)
    lo, hi = 1 / (1 + e), 1 - 1 / (1 + e)
    if o % 2 == 1 and not zero:
        lo, hi = np.sqrt(lo), np.sqrt(hi)
    return lo, hi


def _impulses(c, n, pos):
    """Every channel is an impulse at pos, with a different weight."""
    w = np.random.default_rng(c["seed"]).uniform(0.3, 2.0, c["ch"])
    w = w * np.where(np.arange(c["ch"]) % 2, -1, 1)
    x = np.zeros((n, c["ch"]))
    x[pos] = w
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    s = cls(None, x.copy(), c["fs"], constrain_amplitude=False)
    wi = 0.0
    if c["cplx"]:
        wi = w[::-1] * 0.7
        s.time_data_imaginary = np.where(x != 0, 1.0, 0.0) * wi
    return s, w + 1j * np.asarray(wi)


@sub(PID, cross(), quick=70, thorough=1500, cap=18)
def crossover_bands(c):
    """Bands have the nominal magnitude and their sum is flat / exact."""
    lr, fr, o = _bank(c)
    fs = c["fs"]
    # long enough for the lowest crossover to decay
    n = int(2 ** np.ceil(np.log2(25 * fs / fr[0])))
    n = min(max(n, 512), 2**16)
    pos = n // 2 if c["zero"] else 0
    s, w = _impulses(c, n, pos)
    before = full(s).copy()
    mb = lr.filter_signal(s, M.Parallel, zero_phase=c["zero"])
    same(full(s), before, "input changed")
    check(mb.number_of_bands == len(fr) + 1, "number of bands")
    check(type(mb.bands[0]) is type(s), "class of the bands")
    f = np.fft.fftfreq(n, 1 / fs)
    keep = np.abs(np.abs(f) - fs / 2) > 1e-9 * fs
    rest = np.ones(n)
    tot = 0.0
    for i in range(len(fr) + 1):
        b = full(mb.bands[i])
        check(b.shape == (n, c["ch"]), "band shape")
        B = np.fft.fft(b, axis=0)
        tot = tot + B
        if i < len(fr):
            lo, hi = _mags(np.abs(f), fs, fr[i], int(o[i]), c["zero"])
            want = rest * lo
            rest = rest * hi
        else:
            want = rest
        close(np.abs(B)[keep], (want[:, None] * np.abs(w))[keep],
              f"magnitude of band {i} (orders {o})", atol=2e-4)
        if c["zero"]:
            ref = B * np.exp(2j * np.pi * f * pos / fs)[:, None]
            close(ref[keep], (want[:, None] * w)[keep], f"zero-phase band {i}", atol=2e-4)
    if c["zero"]:
        close(np.fft.ifft(tot, axis=0), np.where(np.arange(n)[:, None] == pos, w, 0), "sum of zero-phase bands", atol=2e-4)
    else:
        close(np.abs(tot), np.abs(w) * np.ones((n, 1)), "sum of the bands is not flat", atol=2e-4)
    # every nominal crossing
    sm = lr.filter_signal(s, M.Summed, zero_phase=c["zero"])
    close(full(sm), np.fft.ifft(tot, axis=0), "summed mode is the sum of the bands", atol=1e-9)
    if len(fr) == 1:
        return "single"
    return "zero-phase" if c["zero"] else "several"


@sub(PID, cross(), quick=60, thorough=800)
def crossover_settings(c):
    lr, fr, o = _bank(c)
    close(lr.freqs, fr, "crossover frequencies are sorted")
    same(np.asarray(lr.order).astype(int), o, "orders follow their frequencies")
    check(lr.number_of_cross == len(fr) and lr.number_of_bands == len(fr) + 1, "numbers")
    check(lr.info["number_of_bands"] == len(fr) + 1, "info")
    edges = np.r_[0, fr, c["fs"] // 2]
    close(lr.center_frequencies, (edges[1:] + edges[:-1]) / 2, "center frequencies")
    cp = lr.copy()
    x = dsp.Signal(None, np.random.default_rng(c["seed"]).standard_normal((64, c["ch"])), c["fs"])
    a = lr.filter_signal(x)
    b = cp.filter_signal(x)
    for p, q in zip(a.bands, b.bands):
        same(full(p), full(q), "copy filters differently")
    # the impulse response is the response to an impulse
    ir = lr.get_ir(64)
    d = dsp.generators.dirac(64, c["fs"])
    e = lr.filter_signal(d)
    for p, q in zip(ir.bands, e.bands):
        same(full(p), full(q), "get_ir")
    for zero in (False, True):
        p = lr.get_ir(64, M.Summed, zero_phase=zero)
        q = lr.filter_signal(d, M.Summed, zero_phase=zero)
        same(full(p), full(q), f"get_ir of the sum, zero phase {zero}")
    # refusals
    raises(lambda: lr.filter_signal(
        dsp.Signal(None, np.ones((64, 1)), c["fs"] * 2)), "wrong sampling rate")
    raises(lambda: quiet(FB.linkwitz_riley_crossovers, [c["fs"]], 4, c["fs"]), "crossover above nyquist")
    raises(lambda: quiet(FB.linkwitz_riley_crossovers, fr, list(o) + [4, 4], c["fs"]), "too many orders")
    raises(lambda: quiet(FB.linkwitz_riley_crossovers, fr, 6, c["fs"]), "order 6")
    return "ok"


@sub(PID, cross(), quick=50, thorough=600)
def crossover_blocks(c):
    """The streamed bands always sum to the same all-pass, in any block sizes."""
    lr, fr, o = _bank(c)
    lr2, _, _ = _bank(c)
    r = np.random.default_rng(c["seed"])
    n = 240
    x = r.standard_normal((n, c["ch"]))
    cuts = np.sort(r.choice(np.arange(c["ch"] + 1, n - c["ch"] - 1, 4 * c["ch"]), 2, replace=False))
    whole = lr.filter_signal(dsp.Signal(None, x.copy(), c["fs"], constrain_amplitude=False), activate_zi=True)
    parts = [lr2.filter_signal(dsp.Signal(None, p.copy(), c["fs"], constrain_amplitude=False), activate_zi=True)
             for p in np.split(x, cuts)]
    for i in range(len(fr) + 1):
        got = np.concatenate([full(p.bands[i]) for p in parts])
        close(got, full(whole.bands[i]), f"block-wise band {i}", rtol=1e-7, atol=1e-9)
    # A signal with another number of channels starts with fresh states
    m = c["ch"] % 3 + 1
    if m != c["ch"]:
        lr3, _, _ = _bank(c)
        s = dsp.Signal(None, r.standard_normal((60, m)), c["fs"], constrain_amplitude=False)
        a, b = (q.filter_signal(s, activate_zi=True) for q in (lr2, lr3))
        for i in range(len(fr) + 1):
            close(full(a.bands[i]), full(b.bands[i]), f"band {i}: {m} channels after {c['ch']}", rtol=1e-7, atol=1e-9)
    return "ok"


# ------------------------------------------------------------ octave bands
@st.composite
def octaves(draw):
    fs = draw(st.sampled_from([8000, 16000, 44100, 48000, 96000]))
    lo = draw(gen.floats(40, 400, 1))
    hi = min(lo * draw(gen.floats(2.5, 30, 2)), 0.47 * fs)
    if draw(st.integers(0, 3)) == 0:
        hi = round(draw(gen.floats(0.38, 0.49, 3)) * fs, 1)
    return dict(
        lo=lo, hi=round(float(hi), 2), fs=fs,
        b=draw(st.sampled_from([1, 1, 2, 3, 3, 4, 6])),
        order=draw(st.integers(2, 8)),
        rev=draw(st.booleans()),
        seed=draw(gen.seeds()),
    )


@sub(PID, octaves(), quick=60, thorough=1200)
def octave_bands(c):
    """Butterworth bands with -3 dB at the returned edges, steep outside."""
    rng = [c["lo"], c["hi"]]
    arg = rng[::-1] if c["rev"] else rng
    try:
        fb, fc, (lo, hi) = quiet(FB.fractional_octave_bands, arg, c["b"], c["order"], c["fs"])
    except ValueError as e:
        if len(quiet(dsp.tools.fractional_octave_frequencies, c["b"], tuple(rng))[1]) == 0:
            return None
        raise
    fc, lo, hi = map(np.asarray, (fc, lo, hi))
    if len(fc) == 0:
        return None
    check(fb.number_of_filters == len(fc) == len(lo) == len(hi), "number of bands")
    G = 10**0.3
    b = c["b"]
    # every center is a step of 1/b octave away from the 1 kHz reference
    step = np.log2(fc / 1000.0) * b
    if b in (1, 3):
        step = np.log(fc / 1000.0) / np.log(G) * b
    close(step, np.round(step), "centers", atol=1e-6)
    close(np.diff(np.round(step)), np.ones(len(fc) - 1), "no band is missing")
    close(hi, fc * G ** (0.5 / b), "upper edges", rtol=1e-6)
    close(lo, fc * G ** (-0.5 / b), "lower edges", rtol=1e-6)
    # all centers lie in the range (nominal centers are rounded by 2.5 %)
    tol = G ** (0.52 / b)
    check(np.all(fc > rng[0] / tol) and np.all(fc < rng[1] * tol), "band outside of the range", fc)
    check(fc[0] < rng[0] * G ** (1.1 / b) and fc[-1] > min(rng[1], 16000.0) / G ** (1.1 / b), "range is not covered", fc)
    fs = c["fs"]
    top = False
    for i, f in enumerate(fb.filters):
        fr = np.unique(np.clip(np.r_[lo[i], hi[i], fc[i], fc[i] * 2.0 ** np.linspace(-3, 3, 37)], 1.0, 0.495 * fs))
        W = np.tan(np.pi * fr / fs)
        w1 = np.tan(np.pi * lo[i] / fs)
        if hi[i] > fs // 2:
            q = w1 / W
            top = True
        else:
            w2 = np.tan(np.pi * hi[i] / fs)
            q = (W**2 - w1 * w2) / (W * (w2 - w1))
        want = 1 / np.sqrt(1 + np.abs(q) ** (2 * c["order"]))
        got = np.abs(f.get_transfer_function(fr))
        close(got, want, f"band {fc[i]:.1f} Hz", atol=1e-4, rtol=1e-3)
    raises(lambda: FB.fractional_octave_bands(rng, b, c["order"], None), "no sampling rate")
    raises(lambda: FB.fractional_octave_bands([c["lo"], fs / 2], b, c["order"], fs), "range above nyquist")
    return "top band" if top else "ok"


@sub(PID, octaves(), quick=40, thorough=600)
def octave_bands_filter(c):
    """Tones come out of their own band and are rejected by the others."""
    fs = c["fs"]
    fb, fc, (lo, hi) = quiet(FB.fractional_octave_bands, [c["lo"], c["hi"]], c["b"], c["order"], fs)
    if len(fc) == 0:
        return None
    r = np.random.default_rng(c["seed"])
    k = int(r.integers(len(fc)))
    if hi[k] > fs // 2:
        return None
    n = int(min(max(60 * c["order"] * c["b"] * fs / fc[k], 2000), 120000))
    x = np.sin(2 * np.pi * fc[k] * np.arange(n) / fs)[:, None]
    mb = fb.filter_signal(dsp.Signal(None, x, fs), M.Parallel)
    tail = slice(n // 2, None)
    lev = [np.sqrt(2 * np.mean(b.time_data[tail, 0] ** 2)) for b in mb.bands]
    for i in range(len(fc)):
        W = np.tan(np.pi * fc[k] / fs)
        w1 = np.tan(np.pi * lo[i] / fs)
        q = w1 / W if hi[i] > fs // 2 else (
            (W**2 - w1 * np.tan(np.pi * hi[i] / fs)) / (W * (np.tan(np.pi * hi[i] / fs) - w1)))
        want = 1 / np.sqrt(1 + np.abs(q) ** (2 * c["order"]))
        close(lev[i], want, f"tone {fc[k]:.0f} Hz in band {fc[i]:.0f} Hz", atol=0.02)
    return "ok"


@st.composite
def antoni(draw):
    fs = draw(st.sampled_from([8000, 16000, 44100, 48000]))
    n = 2 ** draw(st.integers(8, 13))
    b = draw(st.sampled_from([1, 1, 2, 3, 6]))
    lo = min(max(12.0 * b * fs / n, 60.0) * draw(gen.floats(1.0, 3.0, 2)), 0.3 * fs)
    hi = min(lo * draw(gen.floats(2.2, 60, 1)), max(0.6 * fs, 2.2 * lo))
    return dict(fs=fs, n=n, b=b, lo=round(lo, 2), hi=round(float(hi), 2),
                overlap=draw(st.sampled_from([1.0, 0.0, 0.5]) | gen.floats(0, 1, 2)),
                slope=draw(st.integers(0, 3)), seed=draw(gen.seeds()), ch=draw(st.integers(1, 2)))


@sub(PID, antoni(), quick=60, thorough=1200)
def reconstructing_bands(c):
    """Sum of bands is the delayed input; linear phase; nominal edges."""
    fs, n = c["fs"], c["n"]
    _, fc, (lo, hi) = dsp.tools.fractional_octave_frequencies(c["b"], (c["lo"], c["hi"]), return_cutoff=True)
    use = fc < fs / 2
    fc, lo, hi = fc[use], lo[use], hi[use]
    if len(fc) < 1 or (hi[0] - lo[0]) * n / fs < 8:
        return None
    fb = quiet(FB.reconstructing_fractional_octave_bands, [c["lo"], c["hi"]], c["b"], c["overlap"], c["slope"], n, fs)
    check(fb.number_of_filters == len(fc), "number of bands", fb.number_of_filters, len(fc))
    h = np.array([f.ba[0] for f in fb.filters])
    check(h.shape == (len(fc), n), "filter length")
    top = sps.windows.hann(n)[n // 2]
    want = np.zeros(n)
    want[n // 2] = top
    close(h.sum(axis=0), want, "sum of bands is a delayed impulse", atol=1e-9)
    # a signal is returned delayed
    r = np.random.default_rng(c["seed"])
    x = r.standard_normal((n + 200, c["ch"]))
    y = fb.filter_signal(dsp.Signal(None, x.copy(), fs, constrain_amplitude=False), M.Summed)
    close(y.time_data[n // 2:], x[: -n // 2] * top, "summed output is the delayed input", atol=1e-8)
    # linear phase
    close(h[:, 1:], h[:, 1:][:, ::-1], "linear phase", atol=2e-2)
    df = fs / n
    f = np.linspace(0, fs / 2, 4 * n + 1)
    Hs = np.abs(np.fft.rfft(h, 8 * n, axis=1))
    for i in range(len(fc)):
        lo_t = lo[i] if i > 0 else None
        hi_t = lo[i + 1] if i + 1 < len(fc) else None
        inside = np.ones(len(f), bool)
        out = np.zeros(len(f), bool)
        for edge, j, sign in ((lo_t, i, 1), (hi_t, i + 1, -1)):
            if edge is None:
                continue
            half = c["overlap"] / 2 * (hi[j] - fc[j])
            inside &= sign * (f - edge) > half + 4 * df
            out |= sign * (f - edge) < -(half + 4 * df)
            P = np.round(c["overlap"] / 2 * (np.round(hi[j] / df) - np.round(fc[j] / df)))
            if P >= 4:
                at = np.interp(edge, f, Hs[i])
                slack = 0.5 / P * (np.pi / 2) ** (c["slope"] + 1) + 0.02
                close(at, 0.5, f"edge {edge:.1f} Hz of band {i}", atol=slack)
            if P >= 8 * (np.pi / 2) ** c["slope"]:
                # shape of the transition: sines nested as often as asked
                t = np.linspace(-0.8, 0.8, 9)
                phi = t
                for _ in range(c["slope"]):
                    phi = np.sin(np.pi / 2 * phi)
                at = np.interp((np.round(edge / df) + t * P) * df, f, Hs[i])
                close(at, np.sin(np.pi / 4 * (1 + sign * phi)) ** 2, f"transition at {edge:.1f} Hz of band {i}", atol=0.03)
        if inside.any():
            close(Hs[i][inside], np.ones(inside.sum()), f"pass band {i}", atol=0.03)
        if out.any():
            close(Hs[i][out], np.zeros(out.sum()), f"stop band {i}", atol=0.03)
    raises(lambda: FB.reconstructing_fractional_octave_bands([c["lo"], c["hi"]], 1, 1.2, 0, n, fs), "overlap")
    raises(lambda: FB.reconstructing_fractional_octave_bands([c["lo"], c["hi"]], 1, 1.0, -1, n, fs), "slope")
    raises(lambda: FB.reconstructing_fractional_octave_bands([c["lo"], c["hi"]], 1, 1.0, 0, n + 1, fs), "length")
    return "single" if len(fc) == 1 else "several"


# ------------------------------------------------------------ two-band QMF
QMF = st.fixed_dictionaries(
    dict(
        seed=gen.seeds(),
        k=st.integers(1, 2),
        form=st.sampled_from(["fir", "fir", "fir1", "sos", "zpk", "ba"]),
        odd=st.booleans(),
        taps=st.integers(2, 24),
        lead=st.just(0),
        fs=st.sampled_from([8000, 44100, 48000, 96000]),
        rmax=st.just(0.85),
        n=st.integers(12, 200),
        ch=st.integers(1, 3),
        ir=st.booleans(),
    )
)


def _lowpass(c):
    if c["form"] == "fir1":
        h = np.random.default_rng(c["seed"]).uniform(0.2, 1.0, 2)
        return dsp.Filter.from_ba(h, [1.0], c["fs"]), h, np.ones(1)
    return build(c)


def _neg(p):
    p = np.array(p)
    return p * (-1.0) ** np.arange(len(p))


@sub(PID, QMF, quick=120, thorough=2500)
def qmf(c):
    """Analysis and synthesis: T(z) = H0(z)^2 - H0(-z)^2, with no aliasing."""
    lp, b, a = _lowpass(c)
    fb = quiet(FB.qmf_crossover, lp)
    # the highpass is the mirrored lowpass
    f = np.linspace(0.01, 0.49, 40) * c["fs"]
    H0 = gen.freqz(b, a, f, c["fs"])
    Hm = gen.freqz(b, a, c["fs"] / 2 - f, c["fs"])
    close(fb.filters[0].get_transfer_function(f), H0, "analysis lowpass", rtol=1e-6, atol=1e-8)
    close(np.abs(fb.filters[1].get_transfer_function(f)), np.abs(Hm), "mirrored highpass", rtol=1e-6, atol=1e-8)
    x = np.random.default_rng(c["seed"] + 1).standard_normal((max(c["n"], c["ch"] * 4), c["ch"]))
    n = len(x)
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    s = cls(None, x.copy(), c["fs"], constrain_amplitude=False)
    half = 0 if len(a) > 1 else (len(b) - 1) // 2
    pad = np.concatenate([x, np.zeros((8 * len(b) + 40, c["ch"]))])
    bn, an = _neg(b), _neg(a)
    x0, x1 = sps.lfilter(b, a, pad, axis=0), sps.lfilter(bn, an, pad, axis=0)
    ref = sps.lfilter(b, a, x0, axis=0) - sps.lfilter(bn, an, x1, axis=0)
    sc = max(1.0, np.max(np.abs(x0)), np.max(np.abs(ref)))
    mb = fb.filter_signal(s, M.Parallel)
    close(mb.bands[0].time_data, x0[:n], "low band", atol=1e-7 * sc)
    close(mb.bands[1].time_data, x1[:n], "high band", atol=1e-7 * sc)
    y = fb.reconstruct_signal(mb, upsample=False)
    # FIR synthesis filters take out their own delay
    m = min(y.length_samples, n - half)
    check(y.length_samples == n, "length of the reconstruction")
    close(y.time_data[:m], ref[half : half + m], "reconstruction at the full rate", atol=1e-6 * sc)
    md = fb.filter_signal(s, M.Parallel, downsample=True)
    check(md.sampling_rate_hz == c["fs"] // 2, "decimated sampling rate")
    k = -(-n // 2)
    check(md.bands[0].length_samples == k, "decimated length", md.bands[0].length_samples, n)
    close(md.bands[0].time_data, x0[half::2][:k], "decimated low band", atol=1e-7 * sc)
    close(md.bands[1].time_data, x1[half::2][:k], "decimated high band", atol=1e-7 * sc)
    z = fb.reconstruct_signal(md, upsample=True)
    check(z.sampling_rate_hz == c["fs"], "rate of the reconstruction")
    check(z.length_samples in (n, n + n % 2), "length of the reconstruction", z.length_samples, n)
    # away from both ends the output is that of the linear, time-invariant T(z)
    L = len(b) if len(a) == 1 else 0
    i0, i1 = L + 2 * half, z.length_samples - L - 2 * half
    if len(a) > 1:
        i0, i1 = 0, n - 1
    lab = c["form"]
    if i1 > i0:
        close(z.time_data[i0:i1], ref[i0 + 2 * half : i1 + 2 * half], "aliasing is not cancelled", atol=1e-6 * sc)
    else:
        lab += " short"
    if c["form"] == "fir1":
        pr = np.zeros_like(x)
        pr[1:] = 4 * b[0] * b[1] * x[:-1]
        close(z.time_data[: n - 1], pr[: n - 1], "first-order FIR reconstructs perfectly", atol=1e-9)
    return lab


@sub(PID, QMF, quick=40, thorough=500)
def qmf_sums(c):
    """The summed modes are the sums of both bands."""
    lp, b, a = _lowpass(c)
    fb = quiet(FB.qmf_crossover, lp)
    x = np.random.default_rng(c["seed"] + 1).standard_normal((max(c["n"], c["ch"] * 4), c["ch"]))
    s = dsp.Signal(None, x.copy(), c["fs"], constrain_amplitude=False)
    n = len(x)
    half = 0 if len(a) > 1 else (len(b) - 1) // 2
    pad = np.concatenate([x, np.zeros((len(b) + 4, c["ch"]))])
    x0 = sps.lfilter(b, a, pad, axis=0)
    x1 = sps.lfilter(_neg(b), _neg(a), pad, axis=0)
    sc = max(1.0, np.max(np.abs(x0)))
    close(fb.filter_signal(s, M.Summed).time_data, (x0 + x1)[:n], "summed", atol=1e-7 * sc)
    q = fb.filter_signal(s, M.Summed, downsample=True)
    check(q.sampling_rate_hz == c["fs"] // 2, "rate")
    close(q.time_data, (x0 + x1)[half::2][: -(-n // 2)], "summed and decimated", atol=1e-7 * sc)
    close(s.time_data, x, "input changed")
    raises(lambda: fb.filter_signal(s, M.Parallel, downsample=True, zero_phase=True), "zero phase")
    raises(lambda: fb.reconstruct_signal(dsp.MultiBandSignal([s, s, s])), "three bands")
    return c["form"]


# ------------------------------------------------------------ complement
@sub(PID, st.fixed_dictionaries(dict(
    taps=st.integers(3, 200), kind=st.sampled_from(["low", "high", "band", "stop"]),
    f1=gen.floats(0.06, 0.2, 3), df=gen.floats(0.05, 0.2, 3), gain=st.sampled_from([1.0, 1.0, -1.0, 0.5]),
    fs=st.sampled_from([1000, 44100, 48000]), seed=gen.seeds())), quick=150, thorough=3000)
def complement(c):
    n = c["taps"]
    if n % 2 == 0 and c["kind"] in ("high", "stop"):
        n += 1
    cut = c["f1"] * 2 if c["kind"] in ("low", "high") else [c["f1"] * 2, (c["f1"] + c["df"]) * 2]
    h = sps.firwin(n, cut, pass_zero={"low": "lowpass", "high": "highpass", "band": "bandpass", "stop": "bandstop"}[c["kind"]])
    h = h * c["gain"]
    f = dsp.Filter.from_ba(h.copy(), [1.0], c["fs"])
    g = FB.complementary_fir_filter(f)
    same(f.ba[0], h, "prototype changed")
    check(g.sampling_rate_hz == c["fs"] and g.is_fir, "kind of filter")
    t = h + g.ba[0]
    check(g.ba[0].shape == h.shape, "length")
    if n % 2:
        want = np.zeros(n)
        want[np.argmax(np.abs(h))] = 1
        check(np.argmax(np.abs(h)) == n // 2, "harness: center")
        close(t, want, "filter and complement sum to a delay", atol=1e-12)
        lab = "odd"
    else:
        # half-sample delay: linear phase, flat up to the transition of the window
        close(t, t[::-1], "symmetry", atol=1e-9)
        w = np.linspace(0, np.pi, 400)
        Ht = np.abs(sps.freqz(t, 1, w)[1])
        keep = w < np.pi - 26.0 / n
        if keep.sum() < 10:
            return None
        close(Ht[keep], np.ones(keep.sum()), "even-length sum is flat", atol=4e-3)
        lab = "even"
    # through signals
    x = np.random.default_rng(c["seed"]).standard_normal((300, 2))
    s = dsp.Signal(None, x, c["fs"], constrain_amplitude=False)
    y = f.filter_signal(s).time_data + g.filter_signal(s).time_data
    close(y, sps.lfilter(t, 1, x, axis=0), "sum of the filtered signals", atol=1e-9)
    iir = dsp.Filter.iir_filter(2, 0.1 * c["fs"], dsp.FilterPassType.Lowpass, c["fs"])
    raises(lambda: FB.complementary_fir_filter(iir), "IIR prototype")
    return lab


# ------------------------------------------------------------ auditory bands
@st.composite
def auditory(draw):
    fs = draw(st.sampled_from([8000, 16000, 22050, 44100, 48000]))
    lo = draw(gen.floats(60, 900, 1))
    hi = draw(gen.floats(1100, 0.42 * fs, 1))
    return dict(fs=fs, lo=lo, hi=hi, res=draw(st.sampled_from([1.0, 0.5, 0.75, 1.5])),
                ch=draw(st.integers(1, 3)), seed=draw(gen.seeds()), ir=draw(st.booleans()),
                rev=draw(st.booleans()))


def erb(f):
    return 9.2645 * np.log(1 + 0.00437 * f)


@sub(PID, auditory(), quick=30, thorough=400, cap=20)
def gammatone_bands(c):
    """Each band is the fourth-order complex resonator at its centre."""
    fs = c["fs"]
    rng = [c["hi"], c["lo"]] if c["rev"] else [c["lo"], c["hi"]]
    fb = FB.auditory_filters_gammatone(rng, c["res"], fs)
    # all ERB steps around 1 kHz within the range
    k = np.arange(-200, 201) * c["res"] + erb(1000.0)
    fc = (np.exp(k / 9.2645) - 1) / 0.00437
    fc = fc[(fc >= c["lo"] - 1e-9) & (fc <= c["hi"] + 1e-9)]
    check(fb.number_of_filters == len(fc), "number of bands", fb.number_of_filters, len(fc))
    n = 1200
    d = dsp.generators.dirac(n, fs)
    mb = fb.filter_signal(d, M.Parallel)
    m = np.arange(n)
    for i in range(len(fc)):
        bw = (24.7 + fc[i] / 9.265) / (np.pi * 720 / 64 / 36)
        lam = np.exp(-2 * np.pi * bw / fs)
        ref = 2 * (1 - lam) ** 4 * (m + 1) * (m + 2) * (m + 3) / 6 * lam**m * np.exp(2j * np.pi * fc[i] * m / fs)
        close(full(mb.bands[i])[:, 0], ref, f"band {i} at {fc[i]:.1f} Hz", atol=1e-8)
    raises(lambda: FB.auditory_filters_gammatone([c["lo"], fs], 1, fs), "above nyquist")
    raises(lambda: FB.auditory_filters_gammatone([c["lo"], c["hi"]], 1, None), "no rate")
    return "ok"


@sub(PID, auditory(), quick=30, thorough=400, cap=20)
def gammatone_reconstruct(c):
    """Resynthesis is the input 4 ms later, within the range of the bank."""
    fs = c["fs"]
    fb = FB.auditory_filters_gammatone([c["lo"], c["hi"]], c["res"], fs)
    k = np.arange(-200, 201) * c["res"] + erb(1000.0)
    fc = (np.exp(k / 9.2645) - 1) / 0.00437
    fc = fc[(fc >= c["lo"]) & (fc <= c["hi"])]
    n = fs // 4
    x = np.zeros((n, c["ch"]))
    w = np.random.default_rng(c["seed"]).uniform(0.5, 2, c["ch"]) * np.where(np.arange(c["ch"]) % 2, -1, 1)
    x[0] = w
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    s = cls(None, x, fs, constrain_amplitude=False)
    mb = fb.filter_signal(s, M.Parallel)
    y = fb.reconstruct(mb)
    check(y.time_data.shape == x.shape, "shape", y.time_data.shape)
    check(y.time_data_imaginary is None, "resynthesis is real")
    check(type(y) is cls and y.sampling_rate_hz == fs, "class")
    h = y.time_data / w
    close(h, h[:, :1] * np.ones((1, c["ch"])), "channels are treated differently", atol=1e-9)
    h = h[:, 0]
    H = lambda f: np.exp(-2j * np.pi * np.outer(f, np.arange(n)) / fs) @ h
    # exact magnitude at the center frequencies
    close(np.abs(H(fc)), np.ones(len(fc)), "magnitude at the center frequencies", atol=0.006)
    d = round(0.004 * fs)
    if fc[-1] > 1500:
        check(abs(int(np.argmax(np.abs(h))) - d) <= 1, "delay of 4 ms", int(np.argmax(np.abs(h))), d)
    if c["res"] <= 1 and len(fc) > 3:
        f = np.linspace(max(fc[0], 700), fc[-2], 160)
        if len(f) and f[-1] > 701:
            G = H(f) * np.exp(2j * np.pi * f * d / fs)
            close(20 * np.log10(np.abs(G)), np.zeros(len(f)), "magnitude in the range / dB", atol=1.2)
            check(np.max(np.abs(np.angle(G))) < np.deg2rad(40), "phase in the range", np.rad2deg(np.max(np.abs(np.angle(G)))))
    # far above the range nothing is left
    if fc[-1] * 2.2 < 0.45 * fs:
        far = np.linspace(fc[-1] * 2.2, 0.45 * fs, 20)
        check(np.max(np.abs(H(far))) < 0.1, "attenuation above the range", np.max(np.abs(H(far))))
    # causal: what comes later does not alter what was already there
    late = mb.copy()
    k = n // 3
    for b in late.bands:
        t, z = b.time_data.copy(), b.time_data_imaginary.copy()
        t[k:] += w
        z[k:] -= w
        b.time_data, b.time_data_imaginary = t, z
    q = fb.reconstruct(late)
    close(q.time_data[:k], y.time_data[:k], "causality", rtol=1e-9, atol=1e-12)
    check(np.max(np.abs(q.time_data[k:] - y.time_data[k:])) > 0, "later samples are ignored")
    # nothing before the delay
    raises(lambda: fb.reconstruct(dsp.MultiBandSignal([s] * len(fc))), "bands without imaginary part")
    return f"res {c['res']}"
