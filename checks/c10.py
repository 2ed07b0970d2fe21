"""C10: all representations of a filter describe the same filter.

Oracles: the difference equation run sample by sample in plain python, direct
evaluation of the polynomials, the analytic derivative of the phase."""

import warnings

import numpy as np
import scipy.signal as sps
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks.c07 import expect, make
from vt import gen
from vt.core import check, close, fail, raises, same, sub

PID = "C10"
T = dsp.FilterCoefficientsType
FORMS = ["ba", "sos", "zpk", "fir", "fir", "first", "cfir"]


def build(c):
    """(Filter, b, a): the filter and its polynomials in z^-1."""
    r = np.random.default_rng(c["seed"])
    fs, k = c["fs"], c["k"]
    rm = c.get("rmax", 0.95)
    sos = gen.stable_sos(c["seed"], k, rm)
    if c["form"] == "sos":
        if c["odd"]:
            # one section of first order, perhaps one without poles
            if k > 1 and r.integers(2):
                sos[0, 4:] = 0
            sos[-1] = [r.uniform(0.3, 1), r.uniform(-1, 1), 0, 1, r.uniform(-rm, rm), 0]
        f = dsp.Filter.from_sos(sos.copy(), fs)
        b, a = np.ones(1), np.ones(1)
        for s in sos:
            b, a = np.convolve(b, s[:3]), np.convolve(a, s[3:])
        return f, b, a
    b, a = np.ones(1), np.ones(1)
    for s in sos:
        b, a = np.convolve(b, s[:3]), np.convolve(a, s[3:])
    if c["form"] == "ba":
        if c["odd"]:
            # unequal lengths, a[0] != 1
            cut = r.integers(0, len(b))
            b = b[: len(b) - cut]
            g = r.uniform(0.5, 2) * r.choice([1, -1])
            b, a = b * g, a * g
        elif r.integers(3) == 0:
            # trailing zeros are no coefficients
            return dsp.Filter.from_ba(b.copy(), np.r_[a, np.zeros(r.integers(1, 4))], fs), b, a
        return dsp.Filter.from_ba(b.copy(), a.copy(), fs), b, a
    if c["form"] == "first":
        b, a = r.uniform(-1, 1, 2), np.array([1.0, r.uniform(-rm, rm)])
        return dsp.Filter.from_ba(b.copy(), a.copy(), fs), b, a
    if c["form"] == "zpk":
        z = np.concatenate([np.roots(s[:3]) for s in sos])
        p = np.concatenate([np.roots(s[3:]) for s in sos])
        g = float(np.prod(sos[:, 0]))
        if c["odd"]:
            q, w = r.uniform(-rm, rm, 2)
            z, p = np.r_[z, q], np.r_[p, w]
            b, a = np.convolve(b, [1, -q]), np.convolve(a, [1, -w])
        return dsp.Filter.from_zpk(z.copy(), p.copy(), g, fs), b, a
    L = c["taps"]
    b = r.standard_normal(L)
    if c["form"] == "cfir":
        b = b + 1j * r.standard_normal(L)
    if c["lead"] and L > 2:
        b[: c["lead"] % (L - 1)] = 0
    g = r.uniform(0.5, 2) * r.choice([1, -1]) if c["odd"] else 1.0
    f = dsp.Filter.from_ba(b * g, [g, 0.0][: r.integers(1, 3)], fs)
    f.warning_if_complex = False
    return f, b, np.ones(1)


def filt(forms=FORMS, k=3, taps=12, **kw):
    return gen.fd(
        seed=gen.seeds(),
        k=st.integers(1, k),
        form=st.sampled_from(forms),
        odd=st.booleans(),
        taps=st.integers(1, taps),
        lead=st.sampled_from([0, 0, 0, 1, 3]),
        fs=st.sampled_from(gen.FS),
        **kw,
    )


def diff_eq(b, a, x):
    """y[n] = (sum b x - sum a y) / a0, written out."""
    y = np.zeros(x.shape, np.result_type(b, x, float))
    for n in range(len(x)):
        v = np.zeros(x.shape[1], y.dtype)
        for k in range(min(n + 1, len(b))):
            v = v + b[k] * x[n - k]
        for k in range(1, min(n + 1, len(a))):
            v = v - a[k] * y[n - k]
        y[n] = v / a[0]
    return y


def H(b, a, f, fs):
    return gen.freqz(b, a, f, fs)


def label(c):
    return c["form"] + ("-odd" if c["odd"] else "")


@sub(PID, gen.fd(c=filt(k=4)), quick=400)
def representations(k):
    """Every representation evaluates to the same transfer function."""
    c = k["c"]
    flt, b, a = build(c)
    fs = c["fs"]
    f = np.linspace(0, fs / 2, 41)
    ref = H(b, a, f, fs)
    top = np.max(np.abs(ref))
    close(flt.get_transfer_function(f), ref, "get_transfer_function", 1e-8)
    check(flt.is_fir == (c["form"] in ("fir", "cfir")) and flt.is_iir != flt.is_fir, "FIR or IIR")
    check(flt.sampling_rate_hz == fs and flt.metadata["sampling_rate_hz"] == fs, "rate")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bb, aa = flt.get_coefficients(T.Ba)
        close(H(bb, aa, f, fs), ref, "ba", 1e-7)
        z, p, g = flt.get_coefficients(T.Zpk)
        # up to roots in the origin, which scipy leaves out
        e = np.exp(2j * np.pi * f / fs)[:, None]
        hz = g * np.prod(e - np.atleast_1d(z)[None], axis=1) / np.prod(e - np.atleast_1d(p)[None], axis=1)
        close(np.abs(hz), np.abs(ref), "magnitude of zpk", 1e-6, scale=top)
        if c["form"] != "cfir" and b[0] != 0 and np.all(np.abs(b) > 1e-9 * np.max(np.abs(b))):
            f2 = dsp.Filter.from_zpk(z, p, g, fs)
            close(f2.get_transfer_function(f), ref, "from zpk", 1e-6)
        f3 = dsp.Filter.from_ba(bb, aa, fs)
        close(f3.get_transfer_function(f), ref, "from ba", 1e-7)
        if c["form"] != "cfir":
            sos = flt.get_coefficients(T.Sos)
            close(gen.sosfreq(sos, f, fs), ref, "sections", 1e-6)
            f4 = dsp.Filter.from_sos(sos, fs)
            close(f4.get_transfer_function(f), ref, "from sos", 1e-6)
            x = np.random.default_rng(c["seed"]).standard_normal((60, 2)) * 0.2
            s = dsp.Signal(None, x, fs, constrain_amplitude=False)
            close(f4.filter_signal(s).time_data, flt.filter_signal(s).time_data, "filtering with sos", 1e-6)
    # the returned arrays are copies
    before = flt.get_transfer_function(f)
    for v in (bb, aa, z, p):
        v = np.asarray(v)
        if v.size and v.flags.writeable:
            v *= 0.5
    same(flt.get_transfer_function(f), before, "coefficients are no copies")
    return label(c)


@sub(PID, gen.fd(c=filt()), quick=200)
def order(k):
    c = k["c"]
    flt, b, a = build(c)
    if c["form"] in ("fir", "cfir"):
        want = len(b) - 1
    else:
        want = max(len(b), len(a)) - 1
        if c["form"] == "sos" and c["odd"]:
            want = 2 * c["k"] - 1
    check(flt.order == want, f"order {flt.order}, expected {want}")
    check(len(flt) == want + 1, "len")
    check(flt.metadata["order"] == want, "metadata")
    check(flt.metadata["filter_type"] == ("fir" if flt.is_fir else "iir"), "metadata")
    check(isinstance(str(flt), str), "str")
    return label(c)


@sub(
    PID,
    gen.fd(
        c=filt(),
        s=gen.sig(16, 70, 4),
        obj=st.sampled_from(["sig", "ir"]),
        cplx=st.booleans(),
        ch=st.sampled_from(["all", "one", "list", "int", "reversed"]),
    ),
    quick=400,
)
def filtering(k):
    """Difference equation on the chosen channels; the others pass."""
    c = k["c"]
    flt, b, a = build(c)
    o, x = make(dict(s=dict(k["s"], fs=c["fs"]), obj=k["obj"], cplx=k["cplx"], nb=1))
    x = x[0]
    n = x.shape[1]
    ch = {"all": None, "one": [0], "list": list({0, n - 1}), "int": n - 1,
          "reversed": list(range(n))[::-1]}[k["ch"]]
    sel = list(range(n)) if ch is None else list(np.atleast_1d(ch))
    y = diff_eq(b, a, x)
    want = x.astype(y.dtype).copy()
    want[:, sel] = y[:, sel]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = flt.filter_signal(o, ch)
    expect(out, o, [want], f"filtering channels {ch}", 1e-7)
    close(gen.full(o), x, "input", 0)
    raises(lambda: flt.filter_signal(o, [n]), "channel which is not there")
    raises(lambda: flt.filter_signal(o, activate_zi=True, zero_phase=True), "zi and zero phase")
    o.sampling_rate_hz = 12345
    raises(lambda: flt.filter_signal(o), "other sampling rate")
    return f"{label(c)}-{k['ch']}" + ("-cplx" if k["cplx"] else "")


@sub(PID, gen.fd(c=filt(), n=st.integers(2, 80)), quick=250)
def impulse_response(k):
    c, n = k["c"], k["n"]
    flt, b, a = build(c)
    if flt.is_fir:
        n = max(n, len(b))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ir = flt.get_ir(k["n"])
    check(isinstance(ir, dsp.ImpulseResponse) and ir.sampling_rate_hz == c["fs"], "kind")
    e = np.zeros((n, 1))
    e[0] = 1
    close(gen.full(ir), diff_eq(b, a, e), "impulse response", 1e-7)
    # zero-phase response: as filtering an impulse of the asked length so
    m = max(k["n"], 6 * (len(b) + len(a)))
    d = np.zeros((m, 1))
    d[0] = 1
    irz = flt.get_ir(m, zero_phase=True)
    wantz = flt.filter_signal(dsp.Signal(None, d, c["fs"], constrain_amplitude=False), zero_phase=True)
    check(isinstance(irz, dsp.ImpulseResponse), "kind of the zero-phase response")
    close(gen.full(irz), gen.full(wantz), "zero-phase impulse response", 1e-9)
    return label(c)


@sub(PID, gen.fd(c=filt(["ba", "sos", "zpk", "fir", "first"]), sec=st.booleans()), quick=300)
def group_delay(k):
    c = k["c"]
    flt, b, a = build(c)
    fs = c["fs"]
    f = np.linspace(0, fs / 2, 57)

    def gd(p):
        e = np.exp(-2j * np.pi * np.outer(f / fs, np.arange(len(p))))
        v = e @ p
        with np.errstate(all="ignore"):
            return np.real(e @ (p * np.arange(len(p))) / v), np.abs(v) / np.sum(np.abs(p))

    gb, mb = gd(b)
    ga, ma = gd(a)
    ok = (mb > 1e-4) & (ma > 1e-5)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = flt.get_group_delay(f, k["sec"])
    check(got.shape == f.shape, "shape")
    want = gb - ga
    if not np.any(ok):
        return None
    got = got * fs if k["sec"] else got
    err = np.abs(got - want)[ok]
    tol = 1e-4 * (1 + np.abs(want[ok])) + 1e-9 / np.minimum(mb, ma)[ok] ** 2
    check(np.all(err <= tol), f"group delay differs by {np.max(err)}")
    return label(c)


@sub(
    PID,
    gen.fd(
        c=filt(["ba", "sos", "zpk", "fir", "first"], 2, rmax=st.just(0.8)),
        ch=st.integers(1, 3),
        sel=st.booleans(),
    ),
    quick=150,
)
def zero_phase(k):
    """Twice the magnitude in dB, no phase."""
    c = k["c"]
    flt, b, a = build(c)
    n = 1200
    r = np.random.default_rng(c["seed"] + 3)
    x = np.zeros((n, k["ch"]))
    x[500:700] = r.standard_normal((200, k["ch"])) * np.hanning(200)[:, None]
    s = dsp.Signal(None, x, c["fs"], constrain_amplitude=False)
    out = flt.filter_signal(s, [0] if k["sel"] else None, zero_phase=True)
    h = H(b, a, np.fft.rfftfreq(n), 1.0)
    y = np.fft.irfft(np.fft.rfft(x, axis=0) * np.abs(h[:, None]) ** 2, n, axis=0)
    if k["sel"]:
        y[:, 1:] = x[:, 1:]
    close(out.time_data, y, "zero phase", 1e-6)
    return label(c)


@sub(PID, gen.fd(c=filt(["sos", "zpk", "ba", "fir"], rmax=st.just(0.9)), fs2=st.sampled_from(gen.FS), nyq=st.booleans()), quick=200)
def resampled_filter(k):
    """Bilinear mapping: same response at the warped frequency."""
    c = k["c"]
    flt, b, a = build(dict(c, lead=0))
    fs, fs2 = c["fs"], k["fs2"]
    if k["nyq"] and c["form"] in ("fir", "zpk"):
        # a zero at the Nyquist frequency
        b = np.convolve(b, [1, 1])
        if c["form"] == "fir":
            flt = dsp.Filter.from_ba(b.copy(), np.ones(1), fs)
        else:
            z, p, g = flt.get_coefficients(T.Zpk)
            a = np.convolve(a, [1, -0.5])
            flt = dsp.Filter.from_zpk(np.r_[z, -1.0], np.r_[p, 0.5], g, fs)
    f1 = np.linspace(0, 0.45 * fs, 40)
    f2 = fs2 / np.pi * np.arctan(fs * np.tan(np.pi * f1 / fs) / fs2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        new = dsp.resample_filter(flt, fs2)
    check(new.sampling_rate_hz == fs2, "rate")
    ref = H(b, a, f1, fs)
    close(new.get_transfer_function(f2), ref, "resampled filter", 1e-5)
    return label(c)


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        L=st.integers(1, 24),
        n=st.integers(30, 90),
        ch=st.integers(1, 3),
        fac=st.integers(2, 5),
        up=st.booleans(),
        iir=st.booleans(),
        linear=st.booleans(),
        mult=st.booleans(),
        cplx=st.booleans(),
    ),
    quick=250,
)
def filter_and_resample(c):
    """Decimator and interpolator: the filtered signal at the low rate, or the
    filtered zero-stuffed signal, with the FIR's delay taken out."""
    r = np.random.default_rng(c["seed"])
    D, L = c["fac"], c["L"]
    n = c["n"] - c["n"] % D if c["mult"] else c["n"]
    base = 8000
    hi = base * D
    x = r.standard_normal((n, c["ch"])) * 0.3
    if c["cplx"]:
        x = x + 1j * r.standard_normal(x.shape) * 0.3
    if c["iir"]:
        sos = gen.stable_sos(c["seed"], 2, 0.9)
        b, a = sps.sos2tf(sos)
        flt = dsp.Filter.from_sos(sos, hi)
    else:
        b, a = r.standard_normal(L), np.ones(1)
        if c["linear"]:
            b = b + b[::-1]
        elif c["cplx"] and r.integers(2):
            b = b + 1j * r.standard_normal(L)
        flt = dsp.Filter.from_ba(b, a, hi)
    half = 0 if c["iir"] else (L - 1) // 2
    s = dsp.Signal(None, x, base if c["up"] else hi, constrain_amplitude=False)
    if c["up"]:
        out = flt.filter_and_resample_signal(s, hi)
        low = dsp.Signal(None, x, base // 2, constrain_amplitude=False)
        raises(lambda: flt.filter_and_resample_signal(low, base), "interpolator of another rate")
        z = np.zeros((n * D + 4 * D + L, c["ch"]), x.dtype)
        z[: n * D : D] = x * D
        full = diff_eq(b, a, z)
        check(out.sampling_rate_hz == hi, "rate")
        y = gen.full(out)
        check(y.shape[1] == c["ch"] and abs(len(y) - n * D) <= D, f"length {y.shape} for {n}*{D}")
        close(y, full[half : half + len(y)], "interpolated", 1e-7)
        return "up" + ("-cplx" if c["cplx"] else "")
    out = flt.filter_and_resample_signal(s, base)
    check(out.sampling_rate_hz == base, "rate")
    y = gen.full(out)
    check(y.shape == (-(-n // D), c["ch"]), f"length {y.shape} for {n}/{D}")
    full = np.concatenate([np.zeros((4 * D, c["ch"])),
                           diff_eq(b, a, np.concatenate([x, np.zeros((6 * D + L, c["ch"]))]))])
    close(y, full[4 * D + half :: D][: len(y)], "decimated output", 1e-7, scale=np.max(np.abs(full)))
    return "down" + ("-cplx" if c["cplx"] else "")
