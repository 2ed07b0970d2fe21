"""C09: delays, latencies and resampling keep time and content.

Oracles: shifted arrays for whole samples; closed-form band-limited pulses
(known at every real time) for fractional delays and resampling; the delay
itself for the latency."""

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from checks.c07 import expect, make
from vt import gen
from vt.core import check, close, fail, raises, same, sub

PID = "C09"


def pulse(c, t, fs_low):
    """Gaussian pulses with a carrier; band-limited to 0.38 fs_low and zero at
    the ends. t in samples of the source, shape (n,) -> (n, ch)."""
    r = np.random.default_rng(c["seed"])
    ch = c["ch"]
    out = np.zeros((len(t), ch))
    n = c["n"]
    for i in range(ch):
        for _ in range(2):
            w = r.uniform(8, 20) / fs_low
            f = r.uniform(0.01, 0.36 - 0.8 / (w * fs_low)) * fs_low
            t0 = r.uniform(0.35 * n, 0.6 * n)
            out[:, i] += (
                r.uniform(0.2, 0.5)
                * np.exp(-0.5 * ((t - t0) / w) ** 2)
                * np.cos(2 * np.pi * f * (t - t0) + r.uniform(0, 6))
            )
    return out


SEL = st.sampled_from(["all", "last", "first", "two", "reversed"])


def chans(sel, ch):
    return {
        "all": None,
        "last": ch - 1,
        "first": [0],
        "two": list({0, ch - 1}),
        "reversed": list(range(ch))[::-1],
    }[sel]


def chlist(v, ch):
    return list(range(ch)) if v is None else list(np.atleast_1d(v))


@sub(
    PID,
    gen.fd(
        s=gen.sig(20, 200, 4),
        obj=st.sampled_from(["sig", "ir", "mb"]),
        nb=st.integers(1, 3),
        cplx=st.booleans(),
        d=st.integers(0, 250),
        sel=SEL,
        keep=st.booleans(),
    ),
    quick=300,
)
def integer_delay(c):
    o, x = make(c)
    n, ch = x[0].shape
    sel = chans(c["sel"], ch)
    if c["keep"] and c["d"] >= n:
        raises(lambda: dsp.delay(o, c["d"], sel, True), "delay beyond the length")
        return None
    want = []
    for v in x:
        w = np.concatenate([v, np.zeros((c["d"], ch), v.dtype)])
        for i in chlist(sel, ch):
            w[:, i] = np.concatenate([np.zeros(c["d"], v.dtype), v[:, i]])
        want.append(w[:n] if c["keep"] else w)
    out = dsp.delay(o, c["d"], sel, c["keep"])
    expect(out, o, want, f"delay {c['d']} of {sel}", 1e-15)
    if c["d"]:
        raises(lambda: dsp.delay(o, c["d"], [ch]), "channel which is not there")
        raises(lambda: dsp.delay(o, c["d"], [0, 0]), "channel twice")
    return f"{c['obj']}-{c['sel']}" if c["d"] else None


@sub(
    PID,
    gen.fd(
        ch=st.integers(1, 3),
        n=st.integers(300, 500),
        seed=gen.seeds(),
        d=st.floats(0.0, 60.0).map(lambda v: round(v, 3)),
        whole=st.booleans(),
        order=st.sampled_from([None, None, 30, 31, 50, 65]),
        sel=SEL,
        keep=st.booleans(),
        mb=st.booleans(),
        fs=st.sampled_from(gen.FS),
    ),
    quick=400,
)
def fractional_delay(c):
    """A pulse known at all real times appears later by the delay."""
    d = float(int(c["d"])) if c["whole"] else c["d"]
    n, ch, fs = c["n"], c["ch"], c["fs"]
    x = pulse(c, np.arange(n), 1.0)
    s = dsp.Signal(None, x, fs, constrain_amplitude=False)
    if s.time_data.shape != x.shape:
        return None
    sel = chans(c["sel"], ch)
    o = dsp.MultiBandSignal([s, dsp.apply_gain(s, -6.0)]) if c["mb"] else s
    kw = {} if c["order"] is None else dict(order=c["order"])
    order = c["order"] or 30
    out = dsp.fractional_delay(o, d / fs, sel, c["keep"], **kw)
    for k, b in enumerate(out.bands if c["mb"] else [out]):
        y = b.time_data
        check(y.shape[1] == ch and b.sampling_rate_hz == fs, "channels or rate")
        if c["keep"]:
            check(len(y) == n, f"length {len(y)} for {n}")
        else:
            check(d == 0 or n + int(d) <= len(y) <= n + d + order + 1, f"length {len(y)} for {n}+{d}")
        t = np.arange(len(y))
        moved = pulse(c, t - d, 1.0) * (1 if k == 0 else 10 ** (-6 / 20))
        kept = np.zeros_like(y)
        m = min(len(y), n)
        kept[:m] = (s.time_data if k == 0 else o.bands[1].time_data)[:m]
        for i in range(ch):
            if i in chlist(sel, ch):
                close(y[:, i], moved[:, i], f"delayed channel {i}", 4e-3, scale=0.5)
            else:
                close(y[:, i], kept[:, i], f"channel {i} which stays", 1e-12, 1e-15)
    raises(lambda: dsp.fractional_delay(o, -1.0 / fs), "negative delay")
    return "whole" if d == int(d) else f"order{order}"


@sub(
    PID,
    gen.fd(
        s=gen.sig(120, 300, 4, kinds=["noise"], min_ch=2),
        d=st.lists(st.integers(0, 50), min_size=4, max_size=4),
        inv=st.lists(st.booleans(), min_size=4, max_size=4),
        g=st.sampled_from([1.0, 0.1, 3.0]),
        mode=st.sampled_from(["pair", "swapped", "none", "mb", "mbnone"]),
    ),
    quick=400,
)
def integer_latency(c):
    """in1 delayed against in2: positive, in samples, for every channel."""
    s = c["s"]
    x = gen.data(dict(s, ch=s["ch"]))
    n, ch, fs = s["n"], s["ch"], s["fs"]
    d = np.array(c["d"][:ch])
    sgn = np.where(c["inv"][:ch], -1.0, 1.0)
    N = n + 50

    def shifted(v, k):
        y = np.zeros(N)
        y[k : k + n] = v
        return y

    if c["mode"] in ("none", "mbnone"):
        # all channels are delayed copies of one signal
        base = x[:, 0]
        y = np.stack([shifted(base, d[i]) * (sgn[i] if i else 1) for i in range(ch)], 1) * c["g"]
        in1, in2 = dsp.Signal(None, y, fs, constrain_amplitude=False), None
        want, cor = d[1:] - d[0], sgn[1:]
    else:
        y = np.stack([shifted(x[:, i], d[i]) * sgn[i] for i in range(ch)], 1) * c["g"]
        in1 = dsp.Signal(None, y, fs, constrain_amplitude=False)
        in2 = dsp.Signal(None, x, fs, constrain_amplitude=False)
        want, cor = d, sgn
        if c["mode"] == "swapped":
            in1, in2, want = in2, in1, -d
    if c["mode"].startswith("mb"):
        in1 = dsp.MultiBandSignal([in1, in1.get_channels(list(range(ch))).copy()])
        in2 = None if in2 is None else dsp.MultiBandSignal([in2, in2.copy()])
        want, cor = np.stack([want, want]), np.stack([cor, cor])
    lag, q = dsp.latency(in1, in2)
    same(np.asarray(lag), want, "latency")
    check(np.shape(q) == np.shape(want), "shape of the correlations")
    # of equal parts, cut to the common length
    check(np.all(np.abs(q) <= 1 + 1e-9), "correlation beyond one")
    check(np.all(q * cor > 0.8), f"correlation {q} for {cor}")
    if c["mode"] in ("pair", "swapped", "mb"):
        close(q, cor, "correlation", 0, 1e-9)
    return c["mode"]


@sub(
    PID,
    gen.fd(
        ch=st.integers(2, 3),
        n=st.integers(300, 500),
        seed=gen.seeds(),
        d=st.lists(st.floats(0, 30).map(lambda v: round(v, 2)), min_size=3, max_size=3),
        pts=st.integers(1, 3),
        mode=st.sampled_from(["pair", "swapped", "none", "mb", "mbnone"]),
        far=st.booleans(),
        more=st.tuples(st.sampled_from([0, 0, 37, 400]), st.sampled_from([0, 0, 53, 300])),
    ),
    quick=400,
)
def fractional_latency(c):
    n, ch = c["n"], c["ch"]
    fs = 16000
    d = np.array(c["d"][:ch])
    if c["far"]:
        # channels far apart from each other
        n, d = n + 1400, d * 20
    t = np.arange(n)
    none = c["mode"] in ("none", "mbnone")
    mb = c["mode"] in ("mb", "mbnone")

    def p(t, i):
        # one broad-band pulse per channel, zero at the ends
        w, f = 6.0, 0.1
        q = np.random.default_rng(c["seed"] + 100 * i)
        t0 = q.uniform(0.4, 0.5) * n
        return np.exp(-0.5 * ((t - t0) / w) ** 2) * np.cos(2 * np.pi * f * (t - t0) + q.uniform(0, 6))

    if none:
        in1 = dsp.Signal(None, np.stack([p(t - d[i], 0) for i in range(ch)], 1) * 0.9, fs)
        in2, want = None, d[1:] - d[0]
    else:
        in1 = dsp.Signal(None, np.stack([p(t - d[i], i) for i in range(ch)], 1) * 0.9, fs)
        in2 = dsp.Signal(None, np.stack([p(t, i) for i in range(ch)], 1) * 0.9, fs)
        want = d
        if c["mode"] == "swapped":
            in1, in2, want = in2, in1, -d
        # lengths may differ
        in1, in2 = (dsp.pad_trim(v, n + k) for v, k in zip((in1, in2), c["more"]))
    if mb:
        in1 = dsp.MultiBandSignal([in1, dsp.apply_gain(in1, -3.0)])
        in2 = None if none else dsp.MultiBandSignal([in2, in2.copy()])
        want = np.stack([want, want])
    lag, q = dsp.latency(in1, in2, c["pts"])
    close(np.asarray(lag), want, "fractional latency", 0, 0.06)
    if mb:
        for k in range(2):
            l1, q1 = dsp.latency(in1.bands[k], None if none else in2.bands[k], c["pts"])
            close(np.asarray(lag)[k], l1, "a band by itself", 0, 1e-9)
            close(np.asarray(q)[k], q1, "correlation of a band by itself", 0, 1e-9)
    # the quality: Pearson's coefficient of what overlaps once the nearest
    # whole number of samples is taken out
    b1 = in1.bands if mb else [in1]
    b2 = [None] * len(b1) if none else (in2.bands if mb else [in2])
    for row, (x, y) in enumerate(zip(b1, b2)):
        la, qa = (lag[row], q[row]) if mb else (lag, q)
        x = x.time_data
        y = x if y is None else y.time_data
        off = 1 if none else 0
        if in2 is None:
            x = x[:, 1:]
        for k in range(len(la)):
            m = int(np.round(la[k]))
            if abs(abs(la[k] - m) - 0.5) < 0.02:
                continue
            u, v = x[:, k], y[:, 0 if off else k]
            u, v = (u[m:], v) if m >= 0 else (u, v[-m:])
            u, v = u[: len(v)], v[: len(u)]
            close(qa[k], np.corrcoef(u, v)[0, 1], "correlation after removing the latency", 0, 1e-6)
    return f"{c['mode']}-{c['pts']}{'-far' if c['far'] else ''}"


@sub(
    PID,
    gen.fd(
        seed=gen.seeds(),
        ch=st.integers(1, 3),
        order=st.integers(4, 60),
        side=st.one_of(st.sampled_from([10.0, 20.9, 21.0, 30.0, 45.0, 50.0, 50.1, 60.0, 80.0]), st.floats(0, 100)),
        d=st.integers(0, 90),
        frac=st.one_of(st.sampled_from([0.0, 0.5, 0.25, 0.75, 0.4999, 0.5001]), st.floats(0.0, 0.999)),
        fs=st.sampled_from([1, 8000, 16384, 48000]),
        mb=st.booleans(),
    ),
    quick=250,
)
def delay_kernel(c):
    """An impulse is moved to a sinc under a Kaiser window of the stated side
    lobes, both around the delay, as long as the order asks for."""
    r = np.random.default_rng(c["seed"])
    order, fs, ch = c["order"], c["fs"], c["ch"]
    n = 240
    at = r.integers(70, 140, ch)
    x = np.zeros((n, ch))
    x[at, np.arange(ch)] = r.uniform(0.2, 1, ch)
    s = dsp.Signal(None, x, fs, constrain_amplitude=False)
    d = (c["d"] + c["frac"]) / fs
    if d == 0:
        return None
    D = d * fs
    o = dsp.MultiBandSignal([s, dsp.apply_gain(s, 3.0)]) if c["mb"] else s
    out = dsp.fractional_delay(o, d, None, False, order, c["side"])
    A = abs(c["side"])
    beta = 0.1102 * (A - 8.7) if A > 50 else (0.5842 * (A - 21) ** 0.4 + 0.07886 * (A - 21) if A >= 21 else 0.0)
    for k, b in enumerate(out.bands if c["mb"] else [out]):
        y = b.time_data
        t = np.arange(len(y))
        for i in range(ch):
            tau = (t - at[i] - D) / (order / 2)
            w = np.where(np.abs(tau) <= 1, np.i0(beta * np.sqrt(np.maximum(1 - tau**2, 0))) / np.i0(beta), 0)
            want = x[at[i], i] * w * np.sinc(t - at[i] - D) * (1 if k == 0 else 10 ** (3 / 20))
            # the outermost sample may lie just beyond the window
            inner = np.abs(np.abs(tau) - 1) * order / 2 > 0.75
            close(y[inner, i], want[inner], "kernel", 0, 1e-8)
            check(np.count_nonzero(np.abs(y[:, i]) > 1e-12) <= order + 1, "length of the kernel")
            check(np.all(np.abs(y[~inner, i]) <= np.abs(x[at[i], i]) * 2 / max(1.0, order / 2 - 1.5) / np.pi + 1e-9), "ends of the kernel")
    return "half" if c["frac"] == 0.5 else ("whole" if c["frac"] == 0 else "any")


RATES = [8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000]


@sub(
    PID,
    gen.fd(
        ch=st.integers(1, 3),
        n=st.integers(400, 900),
        seed=gen.seeds(),
        a=st.sampled_from(RATES),
        b=st.sampled_from(RATES[::-1]),
        rescale=st.booleans(),
        cplx=st.booleans(),
        ir=st.booleans(),
    ),
    quick=400,
)
def resampling(c):
    a, b, n = c["a"], c["b"], c["n"]
    low = min(1.0, b / a)
    if n * low < 260:
        return None
    t = np.arange(n)
    x = pulse(c, t, low)
    cls = dsp.ImpulseResponse if c["ir"] else dsp.Signal
    s = cls(None, x, a, constrain_amplitude=False)
    im = None
    if c["cplx"]:
        im = pulse(dict(c, seed=c["seed"] + 5), t, low)
        s.time_data_imaginary = im
    out = dsp.resample(s, b, c["rescale"])
    check(type(out) is cls and out.sampling_rate_hz == b, "type or rate")
    m = out.length_samples
    check(abs(m - n * b / a) <= 1.0, f"length {m} for {n} samples from {a} to {b}")
    g = a / b if c["rescale"] else 1.0
    close(out.time_data, g * pulse(c, np.arange(m) * a / b, low), "resampled", 8e-3, scale=0.5 * g)
    if c["cplx"]:
        check(out.is_complex_signal, "imaginary part is gone")
        close(out.time_data_imaginary,
              g * pulse(dict(c, seed=c["seed"] + 5), np.arange(m) * a / b, low),
              "resampled imaginary part", 8e-3, scale=0.5 * g)
    if not c["rescale"]:
        back = dsp.resample(out, a)
        k = min(back.length_samples, n)
        close(back.time_data[:k], x[:k], "there and back", 2e-2, scale=0.5)
    return "same" if a == b else ("up" if b > a else "down")
