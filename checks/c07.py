"""C07: time editing puts the right samples in the right place.

Oracle: slicing and zero-filling of the plain (complex) array."""

import numpy as np
from hypothesis import strategies as st

import dsptoolbox as dsp
from vt import gen
from vt.core import check, close, fail, raises, same, sub

PID = "C07"

KIND = st.sampled_from(["sig", "sig", "ir", "mb"])


def spec(min_n=8, max_n=120, kinds=gen.KINDS):
    return gen.fd(
        s=gen.sig(min_n, max_n, 3, kinds=kinds),
        obj=KIND,
        nb=st.integers(1, 3),
        cplx=st.booleans(),
    )


def make(c):
    """The object and a list of (complex) arrays, one per band."""
    sp = dict(c["s"])
    cls = dsp.ImpulseResponse if c["obj"] == "ir" else dsp.Signal
    if c["obj"] != "mb":
        o = gen.mkc(sp, c["cplx"], cls)
        o.calibrated_signal = bool(sp["seed"] % 2)
        return o, [gen.full(o)]
    bands = []
    for i in range(c["nb"]):
        sp = dict(sp, seed=sp["seed"] + i)
        bands.append(gen.mkc(sp, c["cplx"]))
    return dsp.MultiBandSignal(bands), [gen.full(b) for b in bands]


def parts(o):
    return list(o.bands) if isinstance(o, dsp.MultiBandSignal) else [o]


def expect(out, src, want, what, rtol=1e-12):
    check(type(out) is type(src), f"{what}: type {type(out).__name__}")
    po, ps = parts(out), parts(src)
    check(len(po) == len(want), f"{what}: {len(po)} bands")
    for i, (o, s, w) in enumerate(zip(po, ps, want)):
        check(type(o) is type(s), f"{what}: band type")
        check(o.is_complex_signal == np.iscomplexobj(w), f"{what}: imaginary part")
        close(gen.full(o), w, f"{what}, band {i}", rtol, 1e-300)
        check(o.sampling_rate_hz == s.sampling_rate_hz, f"{what}: rate")
        check(o.constrain_amplitude == s.constrain_amplitude, f"{what}: constrain_amplitude")
        check(o.calibrated_signal == s.calibrated_signal, f"{what}: calibration flag")


def lab(c):
    return c["obj"] + ("-cplx" if c["cplx"] else "")


@sub(PID, gen.fd(c=spec(), m=st.floats(0.1, 2.5), end=st.booleans()), quick=200)
def pad_trim(k):
    c = k["c"]
    o, x = make(c)
    n = len(x[0])
    m = max(4, int(n * k["m"]))
    want = []
    for v in x:
        w = np.zeros((m, v.shape[1]), v.dtype)
        q = min(n, m)
        if k["end"]:
            w[:q] = v[:q]
        else:
            w[m - q :] = v[n - q :]
        want.append(w)
    expect(dsp.pad_trim(o, m, k["end"]), o, want, f"pad_trim {n}->{m}")
    return lab(c)


LEN = st.one_of(st.none(), st.integers(-60, 60))


@sub(
    PID,
    gen.fd(c=spec(), a=LEN, b=LEN, frac=st.sampled_from([0.0, 0.0, 0.3, -0.3])),
    quick=200,
)
def modify_length(k):
    c = k["c"]
    o, x = make(c)
    fs, n = c["s"]["fs"], len(x[0])
    a, b = k["a"], k["b"]

    def sec(v):
        return None if v is None else (v + k["frac"]) / fs if v else 0.0

    def run():
        return dsp.modify_signal_length(o, sec(a), sec(b))

    if a is None and b is None:
        raises(run, "no change at all")
        return None
    ia, ib = a or 0, b or 0
    cut = -min(ia, 0) - min(ib, 0)
    if cut >= n:
        raises(run, "trimming everything")
        return "too much"
    if n - cut < 4:
        return None
    want = []
    for v in x:
        v = v[-min(ia, 0) : n + min(ib, 0)]
        want.append(np.pad(v, ((max(ia, 0), max(ib, 0)), (0, 0))))
    expect(run(), o, want, f"modify_signal_length {a} {b}")
    return lab(c)


@sub(
    PID,
    gen.fd(
        c=spec(),
        a=st.one_of(st.none(), st.just(0), st.integers(0, 110), st.integers(0, 20)),
        b=st.one_of(st.none(), st.integers(0, 121)),
        inc=st.booleans(),
    ),
    quick=250,
)
def time_selection(k):
    """Bounds on exact samples, both included or both excluded."""
    c = k["c"]
    o, x = make(c)
    fs, n = c["s"]["fs"], len(x[0])
    a, b, inc = k["a"], k["b"], k["inc"]

    def run():
        return dsp.trim_with_time_selection(
            o, None if a is None else a / fs, None if b is None else b / fs, inc)

    if a is None and b is None:
        raises(run, "no bound")
        return None
    if b is not None and b > n:
        raises(run, "end after the signal")
        return "refused"
    if (a is not None and a >= n) or b == 0:
        raises(run, "bound outside of the signal")
        return "refused"
    i0 = 0 if a is None else a + (not inc)
    i1 = n if b is None else b + inc
    if i1 <= i0:
        raises(run, "empty window")
        return "refused"
    if min(i1, n) - i0 < 4:
        return None
    expect(run(), o, [v[i0:i1] for v in x], f"time selection {a}..{b} inclusive={inc}")
    return lab(c)


@sub(
    PID,
    gen.fd(
        s=gen.sig(30, 150, 3, kinds=["noise", "decay", "ramp", "sparse", "sines"]),
        ir=st.booleans(),
        cplx=st.booleans(),
        q=st.floats(0.05, 0.98),
        lead=st.integers(0, 30),
        tail=st.integers(0, 30),
        at_start=st.booleans(),
        at_end=st.booleans(),
        exact=st.booleans(),
    ),
    quick=250,
)
def level_threshold(c):
    x = np.pad(gen.data(c["s"]), ((c["lead"], c["tail"]), (0, 0)))
    n = len(x)
    s = (dsp.ImpulseResponse if c["ir"] else dsp.Signal)(None, x, c["s"]["fs"], constrain_amplitude=False)
    if c["cplx"]:
        s.time_data_imaginary = np.random.default_rng(1).standard_normal(x.shape)
    mag = np.sort(np.abs(x).ravel())
    mag = mag[mag > 0]
    v = mag[int(c["q"] * (len(mag) - 1))]
    # between two values, so that rounding of the threshold does not matter
    lo = mag[mag < v * 0.999]
    thr = v * 0.9995 if not len(lo) else np.sqrt(max(lo[-1], 0.5 * v) * v)
    db = 20 * np.log10(thr)
    full = gen.full(s)

    def run(d=db):
        return dsp.trim_with_level_threshold(s, d, c["at_start"], c["at_end"])

    if not (c["at_start"] or c["at_end"]):
        raises(run, "nothing to trim")
        return None
    above = np.flatnonzero(np.any(np.abs(x) >= thr, axis=1))
    i0 = above[0] if c["at_start"] else 0
    i1 = above[-1] + 1 if c["at_end"] else n
    if i1 - i0 < 4:
        return None
    out, a, b = run()
    check((a, b) == (i0, i1), f"reported {a}:{b}, expected {i0}:{i1}")
    expect(out, s, [full[i0:i1]], "trim_with_level_threshold")
    raises(lambda: run(20 * np.log10(mag[-1] * 1.01)), "threshold above the signal")
    return f"{c['at_start']}-{c['at_end']}"


@sub(
    PID,
    gen.fd(
        s=gen.sig(20, 60, 3),
        obj=KIND,
        k=st.integers(2, 4),
        nb=st.integers(1, 3),
        dn=st.lists(st.sampled_from([0, 0, -4, -1, 1, 9]), min_size=4, max_size=4),
        cplx=st.lists(st.booleans(), min_size=4, max_size=4),
        allow=st.booleans(),
        end=st.booleans(),
        badfs=st.sampled_from([False, False, False, False, True]),
    ),
    quick=250,
)
def append(c):
    objs, data = [], []
    for i in range(c["k"]):
        sp = dict(c["s"], seed=c["s"]["seed"] + 31 * i, n=c["s"]["n"] + (c["dn"][i] if i else 0))
        if c["badfs"] and i == c["k"] - 1:
            sp["fs"] += 1000
        o, x = make(dict(s=sp, obj=c["obj"], nb=c["nb"], cplx=c["cplx"][i]))
        objs.append(o)
        data.append(x)

    def run():
        return dsp.append_signals(objs, c["allow"], c["end"])

    n = len(data[0][0])
    if c["badfs"] or (not c["allow"] and any(len(x[0]) != n for x in data)):
        raises(run, "signals which do not fit")
        return "refused"
    want = []
    for b in range(len(data[0])):
        cols = []
        for x in data:
            v = x[b]
            w = np.zeros((n, v.shape[1]), v.dtype)
            q = min(n, len(v))
            if c["end"]:
                w[:q] = v[:q]
            else:
                w[n - q :] = v[len(v) - q :]
            cols.append(w)
        want.append(np.concatenate(cols, axis=1))
    out = run()
    expect(out, objs[0], want, "append_signals")
    check(out.number_of_channels == want[0].shape[1], "number of channels")
    return c["obj"] + ("-mixed" if len(set(c["cplx"][: c["k"]])) > 1 else "")


FT = list(dsp.FadeType)


@sub(
    PID,
    gen.fd(
        s=gen.sig(60, 300, 3, kinds=["dc", "noise", "ramp"]),
        ir=st.booleans(),
        cplx=st.booleans(),
        t=st.integers(0, len(FT) - 1),
        rel=st.one_of(st.none(), st.floats(0.02, 0.9)),
        at_start=st.booleans(),
        at_end=st.booleans(),
    ),
    quick=250,
)
def fading(c):
    """Gain of the fade: within 0 and 1, monotonic, one outside of it, the
    same in all channels, mirrored at the end."""
    s = gen.mkc(c["s"], c["cplx"], dsp.ImpulseResponse if c["ir"] else dsp.Signal)
    x = gen.full(s)
    n, fs = len(x), c["s"]["fs"]
    ft = FT[c["t"]]
    sec = None if c["rel"] is None else int(c["rel"] * n) / fs

    def run(a=c["at_start"], b=c["at_end"]):
        return gen.full(dsp.fade(s, ft, sec, a, b))

    if not (c["at_start"] or c["at_end"]):
        raises(run, "no fade at all")
        return None
    if sec == 0:
        return None
    raises(lambda: dsp.fade(s, ft, n / fs * 1.1), "fade longer than the signal")
    out = dsp.fade(s, ft, sec, c["at_start"], c["at_end"])
    check(type(out) is type(s) and out.sampling_rate_hz == fs, "kind of result")
    y = gen.full(out)
    check(y.shape == x.shape and np.iscomplexobj(y) == np.iscomplexobj(x), "shape")
    check(np.all(np.isfinite(y)), "not finite")
    if ft == dsp.FadeType.NoFade:
        same(y, x, "no fade")
        return "none"
    L = 0.025 * n if sec is None else sec * fs
    # the gain, from one-sided fades
    good = np.abs(x) > 1e-3 * np.max(np.abs(x))

    def gain(z):
        g = np.full(n, np.nan)
        for i in range(n):
            ch = np.flatnonzero(good[i])
            if len(ch):
                r = z[i, ch] / x[i, ch]
                check(np.max(np.abs(r - r[0])) < 1e-9, "gain differs between channels")
                check(abs(np.imag(r[0])) < 1e-9, "gain is complex")
                g[i] = np.real(r[0])
        return g

    idx = np.arange(n)
    g1, g2 = gain(run(True, False)), gain(run(False, True))
    for g, d, nm in ((g1, idx, "start"), (g2, idx[::-1], "end")):
        ok = ~np.isnan(g)
        check(np.all(g[ok] >= -1e-12) and np.all(g[ok] <= 1 + 1e-12), f"{nm}: gain outside 0..1")
        same(np.abs(g[ok & (d >= L + 1)] - 1) < 1e-12, np.ones(np.sum(ok & (d >= L + 1)), bool),
             f"{nm}: touches samples outside of the fade of {L} samples")
        o = g[ok][np.argsort(d[ok])]
        check(np.all(np.diff(o) >= -1e-9), f"{nm}: not monotonic")
        if L >= 3 and not np.isnan(g[d == 0][0]):
            check(g[d == 0][0] < 1e-4, f"{nm}: starts at {g[d == 0][0]}")
        # the law
        Ls = int(L + 1e-6)
        if Ls >= 3:
            u = np.arange(Ls) / (Ls - 1)
            law = {
                dsp.FadeType.Linear: u,
                dsp.FadeType.Exponential: 10 ** (-5 * (1 - u)),
                dsp.FadeType.Logarithmic: np.log10(1 + u * (50 * 10**0.5 - 1)) / np.log10(50 * 10**0.5),
            }[ft]
            # one sample of freedom for the rounding of the length
            near = [np.interp(np.arange(Ls) / max(q - 1, 1), u, law) for q in (Ls - 1, Ls, Ls + 1)]
            got = g[np.argsort(d)][:Ls]
            okk = ~np.isnan(got)
            err = min(np.max(np.abs(got[okk] - v[okk]), initial=0) for v in near)
            check(err < 0.02, f"{nm}: law of {ft.name}, error {err}")
    both = gain(y)
    w = (g1 if c["at_start"] else 1) * (g2 if c["at_end"] else 1)
    ok = ~np.isnan(both)
    close(both[ok], w[ok], "both fades together", 1e-9, 1e-12)
    # a constant exposes the gain at every sample
    return ft.name


@sub(
    PID,
    gen.fd(
        s=gen.sig(20, 300, 3, kinds=["noise", "sines", "decay"]),
        obj=KIND,
        nb=st.integers(1, 2),
        cplx=st.booleans(),
        p=st.integers(0, 4),
        coef=gen.seeds(),
    ),
    quick=200,
)
def detrend(c):
    """The residual of the least-squares polynomial."""
    o, x = make(c)
    p, n = c["p"], c["s"]["n"]
    out = dsp.detrend(o, p)
    t = np.linspace(-1, 1, n)
    V = np.polynomial.legendre.legvander(t, p)
    Q = np.linalg.qr(V)[0]
    want = [v - Q @ (Q.T @ v) for v in x]
    expect(out, o, want, f"detrend order {p}", 1e-6)
    # a polynomial on top changes nothing
    r = np.random.default_rng(c["coef"])
    for b in parts(o):
        add = V @ r.uniform(-1, 1, (p + 1, b.number_of_channels))
        im = None if not b.is_complex_signal else b.time_data_imaginary
        b.time_data = b.time_data + add if im is None else b.time_data + add + 1j * im
    again = dsp.detrend(o, p)
    for u, w in zip(parts(again), want):
        close(gen.full(u), w, "polynomial added", 1e-6, 1e-9)
    return f"order{p}"


@sub(
    PID,
    gen.fd(
        n=st.integers(300, 1500),
        fs=st.sampled_from([8000, 16000]),
        ch=st.integers(1, 3),
        seed=gen.seeds(),
        thr=st.sampled_from([-40.0, -20.0, -10.0]),
        rel=st.booleans(),
        rt=st.sampled_from([1.0, 5.0, 10.0]),
        at=st.sampled_from([0.5, 1.0, 5.0, 10.0]),
        gain=st.sampled_from([1.0, 0.01]),
        floor=st.sampled_from([1e-5, 0.0]),
    ),
    quick=80,
)
def activity(c):
    """Detected activity and noise are a partition of the chosen channel in
    order; silence is noise, a strong burst is found."""
    r = np.random.default_rng(c["seed"])
    n, fs = c["n"], c["fs"]
    i0, i1 = int(n * 0.3), int(n * 0.6)
    x = c["floor"] * r.standard_normal((n, c["ch"]))
    ch = int(r.integers(0, c["ch"]))
    x[i0:i1, ch] += np.where(np.arange(i1 - i0) % 2, 1.0, -1.0)
    x *= c["gain"]
    s = dsp.Signal(None, x, fs)
    det, oth = dsp.activity_detector(
        s, c["thr"], ch, c["rel"], attack_time_ms=c["at"], release_time_ms=c["rt"])
    ind = np.asarray(oth["signal_indices"])
    check(ind.dtype == bool and ind.shape == (n,), "indices")
    same(np.asarray(oth["noise_indices"]), ~ind, "noise indices")
    v = x[:, ch]
    loud = c["rel"] or c["gain"] == 1.0
    if np.any(ind):
        same(det.time_data[:, 0], v[ind], "detected samples")
    if np.any(~ind):
        same(oth["noise"].time_data[:, 0], v[~ind], "noise samples")
    check(not np.any(ind[:i0]), "noise in front of the burst detected as activity")
    slow = int(np.ceil(c["rt"] * fs / 1e3 * max(1, -c["thr"] / 13.0))) + 2
    check(not np.any(ind[i1 + slow + 1 :]), "activity long after the burst")
    wait = int(np.ceil(c["at"] * fs / 1e3)) + 2
    if loud:
        check(np.all(ind[i0 + wait : i1]), "burst not detected")
        # released along an exponential of the release time, also over noise
        if i1 - i0 > 2 * wait:
            hold = int(0.7 * c["rt"] * fs / 1e3 * (-c["thr"] / 13.0))
            check(np.all(ind[i1 : min(i1 + hold, n)]), "activity released too early")
    elif c["thr"] > -40:
        check(not np.any(ind), "activity below the absolute threshold")
    return f"rel{c['rel']}"
